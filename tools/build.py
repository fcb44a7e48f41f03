#!/usr/bin/env python3
"""Builds the simulator executables from /repo's current working tree. Objects are keyed by the content of
everything they depend on (all of /repo/src/Caribou, all of /verif/sim, the flags), so nothing stale is ever used."""
import hashlib, os, re, subprocess, sys, glob, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
OUT = os.path.join(VERIF, "_build")
SRC = os.path.join(REPO, "src")

def configure_file(src, dst, defs):
    """What CMake's configure_file does with the repository's *.h.in."""
    t = open(src).read()
    def cm(m):
        n, rest = m.group(2), m.group(3) or ""
        v = defs.get(n)
        if v in (None, False, "OFF", ""): return "/* #undef %s */" % n
        return "#define %s%s" % (n, rest)
    t = re.sub(r"^([ \t]*)#[ \t]*cmakedefine[ \t]+(\w+)([^\n]*)$", cm, t, flags=re.M)
    t = re.sub(r"\$\{(\w+)\}|@(\w+)@", lambda m: str(defs.get(m.group(1) or m.group(2), "")), t)
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    if not os.path.exists(dst) or open(dst).read() != t: open(dst, "w").write(t)

def version():
    try:
        m = re.search(r"set\(\s*CARIBOU_VERSION\s+\"?([\w.]+)", open(os.path.join(REPO, "CMakeLists.txt")).read())
        return m.group(1) if m else "0.0.0"
    except OSError: return "0.0.0"

def gen(inc, vtk):
    v = version()
    defs = {"CARIBOU_VERSION": v, "CARIBOU_VERSION_STR": '"%s"' % v, "CARIBOU_VERSION_NUM": re.sub(r"\D", "", v) or "0", "CARIBOU_WITH_VTK": vtk}
    for f in glob.glob(os.path.join(SRC, "Caribou/Config/*.h.in")):
        configure_file(f, os.path.join(inc, "Caribou", os.path.basename(f)[:-3]), defs)
    for f in glob.glob(os.path.join(SRC, "Caribou/*/*.h.in")):
        if "/Config/" in f: continue
        configure_file(f, os.path.join(inc, os.path.relpath(f, SRC)[:-3]), defs)
    for f in glob.glob(os.path.join(SRC, "Caribou/Python/Config/*.h.in")):
        configure_file(f, os.path.join(inc, "Caribou/Python", os.path.basename(f)[:-3]), defs)

def tree_hash(root, exts):
    h = hashlib.sha256()
    for d, ds, fs in os.walk(root):
        ds.sort()
        for f in sorted(fs):
            if f.endswith(exts):
                p = os.path.join(d, f); h.update(os.path.relpath(p, root).encode()); h.update(open(p, "rb").read())
    return h.hexdigest()

RT = ["-std=c++17", "-include", os.path.join(VERIF, "sim/noextern.h"), "-O2", "-g", "-fno-builtin", "-fno-tree-loop-distribute-patterns", "-fno-omit-frame-pointer"]
INSTR = ["-std=gnu++17", "-O1", "-g", "-DNDEBUG", "-fsanitize=thread", "-ftrivial-auto-var-init=pattern", "-fstack-protector-strong",
         "-include", os.path.join(VERIF, "sim/noextern.h"), "-mmemcpy-strategy=libcall:-1:noalign", "-mmemset-strategy=libcall:-1:noalign", "-w"]
VTKINC = ["-isystem", "/usr/include/vtk-9.1", "-Dkiss_fft_scalar=double"]
VTKLIBS = ["-l%s-9.1" % l for l in "vtkIOLegacy vtkIOCore vtkCommonExecutionModel vtkCommonDataModel vtkCommonTransforms vtkCommonMath vtkCommonCore vtksys".split()]

PYINC = ["-isystem", "/usr/include/python3.12", "-DSIM_DIR=\"" + os.path.join(VERIF, "sim") + "\""]
PYLIBS = ["-lpython3.12"]

# executable -> (uninstrumented sources, instrumented sources, with VTK)
RT3 = ["sim/rt.cpp", "sim/driver.cpp"]
EXES = {
    "registry": (RT3, ["sim/wl_registry.cpp"], False),
    "queries": (RT3 + ["sim/reg.cpp"], ["sim/wl_queries.cpp", "sim/el_a.cpp", "sim/el_b.cpp", "sim/el_c.cpp", "sim/sc_a.cpp", "sim/sc_b.cpp"], False),
    "embed": (RT3 + ["sim/reg.cpp"], ["sim/wl_embed.cpp", "sim/em_a.cpp", "sim/em_b.cpp"], False),
    "unrelated": (RT3 + ["sim/reg.cpp", "sim/disk.cpp"], ["sim/wl_unrelated.cpp", "sim/el_a.cpp", "sim/el_b.cpp", "sim/el_c.cpp", "sim/sc_a.cpp", "sim/sc_b.cpp", "REPO:Caribou/Topology/IO/VTKReader.cpp"], True),
    "python": (RT3, ["sim/wl_python.cpp"] + ["REPO:Caribou/Python/**/*.cpp"], False),
    "vtk": (RT3 + ["sim/disk.cpp"], ["sim/wl_vtk.cpp", "sim/wl_reader.cpp", "REPO:Caribou/Topology/IO/VTKReader.cpp"], True),
}

class BuildError(Exception): pass

def compile_one(src, flags, key):
    h = hashlib.sha256((key + " ".join(flags) + src + open(src, "rb").read().decode("latin1")).encode("latin1", "replace")).hexdigest()[:20]
    obj = os.path.join(OUT, "obj", os.path.basename(src) + "." + h + ".o")
    if not os.path.exists(obj):
        os.makedirs(os.path.dirname(obj), exist_ok=True)
        for old in glob.glob(os.path.join(OUT, "obj", os.path.basename(src) + ".*.o")):
            try:
                if os.path.getmtime(old) < os.path.getmtime(src) - 7 * 86400: os.unlink(old)
            except OSError: pass
        tmp = obj + ".tmp%d" % os.getpid()
        r = subprocess.run(["g++"] + flags + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode: raise BuildError("compiling %s failed:\n%s" % (src, r.stdout[-6000:]))
        os.rename(tmp, obj)
    return obj

def isolate(objs):
    """One object out of the simulator's own, whose instances of standard-library templates stay private: instrumented code
    must never be linked to an uninstrumented instance, nor the simulator to an instrumented one."""
    h = hashlib.sha256((" ".join(objs) + "isolate1").encode()).hexdigest()[:20]
    out = os.path.join(OUT, "obj", "simulator.%s.o" % h)
    if not os.path.exists(out):
        tmp = out + ".tmp%d" % os.getpid(); lst = tmp + ".syms"
        def run(c):
            r = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode: raise BuildError("%s failed:\n%s" % (c[0], r.stdout[-3000:]))
            return r.stdout
        run(["ld", "-r", "--force-group-allocation", "-o", tmp] + objs)
        syms = [l.split()[-1] for l in run(["nm", tmp]).splitlines() if len(l.split()) == 3 and l.split()[1] == "W"]
        open(lst, "w").write("".join(x + "\n" for x in syms if re.match(r"_ZN?K?S[tsaiod]", x)))
        run(["objcopy", "--localize-symbols=" + lst, tmp]); os.unlink(lst)
        os.rename(tmp, out)
    return out

def build(exe):
    rts, ins, vtk = EXES[exe]
    inc = os.path.join(OUT, "gen-" + ("vtk" if vtk else "core"))
    gen(inc, vtk)
    simh = tree_hash(os.path.join(VERIF, "sim"), (".h",))
    repoh = tree_hash(os.path.join(SRC, "Caribou"), (".h", ".cpp", ".in", ".inl")) + tree_hash(inc, (".h",))
    incs = ["-I" + inc, "-I" + SRC, "-isystem", "/usr/include/eigen3"] + (VTKINC if vtk else []) + (PYINC if exe == "python" else [])
    jobs = []
    for s in rts: jobs.append((os.path.join(VERIF, s), RT, simh))
    ins = [x for s in ins for x in (["REPO:" + os.path.relpath(p, SRC) for p in sorted(glob.glob(os.path.join(SRC, s[5:]), recursive=True))] if "*" in s else [s])]
    for s in ins:
        p = os.path.join(SRC, s[5:]) if s.startswith("REPO:") else os.path.join(VERIF, s)
        jobs.append((p, INSTR + incs + ["-I" + os.path.join(VERIF, "sim")], simh + repoh))
    with ThreadPoolExecutor(8) as ex: objs = list(ex.map(lambda j: compile_one(*j), jobs))
    objs = [isolate(objs[:len(rts)])] + objs[len(rts):]
    h = hashlib.sha256(" ".join(objs).encode()).hexdigest()[:16]
    out = os.path.join(OUT, "%s.%s" % (exe, h))
    if not os.path.exists(out):
        for old in glob.glob(os.path.join(OUT, exe + ".*")):
            try: os.unlink(old)
            except OSError: pass
        r = subprocess.run(["g++", "-no-pie", "-rdynamic", "-Wl,--version-script=" + os.path.join(VERIF, "sim/exports.map"), "-o", out + ".tmp"] + objs + (VTKLIBS if vtk else []) + (PYLIBS if exe == "python" else []) + ["-ldl", "-lpthread"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode: raise BuildError("linking %s failed:\n%s" % (exe, r.stdout[-6000:]))
        os.rename(out + ".tmp", out)
    return out

if __name__ == "__main__":
    try:
        for e in sys.argv[1:] or list(EXES): print(build(e))
    except BuildError as x: print(x, file=sys.stderr); sys.exit(2)
