#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--runs N] [--wall S]
Builds the simulator from /repo's working tree, searches seeded schedules and fault sequences, reports."""
import json, os, re, shutil, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
VERIF = B.VERIF
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
# property -> executable, runs and wall limit (s) per tier
CFG = {
    "C01": dict(exe="queries", quick=(60000, 60), thorough=(20000000, 1500)),
    "C02": dict(exe="queries", quick=(60000, 60), thorough=(20000000, 1500)),
    "C03": dict(exe="unrelated", quick=(20000, 70), thorough=(20000000, 1500)),
    "C04": dict(exe="registry", quick=(160000, 60), thorough=(20000000, 1500)),
    "C05": dict(exe="registry", quick=(160000, 60), thorough=(20000000, 1500)),
    "C06": dict(exe="embed", quick=(60000, 60), thorough=(20000000, 1500)),
    "C07": dict(exe="queries", quick=(60000, 60), thorough=(20000000, 1500)),
    "C08": dict(exe="vtk", quick=(40000, 45), thorough=(20000000, 1500)),
    "C09": dict(exe="vtk", quick=(60000, 60), thorough=(20000000, 1500)),
    "C11": dict(exe="python", quick=(16000, 70), thorough=(20000000, 1500)),
    "C10": dict(exe="vtk", quick=(60000, 60), thorough=(20000000, 1500)),
}
_CORE_R = ["caribou Geometry, Topology and Grid headers (real code, compiled with access instrumentation)", "libstdc++ containers and Eigen as instantiated by them (real, instrumented)", "libstdc++.so and libc (real, not instrumented; memcpy, memmove, memset, allocation, locks and guards interposed)"]
_CORE_S = ["memory allocator (simulated heap with scheduled failures)", "thread scheduler, mutexes, once flags and static-initialisation guards (simulated)"]
_VTK_R = ["caribou Geometry and Topology headers and VTKReader.cpp (real, instrumented)", "VTK 9.1 and libstdc++ shared libraries (real, not instrumented; allocation, locks, guards and file access interposed)"]
_VTK_S = _CORE_S + ["file system below /simdisk (simulated, with scheduled faults)"]
_PY_R = ["caribou Python binding sources, Geometry and Topology headers (real, instrumented)", "CPython 3.12, numpy and pybind11 (real; pybind11 is compiled into the instrumented bindings, the others are not instrumented)"]
REAL = dict(python=_PY_R, queries=_CORE_R, registry=_CORE_R, embed=_CORE_R, vtk=_VTK_R, unrelated=_CORE_R + _VTK_R)
STUB = dict(python=["memory allocator (simulated heap, also for the interpreter)", "garbage-collection instants (threshold and explicit collections chosen by the seed)"], queries=_CORE_S, registry=_CORE_S, embed=_CORE_S, vtk=_VTK_S, unrelated=_VTK_S)

def die(msg, code=2):
    print("ERROR: " + msg); sys.stdout.flush(); sys.exit(code)

def symbolise(exe, text):
    pcs = sorted(set(re.findall(r"(?:pc=|data=)(0x[0-9a-f]+)", text)))
    out = []
    for pc in pcs:
        a = hex(int(pc, 16) - 1)
        r = subprocess.run(["addr2line", "-Cfpie", exe, a], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        lines = [l for l in r.stdout.strip().split("\n") if l][:6]
        out.append("%s: %s" % (pc, " <- ".join(l.replace("(inlined by) ", "").strip() for l in lines)[:900]))
        r = subprocess.run(["sh", "-c", "nm -nC '%s' | awk -v a=%d 'BEGIN{b=\"\"} {if (strtonum(\"0x\"$1) <= a) b=$0}' 2>/dev/null" % (exe, int(pc, 16))], stdout=subprocess.PIPE, text=True) if "data=" + pc in text else None
        if r and r.stdout.strip(): out[-1] += "  [" + r.stdout.strip()[:300] + "]"
    return out

def run(cmd, timeout):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try: o, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.communicate(); return 124, "timeout"
    return p.returncode, o

def write_evidence(prop, ev):
    d = os.path.join(VERIF, "evidence"); os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, prop + ".json.tmp"); json.dump(ev, open(tmp, "w"), indent=1); os.rename(tmp, os.path.join(d, prop + ".json"))

def known(prop):
    p = os.path.join(VERIF, "known_findings.txt"); out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) class=(\S+) (.*)", l)
            if m and m.group(1) == prop: out.append((m.group(2), m.group(3)))
    return out

def main():
    args = sys.argv[1:]; prop = args[0]; opt = dict(zip(args[1::2], args[2::2]))
    tier = opt.get("--tier", TIER)
    if tier not in ("quick", "thorough"): tier = "quick"
    if prop not in CFG: die("unknown property " + prop)
    c = CFG[prop]; runs, wall = c[tier]
    runs = int(opt.get("--runs", runs)); wall = int(opt.get("--wall", wall))
    t0 = time.time()
    try: exe = B.build(c["exe"])
    except B.BuildError as e: die(str(e))
    tb = time.time() - t0
    scratch = tempfile.mkdtemp(prefix="sim-%s-" % prop, dir=B.OUT)
    try:
        jobs = min(8, os.cpu_count() or 1)
        kn = known(prop); kargs = ["--known", ",".join(k for k, _ in kn)] if kn else []
        # determinism sample: the same seeds in another process layout must give the same execution hashes
        det = {}
        for j in (1, 3):
            d = os.path.join(scratch, "det%d" % j); os.mkdir(d)
            run([exe, "explore"] + kargs + ["--check", prop, "--seed", str(SEED), "--runs", str(c.get("det", 60)), "--jobs", str(j), "--wall", "30", "--hashes", "1", "--minimise", "0", "--out", d], 120)
            h = {}
            for f in os.listdir(d):
                if f.startswith("hashes."):
                    for l in open(os.path.join(d, f)):
                        x = l.split(); h[x[0]] = x[1]
            det[j] = h
        common = [k for k in det[1] if k in det[3]]
        same = sum(det[1][k] == det[3][k] for k in common)
        rc, o = run([exe, "explore"] + kargs + ["--check", prop, "--seed", str(SEED), "--runs", str(runs), "--jobs", str(jobs), "--wall", str(wall), "--minimise", "60", "--out", scratch], wall + 200)
        if rc not in (0, 1) and not os.path.exists(os.path.join(scratch, "stats.json")): die("simulator ended with %s: %s" % (rc, o[-2000:]))
        st = json.load(open(os.path.join(scratch, "stats.json")))
        viol = 0; lines = []; replay_info = None
        if rc == 1:
            src = os.path.join(scratch, "violation.trace")
            os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
            dst = os.path.join(VERIF, "evidence", "%s.violation.trace" % prop)
            shutil.copy(src, dst)
            r1, o1 = run([exe, "replay"] + kargs + ["--file", dst], 200)      # gate: a fresh process reproduces it
            r2, o2 = run([exe, "replay"] + kargs + ["--file", dst], 200)
            if r1 != 1 or r2 != 1: die("violation found but not reproduced in a fresh process: %s / %s / %s" % (st["violation"], o1[-500:], o2[-500:]))
            i1, i2 = ([json.loads(l) for l in x.splitlines() if l.startswith('{"status"')][-1] for x in (o1, o2)); viol = 1
            sym = symbolise(exe, i1["msg"])
            lines = ["violation class: %s" % i1["class"], "message: %s" % i1["msg"]] + sym + ["replayed twice in fresh processes: hashes %s %s%s" % (i1["hash"], i2["hash"], "" if i1["hash"] == i2["hash"] else " (unstable)")]
            with open(dst, "a") as f:
                for l in lines: f.write("# " + l.replace("\n", " ") + "\n")
            replay_info = dst
        elif rc != 0: die("simulator error: %s %s" % (st.get("error"), o[-1000:]))
        sim_wall = max(st["wall_s"], 1e-6)
        ev = dict(property=prop, tier=tier, seed=SEED, level="exploration", wall_s=round(time.time() - t0, 2), violations=viol,
            coverage=dict(evaluations=st["runs"], distinct_nontrivial=st["distinct_nontrivial"], rule=st["rule"],
                samples=[json.loads('"%s"' % s) if "\\" in s else s for s in st["samples"]][:3],
                requested_runs=runs, base_seed=SEED, seeds="run seed = mix(base seed, property, run index); indices 0..%d" % (runs - 1),
                runs_per_hour=int(st["runs"] / sim_wall * 3600), simulation_wall_s=round(sim_wall, 2), build_wall_s=round(tb, 2),
                simulated_time="the code reads no clock; simulated time is counted in scheduler steps: %d observed events (memory accesses, allocations, synchronisation, I/O) over %d operations" % (st["events"], st["operations"]),
                operations=st["operations"], events=st["events"], allocations=st["allocations"], context_switches=st["switches"],
                faults_injected=st["faults"], distinct_interleavings=st["distinct_interleavings"], interleaving_measure="hash of the sequence of (thread, operation, event number, next thread) of all context switches",
                distinct_states=st["distinct_states"], state_measure=c.get("state_measure", "hash of the reference model's state after each operation"),
                probes=st["probes"], determinism_sample=dict(runs_compared=len(common), identical_execution_hashes=same),
                real_components=c.get("real", REAL[c["exe"]]), stubbed_components=c.get("stub", STUB[c["exe"]])),
            assumptions=["seeded search, not exhaustive", "memory accesses inside shared libraries are not instrumented (their libc calls and allocations are)"])
        write_evidence(prop, ev)
        print("%s: %d runs (%d distinct), %d operations, %d events, %d switches, faults %s, %.1f s (build %.1f s)" % (prop, st["runs"], st["distinct_nontrivial"], st["operations"], st["events"], st["switches"], st["faults"], time.time() - t0, tb))
        for k, what in kn:
            if st["probes"].get("known:" + k): print("KNOWN-FINDING: property=%s %s (met %d times in this run)" % (prop, what, st["probes"]["known:" + k]))
        if viol:
            for l in lines: print("  " + l)
            print("VIOLATION property=%s replay=%s" % (prop, replay_info)); sys.stdout.flush(); sys.exit(1)
        sys.exit(0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

if __name__ == "__main__": main()
