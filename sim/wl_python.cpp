// C11: the real Python bindings in an embedded interpreter. The interpreter and numpy are started once per worker on the
// host heap; each run is a forked process in which every allocation (the interpreter's too) is on the simulated heap.
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#include "rt.h"
#include <cstring>
using namespace sim;
extern "C" { PyObject * PyInit_Caribou(); PyObject * PyInit_Geometry(); PyObject * PyInit_Topology(); }
namespace {
PyObject * s_fired(PyObject *, PyObject *) { return PyBool_FromLong(fault_fired()); }
PyObject * s_disarm(PyObject *, PyObject *) { disarm(); Py_RETURN_NONE; }
PyObject * s_probe(PyObject *, PyObject * a) { const char * s = PyUnicode_AsUTF8(a); if (!s) return nullptr; probe(s); Py_RETURN_NONE; }
PyObject * s_log(PyObject *, PyObject * a) { long v = PyLong_AsLong(a); sim::log((uint64_t) v); Py_RETURN_NONE; }
size_t g_mark[5];
PyObject * s_mark(PyObject *, PyObject * a) { long i = PyLong_AsLong(a); if (i >= 0 && i < 5) g_mark[i] = live_blocks_exe(); Py_RETURN_NONE; }
PyObject * s_growth(PyObject *, PyObject *) { for (int i = 1; i < 4; ++i) if (g_mark[i + 1] <= g_mark[i]) return PyLong_FromLong(0); return PyLong_FromSize_t(g_mark[4] - g_mark[3]); }
PyObject * s_drop(PyObject *, PyObject *) { fault(F_DROP); Py_RETURN_NONE; }
PyObject * s_collect(PyObject *, PyObject *) { fault(F_COLLECT); Py_RETURN_NONE; }
PyMethodDef meth[] = {{"fired", s_fired, METH_NOARGS, nullptr}, {"disarm", s_disarm, METH_NOARGS, nullptr}, {"probe", s_probe, METH_O, nullptr}, {"log", s_log, METH_O, nullptr}, {"mark", s_mark, METH_O, nullptr}, {"growth", s_growth, METH_NOARGS, nullptr}, {"fault_drop", s_drop, METH_NOARGS, nullptr}, {"fault_collect", s_collect, METH_NOARGS, nullptr}, {nullptr, nullptr, 0, nullptr}};
PyModuleDef mdef = {PyModuleDef_HEAD_INIT, "simrt", nullptr, -1, meth, nullptr, nullptr, nullptr, nullptr};
PyObject * init_simrt() { return PyModule_Create(&mdef); }
bool g_started = false; PyObject * g_world = nullptr; int g_nops = 0;
std::vector<std::string> g_names;
[[noreturn]] void die(const char * m) { if (PyErr_Occurred()) PyErr_Print(); fprintf(stderr, "python: %s\n", m); _exit(3); }
void start_python() {
    if (g_started) return;
    g_started = true;
    setenv("OPENBLAS_NUM_THREADS", "1", 1); setenv("OMP_NUM_THREADS", "1", 1);
    PyPreConfig pre; PyPreConfig_InitIsolatedConfig(&pre); pre.allocator = PYMEM_ALLOCATOR_MALLOC; pre.utf8_mode = 1;
    if (PyStatus_Exception(Py_PreInitialize(&pre))) die("pre-initialisation");
    PyImport_AppendInittab("simrt", init_simrt); PyImport_AppendInittab("Caribou", PyInit_Caribou); PyImport_AppendInittab("Geometry", PyInit_Geometry); PyImport_AppendInittab("Topology", PyInit_Topology);
    PyConfig c; PyConfig_InitIsolatedConfig(&c); c.use_hash_seed = 1; c.hash_seed = 0; c.install_signal_handlers = 0; c.site_import = 1; c.write_bytecode = 0;
    PyConfig_SetString(&c, &c.program_name, L"/usr/bin/python3"); PyConfig_SetString(&c, &c.executable, L"/usr/bin/python3");
    if (PyStatus_Exception(Py_InitializeFromConfig(&c))) die("initialisation");
    PyConfig_Clear(&c);
    PyObject * path = PySys_GetObject("path"), * d = PyUnicode_FromString(SIM_DIR); PyList_Append(path, d); Py_DECREF(d);
    g_world = PyImport_ImportModule("pyworld"); if (!g_world) die("pyworld");
    PyObject * ops = PyObject_GetAttrString(g_world, "OPS"); g_nops = (int) PyList_Size(ops);
    for (int i = 0; i < g_nops; ++i) g_names.push_back(PyUnicode_AsUTF8(PyList_GetItem(ops, i)));
    Py_DECREF(ops);
    PyGC_Collect();
    PyEval_SaveThread();
}
void verdict(PyObject * r) {
    if (!r) { PyObject * t, * v, * b; PyErr_Fetch(&t, &v, &b); PyErr_NormalizeException(&t, &v, &b); PyObject * s = v ? PyObject_Str(v) : nullptr; harness_error("the workload raised %s: %s", t ? ((PyTypeObject *) t)->tp_name : "?", s ? PyUnicode_AsUTF8(s) : "?"); }
    if (r != Py_None) violation(PyUnicode_AsUTF8(PyTuple_GetItem(r, 0)), "%.1500s", PyUnicode_AsUTF8(PyTuple_GetItem(r, 1)));
    Py_DECREF(r);
}
struct Bindings : Workload {
    const char * op_name(int c) override { return c >= 0 && c < (int) g_names.size() ? g_names[(size_t) c].c_str() : "?"; }
    const char * rule() override { return "a run is 8..40 binding calls, drops, cycles and collections in one interpreter, the collector's threshold, and reuse of freed memory chosen by the seed; every held object is compared with the model after each drop. Non-trivial: at least two operations; distinct: different execution hash."; }
    int refs(const Trace &) override { start_python(); return 0; }
    void gen(Rng & r, Trace & t) override {
        start_python();
        t.cfg["reuse"] = r.chance(1, 2);
        t.cfg["gc"] = r.chance(1, 2) ? 0 : r.chance(1, 2) ? r.range(1, 20) : r.range(20, 300);
        // operation mix: build-up first, then a seeded mix
        std::vector<int> w((size_t) g_nops, 2);
        for (auto & x : w) x = (int) r.range(0, 4);
        auto at = [&](const char * n) -> int & { for (int i = 0; i < g_nops; ++i) if (g_names[(size_t) i] == n) return w[(size_t) i]; return w[0]; };
        for (const char * n : {"mesh", "add_domain", "drop"}) at(n) += 3;
        for (const char * n : {"domain", "indices", "embed", "element", "collect", "keep_one"}) at(n) += 1;
        int sum = 0; for (int x : w) sum += x;
        int n = (int) r.range(8, 40);
        for (int i = 0; i < n; ++i) {
            Op o; o.id = i + 1;
            int k = (int) r.below((uint64_t) sum), c = 0; while (k >= w[(size_t) c]) k -= w[(size_t) c++];
            o.code = i == 0 ? 0 : i < 3 && r.chance(2, 3) ? 1 : c;
            for (auto & a : o.a) a = (int64_t) r.below(1000);
// no allocation failures here: pybind11's own bookkeeping does not survive them (clear_patients after a failed add_patient)
            t.ops.push_back(o);
        }
    }
    void exec(const Trace & t, Mode) override {
        set_reuse(t.get("reuse")); set_attribute_allocs(true);
        SimScope s;
        PyGILState_Ensure();
        PyObject * r = PyObject_CallMethod(g_world, "start", "l", (long) t.get("gc")); verdict(r ? (Py_DECREF(r), Py_NewRef(Py_None)) : r);
        for (auto & p : t.ops) {
            PyObject * a = PyTuple_New(NARGS); for (int i = 0; i < NARGS; ++i) PyTuple_SetItem(a, i, PyLong_FromLong((long) (p.a[i] < 0 ? -p.a[i] : p.a[i])));
            begin_op(p);
            PyObject * v = PyObject_CallMethod(g_world, "step", "iO", p.code % g_nops, a);
            disarm();
            verdict(v);
            end_op();
            Py_DECREF(a);
            PyObject * h = PyObject_CallMethod(g_world, "shape", nullptr); if (h) { state((uint64_t) PyLong_AsLongLong(h)); Py_DECREF(h); }
        }
        verdict(PyObject_CallMethod(g_world, "finish", nullptr));
    }
};
struct Reg { Reg() { register_workload("C11", new Bindings()); } } reg_;
}
