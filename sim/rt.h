// Deterministic simulation runtime: seams for threads, memory, allocation and files.
// Everything a run does is a function of (code under test, Trace); every random choice comes from Trace::seed.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <map>
#include <functional>

namespace sim {

constexpr int MAXT = 6;          // 0 = coordinator thread, 1.. = simulated caller threads
constexpr int NARGS = 8;

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) {}
    uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int64_t range(int64_t a, int64_t b) { return a + (int64_t) below((uint64_t)(b - a + 1)); }   // inclusive
    bool chance(uint64_t num, uint64_t den) { return below(den) < num; }
    double unit() { return (double)(next() >> 11) / 9007199254740992.0; }
};
inline uint64_t mix(uint64_t a, uint64_t b) { Rng r(a ^ (b * 0x9E3779B97F4A7C15ull + 0x1234567)); return r.next(); }

struct Op {
    int id = 0;                 // stable identity inside the trace
    int tid = 0;                // simulated thread that runs it
    int code = 0;
    int64_t a[NARGS] = {0};
    int64_t fail = 0;           // 1-based index of the allocation of this op that fails (0: none)
    int64_t persist = 0;        // 1: every allocation from `fail` on fails until the op ends
};
struct Switch { int tid; int op; uint32_t ev; int to; int forced; };
struct Trace {
    std::string check;
    uint64_t seed = 0;
    std::map<std::string, int64_t> cfg;
    std::vector<Op> ops;
    bool fixed_sched = false;
    std::vector<Switch> sched;
    int64_t get(const char *k, int64_t d = 0) const { auto i = cfg.find(k); return i == cfg.end() ? d : i->second; }
};
std::string to_text(const Trace &);
bool from_text(const std::string &, Trace &, std::string & err);

enum Mode { RUN = 0, REF = 1 };  // REF: sequential reference execution that only records results

// ---- fault kinds (counters) ---------------------------------------------------------------
enum FaultKind { F_ALLOC, F_ALLOC_PERSIST, F_SHORT_READ, F_EINTR, F_EIO, F_EARLY_EOF, F_OPEN_FAIL, F_VANISH, F_TRUNCATE, F_CORRUPT, F_PREEMPT, F_STALL, F_GUARD_CONTENTION, F_CALLBACK_FAIL, F_DROP, F_COLLECT, F_OTHER, F_COUNT };
extern const char * const fault_names[F_COUNT];

// ---- shared result block (one per worker process) -----------------------------------------
constexpr int MAXSCHED = 1 << 16;
constexpr int MAXPROBE = 512;
constexpr int MAXSTATES = 8192;
constexpr size_t MAXREF = 1 << 20;
constexpr int MAXREFOPS = 1 << 12;
struct Probe { char name[56]; uint64_t count; };
struct Shared {
    int status;                 // 0 running/died, 1 ok, 2 violation, 3 harness error
    int truncated_sched;
    char vclass[64];            // violation class (identity for minimisation)
    char msg[2048];
    int vop;
    uint64_t hash, ilhash, events, allocs, nswitch, steps_max;
    uint64_t faults[F_COUNT];
    int nsched;
    Switch sched[MAXSCHED];
    int nprobe;
    Probe probes[MAXPROBE];
    int nstates;
    uint64_t states[MAXSTATES];
    // reference results: stream of doubles per op
    size_t nref;
    struct { int op; uint32_t off, len; } refops[MAXREFOPS];
    int nrefops;
    double ref[MAXREF];
};
extern Shared * sh;

// ---- API for workloads ----------------------------------------------------------------------
[[noreturn]] void violation(const char * cls, const char * fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void harness_error(const char * fmt, ...) __attribute__((format(printf, 1, 2)));
void known_violation(const char * cls, const char * msg);   // a violation unless the class is a listed finding
void set_known(const std::vector<std::string> & classes);
void log(uint64_t v);                    // folds into the run hash
void log(const char * s);
void probe(const char * name, uint64_t n = 1);
void state(uint64_t h);                  // an abstract state reached
void fault(FaultKind k, uint64_t n = 1);

void begin_op(const Op & op);
void end_op();
const Op * current_op();

// Code under test runs inside a Sim scope: its allocations come from the simulated heap.
struct SimScope { int saved; SimScope(); ~SimScope(); };
struct HostScope { int saved; HostScope(); ~HostScope(); };   // back to the host heap (harness bookkeeping)

struct Outcome {
    enum K { OK, BAD_ALLOC, LOGIC, RUNTIME, OTHER } k = OK;
    std::string type, what;
    bool ok() const { return k == OK; }
};
// Runs f as code under test; catches everything.
template <typename F> Outcome in(F && f);
Outcome classify_current_exception();

bool fault_fired();                      // did the armed allocation failure of the current op fire?
void disarm();                           // stop injecting for the rest of this op
uint64_t allocs_in_op();
size_t live_blocks();                    // live simulated-heap blocks
size_t live_blocks_exe();                // ... of those, allocated by the executable's own (instrumented) code
void check_leaks(const char * cls, bool exe_only = false);      // unreachable live blocks -> violation
void add_root(const void * p, size_t n);  // harness memory that may hold pointers into the simulated heap
void clear_roots();
void set_reuse(bool);                    // freed blocks are handed out again, as a real allocator does
void set_quiet_lib(bool);                // library code (VTK) is atomic between its calls into ours
bool multi_threaded();
void sched_point(uint64_t h);
void put_ref(int op, const std::vector<double> & v);
void set_attribute_allocs(bool);         // only allocations made on behalf of the executable's own code may fail
bool addr_is_live(const void * p, size_t n);

// Threads: runs fn(tid) for tid in 1..n under the seeded scheduler, returns when all are done.
void run_threads(const Trace & t, int n, const std::function<void(int)> & fn);

// ---- result streams -------------------------------------------------------------------------
struct Out {                             // result of one query as a stream of numbers (host heap)
    std::vector<double> v;
    void d(double x);
    template <typename M> void mat(const M & m);
};
void set_tolerance(double);               // relative tolerance of record_or_compare
void record_or_compare(Mode mode, const Op & op, const Out & o, const char * what);
bool same(const std::vector<double> & a, const std::vector<double> & b, double tol = 1e-9);
bool ref_of(int op, std::vector<double> & out);

// ---- simulated disk -------------------------------------------------------------------------
struct IoScript {                        // faults applied to the opens/reads of a simulated file
    int open_errno = 0;                  // opening fails
    int vanish_after_stat = 0;           // k-th stat/access succeeds, then the file is gone
    uint64_t seed = 0;                   // drives short reads and EINTR
    int short_pct = 0, eintr_pct = 0;
    int64_t eio_at = -1;                 // reading at or past this offset fails with EIO
    bool eio_once = false;               // ... only the first time
    int64_t eof_at = -1;                 // the file ends here for readers (truncated while open)
};
void disk_put(const std::string & path, const std::string & content, const IoScript & s = IoScript());
void disk_reset();
void disk_remove(const std::string & path);
void disk_faults_off(const std::string & path);
struct DiskStats { uint64_t opens, reads, bytes, shorts, eintr, eio, eof, openfail; };
extern DiskStats disk_stats;

// ---- workloads --------------------------------------------------------------------------------
struct Workload {
    virtual ~Workload() = default;
    virtual void gen(Rng & r, Trace & t) = 0;           // fills cfg and ops (t.check and t.seed are set)
    virtual void exec(const Trace & t, Mode mode) = 0;  // runs inside the simulated process
    virtual int refs(const Trace &) { return 0; }       // number of reference executions before the run (exec(REF) with cfg ref=i)
    virtual const char * op_name(int) { return "op"; }
    virtual const char * rule() { return ""; }
    virtual bool nontrivial(const Trace & t) { return t.ops.size() >= 2; }
};
void register_workload(const char * check, Workload *);
Workload * workload(const std::string & check);
extern int g_ref_index;
extern bool g_verbose;

// run one trace in a forked child; result is in *sh
struct RunResult { int status; std::string vclass, msg; int vop; uint64_t hash, events; std::vector<Switch> sched; };
RunResult run_trace(const Trace & t);
void rt_init();

template <typename F> Outcome in(F && f) {
    SimScope s;
    try { f(); } catch (...) { HostScope h; return classify_current_exception(); }
    return Outcome();
}
template <typename M> void Out::mat(const M & m) {
    for (long i = 0; i < (long) m.rows(); ++i) for (long j = 0; j < (long) m.cols(); ++j) d((double) m(i, j));
}
} // namespace sim
