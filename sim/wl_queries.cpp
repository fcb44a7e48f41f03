// C01 / C02 / C07: read-only queries on shared elements, meshes, domains, embeddings, hash grids and grids, from several
// simulated threads (C01, C02) and with allocation failures (C07). Oracle: the same queries made alone, in another order,
// by fresh processes.
#include "elements.h"
#include "scene.h"
using namespace sim;
namespace {
constexpr int MAXOBJ = 6;
constexpr int SCENE = 1000;          // op codes from here on are scene queries
struct Obj { bool scene = false; int type = 0; uint64_t seed = 0; };
void * g_obj[MAXOBJ];
struct Queries : Workload {
    char kind;                        // 'e' elements, 's' scenes, 'f' both, with allocation failures
    Queries(char k) : kind(k) {}
    const char * op_name(int c) override { return c >= SCENE ? sq_name(c - SCENE) : eq_name(c); }
    const char * rule() override {
        return kind == 'f' ? "a run is 4..24 read-only queries on 1..3 shared elements and scenes by 1..3 threads, with allocation failures at seeded allocation indices; each answer and each retry is compared with the failure-free sequential answer. Non-trivial: at least 2 operations; distinct: different execution hash."
             : kind == 's' ? "a run is 2..4 threads making 2..24 read-only queries each on 1..2 shared scenes (mesh, two domains, embedding, hash grid, regular grid) under one seeded schedule; each answer is compared with the answer given alone. Non-trivial: at least 2 operations; distinct: different execution hash."
             : "a run is 2..4 threads making 2..24 read-only queries each on 1..4 shared elements under one seeded schedule, starting from a process that has never used the library; each answer is compared with the answer given alone. Non-trivial: at least 2 operations; distinct: different execution hash.";
    }
    static Obj obj(const Trace & t, int i) { Obj o; char k[8]; snprintf(k, 8, "o%dt", i); int64_t v = t.get(k); o.scene = v >= SCENE; o.type = (int) (v % SCENE); snprintf(k, 8, "o%ds", i); o.seed = (uint64_t) t.get(k); return o; }
    void gen(Rng & r, Trace & t) override {
        int nobj = (int) r.range(1, kind == 's' ? 2 : kind == 'e' ? 4 : 3), nthr = kind == 'f' ? (r.chance(1, 2) ? 1 : (int) r.range(2, 3)) : (int) r.range(2, 4);
        t.cfg["nobj"] = nobj; t.cfg["nthr"] = nthr; t.cfg["reuse"] = r.chance(1, 3);
        bool oneseed = r.chance(1, 3);
        int64_t type0 = -1;
        for (int i = 0; i < nobj; ++i) {
            bool sc = kind == 's' || (kind == 'f' && r.chance(2, 3)); char k[8]; snprintf(k, 8, "o%dt", i);
            int64_t ty = sc ? SCENE + (int64_t) r.below((uint64_t) scene_types()) : (int64_t) r.below((uint64_t) elem_types());
            if (i && r.chance(1, 2)) ty = type0; if (!i) type0 = ty;       // several objects of one type, often
            t.cfg[k] = ty; snprintf(k, 8, "o%ds", i); t.cfg[k] = oneseed ? (sc ? 5 : 20 + (int64_t) r.below(4)) : (int64_t) r.below(1000);
        }
        gen_sched(r, t);
        bool iso = r.chance(1, 3); t.cfg["iso"] = iso;
        int per = kind == 'f' ? (int) r.range(4, nthr == 1 ? 24 : 8) : (int) r.range(2, r.chance(1, 6) ? 24 : 7);
        int faultpct = kind == 'f' ? (int) r.range(20, 90) : 0;
        int focus = r.chance(1, 2) ? (int) r.below(64) : -1;               // half of the runs hammer a few queries
        int64_t pool[4]; for (auto & p : pool) p = (int64_t) r.below(40); if (r.chance(1, 3)) pool[0] = 0;
        int id = 0;
        for (int th = 1; th <= nthr; ++th) for (int k = 0; k < per; ++k) {
            Op o; o.id = ++id; o.tid = nthr == 1 ? 0 : th; int ob = (int) r.below((uint64_t) nobj); o.a[0] = ob; char key[8]; snprintf(key, 8, "o%dt", ob); bool sc = t.cfg[key] >= SCENE;
            int n = sc ? SQ_COUNT : EQ_COUNT; int c = focus >= 0 && r.chance(2, 3) ? (focus + (int) r.below(2)) % n : (int) r.below((uint64_t) n);
            o.code = sc ? SCENE + c : c;
            o.a[2] = pool[r.below(4)]; o.a[3] = (int64_t) r.below(40); for (int q = 4; q < NARGS; ++q) o.a[q] = (int64_t) r.below(40);
            if (r.chance(1, 2)) o.a[4] = (int64_t) r.below(3);
            if (r.chance(1, 2)) o.a[5] = (int64_t) r.below(3);
            if ((int) r.below(100) < faultpct) { o.fail = r.chance(3, 4) ? r.range(1, 4) : r.range(1, 30); o.persist = r.chance(1, 3); }
            t.ops.push_back(o);
        }
    }
    int refs(const Trace & t) override { return t.get("iso") ? (int) t.ops.size() : 1; }
    void make(const Trace & t) {
        SimScope s; int n = (int) t.get("nobj");
        for (int i = 0; i < n && i < MAXOBJ; ++i) { Obj o = obj(t, i); g_obj[i] = o.scene ? scene_vt(o.type).make(o.seed) : elem_vt(o.type).make(o.seed); }
    }
    void query(const Trace & t, const Op & p, Out & o) {
        int64_t n = t.get("nobj"); int i = (int) ((p.a[0] < 0 ? -p.a[0] : p.a[0]) % n); Obj ob = obj(t, i);
        SimScope s;
        if (ob.scene != (p.code >= SCENE)) return;
        if (ob.scene) scene_vt(ob.type).query(g_obj[i], p.code - SCENE, p.a, o); else elem_vt(ob.type).query(g_obj[i], p.code, p.a, o);
    }
    void one(const Trace & t, const Op & p, Mode mode) {
        Op q = p; if (mode == REF) q.fail = q.persist = 0;
        begin_op(q);
        for (int tries = 0;; ++tries) {
            Out o; Outcome r = in([&] { query(t, p, o); });
            if (r.ok()) { disarm(); record_or_compare(mode, p, o, op_name(p.code)); break; }
            if (mode == RUN && fault_fired() && tries == 0) {
                disarm(); probe((std::string("alloc failure in ") + op_name(p.code)).c_str());
                if (!multi_threaded()) check_leaks("leak-on-failure");
                continue;
            }
            violation("unexpected-exception", "%s failed with %s (%s)%s", op_name(p.code), r.type.c_str(), r.what.c_str(), tries ? " when retried with enough memory" : "");
        }
        end_op();
    }
    void exec(const Trace & t, Mode mode) override {
        set_reuse(t.get("reuse")); set_tolerance(1e-12);
        make(t);
        int nthr = (int) t.get("nthr", 1);
        if (mode == REF) {
            if (t.get("iso")) { if (g_ref_index < (int) t.ops.size()) one(t, t.ops[(size_t) g_ref_index], REF); }
            else for (size_t i = t.ops.size(); i-- > 0;) one(t, t.ops[i], REF);
        } else if (nthr <= 1) { for (auto & o : t.ops) one(t, o, RUN); }
        else run_threads(t, nthr, [&](int tid) { for (auto & o : t.ops) if (o.tid == tid) one(t, o, RUN); });
        int n = (int) t.get("nobj"); { SimScope s; for (int i = 0; i < n; ++i) { Obj o = obj(t, i); if (o.scene) scene_vt(o.type).destroy(g_obj[i]); else elem_vt(o.type).destroy(g_obj[i]); g_obj[i] = nullptr; } }
        if (mode == RUN) check_leaks("leak");
    }
};
struct Reg { Reg() { register_workload("C01", new Queries('e')); register_workload("C02", new Queries('s')); register_workload("C07", new Queries('f')); } } reg_;
}
