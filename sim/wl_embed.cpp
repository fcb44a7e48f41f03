// C06 driver: see embed_impl.h
#include "embed.h"
using namespace sim;
namespace {
const char * const opn[] = {"embed", "embed in an empty domain", "embed points of another dimension", "drop embedding", "move embedding", "interpolate", "interpolate mismatched fields", "locate point", "new hash grid", "insert elements", "query hash grid"};
struct Embed : Workload {
    const char * op_name(int c) override { return c >= 0 && c < EM_COUNT ? opn[c] : "?"; }
    const char * rule() override { return "a run is a seeded history of 4..40 embedding, interpolation and hash-grid operations on one generated mesh (12 element types, holes, affine and perturbed geometry), with allocation failures at seeded allocation indices; every point's location is known by construction. After every operation the mesh and all embeddings are compared with the reference. Non-trivial: at least 3 operations; distinct: different execution hash."; }
    bool nontrivial(const Trace & t) override { return t.ops.size() >= 3; }
    void gen(Rng & r, Trace & t) override {
        t.cfg["type"] = (int64_t) r.below((uint64_t) embed_types()); t.cfg["mesh"] = (int64_t) r.below(100000); t.cfg["reuse"] = r.chance(1, 3);
        int n = (int) r.range(4, r.chance(1, 4) ? 40 : 14), faultpct = r.chance(1, 4) ? 0 : (int) r.range(10, 70);
        static const int w[] = {EM_EMBED, EM_EMBED, EM_EMBED, EM_EMBED_EMPTY, EM_EMBED_WRONG, EM_DROP, EM_MOVE, EM_INTERP, EM_INTERP, EM_INTERP, EM_INTERP_BAD, EM_INTERP_BAD, EM_POINT, EM_POINT, EM_HASH_NEW, EM_HASH_ADD, EM_HASH_ADD, EM_HASH_GET, EM_HASH_GET, EM_HASH_GET};
        for (int i = 0; i < n; ++i) {
            Op o; o.id = i + 1; o.code = i == 0 ? (int) EM_EMBED : i == 1 && r.chance(1, 2) ? (int) EM_HASH_NEW : w[r.below(sizeof w / sizeof *w)];
            for (auto & x : o.a) x = (int64_t) r.below(64); o.a[3] = (int64_t) r.below(1 << 20);
            if ((int) r.below(100) < faultpct) { o.fail = r.chance(1, 2) ? r.range(1, 6) : r.range(1, 80); o.persist = r.chance(1, 3); }
            t.ops.push_back(o);
        }
    }
    void exec(const Trace & t, Mode) override { set_reuse(t.get("reuse")); embed_vt((int) t.get("type")).run(t); }
};
struct Reg { Reg() { register_workload("C06", new Embed()); } } reg_;
}
