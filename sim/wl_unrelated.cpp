// C03: threads that share nothing: each builds, modifies, queries and destroys its own meshes, domains, embeddings, grids,
// elements and VTK readers. Oracle: each thread's history executed alone in a fresh process.
#include "vtkio.h"
#include "elements.h"
#include "scene.h"
#include <memory>
using namespace sim;
namespace {
constexpr int NS = 2;
void * g_scene[MAXT][NS]; int g_type[MAXT][NS];
enum { BUILD, QUERY, DESTROY, CHURN, VTK, ELEM, NOPS };
const char * const opn[] = {"build scene", "query scene", "destroy scene", "mesh history", "VTK import", "element"};
template <int D> struct Line { using E = Segment<D, Linear>; };

// the name of a domain, without the addresses in it and what makes them unique: they depend on the allocator, and it serves all threads
void name(const std::string & n, Out & o) {
    HostScope h;
    for (size_t i = 0; i < n.size(); ) {
        if (n.compare(i, 2, "0x") == 0) { size_t j = i + 2; while (j < n.size() && isxdigit((unsigned char) n[j])) ++j; while (j < n.size() && n[j] == '_') ++j; o.v.push_back(-1); i = j; }
        else o.v.push_back(n[i++]);
    }
    o.v.push_back(-3);
}
// a short history on private meshes; everything observable goes to the output
template <int D, typename E, typename I> void churn(uint64_t seed, Out & o) {
    using M = Mesh<D>; using Dom = Domain<E, I>; Rng r(seed);
    long n = E::NumberOfNodesAtCompileTime + r.range(0, 6);
    Eigen::Matrix<double, Eigen::Dynamic, D, D == 1 ? Eigen::ColMajor : Eigen::RowMajor> p(n, D); for (long i = 0; i < n; ++i) for (int a = 0; a < D; ++a) p(i, a) = sym(seed, (int) (i * 3 + a));
    auto table = [&] { typename Dom::ElementsIndices x(r.range(1, 3), (long) E::NumberOfNodesAtCompileTime); for (long i = 0; i < x.rows(); ++i) for (long j = 0; j < x.cols(); ++j) x(i, j) = (I) r.below((uint64_t) n); return x; };
    std::unique_ptr<M> m[3]; m[0].reset(new M(p)); m[1].reset(new M());
    int steps = (int) r.range(4, 12); std::unique_ptr<Dom> ext;
    for (int s = 0; s < steps; ++s) {
        int k = (int) r.below(3); if (!m[k]) m[k].reset(new M(p)); M & x = *m[k];
        bool has = x.number_of_nodes() > 0;
        switch (r.below(9)) {
        case 0: if (has) { auto t = table(); auto * d = x.template add_domain<E, I>(t); o.d(d->mesh() == &x); } break;
        case 1: if (has) { auto t = table(); std::string nm = "n" + std::to_string(s); auto * d = x.template add_domain<E, I>(nm, t); o.d(d->mesh() == &x); } break;
        case 2: if (x.number_of_domains()) { auto i = (UNSIGNED_INTEGER_TYPE) r.below(x.number_of_domains()); x.remove(x.domain(i)); } break;
        case 3: m[(k + 1) % 3].reset(new M(x)); break;
        case 4: if (m[(k + 1) % 3]) *m[(k + 1) % 3] = x; break;
        case 5: if (x.number_of_domains()) { std::unique_ptr<BaseDomain> c(x.domain(0)->clone()); o.d((double) c->number_of_elements()); } break;
        case 6: if (has && x.number_of_domains()) { auto * d = dynamic_cast<const Dom *>(x.domain((UNSIGNED_INTEGER_TYPE) r.below(x.number_of_domains()))); if (d && d->number_of_elements()) { auto e = d->element(0); auto nn = e.nodes(); o.mat(nn); auto c = e.world_coordinates(typename E::LocalCoordinates(E::LocalCoordinates::Zero())); for (int a = 0; a < D; ++a) o.d(c[a]); } } break;
        case 7: { std::vector<int> v; for (int i = 0; i < 3; ++i) v.push_back((int) r.below((uint64_t) n)); if (has) { auto q = x.positions(v); o.mat(q); } break; }
        default: m[k].reset(); break;
        }
        for (auto & q : m) if (q) { o.d((double) q->number_of_nodes()); auto l = q->domains(); for (auto & d : l) { name(d.first, o); o.d((double) d.second->number_of_elements()); auto * dd = dynamic_cast<const Dom *>(d.second); if (dd) for (UNSIGNED_INTEGER_TYPE e = 0; e < dd->number_of_elements(); ++e) { auto ids = dd->element_indices(e); for (long j = 0; j < (long) ids.size(); ++j) o.d((double) ids[j]); } } }
    }
}
template <int D, typename I> void vtk(const std::string & path, uint64_t seed, Out & o) {
    using R = io::VTKReader<D, I>; Rng r(seed);
    auto rd = R::Read(path);
    int calls = 0;
    if (r.chance(1, 3)) rd.register_element_type(r.chance(1, 2) ? VTK_LINE : VTK_QUADRATIC_EDGE, [&calls, seed, &o](Mesh<D> &, const typename R::ElementsIndices & x) -> BaseDomain * { ++calls; o.d((double) x.rows()); o.d((double) (seed % 1000)); return nullptr; });
    int n = (int) r.range(1, 2);
    for (int k = 0; k < n; ++k) {
        auto m = rd.mesh(); auto d = dump_mesh<D, I>(m);
        HostScope h; for (auto & p : d.nodes) for (double v : p) o.v.push_back(v);
        for (auto & x : d.doms) { for (char c : x.first) o.v.push_back(c); o.v.push_back(x.second.type); for (auto & q : x.second.rows) for (long v : q) o.v.push_back((double) v); }
    }
    o.d(calls);
}
struct Unrelated : Workload {
    const char * op_name(int c) override { return c >= 0 && c < NOPS ? opn[c] : "?"; }
    const char * rule() override { return "a run is 2..4 threads with 2..10 operations each on objects of their own (scenes, mesh histories, VTK imports, elements) under one seeded schedule; each answer is compared with the answer of the same thread running alone in a fresh process. Non-trivial: at least 2 operations; distinct: different execution hash."; }
    void gen(Rng & r, Trace & t) override {
        int nthr = (int) r.range(2, 4); t.cfg["nthr"] = nthr; t.cfg["reuse"] = r.chance(1, 3); gen_sched(r, t);
        bool with_vtk = r.chance(1, 2), same = r.chance(1, 2);      // same: the threads do the same things with other data
        int focus = r.chance(1, 2) ? (int) r.below(NOPS) : -1; int64_t ty = (int64_t) r.below(1000);
        int id = 0, per = (int) r.range(2, r.chance(1, 5) ? 10 : 5); std::vector<Op> first;
        for (int th = 1; th <= nthr; ++th) for (int k = 0; k < per; ++k) {
            Op o; o.id = ++id; o.tid = th; for (auto & a : o.a) a = (int64_t) r.below(40);
            if (same && th > 1) { o.code = first[(size_t) k].code; o.a[0] = first[(size_t) k].a[0]; o.a[1] = first[(size_t) k].a[1]; o.a[2] = first[(size_t) k].a[2]; }
            else { int c = focus >= 0 && r.chance(2, 3) ? focus : (int) r.below(NOPS); if (c == VTK && !with_vtk) c = CHURN; if (k == 0 && r.chance(1, 2)) c = BUILD; o.code = c; o.a[0] = (int64_t) r.below(NS); o.a[1] = r.chance(1, 2) ? ty : (int64_t) r.below(1000); o.a[2] = (int64_t) r.below(64); }
            o.a[7] = (int64_t) r.below(1u << 28);
            if (th == 1) first.push_back(o);
            t.ops.push_back(o);
        }
    }
    int refs(const Trace & t) override { return (int) t.get("nthr", 2); }
    static std::string path(const Op & p) { return "/simdisk/t" + std::to_string(p.id) + ".vtk"; }
    static int dim(const Op & p) { return 1 + (int) ((p.a[1] < 0 ? -p.a[1] : p.a[1]) % 3); }
    void op(const Op & p, Out & o) {
        auto A = [&](int k) { return p.a[k] < 0 ? -p.a[k] : p.a[k]; };
        int s = (int) (A(0) % NS); void *& sc = g_scene[p.tid][s]; int & ty = g_type[p.tid][s];
        switch (p.code) {
        case BUILD: if (sc) { scene_vt(ty).destroy(sc); sc = nullptr; } ty = (int) (A(1) % scene_types()); sc = scene_vt(ty).make((uint64_t) A(7)); o.d(1); break;
        case QUERY: if (sc) { int64_t a[NARGS]; for (int i = 0; i < NARGS; ++i) a[i] = A(i); a[2] = A(6); a[7] = A(7) % 40; scene_vt(ty).query(sc, (int) (A(2) % SQ_COUNT), a, o); } break;
        case DESTROY: if (sc) { scene_vt(ty).destroy(sc); sc = nullptr; } break;
        case CHURN: { uint64_t sd = (uint64_t) A(7); switch (A(1) % 4) { case 0: churn<1, Segment<1, Linear>, unsigned>(sd, o); break; case 1: churn<2, Triangle<2, Linear>, unsigned long long>(sd, o); break; case 2: churn<3, Hexahedron<Linear>, unsigned long long>(sd, o); break; default: churn<3, Tetrahedron<Quadratic>, int>(sd, o); } break; }
        case VTK: { std::string f; { HostScope h; f = path(p); } uint64_t sd = (uint64_t) A(7); switch (dim(p)) { case 1: vtk<1, unsigned long long>(f, sd, o); break; case 2: vtk<2, unsigned>(f, sd, o); break; default: vtk<3, unsigned long long>(f, sd, o); } break; }
        case ELEM: { auto & v = elem_vt((int) (A(1) % elem_types())); void * e = v.make((uint64_t) A(7)); int64_t a[NARGS]; for (int i = 0; i < NARGS; ++i) a[i] = A(i) % 40; v.query(e, (int) (A(2) % EQ_COUNT), a, o); v.destroy(e); break; }
        }
    }
    void one(const Op & p, Mode mode) {
        begin_op(p); Out o;
        Outcome r = in([&] { op(p, o); });
        if (!r.ok()) { if (p.code != VTK) violation("unexpected-exception", "%s failed with %s (%s)", op_name(p.code), r.type.c_str(), r.what.c_str()); o.v.push_back(-77); }
        record_or_compare(mode, p, o, op_name(p.code)); end_op();
    }
    void exec(const Trace & t, Mode mode) override {
        set_reuse(t.get("reuse")); set_tolerance(1e-12); silence(); set_quiet_lib(true);
        for (auto & p : t.ops) if (p.code == VTK) { Rng r((uint64_t) p.a[7]); IoScript io; io.seed = r.next(); io.short_pct = (int) r.below(60); io.eintr_pct = (int) r.below(20); disk_put(path(p), render(gen_vtk((uint64_t) p.a[7], dim(p), r.chance(1, 2))).s, io); }
        int nthr = (int) t.get("nthr", 2);
        if (mode == REF) { for (auto & p : t.ops) if (p.tid == g_ref_index + 1) one(p, REF); }
        else run_threads(t, nthr, [&](int tid) { for (auto & p : t.ops) if (p.tid == tid) one(p, RUN); });
        { SimScope s; for (int i = 0; i < MAXT; ++i) for (int k = 0; k < NS; ++k) if (g_scene[i][k]) { scene_vt(g_type[i][k]).destroy(g_scene[i][k]); g_scene[i][k] = nullptr; } }
        if (mode == RUN) check_leaks("leak", true);
        disk_reset();
    }
};
struct Reg { Reg() { register_workload("C03", new Unrelated()); } } reg_;
}
