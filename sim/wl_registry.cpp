// C04 / C05: meshes as registries of named domains; copies, moves, swaps. Reference model: vectors of names and index tables.
#include "rt.h"
#include <Caribou/constants.h>
#include <Caribou/Geometry/Segment.h>
#include <Caribou/Geometry/Triangle.h>
#include <Caribou/Geometry/Quad.h>
#include <Caribou/Geometry/Tetrahedron.h>
#include <Caribou/Geometry/Hexahedron.h>
#include <Caribou/Topology/Mesh.h>
#include <Caribou/Topology/Domain.h>
#include <cstring>
using namespace sim;
using namespace caribou;
using namespace caribou::topology;
using namespace caribou::geometry;
namespace {
template <int D> struct Tag { static constexpr int Dim = D; };
template <typename E_, typename I_> struct K { using E = E_; using I = I_; using Dom = Domain<E, I>; };
template <int D, typename F> void kinds(int kind, F && f) {
    if constexpr (D == 1) switch (kind % 3) { case 0: f(K<Segment<1, Linear>, unsigned long long>()); break; case 1: f(K<Segment<1, Quadratic>, unsigned int>()); break; default: f(K<Segment<1, Linear>, int>()); }
    if constexpr (D == 2) switch (kind % 4) { case 0: f(K<Triangle<2, Linear>, unsigned long long>()); break; case 1: f(K<Quad<2, Linear>, unsigned int>()); break; case 2: f(K<Triangle<2, Quadratic>, unsigned long long>()); break; default: f(K<Segment<2, Linear>, int>()); }
    if constexpr (D == 3) switch (kind % 5) { case 0: f(K<Tetrahedron<Linear>, unsigned long long>()); break; case 1: f(K<Hexahedron<Linear>, unsigned int>()); break; case 2: f(K<Tetrahedron<Quadratic>, int>()); break; case 3: f(K<Triangle<3, Linear>, unsigned long long>()); break; default: f(K<Hexahedron<Quadratic>, unsigned long long>()); }
}
template <int D> constexpr int nkinds() { return D == 1 ? 3 : D == 2 ? 4 : 5; }

const std::string names[] = {"a", "b", "", "domain_1", "a name that does not fit in a small string buffer", "c", "a name that does not fit in a small string buffer!", "B", "a ", std::string("a\0b", 3), "aa", "\xc3\xa9"};
constexpr int NN = 12, NM = 4, NO = 6, NX = 24;

struct MDom { int kind = 0; long rows = 0, cols = 0; std::vector<long> idx; BaseDomain * p = nullptr; };
struct MMesh { bool alive = false, moved = false; std::vector<std::array<double, 3>> nodes; std::vector<std::pair<std::string, MDom>> doms; };

// objects under test: reachable from static storage so that the leak check sees them
void * g_mesh[NM]; BaseDomain * g_orph[NO]; void * g_ext[NX]; int g_next = 0;

enum { NEW_MESH, DEL_MESH, ADD_NAMED, ADD_UNNAMED, ADD_EXTERNAL, NEW_ORPHAN, ATTACH_NAMED, ATTACH_UNNAMED, REATTACH, REMOVE_NAME, REMOVE_PTR, LOOKUP, DEL_ORPHAN, COPY_MESH, MOVE_MESH, ASSIGN_COPY, ASSIGN_MOVE, SWAP_MESH, CLONE_DOM, COPY_DOM, MOVE_DOM, SWAP_DOM, NOPS };
const char * const opn[] = {"new_mesh", "delete_mesh", "add_domain(name)", "add_domain(unnamed)", "add_domain(external indices)", "new_orphan_domain", "attach(name)", "attach(unnamed)", "re-attach", "remove(name)", "remove(pointer)", "lookup", "delete_orphan", "copy_mesh", "move_mesh", "copy_assign", "move_assign", "swap_meshes", "clone_domain", "copy_domain", "move_domain", "swap_domains"};

template <int D, typename Real> struct World {
    using M = Mesh<D, EigenNodesHolder<Eigen::Matrix<Real, Eigen::Dynamic, D, (D > 1 ? Eigen::RowMajor : Eigen::ColMajor)>>>;
    MMesh mm[NM]; MDom mo[NO]; bool oalive[NO] = {false};
    const char * cls;   // property-specific violation prefix
    bool faulty;
    M * mesh(int i) { return (M *) g_mesh[i]; }

    // ---- verification of everything against the model ----
    void check_dom(const BaseDomain * d, const MDom & m, const BaseMesh * owner, const MMesh * om, const char * where) {
        if (d->mesh() != owner) violation("wrong-owner", "%s: the domain names %s as its mesh", where, d->mesh() == nullptr ? "no mesh" : "another mesh");
        kinds<D>(m.kind, [&](auto k) {
            using KK = decltype(k); using Dom = typename KK::Dom;
            const auto * dd = dynamic_cast<const Dom *>(d);
            if (!dd) violation("wrong-domain", "%s: the domain has another type than the one it was created with", where);
            if ((long) dd->number_of_elements() != m.rows) violation("wrong-domain", "%s: %lld elements instead of %ld", where, (long long) dd->number_of_elements(), m.rows);
            if (m.rows && (long) dd->number_of_nodes_per_elements() != m.cols) violation("wrong-domain", "%s: %lld nodes per element instead of %ld", where, (long long) dd->number_of_nodes_per_elements(), m.cols);
            if ((int) dd->canonical_dimension() != (int) KK::E::CanonicalDimension) violation("wrong-domain", "%s: wrong canonical dimension", where);
            for (long e = 0; e < m.rows; ++e) {
                auto ids = dd->element_indices(e);
                for (long j = 0; j < m.cols; ++j) if ((long) ids[j] != m.idx[e * m.cols + j]) violation("wrong-indices", "%s: element %ld node %ld is %ld instead of %ld", where, e, j, (long) ids[j], m.idx[e * m.cols + j]);
                if (om && !om->nodes.empty() && e == 0) {
                    auto el = dd->element(e);
                    for (long j = 0; j < m.cols; ++j) for (int a = 0; a < D; ++a) if (el.node(j)[a] != om->nodes[m.idx[e * m.cols + j]][a]) violation("wrong-element", "%s: node %ld of element %ld is at the wrong position", where, j, e);
                    Eigen::Matrix<double, Eigen::Dynamic, D, D == 1 ? Eigen::ColMajor : Eigen::RowMajor> pos((Eigen::Index) om->nodes.size(), D); for (size_t n = 0; n < om->nodes.size(); ++n) for (int a = 0; a < D; ++a) pos((Eigen::Index) n, a) = om->nodes[n][a] * 2 + 1;
                    auto e2 = dd->element(e, pos); for (long j = 0; j < m.cols; ++j) for (int a = 0; a < D; ++a) if (e2.node(j)[a] != om->nodes[m.idx[e * m.cols + j]][a] * 2 + 1) violation("wrong-element", "%s: node %ld of element %ld built on other positions is at the wrong one", where, j, e);
                }
            }
        });
    }
    void verify() {
        SimScope s;
        uint64_t h = 7;
        for (int i = 0; i < NM; ++i) {
            auto & m = mm[i]; if (!m.alive || m.moved) continue;
            M * p = mesh(i); char w[96];
            if ((size_t) p->number_of_nodes() != m.nodes.size()) violation("wrong-nodes", "mesh %d has %lld nodes instead of %zu", i, (long long) p->number_of_nodes(), m.nodes.size());
            for (size_t n = 0; n < m.nodes.size(); ++n) {
                auto q = p->position(n); auto v = p->node(n);
                for (int a = 0; a < 3; ++a) { if (a < D && q[a] != m.nodes[n][a]) violation("wrong-nodes", "mesh %d node %zu moved", i, n); if (v[a] != m.nodes[n][a]) violation("wrong-nodes", "mesh %d node(%zu)[%d] is %g instead of %g", i, n, a, v[a], m.nodes[n][a]); }
            }
            if ((size_t) p->number_of_domains() != m.doms.size()) violation("wrong-domain-list", "mesh %d has %lld domains instead of %zu", i, (long long) p->number_of_domains(), m.doms.size());
            auto list = p->domains();
            if (list.size() != m.doms.size()) violation("wrong-domain-list", "mesh %d lists %zu domains instead of %zu", i, list.size(), m.doms.size());
            for (size_t k = 0; k < m.doms.size(); ++k) {
                auto & d = m.doms[k];
                if (list[k].first != d.first) violation("wrong-domain-list", "mesh %d lists domain %zu as '%s' instead of '%s'", i, k, list[k].first.c_str(), d.first.c_str());
                if (list[k].second != p->domain(k)) violation("wrong-domain-list", "mesh %d: list and index lookup disagree on domain %zu", i, k);
                if (p->domain(d.first) != list[k].second) violation("wrong-domain-list", "mesh %d: lookup by name '%s' does not find domain %zu", i, d.first.c_str(), k);
                if (d.second.p && list[k].second != d.second.p) violation("wrong-domain-list", "mesh %d: domain %zu is not the object that was added", i, k);
                snprintf(w, sizeof w, "mesh %d domain %zu", i, k);
                check_dom(list[k].second, d.second, p, &m, w);
                d.second.p = const_cast<BaseDomain *>(list[k].second);
            }
            { HostScope hh; for (auto & n : names) { bool in = false; for (auto & d : m.doms) if (d.first == n) in = true; const std::string & ns = n; const BaseDomain * q; { SimScope s2; q = p->domain(ns); } if (!in && q) violation("wrong-domain-list", "mesh %d: lookup of the absent name '%s' finds a domain", i, n.c_str()); } }
            h = h * 31 + m.doms.size() * 3 + m.nodes.size();
            for (auto & d : m.doms) h = (h ^ (d.second.kind * 7 + d.second.rows)) * 1099511628211ull + d.first.size();
        }
        for (int o = 0; o < NO; ++o) if (oalive[o]) { char w[64]; snprintf(w, sizeof w, "orphan domain %d", o); check_dom(g_orph[o], mo[o], nullptr, nullptr, w); h = h * 131 + mo[o].kind * 5 + mo[o].rows; }
        { HostScope hh; state(h); }
    }

    // ---- helpers ----
    MDom gen_dom(int kind, long rows, uint64_t seed, size_t nnodes) {
        MDom m; m.kind = kind % nkinds<D>(); m.rows = rows; Rng r(seed);
        kinds<D>(m.kind, [&](auto k) { m.cols = decltype(k)::E::NumberOfNodesAtCompileTime; });
        for (long i = 0; i < m.rows * m.cols; ++i) m.idx.push_back(nnodes ? (long) r.below(nnodes) : (long) r.below(9));
        return m;
    }
    template <typename KK> typename KK::Dom::ElementsIndices matrix(const MDom & m) { typename KK::Dom::ElementsIndices x(m.rows, m.cols); for (long i = 0; i < m.rows; ++i) for (long j = 0; j < m.cols; ++j) x(i, j) = (typename KK::I) m.idx[i * m.cols + j]; return x; }
    // the caller's own index buffer, on the host heap: a matrix, a dense array, or a strided array whose gaps hold other numbers
    template <typename KK> struct Ext { typename KK::Dom::ElementsIndices * m = nullptr; typename KK::I * p = nullptr; Eigen::Index outer = 0, inner = 1; };
    template <typename KK> Ext<KK> external(const MDom & d, int v, int64_t how) {
        using I = typename KK::I; Ext<KK> e; e.outer = d.cols;
        if (v == 0) { e.m = new typename KK::Dom::ElementsIndices(matrix<KK>(d)); g_ext[g_next++] = e.m; e.p = e.m->data(); return e; }
        if (v == 2) { e.inner = 1 + how % 3; e.outer = how & 4 ? d.cols * e.inner + how / 8 % 4 : d.cols * e.inner; if (how & 32 && d.rows) { e.outer = 1; e.inner = d.rows; probe("external indices: column major"); } else probe("external indices: strided"); }
        size_t n = (size_t) (e.outer * d.rows + e.inner * d.cols + 1); e.p = (I *) malloc(n * sizeof(I)); g_ext[g_next++] = e.p;
        for (size_t k = 0; k < n; ++k) e.p[k] = (I) 113;
        for (long r = 0; r < d.rows; ++r) for (long c = 0; c < d.cols; ++c) e.p[r * e.outer + c * e.inner] = (I) d.idx[r * d.cols + c];
        return e;
    }
    std::vector<std::array<double, 3>> gen_nodes(long n, uint64_t seed) { Rng r(seed); std::vector<std::array<double, 3>> v; for (long i = 0; i < n; ++i) { std::array<double, 3> a{0, 0, 0}; for (int k = 0; k < D; ++k) a[k] = r.range(-1000, 1000) / 8.; v.push_back(a); } return v; }

    // Runs an operation that may fail: f performs it; on an injected failure nothing may have changed, and a retry must work.
    // expect_refusal: the operation has to be refused. returns true when it was carried out.
    template <typename F> bool attempt(const char * what, bool expect_refusal, F && f) {
        for (int tries = 0;; ++tries) {
            size_t live = live_blocks(); (void) live;
            Outcome o = in(f);
            if (o.ok()) { disarm(); if (expect_refusal) violation("not-refused", "%s was accepted although it must be refused", what); return true; }
            if (o.k == Outcome::BAD_ALLOC && fault_fired() && tries == 0) {
                disarm(); probe((std::string("alloc failure in ") + what).c_str());
                verify(); check_leaks("leak-on-failure");
                continue;
            }
            if (expect_refusal && o.k != Outcome::BAD_ALLOC && o.k != Outcome::OTHER) { disarm(); probe((std::string("refused: ") + what).c_str()); return false; }
            violation("unexpected-failure", "%s failed with %s (%s)", what, o.type.c_str(), o.what.c_str());
        }
    }
    int pick_mesh(int64_t a) { for (int k = 0; k < NM; ++k) { int i = (int) ((a + k) % NM); if (mm[i].alive && !mm[i].moved) return i; } return -1; }
    int pick_orph(int64_t a) { for (int k = 0; k < NO; ++k) { int i = (int) ((a + k) % NO); if (oalive[i]) return i; } return -1; }
    int free_orph() { for (int i = 0; i < NO; ++i) if (!oalive[i]) return i; return -1; }
    void kill_orph(int o) { in([&] { delete g_orph[o]; }); g_orph[o] = nullptr; oalive[o] = false; }
    void kill_mesh(int i) { if (!g_mesh[i]) return; Outcome o = in([&] { delete mesh(i); }); if (!o.ok()) violation("unexpected-failure", "destroying a mesh threw"); g_mesh[i] = nullptr; mm[i] = MMesh(); }
    static bool has(const MMesh & m, const std::string & n) { for (auto & d : m.doms) if (d.first == n) return true; return false; }
    std::string learn_name(int i) { std::string n; { SimScope s; auto l = mesh(i)->domains(); HostScope h; if (l.empty()) violation("wrong-domain-list", "mesh %d lists no domain after an addition", i); n.assign(l.back().first.data(), l.back().first.size()); } if (has(mm[i], n)) violation("wrong-domain-list", "the name given to an unnamed domain is already in use"); return n; }

    void op(const Op & p) {
        const int64_t * a = p.a; auto A = [&](int k) { return a[k] < 0 ? -a[k] : a[k]; };
        switch (p.code) {
        case NEW_MESH: {
            int i = (int) (A(0) % NM); if (g_mesh[i]) kill_mesh(i);
            auto nodes = gen_nodes(A(1) % 12, (uint64_t) a[2]);
            attempt("mesh construction", false, [&] {
                M * m = nullptr;
                if (nodes.empty() && (a[3] & 1)) m = new M();
                else if (a[3] & 2) { std::vector<typename M::WorldCoordinates> v; for (auto & n : nodes) { typename M::WorldCoordinates c; for (int k = 0; k < D; ++k) c[k] = n[k]; v.push_back(c); } m = new M(v); }
                else { Eigen::Matrix<double, Eigen::Dynamic, D, D == 1 ? Eigen::ColMajor : Eigen::RowMajor> v(nodes.size(), D); for (size_t r = 0; r < nodes.size(); ++r) for (int k = 0; k < D; ++k) v(r, k) = nodes[r][k]; m = new M(v); }
                g_mesh[i] = m;
            });
            mm[i].alive = true; mm[i].nodes = nodes; break;
        }
        case DEL_MESH: { int i = (int) (A(0) % NM); if (g_mesh[i]) kill_mesh(i); break; }
        case ADD_NAMED: case ADD_UNNAMED: case ADD_EXTERNAL: {
            int i = pick_mesh(A(0)); if (i < 0) break;
            MDom d = gen_dom((int) A(1), A(2) % 5, (uint64_t) a[3], mm[i].nodes.size());
            std::string name = names[A(4) % NN]; bool named = p.code == ADD_NAMED || (p.code == ADD_EXTERNAL && (a[5] & 8));
            bool refuse = named && has(mm[i], name); BaseDomain * res = nullptr;
            kinds<D>(d.kind, [&](auto k) {
                using KK = decltype(k); using E = typename KK::E; using I = typename KK::I;
                auto x = matrix<KK>(d); const auto & cx = x; struct Scribble { decltype(x) & m; ~Scribble() { m.setConstant((I) 117); } } scribble{x};
                if (p.code == ADD_EXTERNAL) {
                    if (g_next >= NX) return;
                    using EI = typename KK::Dom::ElementsIndices;
                    int v = (int) (A(5) % 3); Ext<KK> x2 = external<KK>(d, v, A(6));
                    auto go = [&] {
                        if (named) { if (v == 0) res = mesh(i)->template add_domain<E, I>(name, (const EI *) x2.m); else if (v == 1) res = mesh(i)->template add_domain<E, I>(name, (const I *) x2.p, (Eigen::Index) d.rows, (Eigen::Index) d.cols); else res = mesh(i)->template add_domain<E, I>(name, (const I *) x2.p, (Eigen::Index) d.rows, (Eigen::Index) d.cols, x2.outer, x2.inner); }
                        else { if (v == 0) res = mesh(i)->template add_domain<E, I>((const EI *) x2.m); else if (v == 1) res = mesh(i)->template add_domain<E, I>((const I *) x2.p, (Eigen::Index) d.rows, (Eigen::Index) d.cols); else res = mesh(i)->template add_domain<E, I>((const I *) x2.p, (Eigen::Index) d.rows, (Eigen::Index) d.cols, x2.outer, x2.inner); }
                    };
                    attempt("add_domain(external)", refuse, go);
                } else if (named) attempt("add_domain(name)", refuse, [&] {
                    if constexpr (std::is_same_v<I, unsigned long long>) { if (a[5] & 1) { res = mesh(i)->template add_domain<E>(name, cx); return; } if ((a[5] & 2) && name.size() == strlen(name.c_str())) { res = mesh(i)->template add_domain<E>(name.c_str(), cx); return; } }
                    res = mesh(i)->template add_domain<E, I>(name, cx);
                });
                else attempt("add_domain(unnamed)", false, [&] {
                    if constexpr (std::is_same_v<I, unsigned long long>) { if (a[5] & 1) { res = mesh(i)->template add_domain<E>(cx); return; } }
                    res = mesh(i)->template add_domain<E, I>(cx);
                });
            });
            if (res) { d.p = res; mm[i].doms.emplace_back(named ? name : learn_name(i), d); }
            break;
        }
        case NEW_ORPHAN: {
            int o = free_orph(); if (o < 0) break;
            MDom d = gen_dom((int) A(1), A(2) % 5, (uint64_t) a[3], A(4) % 2 ? 0 : 4);
            kinds<D>(d.kind, [&](auto k) { using KK = decltype(k); auto x = matrix<KK>(d); 
                using Dom = typename KK::Dom; using EI = typename Dom::ElementsIndices; const EI & cx = x; int v = g_next < NX ? (int) (A(5) % 6) : (int) (A(5) % 3); const BaseMesh * none = nullptr;
                Ext<KK> e; if (v >= 3) e = external<KK>(d, v - 3, A(6));
                attempt("domain construction", false, [&] {
                    switch (v) { case 0: g_orph[o] = new Dom(none, x); break; case 1: g_orph[o] = new Dom(none, cx); break; case 2: g_orph[o] = new Dom(none, EI(x)); break;
                                 case 3: g_orph[o] = new Dom(none, (const EI *) e.m); break; case 4: g_orph[o] = new Dom(none, (const typename KK::I *) e.p, d.rows, d.cols); break; default: g_orph[o] = new Dom(none, (const typename KK::I *) e.p, d.rows, d.cols, e.outer, e.inner); }
                });
                x.setConstant((typename KK::I) 117);   // the domain has its own copy of the indices
            });
            mo[o] = d; oalive[o] = true; break;
        }
        case ATTACH_NAMED: case ATTACH_UNNAMED: {
            int i = pick_mesh(A(0)), o = pick_orph(A(1)); if (i < 0 || o < 0) break;
            // indices must be valid for the mesh before its elements are built
            long mx = -1; for (auto v : mo[o].idx) mx = std::max(mx, v); if (mx >= (long) mm[i].nodes.size() && !mm[i].nodes.empty()) break;
            std::string name = names[A(4) % NN]; bool refuse = p.code == ATTACH_NAMED && has(mm[i], name); BaseDomain * res = nullptr;
            bool ok = attempt("attach", refuse, [&] { BaseMesh * b = mesh(i); res = p.code == ATTACH_NAMED ? b->add_domain(g_orph[o], name) : b->add_domain(g_orph[o]); });
            if (ok) { if (res != g_orph[o]) violation("wrong-result", "add_domain returned another domain"); MDom d = mo[o]; d.p = res; oalive[o] = false; g_orph[o] = nullptr; mm[i].doms.emplace_back(p.code == ATTACH_NAMED ? name : learn_name(i), d); }
            break;
        }
        case REATTACH: {   // a domain that already belongs to a mesh: accepted only by the same mesh under the same name
            int i = pick_mesh(A(0)), j = pick_mesh(A(1)); if (i < 0 || j < 0 || mm[j].doms.empty()) break;
            size_t k = (size_t) A(2) % mm[j].doms.size(); BaseDomain * d = mm[j].doms[k].second.p; if (!d) break;
            std::string own = mm[j].doms[k].first, name = (a[3] & 1) ? own : names[A(4) % NN];
            bool refuse = !(i == j && name == own); BaseDomain * res = nullptr;
            bool ok = attempt("re-attach", refuse, [&] { BaseMesh * b = mesh(i); res = b->add_domain(d, name); });
            if (ok && res != d) violation("wrong-result", "re-adding a domain under its own name returned another domain");
            break;
        }
        case REMOVE_NAME: {
            int i = pick_mesh(A(0)); if (i < 0) break;
            std::string name = (a[3] & 1) && !mm[i].doms.empty() ? mm[i].doms[(size_t) A(2) % mm[i].doms.size()].first : names[A(4) % NN];
            bool r = false, expect = has(mm[i], name);
            attempt("remove(name)", false, [&] { r = mesh(i)->remove_domain(name); });
            if (r != expect) violation("wrong-result", "remove_domain('%s') returned %d instead of %d", name.c_str(), r, expect);
            if (expect) for (size_t k = 0; k < mm[i].doms.size(); ++k) if (mm[i].doms[k].first == name) { mm[i].doms.erase(mm[i].doms.begin() + k); break; }
            break;
        }
        case REMOVE_PTR: {
            int i = pick_mesh(A(0)); if (i < 0) break;
            const BaseDomain * d = nullptr; size_t k = 0; bool expect = false;
            if ((a[3] & 3) && !mm[i].doms.empty()) { k = (size_t) A(2) % mm[i].doms.size(); d = mm[i].doms[k].second.p; expect = d != nullptr; }
            else if (a[3] & 4) { int o = pick_orph(A(1)); if (o >= 0) d = g_orph[o]; }
            else { int j = pick_mesh(A(1)); if (j >= 0 && j != i && !mm[j].doms.empty()) d = mm[j].doms[0].second.p; }
            bool r = false;
            attempt("remove(pointer)", false, [&] { r = mesh(i)->remove(d); });
            if (r != expect) violation("wrong-result", "remove(pointer) returned %d instead of %d", r, expect);
            if (expect) mm[i].doms.erase(mm[i].doms.begin() + k);
            break;
        }
        case DEL_ORPHAN: { int o = pick_orph(A(0)); if (o >= 0) kill_orph(o); break; }
        case COPY_MESH: {
            int i = pick_mesh(A(0)), j = (int) (A(1) % NM); if (i < 0 || i == j) break; if (g_mesh[j]) kill_mesh(j);
            attempt("mesh copy", false, [&] { g_mesh[j] = new M(*mesh(i)); });
            mm[j] = mm[i]; for (auto & d : mm[j].doms) d.second.p = nullptr; break;
        }
        case MOVE_MESH: {
            int i = pick_mesh(A(0)), j = (int) (A(1) % NM); if (i < 0 || i == j) break; if (g_mesh[j]) kill_mesh(j);
            attempt("mesh move", false, [&] { g_mesh[j] = new M(std::move(*mesh(i))); });
            mm[j] = mm[i]; mm[i].moved = true; if (a[2] & 1) kill_mesh(i); break;
        }
        case ASSIGN_COPY: case ASSIGN_MOVE: {
            int i = pick_mesh(A(0)), j = (int) (A(1) % NM); if (i < 0 || !g_mesh[j] || (i == j && p.code == ASSIGN_MOVE)) break;
            attempt("mesh assignment", false, [&] { if (p.code == ASSIGN_COPY) *mesh(j) = *mesh(i); else *mesh(j) = std::move(*mesh(i)); });
            if (i == j) { for (auto & d : mm[j].doms) d.second.p = nullptr; break; }
            mm[j] = mm[i]; mm[j].moved = false;
            if (p.code == ASSIGN_COPY) { for (auto & d : mm[j].doms) d.second.p = nullptr; } else { mm[i].moved = true; if (a[2] & 1) kill_mesh(i); }
            break;
        }
        case SWAP_MESH: {
            int i = pick_mesh(A(0)), j = pick_mesh(A(1)); if (i < 0 || j < 0) break;
            attempt("mesh swap", false, [&] { using std::swap; swap(*mesh(i), *mesh(j)); });
            if (i != j) std::swap(mm[i], mm[j]); break;
        }
        case CLONE_DOM: case COPY_DOM: {
            int o = free_orph(); if (o < 0) break; const MDom * src = nullptr; const BaseDomain * s = nullptr;
            int q = pick_orph(A(1)), i = pick_mesh(A(0));
            if ((a[3] & 1) && q >= 0) { src = &mo[q]; s = g_orph[q]; } else if (i >= 0 && !mm[i].doms.empty()) { auto & d = mm[i].doms[(size_t) A(2) % mm[i].doms.size()]; src = &d.second; s = d.second.p; }
            if (!s) break;
            MDom d = *src;
            attempt(p.code == CLONE_DOM ? "domain clone" : "domain copy", false, [&] {
                if (p.code == CLONE_DOM) g_orph[o] = s->clone();
                else kinds<D>(d.kind, [&](auto k) { using Dom = typename decltype(k)::Dom; g_orph[o] = new Dom(*static_cast<const Dom *>(s)); });
            });
            d.p = nullptr; mo[o] = d; oalive[o] = true; break;
        }
        case MOVE_DOM: {
            int o = free_orph(), q = pick_orph(A(1)); if (o < 0 || q < 0) break;
            attempt("domain move", false, [&] { kinds<D>(mo[q].kind, [&](auto k) { using Dom = typename decltype(k)::Dom; g_orph[o] = new Dom(std::move(*static_cast<Dom *>(g_orph[q]))); }); });
            mo[o] = mo[q]; oalive[o] = true; kill_orph(q); break;
        }
        case SWAP_DOM: {
            int o = pick_orph(A(0)), q = -1; if (o < 0) break;
            for (int k = 0; k < NO; ++k) { int c = (int) ((A(1) + k) % NO); if (c != o && oalive[c] && mo[c].kind == mo[o].kind) { q = c; break; } }
            BaseDomain * other = q >= 0 ? g_orph[q] : nullptr; MDom * mq = q >= 0 ? &mo[q] : nullptr;
            if ((a[3] & 1)) { int i = pick_mesh(A(2)); if (i >= 0) for (auto & d : mm[i].doms) if (d.second.kind == mo[o].kind && d.second.p) {
                long mx = -1; for (auto v : mo[o].idx) mx = std::max(mx, v);
                if (mx < (long) mm[i].nodes.size() || mm[i].nodes.empty()) { other = d.second.p; mq = &d.second; } } }
            if (!other) break;
            attempt("domain swap", false, [&] { kinds<D>(mo[o].kind, [&](auto k) { using Dom = typename decltype(k)::Dom; using std::swap; swap(*static_cast<Dom *>(g_orph[o]), *static_cast<Dom *>(other)); }); });
            std::swap(mo[o].idx, mq->idx); std::swap(mo[o].rows, mq->rows); std::swap(mo[o].cols, mq->cols); break;
        }
        default: break;
        }
        disarm();
        verify();
    }
    void finish() {
        for (int i = 0; i < NM; ++i) if (g_mesh[i]) kill_mesh(i);
        for (int o = 0; o < NO; ++o) if (oalive[o]) kill_orph(o);
        check_leaks("leak");
    }
};

struct Registry : Workload {
    bool copies; Registry(bool c) : copies(c) {}
    const char * op_name(int c) override { return c >= 0 && c < NOPS ? opn[c] : "?"; }
    const char * rule() override { return "a run is a seeded history of 6..200 operations on up to 4 meshes and 6 free-standing domains of one dimension, with allocation failures at seeded allocation indices; after every operation all objects are compared with the reference model. Non-trivial: at least 4 operations; distinct: different execution hash."; }
    bool nontrivial(const Trace & t) override { return t.ops.size() >= 4; }
    void gen(Rng & r, Trace & t) override {
        t.cfg["dim"] = r.range(1, 5); t.cfg["reuse"] = r.chance(1, 3);
        bool many = r.chance(1, 40);      // a few runs with tens of domains per mesh
        int n = many ? (int) r.range(80, 200) : (int) r.range(6, r.chance(1, 4) ? 60 : 24), faultpct = r.chance(1, 4) ? 0 : (int) r.range(5, 60);
        static const int wa[] = {NEW_MESH, NEW_MESH, ADD_NAMED, ADD_NAMED, ADD_NAMED, ADD_NAMED, ADD_UNNAMED, ADD_UNNAMED, ADD_EXTERNAL, NEW_ORPHAN, NEW_ORPHAN, ATTACH_NAMED, ATTACH_NAMED, ATTACH_UNNAMED, REATTACH, REATTACH, REMOVE_NAME, REMOVE_NAME, REMOVE_PTR, REMOVE_PTR, LOOKUP, DEL_ORPHAN, DEL_MESH, COPY_MESH, CLONE_DOM};
        static const int wb[] = {NEW_MESH, ADD_NAMED, ADD_NAMED, ADD_NAMED, ADD_UNNAMED, ADD_EXTERNAL, NEW_ORPHAN, ATTACH_NAMED, ATTACH_UNNAMED, REMOVE_NAME, REMOVE_PTR, DEL_MESH, DEL_ORPHAN, COPY_MESH, COPY_MESH, COPY_MESH, MOVE_MESH, MOVE_MESH, ASSIGN_COPY, ASSIGN_COPY, ASSIGN_MOVE, SWAP_MESH, SWAP_MESH, CLONE_DOM, CLONE_DOM, COPY_DOM, COPY_DOM, MOVE_DOM, MOVE_DOM, SWAP_DOM};
        for (int i = 0; i < n; ++i) {
            Op o; o.id = i + 1;
            o.code = i == 0 ? (int) NEW_MESH : copies ? wb[r.below(sizeof wb / sizeof *wb)] : wa[r.below(sizeof wa / sizeof *wa)];
            if (many && i && r.chance(1, 2)) o.code = ADD_UNNAMED;
            for (auto & x : o.a) x = (int64_t) r.below(64);
            if (many && r.chance(3, 4)) o.a[0] = 0;
            o.a[3] = (int64_t) r.below(1 << 20);
            if ((int) r.below(100) < faultpct) { o.fail = r.chance(3, 4) ? r.range(1, 6) : r.range(1, 40); o.persist = r.chance(1, 3); }
            t.ops.push_back(o);
        }
    }
    template <int D, typename Real> void go(const Trace & t) {
        World<D, Real> w;
        for (auto & o : t.ops) { begin_op(o); w.op(o); end_op(); }
        Op fin; fin.id = 100000; begin_op(fin); w.finish(); end_op();
    }
    void exec(const Trace & t, Mode) override { set_reuse(t.get("reuse")); switch (t.get("dim")) { case 1: go<1, double>(t); break; case 2: go<2, double>(t); break; case 4: go<3, float>(t); break; case 5: go<2, float>(t); break; default: go<3, double>(t); } }
};
struct Reg { Reg() { register_workload("C04", new Registry(false)); register_workload("C05", new Registry(true)); } } reg;
}
