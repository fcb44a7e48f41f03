// C06: histories of embeddings, interpolations and hash-grid insertions on one mesh, with allocation failures, against a
// reference embedding known by construction of the mesh (points are generated inside a known element, or outside all).
#pragma once
#include "meshgen.h"
#include "embed.h"
namespace sim {
static void * volatile ge_mesh; static void * ge_bc[3]; static void * ge_hg[2];     // roots for the leak check
template <typename E, typename I> struct EmbedWorld {
    static constexpr int D = E::Dimension, C = E::CanonicalDimension, N = E::NumberOfNodesAtCompileTime;
    static constexpr bool surface = C < D;
    using M = Mesh<D>; using Dom = Domain<E, I>; using BC = BarycentricContainer<Dom>; using HG = HashGrid<E>;
    using Pts = Eigen::Matrix<double, Eigen::Dynamic, D, D == 1 ? Eigen::ColMajor : Eigen::RowMajor>;
    enum Cls { INSIDE, OUTSIDE, ANY, SHARED };                     // SHARED: on a face, an edge or a node of an element
    struct Pt { Cls c; long e; double xi[3]; double x[3]; };
    struct Emb { bool alive = false; std::vector<Pt> pts; std::vector<long> idx; std::vector<std::array<double, 3>> loc; std::vector<unsigned long long> out; };
    struct Hash { bool alive = false; double size = 1; std::map<long, int> ins; };    // element -> 1 partially, 2 fully inserted
    M * mesh = nullptr; Dom * dom = nullptr; Dom * empty = nullptr; Elems el; NodeSet ns; std::vector<std::array<double, 3>> pos; double lo[3], hi[3]; double diam = 1;
    std::map<std::array<int, 3>, bool> present; int ncell[3]; Warp warp; Emb emb[3]; Hash hash[2];
    EmbedWorld(uint64_t seed) : warp(seed, D, quadratic<E>() || D == 1 || surface ? 0 : 0.05) {
        Rng r(seed); ncell[0] = (int) r.range(1, 4); ncell[1] = C > 1 ? (int) r.range(1, 3) : 1; ncell[2] = C > 2 ? (int) r.range(1, 2) : 1;
        if (unit(seed, 7) < .01) { ncell[0] = C == 1 ? 300 : C == 2 ? 16 : 9; ncell[1] = C == 1 ? 1 : C == 2 ? 18 : 6; ncell[2] = C > 2 ? (is_tet<E>::value ? 1 : 6) : 1; }     // more than 256 elements
        el = gen_elems<E>(ns, ncell, seed + 1, r.chance(1, 2) ? 0 : 35);
        for (auto & c : el.cell) present[c] = true;
        if constexpr (surface) if (unit(seed, 3) < .5) warp.aligned(D);
        for (int a = 0; a < 3; ++a) { lo[a] = 1e9; hi[a] = -1e9; }
        for (size_t i = 0; i < ns.nodes.size(); ++i) { P3 p = warp(ns.nodes[i], (long) i, D); pos.push_back({p.v[0], p.v[1], p.v[2]}); for (int a = 0; a < D; ++a) { lo[a] = std::min(lo[a], p.v[a]); hi[a] = std::max(hi[a], p.v[a]); } }
        diam = 0; for (int a = 0; a < D; ++a) diam = std::max(diam, hi[a] - lo[a]);
        Pts p((long) pos.size(), D); for (size_t i = 0; i < pos.size(); ++i) for (int a = 0; a < D; ++a) p((long) i, a) = pos[i][a];
        typename Dom::ElementsIndices none(0, N); auto idx = to_matrix<Dom>(el);
        in([&] { mesh = new M(p); ge_mesh = mesh; dom = mesh->template add_domain<E, I>(std::string("volume"), idx); empty = mesh->template add_domain<E, I>(std::string("empty"), none); });
        if (!empty) harness_error("scene construction failed");
    }
    E element(long e) const { Eigen::Matrix<double, N, D, (D == 1 ? Eigen::ColMajor : Eigen::RowMajor)> n; for (int k = 0; k < N; ++k) for (int a = 0; a < D; ++a) n(k, a) = pos[(size_t) el.idx[(size_t) (e * N + k)]][a]; return E(n); }
    bool affine() const { return !surface && warp.jit == 0; }       // one step then finds local coordinates to rounding; a point within 1e-5 of the start of the iterations is taken for it
    Pt gen_point(Rng & r) {
        Pt p; memset(&p, 0, sizeof p); int k = (int) r.below(11);
        double close = affine() && r.chance(1, 2) ? std::pow(10., -.7 - 3 * r.unit()) : 0;     // how close to the surface of an element
        auto lattice = [&](double a, double b, double c) { P3 q; q.v[0] = a; q.v[1] = C > 1 ? b : 0; q.v[2] = C > 2 ? c : 0; P3 w = warp(q, -1, D); for (int i = 0; i < 3; ++i) p.x[i] = w.v[i]; };
        if (k == 10) {
            if (surface || warp.jit != 0) return gen_point(r);
            p.c = SHARED; p.e = (long) r.below((uint64_t) el.rows()); typename E::LocalCoordinates xi; int left = 4;
            for (int i = 0; i < C; ++i) { if (is_simplex<E>::value) { int q = (int) r.below((uint64_t) left + 1); if (r.chance(1, 2)) q = r.chance(1, 2) ? 0 : left; left -= q; xi[i] = q / 4.; } else xi[i] = (double[]) {-1, 1, -1, 1, 0, .5}[r.below(6)]; }
            if (!is_simplex<E>::value) xi[(long) r.below((uint64_t) C)] = r.chance(1, 2) ? 1 : -1; else if (left) xi[(long) r.below((uint64_t) C)] = 0;
            for (int i = 0; i < C; ++i) p.xi[i] = xi[i];
            auto x = element(p.e).world_coordinates(xi); for (int i = 0; i < D; ++i) p.x[i] = x[i];
        } else if (k < 5) {
            p.c = INSIDE; p.e = (long) r.below((uint64_t) el.rows()); typename E::LocalCoordinates xi;
            if (is_simplex<E>::value) { double s = 0, w[4]; for (int i = 0; i <= C; ++i) { w[i] = 0.06 + r.unit(); s += w[i]; } if (close) { int i = (int) r.below(C + 1); s -= w[i]; w[i] = close * s; s += w[i]; } for (int i = 0; i < C; ++i) xi[i] = w[i] / s; }
            else for (int i = 0; i < C; ++i) xi[i] = 0.94 * (2 * r.unit() - 1);
            if (close && !is_simplex<E>::value) xi[(long) r.below((uint64_t) C)] = r.chance(1, 2) ? 1 - close : close - 1;
            if (close) ; else
            if (r.chance(1, 6)) for (int i = 0; i < C; ++i) xi[i] = is_simplex<E>::value ? 0.25 : 0;
            else if (!is_simplex<E>::value && r.chance(1, 3)) { for (int i = 0; i < C; ++i) if (r.chance(1, 2)) xi[i] = (double[]) {0, 0, .5, -.5}[r.below(4)]; }
            else if (r.chance(1, 4)) { double v[] = {.25, .25, .25}; v[r.below((uint64_t) C)] = .125; for (int i = 0; i < C; ++i) xi[i] = is_simplex<E>::value ? v[i] : xi[i]; }
            for (int i = 0; i < C; ++i) p.xi[i] = xi[i];
            auto x = element(p.e).world_coordinates(xi); for (int i = 0; i < D; ++i) p.x[i] = x[i];
            // a flat element: the point is on it exactly, whatever the rounding of the shape functions
            for (int i = 0; i < D; ++i) { bool flat = true; double v = pos[(size_t) el.idx[(size_t) (p.e * N)]][i]; for (int k = 1; k < N; ++k) if (pos[(size_t) el.idx[(size_t) (p.e * N + k)]][i] != v) flat = false; if (flat) p.x[i] = v; }
        } else if (k < 7) {           // beside the mesh
            p.c = OUTSIDE; p.e = -1; double q[3]; for (int i = 0; i < 3; ++i) q[i] = ncell[i] * r.unit(); int ax = (int) r.below(C); double away = close ? close : 0.25 + 2 * r.unit(); q[ax] = r.chance(1, 2) ? -away : ncell[ax] + away; lattice(q[0], q[1], q[2]);
        } else if (k < 8) {           // in a hole of the mesh, when there is one
            std::vector<std::array<int, 3>> holes; for (int a = 0; a < ncell[0]; ++a) for (int b = 0; b < ncell[1]; ++b) for (int c = 0; c < ncell[2]; ++c) if (!present.count({a, b, c})) holes.push_back({a, b, c});
            if (holes.empty()) return gen_point(r);
            auto h = holes[r.below(holes.size())]; p.c = OUTSIDE; p.e = -1; double q[3]; for (int i = 0; i < 3; ++i) q[i] = h[(size_t) i] + 0.25 + 0.5 * r.unit(); if (close) { int i = (int) r.below((uint64_t) C); q[i] = h[(size_t) i] + (r.chance(1, 2) ? close : 1 - close); } lattice(q[0], q[1], q[2]);
        } else if (k < 9) { p.c = ANY; auto & n = pos[r.below(pos.size())]; for (int i = 0; i < D; ++i) p.x[i] = n[i]; }
        else { p.c = OUTSIDE; p.e = -1; for (int i = 0; i < D; ++i) p.x[i] = hi[i] + diam * (1 + 40 * r.unit()); }
        return p;
    }
    std::vector<Pt> gen_points(long n, uint64_t seed) { Rng r(seed); std::vector<Pt> v; for (long i = 0; i < n; ++i) v.push_back(gen_point(r)); return v; }
    typename E::WorldCoordinates wc(const Pt & p) { typename E::WorldCoordinates x; for (int i = 0; i < D; ++i) x[i] = p.x[i]; return x; }
    BC * bc(int i) { return (BC *) ge_bc[i]; } HG * hg(int i) { return (HG *) ge_hg[i]; }

    // one located (or not) point against the reference
    void check_point(const Pt & p, long idx, const double * loc, const char * what, long i) {
        if (idx >= el.rows() || idx < -1) violation("wrong-embedding", "%s: point %ld is located in element %ld of %ld", what, i, idx, el.rows());
        if ((p.c == INSIDE || p.c == SHARED) && idx < 0) violation("point-not-found", "%s: point %ld (%.17g %.17g %.17g) lies inside element %ld at local coordinates (%g %g %g) but was not located", what, i, p.x[0], p.x[1], p.x[2], p.e, p.xi[0], p.xi[1], p.xi[2]);
        if (p.c == OUTSIDE && idx >= 0) violation("wrong-embedding", "%s: point %ld lies outside of the domain but was located in element %ld", what, i, idx);
        if (p.c == INSIDE && idx != p.e) violation("wrong-embedding", "%s: point %ld lies inside element %ld but was located in element %ld", what, i, p.e, idx);
        if (p.c == INSIDE) for (int a = 0; a < C; ++a) if (!(std::fabs(loc[a] - p.xi[a]) < 5e-4)) violation("wrong-embedding", "%s: local coordinate %d of point %ld is %g instead of %g", what, a, i, loc[a], p.xi[a]);
        if (idx >= 0) { typename E::LocalCoordinates xi; for (int a = 0; a < C; ++a) xi[a] = loc[a]; auto x = element(idx).world_coordinates(xi); for (int a = 0; a < D; ++a) if (!(std::fabs(x[a] - p.x[a]) < (affine() && p.c != ANY ? 1.1e-5 + 1e-9 * diam : 1e-3 * (1 + diam)))) violation("wrong-embedding", "%s: the local coordinates of point %ld do not map back to it (%g instead of %g)", what, i, x[a], p.x[a]); }
        if (p.c == SHARED && idx >= 0) { double sum = 0; for (int a = 0; a < C; ++a) { sum += loc[a]; if (!(loc[a] <= 1 + 1e-6 && loc[a] >= (is_simplex<E>::value ? 0 : -1) - 1e-6)) violation("wrong-embedding", "%s: point %ld was located in element %ld, which does not contain it", what, i, idx); } if (is_simplex<E>::value && !(sum <= 1 + 1e-6)) violation("wrong-embedding", "%s: point %ld was located in element %ld, which does not contain it", what, i, idx); }
    }
    void snapshot(int s, Emb & m, const char * what, bool first) {
        std::vector<long> idx; std::vector<std::array<double, 3>> loc; std::vector<unsigned long long> out;
        { SimScope sc; for (auto & b : bc(s)->barycentric_points()) { long e = (long) b.element_index; std::array<double, 3> l{0, 0, 0}; for (int a = 0; a < C; ++a) l[a] = b.local_coordinates[a]; HostScope h; idx.push_back(e); loc.push_back(l); } for (auto o : bc(s)->outside_nodes()) { HostScope h; out.push_back(o); } }
        if (idx.size() != m.pts.size()) violation("wrong-embedding", "%s: %zu points instead of %zu", what, idx.size(), m.pts.size());
        if (first) {
            std::vector<unsigned long long> exp;
            for (size_t i = 0; i < idx.size(); ++i) { check_point(m.pts[i], idx[i], loc[i].data(), what, (long) i); if (idx[i] < 0) exp.push_back(i); }
            if (exp != out) violation("wrong-outside-list", "%s: the list of outside points has %zu entries instead of the %zu points that were not located, or another order", what, out.size(), exp.size());
            m.idx = idx; m.loc = loc; m.out = out;
        } else if (idx != m.idx || loc != m.loc || out != m.out) violation("embedding-changed", "%s: the embedding is not what it was when it was built", what);
    }
    void verify() {
        { SimScope s;
          if ((size_t) mesh->number_of_nodes() != pos.size() || mesh->number_of_domains() != 2 || (long) dom->number_of_elements() != el.rows() || dom->mesh() != mesh) violation("mesh-changed", "the mesh is not what it was");
          for (size_t i = 0; i < pos.size(); ++i) { auto p = mesh->position(i); for (int a = 0; a < D; ++a) if (p[a] != pos[i][a]) violation("mesh-changed", "node %zu of the mesh moved", i); }
          for (long e = 0; e < el.rows(); ++e) { auto id = dom->element_indices(e); for (int k = 0; k < N; ++k) if ((long) id[k] != el.idx[(size_t) (e * N + k)]) violation("mesh-changed", "element %ld of the domain changed", e); } }
        uint64_t h = 3; for (int s = 0; s < 3; ++s) if (emb[s].alive) { snapshot(s, emb[s], "existing embedding", false); h = h * 131 + emb[s].idx.size() * 7 + emb[s].out.size(); }
        for (auto & x : hash) if (x.alive) h = h * 137 + x.ins.size(); state(h * 31 + (uint64_t) el.rows());
    }
    template <typename F> bool attempt(const char * what, bool expect_refusal, F && f, const std::function<void()> & on_failure = nullptr) {
        for (int tries = 0;; ++tries) {
            Outcome o = in(f);
            if (o.ok()) { disarm(); if (expect_refusal) violation("not-refused", "%s was accepted although it must be refused", what); return true; }
            if (fault_fired() && tries == 0 && (o.k == Outcome::BAD_ALLOC || expect_refusal)) { disarm(); probe((std::string("alloc failure in ") + what).c_str()); if (on_failure) on_failure(); verify(); check_leaks("leak-on-failure"); continue; }
            if (expect_refusal && o.k != Outcome::BAD_ALLOC && o.k != Outcome::OTHER) { disarm(); probe((std::string("refused: ") + what).c_str()); return false; }
            violation("unexpected-failure", "%s failed with %s (%s)", what, o.type.c_str(), o.what.c_str());
        }
    }
    void drop(int s) { if (!ge_bc[s]) return; in([&] { delete bc(s); }); ge_bc[s] = nullptr; emb[s] = Emb(); }
    void op(const Op & p) {
        auto A = [&](int k) { return p.a[k] < 0 ? -p.a[k] : p.a[k]; };
        int s = (int) (A(0) % 3), hs = (int) (A(0) % 2);
        switch (p.code) {
        case EM_EMBED: {
            drop(s); long n = A(1) % 24; if (A(4) % 7 == 0) n = 0; auto pts = gen_points(n, (uint64_t) p.a[3]);
            Pts m(n, D); for (long i = 0; i < n; ++i) for (int a = 0; a < D; ++a) m(i, a) = pts[(size_t) i].x[a];
            Eigen::MatrixXd dyn = m; int v = (int) (A(5) % 4);
            attempt("embedding", false, [&] { if (v == 0) ge_bc[s] = new BC(dom->embed(m)); else if (v == 1) ge_bc[s] = new BC(dom, m); else if (v == 2) ge_bc[s] = new BC(dom, dyn); else ge_bc[s] = new BC(dom->embed(dyn)); });
            emb[s].alive = true; emb[s].pts = pts; snapshot(s, emb[s], "new embedding", true); break;
        }
        case EM_EMBED_EMPTY: { Pts m(2, D); m.setZero(); BC * res = nullptr; attempt("embedding in an empty domain", true, [&] { res = new BC(empty, m); }); break; }
        case EM_EMBED_WRONG: { Eigen::MatrixXd m(1 + A(1) % 3, D == 3 || (A(2) & 1) ? D - 1 + (D == 1 ? 2 : 0) : D + 1); m.setZero(); BC * res = nullptr; attempt("embedding of points of another dimension", true, [&] { if (A(5) & 1) res = new BC(dom, m); else { auto x = dom->embed(m); (void) x; } }); break; }
        case EM_DROP: drop(s); break;
        case EM_MOVE: { int d = (int) (A(1) % 3); if (!emb[s].alive || d == s) break; drop(d); attempt("move of an embedding", false, [&] { ge_bc[d] = new BC(std::move(*bc(s))); }); emb[d] = emb[s]; drop(s); break; }
        case EM_INTERP: case EM_INTERP_BAD: {
            if (!emb[s].alive) break;
            long nn = (long) pos.size(), np = (long) emb[s].pts.size(); int cols = p.code == EM_INTERP || (A(2) % 3) ? (int[]) {1, 2, 3, 5}[A(1) % 4] : 2;
            double c0 = sym((uint64_t) p.a[3], 0), cc[3][5]; for (int a = 0; a < 3; ++a) for (int k = 0; k < 5; ++k) cc[a][k] = 2 * sym((uint64_t) p.a[3], 5 + a * 5 + k);
            long frow = nn, orow = np; int ocol = cols;
            if (p.code == EM_INTERP_BAD) switch (A(4) % 5) { case 0: frow = nn + 1; break; case 1: frow = nn - 1; break; case 2: orow = np + 1; break; case 3: if (np) orow = np - 1; else orow = 1; break; default: ocol = cols + 1; }
            Eigen::MatrixXd f(frow, cols), o(orow, ocol); for (long i = 0; i < frow; ++i) for (int k = 0; k < cols; ++k) { f(i, k) = c0; if (i < nn) for (int a = 0; a < D; ++a) f(i, k) += cc[a][k] * pos[(size_t) i][a]; }
            o.setConstant(1234.5);
            Eigen::VectorXd f1, o1; if (cols == 1) { f1 = f.col(0); if (ocol == 1) o1 = o.col(0); else o1.resize(0); }
            bool vec = cols == 1 && ocol == 1;
            auto go = [&] { if (vec) bc(s)->interpolate(f1, o1); else if (cols == 3 && ocol == 3) { Eigen::Matrix<double, Eigen::Dynamic, 3> f3 = f, o3 = o; try { bc(s)->interpolate(f3, o3); } catch (...) { HostScope h; o = o3; throw; } HostScope h; o = o3; } else bc(s)->interpolate(f, o); };
            if (p.code == EM_INTERP_BAD) {
                attempt("interpolation of mismatched fields", true, go, nullptr);
                for (long i = 0; i < orow; ++i) for (int k = 0; k < ocol; ++k) if ((vec ? o1[i] : o(i, k)) != 1234.5) violation("wrote-on-refusal", "a refused interpolation wrote row %ld of its output", i);
            } else {
                attempt("interpolation", false, go, nullptr);
                for (long i = 0; i < np; ++i) for (int k = 0; k < cols; ++k) {
                    double v = vec ? o1[i] : o(i, k);
                    if (emb[s].idx[(size_t) i] < 0) { if (v != 1234.5) violation("wrote-outside-row", "interpolation wrote the row of point %ld, which is outside of the domain", i); continue; }
                    double e = c0; for (int a = 0; a < D; ++a) e += cc[a][k] * emb[s].pts[(size_t) i].x[a];
                    if (!(std::fabs(v - e) < 1e-2 * (1 + diam))) violation("wrong-interpolation", "interpolation of a linear field at point %ld gives %g instead of %g", i, v, e);
                    // and exactly what the shape functions at the stored location give
                    typename E::LocalCoordinates xi; for (int a = 0; a < C; ++a) xi[a] = emb[s].loc[(size_t) i][a]; auto x = element(emb[s].idx[(size_t) i]).world_coordinates(xi); double e2 = c0; for (int a = 0; a < D; ++a) e2 += cc[a][k] * x[a];
                    if (!(std::fabs(v - e2) < 1e-8 * (1 + std::fabs(e2)))) violation("wrong-interpolation", "interpolation of a linear field at the location of point %ld gives %.12g instead of %.12g", i, v, e2);
                }
            }
            break;
        }
        case EM_POINT: {
            if (!emb[s].alive) break; Rng r((uint64_t) p.a[3]); Pt q = gen_point(r); auto x = wc(q); long idx = -2; double loc[3] = {0, 0, 0}; std::vector<std::pair<long, std::array<double, 3>>> cl;
            attempt("location of a point", false, [&] { auto b = bc(s)->barycentric_point(x); idx = (long) b.element_index; for (int a = 0; a < C; ++a) loc[a] = b.local_coordinates[a]; });
            check_point(q, idx, loc, "barycentric_point", 0);
            attempt("closest elements", false, [&] { auto l = bc(s)->closest_elements(x); HostScope h; cl.clear(); for (auto & b : l) { std::array<double, 3> a3{0, 0, 0}; for (int a = 0; a < C; ++a) a3[a] = b.local_coordinates[a]; cl.emplace_back((long) b.element_index, a3); } });
            bool found = false; for (size_t i = 0; i < cl.size(); ++i) { if (cl[i].first < 0 || cl[i].first >= el.rows()) violation("wrong-candidates", "closest_elements names element %ld of %ld", cl[i].first, el.rows()); for (size_t j = 0; j < i; ++j) if (cl[j].first == cl[i].first) violation("wrong-candidates", "closest_elements names element %ld twice", cl[i].first); if (q.c == INSIDE && cl[i].first == q.e) { found = true; for (int a = 0; a < C; ++a) if (!(std::fabs(cl[i].second[a] - q.xi[a]) < 2e-3)) violation("wrong-candidates", "closest_elements gives wrong local coordinates in the containing element"); } }
            if (q.c == INSIDE && !found) violation("wrong-candidates", "closest_elements misses element %ld which contains the point", q.e);
            break;
        }
        case EM_HASH_NEW: { in([&] { delete hg(hs); }); ge_hg[hs] = nullptr; hash[hs] = Hash(); double sz = (0.2 + 1.5 * unit((uint64_t) p.a[3], 1)); if (A(1) % 4 == 0) sz = 1; { double k = 0; for (int b = 0; b < D; ++b) k = std::max(k, warp.A[b][b]); sz *= k; } attempt("hash grid construction", false, [&] { ge_hg[hs] = (A(2) & 1) ? new HG(sz) : new HG(sz, (UNSIGNED_INTEGER_TYPE) (A(4) % 9)); }); hash[hs].alive = true; hash[hs].size = sz; break; }
        case EM_HASH_ADD: {
            if (!hash[hs].alive) break; long n = 1 + A(1) % el.rows();
            for (long k = 0; k < n; ++k) { long e = (A(2) + k) % el.rows(); E x = element(e); auto & st = hash[hs].ins[e]; if (!st) st = 1; attempt("hash grid insertion", false, [&] { hg(hs)->add(x, (UNSIGNED_INTEGER_TYPE) e); }); st = 2; }
            break;
        }
        case EM_HASH_GET: {
            if (!hash[hs].alive) break; Rng r((uint64_t) p.a[3]); Pt q = gen_point(r); long node = -1; if (A(1) & 1) { node = (long) r.below(pos.size()); q.c = ANY; for (int i = 0; i < D; ++i) q.x[i] = pos[(size_t) node][i]; }
            auto x = wc(q); std::vector<long> c; attempt("hash grid query", false, [&] { auto l = hg(hs)->get(x); HostScope h; c.clear(); for (auto i : l) c.push_back((long) i); });
            for (auto i : c) if (!hash[hs].ins.count(i)) violation("wrong-candidates", "the hash grid returns element %ld which was never inserted", i);
            auto has = [&](long e) { for (auto i : c) if (i == e) return true; return false; };
            for (auto & i : hash[hs].ins) if (i.second == 2) {
                bool contains = q.c == INSIDE && q.e == i.first; if (node >= 0) for (int k = 0; k < N; ++k) if (el.idx[(size_t) (i.first * N + k)] == node) contains = true;
                if (contains && !has(i.first)) violation("wrong-candidates", "the hash grid misses element %ld which contains the point", i.first);
            }
            break;
        }
        default: break;
        }
        disarm(); verify();
    }
    void finish() { for (int s = 0; s < 3; ++s) drop(s); for (int h = 0; h < 2; ++h) { in([&] { delete hg(h); }); ge_hg[h] = nullptr; } in([&] { delete mesh; }); mesh = nullptr; ge_mesh = nullptr; check_leaks("leak"); }
};
template <typename E, typename I> void embed_run(const Trace & t) {
    auto * w = new EmbedWorld<E, I>((uint64_t) t.get("mesh"));
    for (auto & o : t.ops) { begin_op(o); w->op(o); end_op(); }
    Op fin; fin.id = 100000; begin_op(fin); w->finish(); end_op(); delete w;
}
}
