#pragma once
#include "scene.h"
#include "meshgen.h"
namespace sim {
template <typename E1, typename I1, typename E2, typename I2> struct Scene {
    static constexpr int D = E1::Dimension;
    using M = Mesh<D>; using D1 = Domain<E1, I1>; using D2 = Domain<E2, I2>; using BC = BarycentricContainer<D1>; using HG = HashGrid<E1>; using G = Grid<D>;
    M * mesh = nullptr; D1 * d1 = nullptr; D2 * d2 = nullptr; BC * bc = nullptr; HG * hg = nullptr; G * grid = nullptr;
    long nemb = 0; double lo[3], hi[3], cell = 0;
    ~Scene() { delete bc; delete hg; delete grid; delete mesh; }
    static void * make(uint64_t seed) {
        Scene * s; { s = new Scene(); }
        NodeSet ns; Elems e1, e2; Eigen::Matrix<double, Eigen::Dynamic, D, D == 1 ? Eigen::ColMajor : Eigen::RowMajor> pos, emb;
        {
            HostScope hs; Rng r(seed); int n[3] = {(int) r.range(1, 4), (int) r.range(1, 3), (int) r.range(1, 2)};
            e1 = gen_elems<E1>(ns, n, seed + 1, r.chance(1, 2) ? 0 : 30); e2 = gen_elems<E2>(ns, n, seed + 2, 40);
            Warp w(seed, D, quadratic<E1>() || quadratic<E2>() || D == 1 ? 0 : 0.05);
            for (int a = 0; a < D; ++a) s->cell = std::max(s->cell, w.A[a][a]);
            pos.resize((long) ns.nodes.size(), D); for (int a = 0; a < 3; ++a) { s->lo[a] = 1e9; s->hi[a] = -1e9; }
            for (size_t i = 0; i < ns.nodes.size(); ++i) { P3 p = w(ns.nodes[i], (long) i, D); for (int a = 0; a < D; ++a) { pos((long) i, a) = p.v[a]; s->lo[a] = std::min(s->lo[a], p.v[a]); s->hi[a] = std::max(s->hi[a], p.v[a]); } }
            s->nemb = r.range(1, 14); emb.resize(s->nemb, D);
            for (long i = 0; i < s->nemb; ++i) for (int a = 0; a < D; ++a) emb(i, a) = s->lo[a] + (s->hi[a] - s->lo[a]) * (1.3 * r.unit() - 0.15);
        }
        s->mesh = new M(pos);
        s->d1 = s->mesh->template add_domain<E1, I1>(std::string("first"), to_matrix<D1>(e1));
        s->d2 = s->mesh->template add_domain<E2, I2>(std::string("the second domain of this mesh, with a long name"), to_matrix<D2>(e2));
        s->bc = new BC(s->d1, emb);
        s->hg = new HG((0.3 + unit(seed, 5)) * s->cell);
        for (long i = 0; i < e1.rows(); ++i) s->hg->add(s->d1->element(i), i);
        typename G::WorldCoordinates an; typename G::Subdivisions su; typename G::Dimensions sz;
        for (int a = 0; a < D; ++a) { an[a] = unit(seed, 33) < .5 ? 0. : sym(seed, 30 + a); su[a] = 1 + (unsigned) (3 * unit(seed, 40 + a)); sz[a] = unit(seed, 34) < .5 ? (double) su[a] : 1 + unit(seed, 50 + a); }
        s->grid = new G(an, su, sz);
        return s;
    }
    typename E1::WorldCoordinates point(int64_t a, int64_t b) const {
        typename E1::WorldCoordinates p; uint64_t sd = (uint64_t) a * 6151 + 17;
        if (b % 5 == 0) { auto q = mesh->position((UNSIGNED_INTEGER_TYPE) (a % (int64_t) mesh->number_of_nodes())); for (int i = 0; i < D; ++i) p[i] = q[i]; }
        else for (int i = 0; i < D; ++i) p[i] = lo[i] + (hi[i] - lo[i]) * (1.2 * unit(sd, i) - .1);
        if (b % 5 == 4) p[0] += 1e-4;
        return p;
    }
    template <typename Dom> void q_dom(const Dom * d, int q, const int64_t * a, Out & o) const {
        auto A = [&](int k) { return a[k] < 0 ? -a[k] : a[k]; };
        long ne = (long) d->number_of_elements(); UNSIGNED_INTEGER_TYPE e = (UNSIGNED_INTEGER_TYPE) (ne ? A(4) % ne : 0);
        using E = typename Dom::ElementType;
        switch (q) {
        case SQ_DOM_NUMBERS: o.d((double) ne); o.d((double) d->number_of_nodes_per_elements()); o.d((double) d->canonical_dimension()); o.d(d->mesh() == mesh); break;
        case SQ_ELEM_INDICES: if (ne) { auto i = d->element_indices(e); for (long k = 0; k < (long) i.size(); ++k) o.d((double) i[k]); } break;
        case SQ_ELEMENT: if (ne) { auto el = d->element(e); auto n = el.nodes(); o.mat(n); } break;
        case SQ_ELEMENT_POS: if (ne) { Eigen::Matrix<double, Eigen::Dynamic, D, D == 1 ? Eigen::ColMajor : Eigen::RowMajor> p((long) mesh->number_of_nodes(), D); for (long i = 0; i < p.rows(); ++i) for (int k = 0; k < D; ++k) p(i, k) = sym((uint64_t) A(5), (int) (i * 3 + k)); auto el = d->element(e, p); auto n = el.nodes(); o.mat(n); } break;
        case SQ_ELEMENT_USE: if (ne) { auto el = d->element(e); query_elem(el, (int) (EQ_NODE + A(6) % (EQ_EXTRA - EQ_NODE)), a, o); } break;
        case SQ_CLONE: if constexpr (true) { std::unique_ptr<BaseDomain> c(d->clone()); o.d((double) c->number_of_elements()); if (ne) { auto i = static_cast<const Dom *>(c.get())->element_indices(e); for (long k = 0; k < (long) i.size(); ++k) o.d((double) i[k]); } } break;
        }
        (void) sizeof(E);
    }
    static void put_bary(Out & o, const typename BC::BarycentricPoint & p) { o.d((double) p.element_index); o.mat(p.local_coordinates); }
    static void query(const void * vs, int q, const int64_t * a, Out & o) {
        const Scene & s = *(const Scene *) vs; const M & m = *s.mesh; const G & g = *s.grid;
        auto A = [&](int k) { return a[k] < 0 ? -a[k] : a[k]; };
        long nn = (long) m.number_of_nodes();
        typename G::WorldCoordinates gp; { auto h = g.size(); for (int i = 0; i < D; ++i) gp[i] = g.anchor_position()[i] + (a[3] % 3 == 0 ? g.H()[i] * (double) (A(2) * (i + 1) % 3) : h[i] * unit((uint64_t) A(2) + 1, i)); }
        switch (q) {
        case SQ_MESH_NUMBERS: o.d((double) nn); o.d((double) m.number_of_domains()); o.d((double) m.dimension()); break;
        case SQ_NODE: { auto n = m.node((UNSIGNED_INTEGER_TYPE) (A(4) % nn)); o.mat(n); break; }
        case SQ_POSITION: { auto n = m.position((UNSIGNED_INTEGER_TYPE) (A(4) % nn)); for (int i = 0; i < D; ++i) o.d(n[i]); break; }
        case SQ_POSITIONS_VEC: { std::vector<int> v; for (int i = 0; i < 1 + (int) (A(5) % 9); ++i) v.push_back((int) ((A(4) + i * 3) % nn)); auto p = m.positions(v); o.mat(p); break; }
        case SQ_POSITIONS_EIGEN: { Eigen::Matrix<int, Eigen::Dynamic, 1> v(1 + A(5) % 9); for (long i = 0; i < v.size(); ++i) v[i] = (int) ((A(4) + i * 5) % nn); auto p = m.positions(v); o.mat(p); break; }
        case SQ_POSITIONS_ARR: { unsigned v[3] = {(unsigned) (A(4) % nn), (unsigned) (A(5) % nn), (unsigned) (A(6) % nn)}; auto p = m.positions(v); o.mat(p); break; }
        case SQ_DOMAINS: { auto l = m.domains(); o.d((double) l.size()); for (auto & x : l) { for (char c : x.first) o.d(c); o.d(x.second == s.d1 ? 1 : x.second == s.d2 ? 2 : 3); } break; }
        case SQ_DOMAIN_NAME: { static const char * const n[] = {"first", "the second domain of this mesh, with a long name", "absent", ""}; const BaseDomain * d = m.domain(std::string(n[A(4) % 4])); o.d(d == s.d1 ? 1 : d == s.d2 ? 2 : d == nullptr ? 0 : 3); break; }
        case SQ_DOMAIN_IDX: { const BaseDomain * d = m.domain((UNSIGNED_INTEGER_TYPE) (A(4) % 2)); o.d(d == s.d1 ? 1 : d == s.d2 ? 2 : 3); break; }
        case SQ_DOM_NUMBERS: case SQ_ELEM_INDICES: case SQ_ELEMENT: case SQ_ELEMENT_POS: case SQ_ELEMENT_USE: case SQ_CLONE: if (A(7) & 1) s.q_dom(s.d1, q, a, o); else s.q_dom(s.d2, q, a, o); break;
        case SQ_MESH_COPY: { M c(m); o.d((double) c.number_of_nodes()); o.d((double) c.number_of_domains()); auto n = c.node((UNSIGNED_INTEGER_TYPE) (A(4) % nn)); o.mat(n); o.d((double) c.domain(0)->number_of_elements()); o.d(c.domain(1)->mesh() == &c); break; }
        case SQ_EMBED: { Eigen::Matrix<double, Eigen::Dynamic, D, D == 1 ? Eigen::ColMajor : Eigen::RowMajor> p(1 + A(5) % 4, D); for (long i = 0; i < p.rows(); ++i) { auto x = s.point(A(2) + i, a[3]); for (int k = 0; k < D; ++k) p(i, k) = x[k]; } auto b = s.d1->embed(p); for (auto & x : b.barycentric_points()) put_bary(o, x); for (auto i : b.outside_nodes()) o.d((double) i); break; }
        case SQ_EMBED_BAD: { Eigen::MatrixXd p(2, D + 1); p.setZero(); bool thrown = false; try { auto b = s.d1->embed(p); } catch (const std::bad_alloc &) { throw; } catch (const std::exception &) { thrown = true; } o.d(thrown); break; }
        case SQ_BARY_POINTS: for (auto & x : s.bc->barycentric_points()) put_bary(o, x); break;
        case SQ_OUTSIDE: for (auto i : s.bc->outside_nodes()) o.d((double) i); o.d(-1); break;
        case SQ_BARY_POINT: put_bary(o, s.bc->barycentric_point(s.point(A(2), a[3]))); break;
        case SQ_CLOSEST: { auto l = s.bc->closest_elements(s.point(A(2), a[3])); for (auto & x : l) put_bary(o, x); break; }
        case SQ_INTERP1: { Eigen::VectorXd f(nn), r(s.nemb); for (long i = 0; i < nn; ++i) f[i] = sym((uint64_t) A(5), (int) i); r.setConstant(77); s.bc->interpolate(f, r); o.mat(r); break; }
        case SQ_INTERP3: { Eigen::Matrix<double, Eigen::Dynamic, 3> f(nn, 3), r(s.nemb, 3); for (long i = 0; i < nn; ++i) for (int k = 0; k < 3; ++k) f(i, k) = sym((uint64_t) A(5), (int) i * 3 + k); r.setConstant(77); s.bc->interpolate(f, r); o.mat(r); break; }
        case SQ_INTERP_BAD: { Eigen::VectorXd f(nn + (A(5) & 1)), r(s.nemb + 1 - (A(5) & 1)); f.setOnes(); r.setConstant(5); bool t = false; try { s.bc->interpolate(f, r); } catch (const std::bad_alloc &) { throw; } catch (const std::exception &) { t = true; } o.d(t); o.mat(r); break; }
        case SQ_HASH_GET: { auto l = s.hg->get(s.point(A(2), a[3])); for (auto i : l) o.d((double) i); break; }
        case SQ_GRID_NUMBERS: { o.d((double) g.number_of_cells()); o.d((double) g.number_of_nodes()); const auto & an = g.anchor_position(); o.mat(an); const auto & n = g.N(); o.mat(n); auto h = g.H(); o.mat(h); auto z = g.size(); o.mat(z); if constexpr (D > 1) o.d((double) g.number_of_edges()); if constexpr (D > 2) o.d((double) g.number_of_faces()); break; }
        case SQ_GRID_CELL_AT_POINT: { o.d(g.contains(gp)); o.d((double) g.cell_index_containing(gp, true)); o.d((double) g.cell_index_containing(gp, false)); break; }
        case SQ_GRID_AROUND: for (auto c : g.cells_around(gp)) o.d((double) c); o.d(-1); break;
        case SQ_GRID_ENCLOSING: { typename G::WorldCoordinates p2 = gp, p3 = gp; for (int i = 0; i < D; ++i) { p2[i] = g.anchor_position()[i] + g.size()[i] * unit((uint64_t) A(5) + 9, i); p3[i] = g.anchor_position()[i] + g.size()[i] * unit((uint64_t) A(6) + 19, i); } auto l = (A(4) & 1) ? g.cells_enclosing(gp, p2, p3) : g.cells_enclosing(gp, p2); for (auto c : l) o.d((double) c); o.d(-1); break; }
        case SQ_GRID_NODE: { auto i = (typename G::NodeIndex) (A(4) % (int64_t) g.number_of_nodes()); auto x = g.node(i); o.mat(x); auto c = g.node_coordinates_at(i); o.mat(c); o.d((double) g.node_index_at(c)); break; }
        case SQ_GRID_CELL: { auto i = (typename G::CellIndex) (A(4) % (int64_t) g.number_of_cells()); auto e = g.cell_at(i); auto n = e.nodes(); o.mat(n); query_elem(e, (int) (EQ_NODE + A(6) % (EQ_EXTRA - EQ_NODE)), a, o); break; }
        case SQ_GRID_INDICES: { auto i = (typename G::CellIndex) (A(4) % (int64_t) g.number_of_cells()); for (auto k : g.node_indices_of(i)) o.d((double) k); auto c = g.cell_coordinates_at(i); o.mat(c); o.d((double) g.cell_index_at(c)); break; }
        case SQ_GRID_EDGE: if constexpr (D > 1) { auto e = g.edge((typename G::EdgeIndex) (A(4) % (int64_t) g.number_of_edges())); for (auto k : e) o.d((double) k); } break;
        case SQ_GRID_FACE: if constexpr (D > 2) { auto e = g.face((typename G::FaceIndex) (A(4) % (int64_t) g.number_of_faces())); for (auto k : e) o.d((double) k); } break;
        case SQ_GRID_COORDS: { auto c = g.cell_coordinates_at((typename G::CellIndex) (A(4) % (int64_t) g.number_of_cells())); auto e = g.cell_at(c); auto n = e.nodes(); o.mat(n); for (auto k : g.node_indices_of(c)) o.d((double) k); o.d(g.contains(gp, 0.25)); break; }
        case SQ_BASE: { const BaseMesh & b = m; o.d((double) b.dimension()); o.d((double) b.number_of_nodes()); o.d((double) b.number_of_domains()); auto x = b.node((UNSIGNED_INTEGER_TYPE) (A(4) % nn)); o.mat(x); const BaseDomain * d = m.domain((UNSIGNED_INTEGER_TYPE) (A(5) % 2)); o.d((double) d->canonical_dimension()); o.d((double) d->number_of_elements()); o.d((double) d->number_of_nodes_per_elements()); o.d(d->mesh() == &b); break; }
        default: break;
        }
    }
};
template <typename S> void add_scene(const char * name) { SceneVT v; v.name = name; v.dim = S::D; v.make = &S::make; v.destroy = [](void * p) { delete (S *) p; }; v.query = &S::query; add_scene_type(v); }
}
