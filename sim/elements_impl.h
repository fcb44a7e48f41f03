#pragma once
#include "elements.h"
#include <Caribou/constants.h>
#include <Caribou/Geometry/Segment.h>
#include <Caribou/Geometry/Triangle.h>
#include <Caribou/Geometry/Quad.h>
#include <Caribou/Geometry/Tetrahedron.h>
#include <Caribou/Geometry/Hexahedron.h>
#include <Caribou/Geometry/RectangularQuad.h>
#include <Caribou/Geometry/RectangularHexahedron.h>
#include <Caribou/Algebra/Tensor.h>
#include <Caribou/Mechanics/Elasticity/Strain.h>
#include <Eigen/Geometry>
namespace sim {
using namespace caribou; using namespace caribou::geometry;
template <typename E> struct is_rect : std::false_type {};
template <UNSIGNED_INTEGER_TYPE D, UNSIGNED_INTEGER_TYPE O> struct is_rect<RectangularQuad<D, O>> : std::true_type {};
template <UNSIGNED_INTEGER_TYPE O> struct is_rect<RectangularHexahedron<O>> : std::true_type {};
template <typename E> struct is_rquad : std::false_type {};
template <UNSIGNED_INTEGER_TYPE D, UNSIGNED_INTEGER_TYPE O> struct is_rquad<RectangularQuad<D, O>> : std::true_type {};
template <typename E> struct is_hex : std::false_type {};
template <UNSIGNED_INTEGER_TYPE O> struct is_hex<RectangularHexahedron<O>> : std::true_type {};
template <UNSIGNED_INTEGER_TYPE O> struct is_hex<Hexahedron<O>> : std::true_type {};
template <typename E> struct is_simplex : std::false_type {};
template <UNSIGNED_INTEGER_TYPE D, UNSIGNED_INTEGER_TYPE O> struct is_simplex<Triangle<D, O>> : std::true_type {};
template <UNSIGNED_INTEGER_TYPE O> struct is_simplex<Tetrahedron<O>> : std::true_type {};
template <typename E> struct is_tri : std::false_type {};
template <UNSIGNED_INTEGER_TYPE D, UNSIGNED_INTEGER_TYPE O> struct is_tri<Triangle<D, O>> : std::true_type {};
template <typename E> struct is_quad : std::false_type {};
template <UNSIGNED_INTEGER_TYPE D, UNSIGNED_INTEGER_TYPE O> struct is_quad<Quad<D, O>> : std::true_type {};
template <typename E> struct is_tet : std::false_type {};
template <UNSIGNED_INTEGER_TYPE O> struct is_tet<Tetrahedron<O>> : std::true_type {};
template <typename E> struct is_seg : std::false_type {};
template <UNSIGNED_INTEGER_TYPE D, UNSIGNED_INTEGER_TYPE O> struct is_seg<Segment<D, O>> : std::true_type {};

// the type an element can be made from, besides its nodes: quadratic elements from linear ones, rectangular ones from general ones
template <typename E> struct source { using type = void; };
template <UNSIGNED_INTEGER_TYPE D> struct source<Segment<D, Quadratic>> { using type = Segment<D, Linear>; };
template <UNSIGNED_INTEGER_TYPE D> struct source<Triangle<D, Quadratic>> { using type = Triangle<D, Linear>; };
template <UNSIGNED_INTEGER_TYPE D> struct source<Quad<D, Quadratic>> { using type = Quad<D, Linear>; };
template <> struct source<Tetrahedron<Quadratic>> { using type = Tetrahedron<Linear>; };
template <> struct source<Hexahedron<Quadratic>> { using type = Hexahedron<Linear>; };
template <UNSIGNED_INTEGER_TYPE D, UNSIGNED_INTEGER_TYPE O> struct source<RectangularQuad<D, O>> { using type = Quad<D, O>; };
template <UNSIGNED_INTEGER_TYPE O> struct source<RectangularHexahedron<O>> { using type = Hexahedron<O>; };

template <int N> Eigen::Matrix<double, N, N> rotation(uint64_t s) {
    Eigen::Matrix<double, N, N> R = Eigen::Matrix<double, N, N>::Identity();
    if constexpr (N == 2) { double a = 3.1 * sym(s, 90); R << std::cos(a), -std::sin(a), std::sin(a), std::cos(a); }
    if constexpr (N == 3) { double a = 3.1 * sym(s, 90), b = 3.1 * sym(s, 91); Eigen::Matrix3d A, B; A << std::cos(a), -std::sin(a), 0, std::sin(a), std::cos(a), 0, 0, 0, 1; B << 1, 0, 0, 0, std::cos(b), -std::sin(b), 0, std::sin(b), std::cos(b); R = A * B; }
    return R;
}
// Seeds of one family (seed / 4) give elements that share their first nodes, their centre or their size, and differ in the
// rest: a result remembered under too small a key is then served to the wrong element.
template <typename E> E build(uint64_t seed_) {
    constexpr int D = E::Dimension, C = E::CanonicalDimension;
    const uint64_t seed = seed_ / 4; const int variant = (int) (seed_ % 4);
    typename E::WorldCoordinates t; for (int i = 0; i < D; ++i) t[i] = 3 * sym(seed, i);
    auto R = rotation<D>(seed + (is_rect<E>::value && variant == 1));
    if constexpr (is_rect<E>::value) {
        typename E::Size h; for (int i = 0; i < C; ++i) h[i] = 0.5 + 2 * unit(seed + (variant == 2), 10 + i);
        if (variant == 3) t[D - 1] += 0.25;
        return E(t, h, typename E::Rotation(R));
    } else {
        Eigen::Matrix<double, E::NumberOfNodesAtCompileTime, D, (D == 1 ? Eigen::ColMajor : Eigen::RowMajor)> n;
        auto canonical = E().nodes(); constexpr int N = E::NumberOfNodesAtCompileTime;
        for (int k = 0; k < N; ++k) {
            Eigen::Matrix<double, D, 1> x; x.setZero();
            for (int i = 0; i < C; ++i) x[i] = (double) (is_seg<E>::value ? (k == 0 ? -1. : k == 1 ? 1. : 0.) : 0.);
            if constexpr (!is_seg<E>::value) for (int i = 0; i < C; ++i) x[i] = canonical(k, i);
            for (int i = 0; i < C; ++i) x[i] *= 0.6 + unit(seed, 20 + i);
            const bool other = (variant == 1 && k == N - 1) || (variant == 2 && k > 0) || (variant == 3 && k == 0);
            x = R * x; for (int i = 0; i < D; ++i) n(k, i) = x[i] + t[i] + 0.04 * sym(seed + (other ? 77 : 0), 40 + k * 3 + i);
        }
        return E(n);
    }
}
template <typename E> typename E::LocalCoordinates local_point(int64_t a, int64_t b) {
    typename E::LocalCoordinates xi; uint64_t s = (uint64_t) a * 7919 + 5;
    if (a == 0) { xi.setZero(); }
    else for (int i = 0; i < (int) E::CanonicalDimension; ++i) xi[i] = is_simplex<E>::value ? unit(s, i) / 1.7 : 1.1 * sym(s, i);
    static const double tweak[] = {0, 0, 0, 1e-3, 1e-5, 1e-7, 0.1, -1e-3}; xi[0] += tweak[(b < 0 ? -b : b) % 8];
    return xi;
}
template <typename A> void put_indices(Out & o, const A & a) { for (const auto & b : a) { for (const auto & i : b) o.d((double) i); } }

template <typename E> void query_elem(const E & e, int q, const int64_t * a, Out & o) {
    constexpr int D = E::Dimension, N = E::NumberOfNodesAtCompileTime;
    auto A = [&](int k) { return a[k] < 0 ? -a[k] : a[k]; };
    typename E::LocalCoordinates xi = local_point<E>(A(2), a[3]);
    auto world = [&] { typename E::WorldCoordinates x; auto c = e.center(); for (int i = 0; i < D; ++i) x[i] = c[i] + 0.4 * sym((uint64_t) A(2) * 31 + 7, i); return x; };
    switch (q) {
    case EQ_NUMBERS: o.d((double) e.number_of_nodes()); o.d((double) e.number_of_gauss_nodes()); o.d((double) e.number_of_boundary_elements()); break;
    case EQ_NODE: { auto n = e.node((UNSIGNED_INTEGER_TYPE) (A(4) % N)); o.mat(n); break; }
    case EQ_NODES: { auto n = e.nodes(); o.mat(n); break; }
    case EQ_GAUSS: for (const auto & g : e.gauss_nodes()) { o.mat(g.position); o.d(g.weight); } break;
    case EQ_GAUSS1: { const auto & g = e.gauss_node((UNSIGNED_INTEGER_TYPE) (A(4) % e.number_of_gauss_nodes())); o.mat(g.position); o.d(g.weight); break; }
    case EQ_BIDX: if constexpr (!is_seg<E>::value) put_indices(o, e.boundary_elements_node_indices()); break;
    case EQ_BELEM: if constexpr (!is_seg<E>::value) { auto b = e.boundary_element((UNSIGNED_INTEGER_TYPE) (A(4) % e.number_of_boundary_elements())); using BE = decltype(b); auto n = b.nodes(); o.mat(n); auto c = b.center(); o.mat(c); auto l = b.L(local_point<BE>(A(2), a[3])); o.mat(l); } break;
    case EQ_L: { auto l = e.L(xi); o.mat(l); break; }
    case EQ_DL: { auto l = e.dL(xi); o.mat(l); break; }
    case EQ_CENTER: { auto c = e.center(); o.mat(c); break; }
    case EQ_WORLD: { auto x = e.world_coordinates(xi); o.mat(x); break; }
    case EQ_LOCAL: { auto l = e.local_coordinates(world()); o.mat(l); break; }
    case EQ_LOCAL4: if constexpr (!std::is_same_v<E, RectangularHexahedron<Linear>> && !std::is_same_v<E, RectangularHexahedron<Quadratic>>) { auto l = e.local_coordinates(world(), xi, (A(4) & 1) ? 1e-10 : 1e-3, (UNSIGNED_INTEGER_TYPE) (1 + A(4) % 9)); o.mat(l); } else { auto l = e.local_coordinates(world()); o.mat(l); } break;
    case EQ_CONTAINS: if constexpr (!is_rquad<E>::value) { o.d(e.contains_local(xi)); o.d(e.contains_local(xi, 0.3)); } break;
    case EQ_INTERP: {
        Eigen::Matrix<double, N, 2> v; for (int i = 0; i < N; ++i) { v(i, 0) = sym((uint64_t) A(4), i); v(i, 1) = i; } auto r = e.interpolate(xi, v); o.mat(r);
        Eigen::Matrix<double, N, 1> s; for (int i = 0; i < N; ++i) s[i] = sym((uint64_t) A(4) + 1, i); o.d(e.interpolate(xi, s)); break; }
    case EQ_JAC: { auto J = e.jacobian(xi); o.mat(J); break; }
    case EQ_EXTRA:
        if constexpr (is_quad<E>::value) { auto f = e.frame(); o.mat(f); put_indices(o, e.edges()); }
        if constexpr (is_tri<E>::value) { if constexpr (D == 3) { auto n = e.normal(); o.mat(n); } put_indices(o, e.edges()); }
        if constexpr (is_tet<E>::value) { auto f = e.frame(); o.mat(f); put_indices(o, e.edges()); put_indices(o, e.faces()); }
        if constexpr (is_hex<E>::value) { put_indices(o, e.faces()); put_indices(o, e.edges()); if constexpr (!is_rect<E>::value) { auto g = e.frame(xi); o.mat(g); } }
        if constexpr (is_rect<E>::value) { const auto & r = e.rotation(); o.mat(r); const auto & h = e.size(); o.mat(h); if constexpr (is_hex<E>::value) o.d(e.contains(world())); else { put_indices(o, e.edges()); auto x = e.T(xi); o.mat(x); } }
        break;
    case EQ_INTERSECT:
        if constexpr (is_hex<E>::value) {
            Eigen::Matrix<double, 3, 3, Eigen::RowMajor> p; auto c = e.center(); for (int k = 0; k < 3; ++k) for (int i = 0; i < 3; ++i) p(k, i) = c[i] + 2.2 * sym((uint64_t) A(4) * 13 + 3, k * 3 + i);
            Eigen::Matrix<double, 2, 3, Eigen::RowMajor> s = p.template topRows<2>();
            double eps = (A(5) % 3) * 0.05; o.d(e.intersects(Segment<_3D, Linear>(s), eps)); o.d(e.intersects(Triangle<_3D, Linear>(p), eps));
        }
        break;
    case EQ_TEMP: { E x = build<E>((uint64_t) A(5) < 3 ? 20 + (uint64_t) A(5) : (uint64_t) A(5) * 977 + 3); int64_t b[NARGS]; for (int i = 0; i < NARGS; ++i) b[i] = a[i]; query_elem(x, (int) (EQ_NODE + A(6) % (EQ_EXTRA - EQ_NODE)), b, o); query_elem(e, (int) (EQ_NODE + A(6) % (EQ_EXTRA - EQ_NODE)), b, o); break; }
    case EQ_COPY: { E x(e); int64_t b[NARGS]; for (int i = 0; i < NARGS; ++i) b[i] = a[i]; query_elem(x, (int) (EQ_NODE + A(6) % (EQ_EXTRA - EQ_NODE)), b, o); break; }
    case EQ_INTEGRAL: { double v = 0; for (const auto & g : e.gauss_nodes()) { auto J = e.jacobian(g.position); v += g.weight * std::sqrt(std::abs((J.transpose() * J).eval().determinant())); } o.d(v); break; }
    case EQ_BUILD: {
        auto show = [&](const auto & x) { auto n = x.nodes(); o.mat(n); auto c = x.center(); o.mat(c); };
        show(E());
        { Eigen::Matrix<double, N, D> n; auto m = e.nodes(); for (int i = 0; i < N; ++i) for (int j = 0; j < D; ++j) n(i, j) = m(i, j); show(E(n)); }
        if constexpr (!std::is_void_v<typename source<E>::type>) { using S = typename source<E>::type; S x = build<S>((uint64_t) A(5) * 613 + 11); if constexpr (std::is_constructible_v<E, const S &>) show(E(x)); }
        if constexpr (is_rect<E>::value) { auto c = e.center(); show(E(c)); typename E::Size h = e.size(); show(E(c, h)); typename E::Rotation r = e.rotation(); show(E(c, r)); }
        else if constexpr (is_tri<E>::value && N == 3) show(E(e.node(0), e.node(1), e.node(2)));
        else if constexpr (N == 4) show(E(e.node(0), e.node(1), e.node(2), e.node(3)));
        else if constexpr (N == 8 && D == 3) show(E(e.node(0), e.node(1), e.node(2), e.node(3), e.node(4), e.node(5), e.node(6), e.node(7)));
        break; }
    case EQ_STRAIN: if constexpr (D == (int) E::CanonicalDimension && D > 1) {
        Eigen::Matrix<double, D, D> J = e.jacobian(xi), Ji = J.inverse(); Eigen::Matrix<double, N, D> dN = e.dL(xi) * Ji, U;
        for (int i = 0; i < N; ++i) for (int j = 0; j < D; ++j) U(i, j) = 0.1 * sym((uint64_t) A(4) + 5, i * 3 + j);
        Eigen::Matrix<double, D, D> F = caribou::mechanics::elasticity::strain::F<N, D>(dN, U); o.mat(F);
        if constexpr (D == 3) { Eigen::Matrix<double, 3, 3> C = F.transpose() * F; auto a1 = caribou::algebra::symmetric_dyad_1(C); o.mat(a1); auto a2 = caribou::algebra::symmetric_dyad_2(C); o.mat(a2); }
        } break;
    default: break;
    }
}
template <typename E> void add_type(const char * name) {
    ElemVT v; v.name = name;
    v.make = [](uint64_t s) -> void * { return new E(build<E>(s)); };
    v.copy = [](const void * e) -> void * { return new E(*(const E *) e); };
    v.destroy = [](void * e) { delete (E *) e; };
    v.query = [](const void * e, int q, const int64_t * a, Out & o) { query_elem(*(const E *) e, q, a, o); };
    add_elem_type(v);
}
}
