// Generates valid meshes of any element type on a lattice of cells: nodes, connectivity, points known to be inside or outside.
#pragma once
#include "elements_impl.h"
#include <Caribou/Topology/Mesh.h>
#include <Caribou/Topology/Domain.h>
#include <Caribou/Topology/HashGrid.h>
#include <Caribou/Topology/BarycentricContainer.h>
#include <Caribou/Topology/Grid/Grid.h>
#include <map>
namespace sim {
using namespace caribou::topology;
struct P3 { double v[3]; };
struct NodeSet {
    std::vector<P3> nodes; std::map<std::array<long, 3>, long> idx;
    long add(const P3 & p) { std::array<long, 3> k{std::lround(p.v[0] * 64), std::lround(p.v[1] * 64), std::lround(p.v[2] * 64)}; auto i = idx.find(k); if (i != idx.end()) return i->second; idx[k] = (long) nodes.size(); nodes.push_back(p); return (long) nodes.size() - 1; }
};
struct Elems { int cols = 0; std::vector<long> idx; std::vector<std::array<int, 3>> cell; long rows() const { return cols ? (long) idx.size() / cols : 0; } };
template <typename E> constexpr bool quadratic() { return is_seg<E>::value ? E::NumberOfNodesAtCompileTime == 3 : is_tri<E>::value ? E::NumberOfNodesAtCompileTime == 6 : is_tet<E>::value ? E::NumberOfNodesAtCompileTime == 10 : is_quad<E>::value ? E::NumberOfNodesAtCompileTime == 8 : E::NumberOfNodesAtCompileTime == 20; }
// lattice positions (integers and halves) of the elements of one cell
template <typename E, typename F> void cell_elements(int i, int j, int k, F && emit) {
    constexpr int N = E::NumberOfNodesAtCompileTime, C = E::CanonicalDimension;
    double ref[N][3] = {{0}};
    if constexpr (is_seg<E>::value) { for (int n = 0; n < N; ++n) ref[n][0] = n == 0 ? -1 : n == 1 ? 1 : 0; }
    else { auto c = E().nodes(); for (int n = 0; n < N; ++n) for (int d = 0; d < C; ++d) ref[n][d] = c(n, d); }
    auto put = [&](const double (*corner)[3]) {       // simplex: affine image of the reference simplex
        std::array<P3, N> p; for (int n = 0; n < N; ++n) for (int d = 0; d < 3; ++d) { double v = corner[0][d]; for (int c = 0; c < C; ++c) v += ref[n][c] * (corner[c + 1][d] - corner[0][d]); p[n].v[d] = v; } emit(p);
    };
    double o[3] = {(double) i, (double) j, (double) k};
    auto corners = [&](std::initializer_list<std::array<int, 3>> l) { double c[4][3]; int n = 0; for (auto & x : l) { for (int d = 0; d < 3; ++d) c[n][d] = o[d] + x[d]; ++n; } put(c); };
    if constexpr (is_tri<E>::value) { corners({{0, 0, 0}, {1, 0, 0}, {1, 1, 0}}); corners({{0, 0, 0}, {1, 1, 0}, {0, 1, 0}}); }
    else if constexpr (is_tet<E>::value) {
        corners({{0, 0, 0}, {1, 0, 0}, {1, 1, 0}, {1, 1, 1}}); corners({{0, 0, 0}, {1, 1, 0}, {0, 1, 0}, {1, 1, 1}}); corners({{0, 0, 0}, {0, 1, 0}, {0, 1, 1}, {1, 1, 1}});
        corners({{0, 0, 0}, {0, 1, 1}, {0, 0, 1}, {1, 1, 1}}); corners({{0, 0, 0}, {0, 0, 1}, {1, 0, 1}, {1, 1, 1}}); corners({{0, 0, 0}, {1, 0, 1}, {1, 0, 0}, {1, 1, 1}});
    } else { std::array<P3, N> p; for (int n = 0; n < N; ++n) for (int d = 0; d < 3; ++d) p[n].v[d] = d < C ? o[d] + (ref[n][d] + 1) / 2 : 0; emit(p); }
}
template <typename E> Elems gen_elems(NodeSet & ns, const int n[3], uint64_t seed, int skip_pct) {
    Elems e; e.cols = E::NumberOfNodesAtCompileTime; Rng r(seed);
    constexpr int C = E::CanonicalDimension;
    for (int k = 0; k < (C > 2 ? n[2] : 1); ++k) for (int j = 0; j < (C > 1 ? n[1] : 1); ++j) for (int i = 0; i < n[0]; ++i) {
        bool skip = (int) r.below(100) < skip_pct && !(i == 0 && j == 0 && k == 0);
        if (skip) continue;
        cell_elements<E>(i, j, k, [&](const auto & p) { for (auto & q : p) e.idx.push_back(ns.add(q)); e.cell.push_back({i, j, k}); });
    }
    return e;
}
// lattice -> world: affine, with a small perturbation of the vertices when all elements are linear
struct Warp {
    double A[3][3], t[3]; double jit; uint64_t seed;
    Warp(uint64_t s, int dim, double j) : jit(j), seed(s) { for (int a = 0; a < 3; ++a) { t[a] = a < dim ? 4 * sym(s, 60 + a) : 0; for (int b = 0; b < 3; ++b) A[a][b] = a == b ? 0.7 + unit(s, 70 + a) : 0.15 * sym(s, 80 + a * 3 + b); } if (unit(s, 59) < .5) aligned(dim); }
    // axis-aligned cells whose faces fall on, halfway between, or a quarter away from the multiples of their size
    void aligned(int dim) {
        static const double sc[] = {1, 1, 1, .5, 2, .25, 10}; double k = sc[(int) (unit(seed, 58) * 7)], off = (double[]) {0, 0, .5, .25}[(int) (unit(seed, 57) * 4)]; bool exact = unit(seed, 56) < .6; if (exact) jit = 0;
        for (int a = 0; a < 3; ++a) { t[a] = a < dim && unit(seed, 55) < .8 ? k * ((int) (unit(seed, 50 + a) * 7) - 5 + off) : 0; for (int b = 0; b < 3; ++b) A[a][b] = a == b ? k : 0; if (unit(seed, 47) < .25) A[a][a] *= (double[]) {1, .5, 2}[(int) (unit(seed, 44 + a) * 3)]; }
        jit *= k;
    }
    P3 operator()(const P3 & p, long node, int dim) const { P3 r; for (int a = 0; a < 3; ++a) { r.v[a] = a < dim ? t[a] : 0; if (a < dim) for (int b = 0; b < 3; ++b) r.v[a] += A[a][b] * p.v[b]; if (a < dim && node >= 0) r.v[a] += jit * sym(seed ^ 0xABCDEF, (int) node * 3 + a); } return r; }
};
template <typename I> using IdxMat = Eigen::Matrix<I, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor>;
template <typename Dom> typename Dom::ElementsIndices to_matrix(const Elems & e) { typename Dom::ElementsIndices m(e.rows(), e.cols); for (long r = 0; r < e.rows(); ++r) for (int c = 0; c < e.cols; ++c) m(r, c) = (typename Dom::ElementsIndices::Scalar) e.idx[r * e.cols + c]; return m; }
}
