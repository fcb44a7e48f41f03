// Checks of imported meshes against the file model, shared by the VTK workloads. Instrumented code.
#pragma once
#include "common.h"
#include "vtkfile.h"
#include <Caribou/Topology/IO/VTKReader.h>
#include <Caribou/Geometry/Segment.h>
#include <Caribou/Geometry/Triangle.h>
#include <Caribou/Geometry/Quad.h>
#include <Caribou/Geometry/Tetrahedron.h>
#include <Caribou/Geometry/Hexahedron.h>
#include <vtkSMPTools.h>
#include <fcntl.h>
#include <unistd.h>
namespace sim {
using namespace caribou; using namespace caribou::topology; using namespace caribou::geometry;
// VTK spreads some loops over a thread pool of its own (TBB) whose schedule nobody controls: its sequential backend is used instead
struct SequentialVtk { SequentialVtk() { vtkSMPTools::SetBackend("Sequential"); } };
inline SequentialVtk sequential_vtk;
inline void silence() { int f = ::open("/dev/null", O_WRONLY); if (f >= 0) { dup2(f, 2); ::close(f); } }
// what a domain contains, whatever its type
struct DomDump { int type = 0; std::vector<std::vector<long>> rows; };
template <typename E, typename I> bool dump_as(const BaseDomain * d, int type, DomDump & o) {
    auto p = dynamic_cast<const Domain<E, I> *>(d); if (!p) return false;
    HostScope h; o.type = type; o.rows.resize((size_t) p->number_of_elements());
    for (size_t r = 0; r < o.rows.size(); ++r) { auto x = p->element_indices(r); for (long k = 0; k < (long) x.size(); ++k) o.rows[r].push_back((long) x[k]); }
    return true;
}
template <int D, typename I> DomDump dump_domain(const BaseDomain * d) {
    DomDump o; SimScope s;
    if (dump_as<Segment<D, Linear>, I>(d, 3, o) || dump_as<Segment<D, Quadratic>, I>(d, 21, o)) return o;
    if constexpr (D >= 2) if (dump_as<Triangle<D, Linear>, I>(d, 5, o) || dump_as<Triangle<D, Quadratic>, I>(d, 22, o) || dump_as<Quad<D, Linear>, I>(d, 9, o) || dump_as<Quad<D, Quadratic>, I>(d, 23, o)) return o;
    if constexpr (D >= 3) if (dump_as<Tetrahedron<Linear>, I>(d, 10, o) || dump_as<Tetrahedron<Quadratic>, I>(d, 24, o) || dump_as<Hexahedron<Linear>, I>(d, 12, o) || dump_as<Hexahedron<Quadratic>, I>(d, 25, o)) return o;
    return o;
}
struct MeshDump { std::vector<std::array<double, 3>> nodes; std::vector<std::pair<std::string, DomDump>> doms; bool owner_ok = true, lookup_ok = true; };
template <int D, typename I> MeshDump dump_mesh(const Mesh<D> & m) {
    MeshDump o; SimScope s; size_t n = (size_t) m.number_of_nodes();
    for (size_t i = 0; i < n; ++i) { auto p = m.position(i); auto q = m.node(i); HostScope h; std::array<double, 3> v = {0, 0, 0}; for (int a = 0; a < D; ++a) { v[(size_t) a] = p[a]; if (q[a] != p[a]) o.lookup_ok = false; } o.nodes.push_back(v); }
    size_t k = (size_t) m.number_of_domains(); auto l = m.domains(); if (l.size() != k) o.lookup_ok = false;
    for (size_t i = 0; i < l.size(); ++i) { auto dd = dump_domain<D, I>(l[i].second); if (l[i].second->mesh() != &m) o.owner_ok = false; if (m.domain(i) != l[i].second || m.domain(l[i].first) != l[i].second) o.lookup_ok = false; HostScope h; o.doms.emplace_back(std::string(l[i].first.c_str()), dd); }
    return o;
}
inline std::vector<std::vector<long>> raw_rows(const VModel & m, int type) { std::vector<std::vector<long>> o; for (auto & c : m.cells) if (c.type == type) o.push_back(c.ids); return o; }
// the rows of a domain are those of the file, in the documented order
inline bool g_order_matters = false;                  // only C08 is about the node order of quadratic hexahedra
inline bool rows_match(const VModel & m, int type, const std::vector<std::vector<long>> & rows) {
    if (type != 25) return rows == raw_rows(m, type);
    auto perm = vtk_rows(m, 25), id = raw_rows(m, 25);
    if (rows == id) return true;                       // VTK's own ordering, which is also caribou's
    if (rows == perm) { if (g_order_matters) known_violation("qhex-order", "quadratic hexahedra in the standard VTK node order are imported with permuted mid-edge nodes"); return true; }
    return false;
}
// strict: the default domains of a freshly imported mesh. Returns an explanation, or nullptr.
inline const char * mesh_differs(const MeshDump & d, const VModel & m, int dim, char * buf, size_t n) {
    auto ax = vtk_axes(m, dim);
    if (!d.lookup_ok) return "the mesh is inconsistent (node/position, domains()/domain())";
    if (!d.owner_ok) return "a domain does not name the mesh as its owner";
    if (d.nodes.size() != m.points.size()) { snprintf(buf, n, "%zu nodes instead of %zu", d.nodes.size(), m.points.size()); return buf; }
    for (size_t i = 0; i < d.nodes.size(); ++i) for (int a = 0; a < dim; ++a) { double x = d.nodes[i][(size_t) a], y = m.points[i][(size_t) ax[(size_t) a]]; if (!(x == y || (x != x && y != y))) { snprintf(buf, n, "node %zu axis %d is %.17g instead of %.17g", i, a, x, y); return buf; } }
    std::map<int, int> want; for (auto & c : m.cells) if (vtk_supported(c.type, dim)) want[c.type]++;
    if (d.doms.size() != want.size()) { snprintf(buf, n, "%zu domains instead of %zu", d.doms.size(), want.size()); return buf; }
    for (size_t i = 0; i < d.doms.size(); ++i) {
        auto & x = d.doms[i];
        if (!want.count(x.second.type)) { snprintf(buf, n, "domain %zu has an unexpected or repeated cell type %d", i, x.second.type); return buf; }
        want.erase(x.second.type);
        if (x.first != "domain_" + std::to_string(i + 1)) { snprintf(buf, n, "domain %zu is named %s", i, x.first.c_str()); return buf; }
        if (!rows_match(m, x.second.type, x.second.rows)) { snprintf(buf, n, "the %zu elements of domain %zu (cell type %d) are not the cells of the file", x.second.rows.size(), i, x.second.type); return buf; }
    }
    return nullptr;
}
}
