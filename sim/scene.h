// A scene: one mesh with two domains, an embedding, a hash grid and a regular grid, for several element types.
#pragma once
#include "common.h"
#include <string>
namespace sim {
enum { SQ_MESH_NUMBERS, SQ_NODE, SQ_POSITION, SQ_POSITIONS_VEC, SQ_POSITIONS_EIGEN, SQ_POSITIONS_ARR, SQ_DOMAINS, SQ_DOMAIN_NAME, SQ_DOMAIN_IDX,
       SQ_DOM_NUMBERS, SQ_ELEM_INDICES, SQ_ELEMENT, SQ_ELEMENT_POS, SQ_ELEMENT_USE, SQ_MESH_COPY, SQ_CLONE, SQ_EMBED, SQ_EMBED_BAD,
       SQ_BARY_POINTS, SQ_OUTSIDE, SQ_BARY_POINT, SQ_CLOSEST, SQ_INTERP1, SQ_INTERP3, SQ_INTERP_BAD, SQ_HASH_GET,
       SQ_GRID_NUMBERS, SQ_GRID_CELL_AT_POINT, SQ_GRID_AROUND, SQ_GRID_ENCLOSING, SQ_GRID_NODE, SQ_GRID_CELL, SQ_GRID_INDICES, SQ_GRID_EDGE, SQ_GRID_FACE, SQ_GRID_COORDS, SQ_BASE, SQ_COUNT };
inline const char * sq_name(int q) { static const char * const n[] = {"mesh numbers", "mesh.node", "mesh.position", "mesh.positions(vector)", "mesh.positions(eigen)", "mesh.positions(array)", "mesh.domains", "mesh.domain(name)", "mesh.domain(index)", "domain numbers", "domain.element_indices", "domain.element", "domain.element(positions)", "element of domain in use", "copy of mesh", "domain.clone", "domain.embed", "domain.embed(wrong dimension)", "barycentric_points", "outside_nodes", "barycentric_point", "closest_elements", "interpolate(1 column)", "interpolate(3 columns)", "interpolate(wrong sizes)", "hash_grid.get", "grid numbers", "grid cell at point", "grid.cells_around", "grid.cells_enclosing", "grid.node", "grid.cell_at", "grid indices", "grid.edge", "grid.face", "grid coordinates", "base interfaces"}; return q >= 0 && q < SQ_COUNT ? n[q] : "?"; }
struct SceneVT {
    const char * name; int dim;
    void * (*make)(uint64_t seed);        // on the current heap; deterministic
    void (*destroy)(void *);
    void (*query)(const void * s, int q, const int64_t * a, Out & o);
};
int scene_types();
const SceneVT & scene_vt(int k);
void add_scene_type(const SceneVT & v);
}
