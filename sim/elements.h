// Type-erased access to every element type of the library, so that one workload drives all of them.
#pragma once
#include "common.h"
namespace sim {
struct ElemVT {
    const char * name;
    void * (*make)(uint64_t seed);                                     // a non-degenerate element on the current heap
    void * (*copy)(const void *);
    void (*destroy)(void *);
    void (*query)(const void * e, int q, const int64_t * a, Out & o);  // one read-only query
};
enum { EQ_NUMBERS, EQ_NODE, EQ_NODES, EQ_GAUSS, EQ_GAUSS1, EQ_BIDX, EQ_BELEM, EQ_L, EQ_DL, EQ_CENTER, EQ_WORLD, EQ_LOCAL, EQ_LOCAL4, EQ_CONTAINS, EQ_INTERP, EQ_JAC, EQ_EXTRA, EQ_INTERSECT, EQ_TEMP, EQ_COPY, EQ_INTEGRAL, EQ_BUILD, EQ_STRAIN, EQ_COUNT };
inline const char * eq_name(int q) { static const char * const n[] = {"numbers", "node", "nodes", "gauss_nodes", "gauss_node", "boundary_elements_node_indices", "boundary_element", "L", "dL", "center", "world_coordinates", "local_coordinates", "local_coordinates(start)", "contains_local", "interpolate", "jacobian", "frame/edges/faces", "intersects", "temporary element", "copied element", "integral", "constructors", "deformation gradient"}; return q >= 0 && q < EQ_COUNT ? n[q] : "?"; }
int elem_types();
const ElemVT & elem_vt(int k);
void add_elem_type(const ElemVT & v);
}
