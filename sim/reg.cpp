#include "elements.h"
#include "scene.h"
#include "embed.h"
namespace sim {
static std::vector<ElemVT> & ev() { static std::vector<ElemVT> v; return v; }
static std::vector<SceneVT> & sv() { static std::vector<SceneVT> v; return v; }
static std::vector<EmbedVT> & mv() { static std::vector<EmbedVT> v; return v; }
// static initialisation order across object files is fixed by name, so that type numbers do not depend on the link order
template <typename V> void put(std::vector<V> & l, const V & v) { size_t i = 0; while (i < l.size() && std::string(l[i].name) < v.name) ++i; l.insert(l.begin() + (long) i, v); }
int elem_types() { return (int) ev().size(); }
const ElemVT & elem_vt(int k) { return ev()[(size_t) k % ev().size()]; }
void add_elem_type(const ElemVT & v) { put(ev(), v); }
int scene_types() { return (int) sv().size(); }
const SceneVT & scene_vt(int k) { return sv()[(size_t) k % sv().size()]; }
void add_scene_type(const SceneVT & v) { put(sv(), v); }
int embed_types() { return (int) mv().size(); }
const EmbedVT & embed_vt(int k) { return mv()[(size_t) k % mv().size()]; }
void add_embed_type(const EmbedVT & v) { put(mv(), v); }
}
