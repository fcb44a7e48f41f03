#include "scene_impl.h"
namespace { struct R { R() { using namespace sim; using U = unsigned long long;
    add_scene<Scene<Tetrahedron<Linear>, U, Hexahedron<Linear>, unsigned>>("3D"); add_scene<Scene<Hexahedron<Linear>, int, Tetrahedron<Quadratic>, U>>("3D mixed"); add_scene<Scene<Triangle<3, Linear>, U, Quad<3, Linear>, U>>("3D surface"); } } r; }
