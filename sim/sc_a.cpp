#include "scene_impl.h"
namespace { struct R { R() { using namespace sim; using U = unsigned long long;
    add_scene<Scene<Segment<1, Linear>, U, Segment<1, Quadratic>, int>>("1D"); add_scene<Scene<Triangle<2, Linear>, U, Quad<2, Linear>, unsigned>>("2D"); add_scene<Scene<Quad<2, Quadratic>, U, Triangle<2, Quadratic>, int>>("2D quadratic"); } } r; }
