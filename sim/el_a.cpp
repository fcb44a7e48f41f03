#include "elements_impl.h"
namespace { struct R { R() { using namespace sim;
    add_type<Segment<1, Linear>>("Segment1D"); add_type<Segment<1, Quadratic>>("Segment1DQ"); add_type<Segment<2, Linear>>("Segment2D"); add_type<Segment<2, Quadratic>>("Segment2DQ"); add_type<Segment<3, Linear>>("Segment3D"); add_type<Segment<3, Quadratic>>("Segment3DQ");
    add_type<Triangle<2, Linear>>("Triangle2D"); add_type<Triangle<2, Quadratic>>("Triangle2DQ"); add_type<Triangle<3, Linear>>("Triangle3D"); add_type<Triangle<3, Quadratic>>("Triangle3DQ"); } } r; }
