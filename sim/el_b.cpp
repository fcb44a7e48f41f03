#include "elements_impl.h"
namespace { struct R { R() { using namespace sim;
    add_type<Quad<2, Linear>>("Quad2D"); add_type<Quad<2, Quadratic>>("Quad2DQ"); add_type<Quad<3, Linear>>("Quad3D"); add_type<Quad<3, Quadratic>>("Quad3DQ");
    add_type<RectangularQuad<2, Linear>>("RectangularQuad2D"); add_type<RectangularQuad<2, Quadratic>>("RectangularQuad2DQ"); add_type<RectangularQuad<3, Linear>>("RectangularQuad3D"); add_type<RectangularQuad<3, Quadratic>>("RectangularQuad3DQ"); } } r; }
