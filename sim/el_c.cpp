#include "elements_impl.h"
namespace { struct R { R() { using namespace sim;
    add_type<Tetrahedron<Linear>>("Tetrahedron"); add_type<Tetrahedron<Quadratic>>("TetrahedronQ"); add_type<Hexahedron<Linear>>("Hexahedron"); add_type<Hexahedron<Quadratic>>("HexahedronQ");
    add_type<RectangularHexahedron<Linear>>("RectangularHexahedron"); add_type<RectangularHexahedron<Quadratic>>("RectangularHexahedronQ"); } } r; }
