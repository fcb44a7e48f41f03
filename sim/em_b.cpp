#include "embed_impl.h"
namespace { struct R { R() { using namespace sim; using U = unsigned long long;
    add_embed_type({"Triangle3D", embed_run<Triangle<3, Linear>, U>}); add_embed_type({"Quad3D", embed_run<Quad<3, Linear>, unsigned>}); add_embed_type({"Tetrahedron", embed_run<Tetrahedron<Linear>, U>}); add_embed_type({"TetrahedronQ", embed_run<Tetrahedron<Quadratic>, int>}); add_embed_type({"Hexahedron", embed_run<Hexahedron<Linear>, U>}); add_embed_type({"HexahedronQ", embed_run<Hexahedron<Quadratic>, unsigned>}); } } r; }
