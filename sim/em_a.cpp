#include "embed_impl.h"
namespace { struct R { R() { using namespace sim; using U = unsigned long long;
    add_embed_type({"Segment1D", embed_run<Segment<1, Linear>, U>}); add_embed_type({"Segment1DQ", embed_run<Segment<1, Quadratic>, int>}); add_embed_type({"Triangle2D", embed_run<Triangle<2, Linear>, U>}); add_embed_type({"Triangle2DQ", embed_run<Triangle<2, Quadratic>, unsigned>}); add_embed_type({"Quad2D", embed_run<Quad<2, Linear>, U>}); add_embed_type({"Quad2DQ", embed_run<Quad<2, Quadratic>, int>}); } } r; }
