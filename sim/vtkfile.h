// Model of a legacy VTK unstructured-grid file: generator, renderer, damage, and an independent strict parser.
#pragma once
#include "rt.h"
#include <array>
#include <cmath>
#include <cstdlib>
#include <cstring>
namespace sim {
struct VCell { int type = 0; std::vector<long> ids; };
struct VModel {
    bool ok = false; std::string why;
    std::vector<std::array<double, 3>> points; std::vector<VCell> cells;
};
inline int vtk_nodes(int type) { switch (type) { case 1: return 1; case 3: return 2; case 5: return 3; case 8: case 9: case 10: return 4; case 11: case 12: return 8; case 13: return 6; case 14: return 5; case 21: return 3; case 22: return 6; case 23: return 8; case 24: return 10; case 25: return 20; default: return 0; } }
inline bool vtk_supported(int type, int dim) { switch (type) { case 3: case 21: return true; case 5: case 9: case 22: case 23: return dim >= 2; case 10: case 12: case 24: case 25: return dim >= 3; default: return false; } }
enum PType { PT_FLOAT, PT_DOUBLE, PT_INT };
struct VSpec { VModel m; int ptype = PT_DOUBLE; bool binary = false; int layout = 0; bool attrs = false; bool field = false; bool strings = false; };
enum { SEC_HEAD, SEC_POINTS, SEC_CELLS, SEC_TYPES, SEC_ATTR, SEC_COUNT };
struct VBytes { std::string s; size_t sec[SEC_COUNT + 1]; size_t pdata, pend, cdata, cend, tdata, tend; };   // section starts; data ranges

inline VSpec gen_vtk(uint64_t seed, int dim, bool binary, bool many_types = true, bool large = false) {
    Rng r(mix(seed, 0x71D5)); VSpec s; s.binary = binary; s.layout = (int) r.below(6); s.attrs = r.chance(1, 4); s.field = r.chance(1, 6);
    s.ptype = (int) r.below(3);
    long n = r.chance(1, 12) ? r.range(1, 3) : r.range(4, 40); if (r.chance(1, 40)) n = r.range(300, 900); if (large) n = r.range(65530, 70000);
    int axes = dim == 3 ? 3 : dim; int perm[3] = {0, 1, 2}; for (int i = 2; i > 0; --i) std::swap(perm[i], perm[r.below((uint64_t) i + 1)]);
    if (r.chance(1, 2)) { perm[0] = 0; perm[1] = 1; perm[2] = 2; }
    if (dim == 3 && r.chance(1, 10)) axes = 2;                            // planar file for a 3D reader
    if (dim < 3 && r.chance(1, 25)) axes = (int) r.range(1, 3);           // sometimes the wrong number of varying axes
    double flat = r.chance(1, 2) ? 0 : std::floor(r.unit() * 9) - 4;
    double flats[3] = {flat, flat, flat}; if (r.chance(1, 4)) for (auto & f : flats) f = s.ptype == PT_INT ? (double) r.range(-9, 9) : 4 * r.unit() - 2;
    static const double sc[] = {1e-12, 1e-9, 1e-7, 1e-5, 1e-3, 1e3, 1e8}; double scale[3] = {1, 1, 1}, shift[3] = {0, 0, 0}; long single = -1; int single_axis = (int) r.below(3);
    if (s.ptype != PT_INT) {
        if (r.chance(1, 8)) scale[0] = scale[1] = scale[2] = sc[r.below(7)];       // very small and very large meshes
        if (r.chance(1, 12)) scale[r.below(3)] = sc[r.below(4)];                   // nearly flat ones
        if (r.chance(1, 12)) for (auto & x : shift) x = 100 * std::floor(2000 * r.unit() - 1000);
    }
    if (r.chance(1, 8)) single = (long) r.below((uint64_t) n);                     // an axis along which a single point differs
    for (long i = 0; i < n; ++i) {
        std::array<double, 3> p = {flats[0], flats[1], flats[2]};
        for (int a = 0; a < axes; ++a) {
            double v = s.ptype == PT_INT ? (double) r.range(-50, 50) : r.chance(1, 3) ? (double) r.range(-640, 640) / 64. : 20 * r.unit() - 10;
            if (i && i < n - 1 && a > 0 && r.chance(1, 8)) v = s.m.points[0][(size_t) perm[a]];
            if (r.chance(1, 200) && s.ptype == PT_DOUBLE) v *= 1e-9;
            v = v * scale[a] + shift[a];
            if (single >= 0 && a == single_axis) v = i == single ? shift[a] + 3 * scale[a] : shift[a];
            p[(size_t) perm[a]] = v;
        }
        if (s.ptype == PT_FLOAT) for (auto & v : p) v = (double) (float) v;
        s.m.points.push_back(p);
    }
    static const int sup[] = {3, 5, 9, 10, 12, 21, 22, 23, 24, 25}, uns[] = {1, 8, 11, 13, 14};
    std::vector<int> types; int nt = many_types ? (int) r.range(1, 5) : 1;
    for (int i = 0; i < nt; ++i) { int t; do { t = r.chance(1, 6) ? uns[r.below(5)] : sup[r.below(10)]; } while (!vtk_supported(t, dim) && r.chance(4, 5)); types.push_back(t); }
    long nc = r.chance(1, 15) ? 0 : r.range(1, r.chance(1, 20) ? 120 : 12); if (large && r.chance(1, 3)) nc = r.range(65530, 70000);
    for (long i = 0; i < nc; ++i) { VCell c; c.type = types[r.below(types.size())]; int k = vtk_nodes(c.type); for (int j = 0; j < k; ++j) c.ids.push_back((long) r.below((uint64_t) n)); s.m.cells.push_back(c); }
    if (nc == 0 && s.layout == 5) s.layout = 0;
    s.strings = mix(seed, 0x57) % 5 == 0;
    s.m.ok = true;
    return s;
}
inline VBytes render(const VSpec & s) {
    VBytes b; std::string & o = b.s; char buf[64];
    auto be32 = [&](uint32_t v) { for (int k = 3; k >= 0; --k) o += (char) (v >> (8 * k)); };
    auto be64 = [&](uint64_t v) { for (int k = 7; k >= 0; --k) o += (char) (v >> (8 * k)); };
    b.sec[SEC_HEAD] = 0;
    o += s.layout == 5 ? "# vtk DataFile Version 5.1\n" : s.layout % 2 ? "# vtk DataFile Version 2.0\n" : "# vtk DataFile Version 3.0\n"; o += s.layout == 2 ? "a title, with some words in it\n" : "mesh\n"; o += s.binary ? "BINARY\n" : "ASCII\n"; o += "DATASET UNSTRUCTURED_GRID\n";
    if (s.field && !s.binary) { o += s.strings ? "FIELD FieldData 2\nTIME 1 1 double\n0.5\nauthor 1 1 string\nsomebody\n" : "FIELD FieldData 1\nTIME 1 1 double\n0.5\n"; }
    b.sec[SEC_POINTS] = o.size();
    snprintf(buf, 64, "POINTS %zu %s\n", s.m.points.size(), s.ptype == PT_FLOAT ? "float" : s.ptype == PT_DOUBLE ? "double" : "int"); o += buf;
    b.pdata = o.size();
    for (size_t i = 0; i < s.m.points.size(); ++i) {
        for (int a = 0; a < 3; ++a) {
            double v = s.m.points[i][(size_t) a];
            if (s.binary) { if (s.ptype == PT_FLOAT) { float f = (float) v; uint32_t q; memcpy(&q, &f, 4); be32(q); } else if (s.ptype == PT_DOUBLE) { uint64_t q; memcpy(&q, &v, 8); be64(q); } else be32((uint32_t) (int32_t) v); }
            else { snprintf(buf, 64, s.ptype == PT_FLOAT ? "%.9g" : s.ptype == PT_DOUBLE ? "%.17g" : "%.0f", v); o += buf; o += a < 2 ? (s.layout == 3 ? "  " : s.layout == 4 ? "\n" : " ") : (s.layout == 1 && i % 3 != 2 ? " " : "\n"); }
        }
    }
    b.pend = o.size();
    o += "\n";
    b.sec[SEC_CELLS] = o.size();
    size_t sz = 0; for (auto & c : s.m.cells) sz += c.ids.size() + 1;
    if (s.layout == 5) {                                     // the format VTK has written since version 9
        snprintf(buf, 64, "CELLS %zu %zu\nOFFSETS vtktypeint64\n", s.m.cells.size() + 1, sz - s.m.cells.size()); o += buf; b.cdata = o.size();
        size_t at = 0, k = 0; for (size_t i = 0; i <= s.m.cells.size(); ++i) { if (s.binary) be64(at); else { snprintf(buf, 64, "%zu%s", at, ++k % 9 ? " " : "\n"); o += buf; } if (i < s.m.cells.size()) at += s.m.cells[i].ids.size(); }
        o += "\nCONNECTIVITY vtktypeint64\n"; k = 0; for (auto & c : s.m.cells) for (auto i : c.ids) { if (s.binary) be64((uint64_t) i); else { snprintf(buf, 64, "%ld%s", i, ++k % 9 ? " " : "\n"); o += buf; } }
    } else {
    snprintf(buf, 64, "CELLS %zu %zu\n", s.m.cells.size(), sz); o += buf;
    b.cdata = o.size();
    for (auto & c : s.m.cells) {
        if (s.binary) { be32((uint32_t) c.ids.size()); for (auto i : c.ids) be32((uint32_t) (int32_t) i); }
        else { snprintf(buf, 64, "%zu", c.ids.size()); o += buf; for (auto i : c.ids) { snprintf(buf, 64, "%s%ld", s.layout == 3 ? "  " : " ", i); o += buf; } o += s.layout == 1 ? " " : "\n"; }
    } }
    b.cend = o.size();
    o += "\n";
    b.sec[SEC_TYPES] = o.size();
    snprintf(buf, 64, "CELL_TYPES %zu\n", s.m.cells.size()); o += buf;
    b.tdata = o.size();
    for (auto & c : s.m.cells) { if (s.binary) be32((uint32_t) c.type); else { snprintf(buf, 64, "%d%s", c.type, s.layout == 1 ? " " : "\n"); o += buf; } }
    b.tend = o.size();
    o += "\n";
    b.sec[SEC_ATTR] = o.size();
    if (s.attrs && !s.binary && !s.m.cells.empty()) {
        snprintf(buf, 64, "CELL_DATA %zu\nSCALARS density double 1\nLOOKUP_TABLE default\n", s.m.cells.size()); o += buf; for (size_t i = 0; i < s.m.cells.size(); ++i) { snprintf(buf, 64, "%.3f\n", (double) i / 8); o += buf; }
        if (s.strings) { snprintf(buf, 64, "FIELD FieldData 2\nlabel 1 %zu string\n", s.m.cells.size()); o += buf; for (size_t i = 0; i < s.m.cells.size(); ++i) o += i % 3 ? "steel\n" : "soft tissue\n"; snprintf(buf, 64, "number 1 %zu int\n", s.m.cells.size()); o += buf; for (size_t i = 0; i < s.m.cells.size(); ++i) o += "7\n"; }
        snprintf(buf, 64, "POINT_DATA %zu\nVECTORS u double\n", s.m.points.size()); o += buf; for (size_t i = 0; i < s.m.points.size(); ++i) o += "0.5 0.25 1\n";
    }
    b.sec[SEC_COUNT] = o.size();
    return b;
}
// Strict reading of what a reader was given; `dim` decides which cells matter. Contradictory counts are rejected.
inline VModel parse_vtk(const std::string & s, int dim) {
    VModel m; size_t p = 0;
    auto fail = [&](const char * w) { m.ok = false; m.why = w; return m; };
    auto line = [&](std::string & l) { size_t e = s.find('\n', p); if (e == std::string::npos) return false; l = s.substr(p, e - p); p = e + 1; return true; };
    auto ws = [&] { while (p < s.size() && isspace((unsigned char) s[p])) ++p; };
    auto word = [&](std::string & w) { ws(); size_t b = p; while (p < s.size() && !isspace((unsigned char) s[p])) ++p; w = s.substr(b, p - b); return !w.empty(); };
    auto integer = [&](long & v) { std::string w; if (!word(w)) return false; char * e; errno = 0; v = strtol(w.c_str(), &e, 10); return *e == 0; };
    auto up = [](std::string w) { for (auto & c : w) c = (char) toupper((unsigned char) c); return w; };
    std::string l, w;
    if (!line(l) || l.compare(0, 14, "# vtk DataFile")) return fail("header");
    bool v5 = l.find("Version 5") != std::string::npos;
    if (!line(l)) return fail("title");
    if (!word(w)) return fail("format"); bool bin; if (up(w) == "ASCII") bin = false; else if (up(w) == "BINARY") bin = true; else return fail("format");
    if (!word(w) || up(w) != "DATASET") return fail("dataset"); if (!word(w) || up(w) != "UNSTRUCTURED_GRID") return fail("dataset type");
    if (!word(w)) return fail("points");
    if (up(w) == "FIELD") { std::string x; long k; if (!word(x) || !integer(k)) return fail("field"); while (k-- > 0) { long a, b; if (!word(x) || !integer(a) || !integer(b) || !word(x)) return fail("field"); for (long i = 0; i < a * b; ++i) if (!word(x)) return fail("field"); } if (!word(w)) return fail("points"); }
    if (up(w) != "POINTS") return fail("points");
    long n; if (!integer(n) || n < 0 || !word(w)) return fail("points"); w = up(w);
    int pt = w == "FLOAT" ? PT_FLOAT : w == "DOUBLE" ? PT_DOUBLE : w == "INT" ? PT_INT : -1; if (pt < 0) return fail("point type");
    auto rd32 = [&](uint32_t & v) { if (p + 4 > s.size()) return false; v = 0; for (int k = 0; k < 4; ++k) v = v << 8 | (uint8_t) s[p++]; return true; };
    if (bin) { if (!line(l)) return fail("points"); }
    for (long i = 0; i < n; ++i) {
        std::array<double, 3> q;
        for (auto & v : q) {
            if (bin) { uint32_t a, b; if (!rd32(a)) return fail("truncated points"); if (pt == PT_FLOAT) { float f; memcpy(&f, &a, 4); v = f; } else if (pt == PT_INT) v = (int32_t) a; else { if (!rd32(b)) return fail("truncated points"); uint64_t x = (uint64_t) a << 32 | b; memcpy(&v, &x, 8); } }
            else { if (!word(w)) return fail("truncated points"); char * e; v = pt == PT_FLOAT ? (double) strtof(w.c_str(), &e) : strtod(w.c_str(), &e); if (*e) return fail("bad coordinate"); }
        }
        m.points.push_back(q);
    }
    if (!word(w) || up(w) != "CELLS") return fail("cells"); long nc, sz; if (!integer(nc) || !integer(sz) || nc < 0) return fail("cells");
    if (bin && !line(l)) return fail("cells");
    if (v5) {
        long no = nc, k = sz; auto i64 = [&](long & v) { if (!bin) return integer(v); uint32_t a, b; if (!rd32(a) || !rd32(b)) return false; v = (long) ((uint64_t) a << 32 | b); return true; };
        auto head = [&](const char * name) { return word(w) && up(w) == name && word(w) && up(w) == "VTKTYPEINT64" && (!bin || line(l)); };
        if (bin) --p; if (!head("OFFSETS")) return fail("offsets"); std::vector<long> off; for (long i = 0; i < no; ++i) { long v; if (!i64(v)) return fail("truncated offsets"); off.push_back(v); }
        if (!head("CONNECTIVITY")) return fail("connectivity"); std::vector<long> con; for (long i = 0; i < k; ++i) { long v; if (!i64(v)) return fail("truncated connectivity"); con.push_back(v); }
        if (no < 1 || off[0] != 0 || off.back() != k) return fail("offsets"); for (long i = 1; i < no; ++i) { if (off[(size_t) i] < off[(size_t) i - 1] || off[(size_t) i] > k) return fail("offsets"); VCell c; c.ids.assign(con.begin() + off[(size_t) i - 1], con.begin() + off[(size_t) i]); m.cells.push_back(c); }
        nc = no - 1;
    }
    auto id = [&](long & v) { if (!bin) return integer(v); uint32_t a; if (!rd32(a)) return false; v = (int32_t) a; return true; };
    long used = 0; if (!v5) for (long i = 0; i < nc; ++i) { VCell c; long k; if (!id(k) || k < 0 || k > 1000) return fail("cell size"); for (long j = 0; j < k; ++j) { long v; if (!id(v)) return fail("truncated cells"); c.ids.push_back(v); } used += k + 1; m.cells.push_back(c); }
    if (!v5 && used != sz) return fail("cell list size");
    if (!word(w) || up(w) != "CELL_TYPES") return fail("cell types"); long nt; if (!integer(nt) || nt != nc) return fail("cell types");
    if (bin && !line(l)) return fail("cell types");
    for (auto & c : m.cells) { long t; if (!id(t) || t < 0 || t > 255) return fail("truncated types"); c.type = (int) t; }
    for (auto & c : m.cells) if (vtk_supported(c.type, dim)) { if ((int) c.ids.size() != vtk_nodes(c.type)) return fail("number of points of a cell"); for (auto i : c.ids) if (i < 0 || i >= n) return fail("cell refers to an absent point"); }
    int vary[3] = {0}, k = 0; for (auto & q : m.points) for (int a = 0; a < 3; ++a) if (q[(size_t) a] != m.points[0][(size_t) a]) vary[a] = 1; k = vary[0] + vary[1] + vary[2];
    if (dim < 3 && k != dim) return fail("number of varying axes");
    m.ok = true;
    return m;
}
inline std::array<int, 3> vtk_axes(const VModel & m, int dim) { std::array<int, 3> ax = {0, 1, 2}; if (dim == 3) return ax; int c = 0; for (int a = 0; a < 3; ++a) { bool v = false; for (auto & q : m.points) if (q[(size_t) a] != m.points[0][(size_t) a]) v = true; if (v && c < 3) ax[(size_t) c++] = a; } return ax; }
// expected connectivity of one supported type, in caribou's node order
inline std::vector<std::vector<long>> vtk_rows(const VModel & m, int type) {
    std::vector<std::vector<long>> out; static const int q[10] = {18, 11, 10, 14, 15, 12, 13, 16, 19, 17};
    for (auto & c : m.cells) if (c.type == type) { auto r = c.ids; if (type == 25 && r.size() == 20) for (int k = 0; k < 10; ++k) r[(size_t) (10 + k)] = c.ids[(size_t) q[k]]; out.push_back(r); }
    return out;
}
}
