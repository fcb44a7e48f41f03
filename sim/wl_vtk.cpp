// C08 / C09: imports of legacy VTK files from the simulated disk, healthy (C08) or damaged and failing (C09).
// Oracle: an independent strict parser of the bytes that were delivered.
#include "vtkio.h"
#include <cerrno>
#include <sstream>
#include <memory>
using namespace sim;
namespace {
template <int D_, typename I_> struct Combo { static constexpr int D = D_; using I = I_; };
template <typename F> void dispatch(int dim, int it, F && f) {
    switch (dim * 3 + it % 3) {
    case 3: f(Combo<1, unsigned int>()); break; case 4: f(Combo<1, unsigned long>()); break; case 5: f(Combo<1, unsigned long long>()); break;
    case 6: f(Combo<2, unsigned int>()); break; case 7: f(Combo<2, unsigned long>()); break; case 8: f(Combo<2, unsigned long long>()); break;
    case 9: f(Combo<3, unsigned int>()); break; case 10: f(Combo<3, unsigned long>()); break; default: f(Combo<3, unsigned long long>());
    }
}
enum { D_NONE, D_TRUNC, D_EIO, D_EIO_ONCE, D_OPEN, D_VANISH, D_EMPTY, D_EOF, D_KEYWORD, D_RANGE, D_COUNT, D_FLIP, D_MISSING, D_TYPE, D_NKIND };
const char * const dn[] = {"healthy file", "file truncated", "EIO while reading", "transient EIO while reading", "open fails", "file vanishes after being checked", "empty file", "file ends early while being read", "not an unstructured grid", "cell refers to an absent point", "cell with a wrong number of points", "corrupted data", "missing file", "cell of another type"};
struct Damaged { VSpec spec; std::string bytes; IoScript io; bool present = true; std::vector<std::string> delivered; };
Damaged damage(const Op & p, int dim) {
    auto A = [&](int k) { return (uint64_t) (p.a[k] < 0 ? -p.a[k] : p.a[k]); };
    Damaged d; Rng r(mix(A(5), 0xDA)); d.spec = gen_vtk(A(0), dim, A(3) & 1, true, A(4) % D_NKIND == D_NONE && mix(A(0), 0xB16) % 1500 == 0); if (A(4) % D_NKIND) d.spec.field = d.spec.strings = false;   // VTK 9.1 itself dereferences null on a damaged leading FIELD block
    int kind = (int) (A(4) % D_NKIND);
    if (kind == D_FLIP && d.spec.layout == 5) d.spec.layout = 0;
    VSpec s = d.spec; auto & cs = s.m.cells;
    d.io.seed = A(6); d.io.short_pct = (int) (A(7) % 10) * 10; d.io.eintr_pct = (int) (A(7) / 10 % 10) * 5;
    if (kind == D_RANGE && !cs.empty()) { auto & c = cs[r.below(cs.size())]; long n = (long) s.m.points.size(); long bad[] = {n, n + 1, -1, n + 1000, 2147483647, -2147483647 - 1}; c.ids[r.below(c.ids.size())] = bad[r.below(6)]; fault(F_CORRUPT); }
    if (kind == D_COUNT && !cs.empty()) { auto & c = cs[r.below(cs.size())]; int n = (int) c.ids.size(); int m = r.chance(1, 2) ? n - 1 : r.chance(1, 2) ? n + 1 : (int) r.below(24); if (m < 0) m = 0; while ((int) c.ids.size() > m) c.ids.pop_back(); while ((int) c.ids.size() < m) c.ids.push_back((long) r.below(s.m.points.size())); fault(F_CORRUPT); }
    if (kind == D_TYPE && !cs.empty()) { auto & c = cs[r.below(cs.size())]; static const int ty[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 21, 22, 23, 24, 25, 26, 27, 28, 29}; c.type = ty[r.below(sizeof ty / sizeof *ty)]; fault(F_CORRUPT); }
    VBytes b = render(s); d.bytes = b.s; size_t n = d.bytes.size();
    // positions are biased towards section boundaries and the ends of numbers
    auto pos = [&] { size_t q; if (r.chance(1, 2)) q = r.below(n + 1); else { size_t c[] = {b.sec[1], b.pdata, b.pend, b.sec[2], b.cdata, b.cend, b.sec[3], b.tdata, b.tend, n}; q = c[r.below(10)] + 4 - r.below(9); if (q > n) q = n; } return q; };
    switch (kind) {
    case D_TRUNC: d.bytes.resize(pos()); fault(F_TRUNCATE); break;
    case D_EIO: d.io.eio_at = (int64_t) pos(); break;
    case D_EIO_ONCE: d.io.eio_at = (int64_t) pos(); d.io.eio_once = true; break;
    case D_OPEN: { static const int e[] = {EACCES, EMFILE, ENFILE, EIO, ENOMEM, ELOOP}; d.io.open_errno = e[r.below(6)]; break; }
    case D_VANISH: d.io.vanish_after_stat = 1 + (int) r.below(3); break;
    case D_EMPTY: d.bytes.clear(); fault(F_TRUNCATE); break;
    case D_EOF: d.io.eof_at = (int64_t) pos(); break;
    case D_KEYWORD: { static const char * const from[] = {"UNSTRUCTURED_GRID", "UNSTRUCTURED_GRID", "UNSTRUCTURED_GRID", "# vtk DataFile", "POINTS", "CELLS", "CELL_TYPES", "DATASET", "ASCII"}; static const char * const to[] = {"POLYDATA", "STRUCTURED_POINTS", "UNSTRUCTURED_GRIP", "# vtx DataFile", "P0INTS", "CELL5", "CELL_TYPE5", "DATA5ET", "ASCI1"}; size_t k = r.below(9); size_t q = d.bytes.find(from[k]); if (q != std::string::npos) { d.bytes.replace(q, strlen(from[k]), to[k]); fault(F_CORRUPT); } break; }
    case D_FLIP: {
        if (s.binary) { size_t q; if (r.chance(1, 2) || cs.empty()) q = b.pdata + r.below(b.pend - b.pdata); else { size_t c = r.below(cs.size()), o = b.cdata; for (size_t i = 0; i < c; ++i) o += 4 * (cs[i].ids.size() + 1); if (cs[c].ids.empty()) break; q = o + 4 + r.below(4 * cs[c].ids.size()); } d.bytes[q] = (char) (d.bytes[q] ^ (1 << r.below(8))); fault(F_CORRUPT); }
        else { std::vector<size_t> q; for (size_t i = b.pdata; i < b.pend; ++i) if (isdigit((unsigned char) d.bytes[i])) q.push_back(i);
               for (size_t i = b.cdata, cell = 0, left = 0; i < b.cend; ++i) { if (isdigit((unsigned char) d.bytes[i])) { if (left == 0) { left = cs[cell++].ids.size() + 1; while (i < b.cend && isdigit((unsigned char) d.bytes[i])) ++i; --i; --left; continue; } q.push_back(i); if (!isdigit((unsigned char) d.bytes[i + 1])) --left; } }
               if (!q.empty()) { size_t i = q[r.below(q.size())]; static const char alt[] = "0123456789"; d.bytes[i] = alt[r.below(sizeof alt - 1)]; fault(F_CORRUPT); } }
        break; }
    case D_MISSING: d.present = false; break;
    default: break;
    }
    if (kind == D_EIO || kind == D_EOF) d.delivered.push_back(d.bytes.substr(0, (size_t) (kind == D_EIO ? d.io.eio_at : d.io.eof_at)));
    else if (kind == D_EIO_ONCE) { d.delivered.push_back(d.bytes.substr(0, (size_t) d.io.eio_at)); d.delivered.push_back(d.bytes); }
    else if (d.present && kind != D_OPEN) d.delivered.push_back(d.bytes);
    return d;
}
bool has_nan(const VModel & m) { for (auto & p : m.points) for (double v : p) if (v != v || std::isinf(v)) return true; return false; }
int g_imports = 0;

struct Vtk : Workload {
    bool faulty; Vtk(bool f) : faulty(f) {}
    const char * op_name(int c) override { return c >= 0 && c < D_NKIND ? dn[c] : "import"; }
    const char * rule() override { return faulty ? "a run is 1..6 imports in one process, each of a generated file that is damaged, failing or healthy in a seeded way, with seeded allocation failures; an import must raise, or yield exactly the mesh of an independent strict parse of the delivered bytes. Non-trivial: at least one damaged import; distinct: different execution hash."
                                           : "a run is 1..4 imports of generated well-formed files (dimension, index type, encoding, layout, cell types, point type, delivery of bytes chosen by the seed); the mesh must equal the generated model. Non-trivial: every run; distinct: different execution hash."; }
    bool nontrivial(const Trace & t) override { return !t.ops.empty(); }
    void gen(Rng & r, Trace & t) override {
        t.cfg["reuse"] = r.chance(1, 3);
        int n = (int) r.range(1, faulty ? 6 : 4);
        for (int i = 0; i < n; ++i) {
            Op o; o.id = i + 1; o.a[0] = (int64_t) r.below(1u << 30); o.a[1] = r.chance(1, 2) ? 3 : r.range(1, 2); o.a[2] = (int64_t) r.below(3); o.a[3] = (int64_t) r.below(2);
            o.a[4] = faulty ? (r.chance(1, 5) ? 0 : (int64_t) r.below(D_NKIND)) : 0; o.code = (int) o.a[4]; o.a[5] = (int64_t) r.below(1u << 30); o.a[6] = (int64_t) r.below(1u << 30);
            o.a[7] = r.chance(1, 4) ? 0 : (int64_t) r.below(100);
            if (faulty && r.chance(1, 4)) { o.fail = r.chance(2, 3) ? r.range(1, 40) : r.range(1, 300); o.persist = r.chance(1, 4); }
            t.ops.push_back(o);
        }
    }
    template <typename C> void import(const Op & p, const Damaged & d, const std::string & path, C) {
        constexpr int D = C::D; using I = typename C::I; using R = io::VTKReader<D, I>;
        int kind = (int) (p.a[4] % D_NKIND);
        for (int tries = 0;; ++tries) {
            std::unique_ptr<Mesh<D>> m;
            Outcome o = in([&] { auto r = R::Read(path); m.reset(new Mesh<D>(r.mesh())); });
            bool fired = fault_fired(); disarm();
            if (!o.ok()) {
                { HostScope h; probe((std::string("raised: ") + dn[kind] + (fired ? " + allocation failure" : "")).c_str()); }
                if (m) violation("import", "an exception was raised and a mesh was returned");
                if (o.k == Outcome::OTHER) violation("import", "the import failed with something that is not a std::exception");
                check_leaks("leak-on-failure", true);
                if (fired && tries == 0) { HostScope h; if (d.present) disk_put(path, d.bytes, d.io); continue; }   // retry with enough memory
                if (kind == D_NONE) { auto e = parse_vtk(d.bytes, D); if (e.ok) violation("healthy-file-refused", "a well-formed %dD file is refused: %s (%s)", D, o.type.c_str(), o.what.c_str()); probe("refused: wrong number of varying axes"); }
                log(o.type.c_str());
                return;
            }
            { HostScope h; probe((std::string("imported: ") + dn[kind]).c_str()); }
            auto dump = dump_mesh<D, I>(*m);
            { char buf[256]; const char * why = nullptr; bool match = false;
              if (d.delivered.empty()) violation("mesh-from-nothing", "a mesh with %zu nodes came out of an import with: %s", dump.nodes.size(), dn[kind]);
              for (auto & by : d.delivered) { auto e = parse_vtk(by, D); if (e.ok && has_nan(e)) { match = true; break; } if (!e.ok) { if (!why) { snprintf(buf, sizeof buf, "the file is not well-formed (%s)", e.why.c_str()); why = buf; } continue; } why = mesh_differs(dump, e, D, buf, sizeof buf); if (!why) { match = true; break; } }
              if (!match) violation("wrong-mesh", "%s: a mesh with %zu nodes and %zu domains was returned, but %s", dn[kind], dump.nodes.size(), dump.doms.size(), why ? why : "?"); }
            log((uint64_t) dump.nodes.size()); for (auto & x : dump.doms) { log(x.first.c_str()); for (auto & r : x.second.rows) for (long v : r) log((uint64_t) v); }
            { HostScope h; uint64_t s = (uint64_t) D * 31 + sizeof(I); for (auto & x : dump.doms) s = s * 131 + (uint64_t) x.second.type; state(s * 7 + (uint64_t) kind); }
            in([&] { m.reset(); });
            return;
        }
    }
    void exec(const Trace & t, Mode) override {
        set_reuse(t.get("reuse")); set_attribute_allocs(true); silence(); g_order_matters = !faulty;
        for (auto & p : t.ops) {
            int dim = (int) ((p.a[1] < 0 ? -p.a[1] : p.a[1]) % 4); if (dim < 1) dim = 1;
            Damaged d = damage(p, dim); std::string path = "/simdisk/" + std::to_string(p.a[6] % 2) + ".vtk";      // files replace one another
            disk_remove(path); if (d.present) disk_put(path, d.bytes, d.io);
            if (const char * dir = getenv("SIM_DUMP")) { FILE * f = fopen((std::string(dir) + "/" + std::to_string(p.id) + ".vtk").c_str(), "w"); if (f) { fwrite(d.bytes.data(), 1, d.bytes.size(), f); fclose(f); } }   // for people: the files of a replay
            begin_op(p);
            dispatch(dim, (int) ((p.a[2] < 0 ? -p.a[2] : p.a[2]) % 3), [&](auto c) { import(p, d, path, c); });
            end_op();
        }
        check_leaks("leak", true);
        disk_reset();
    }
};
struct Reg { Reg() { register_workload("C08", new Vtk(false)); register_workload("C09", new Vtk(true)); } } reg_;
}
