// C10: histories of VTK readers: copies, moves, custom domain builders (failing ones too), repeated imports, destruction,
// with allocation failures. Model: what each reader has registered, what each mesh holds.
#include "vtkio.h"
#include <memory>
#include <sstream>
using namespace sim;
namespace {
constexpr int NR = 3, NMS = 4, NF = 3;
void * g_reader[NR]; void * g_mesh[NMS];      // reachable for the leak check
enum { READ, COPY_READER, MOVE_READER, REG_ELEMENT, REG_BUILDER, IMPORT, PRINT, ADD_DOMAIN, REMOVE_DOMAIN, COPY_MESH, MOVE_MESH, DEL_READER, DEL_MESH, REWRITE, NOPS };
const char * const opn[] = {"read", "copy reader", "move reader", "register element", "register builder", "import", "print", "add domain to mesh", "remove domain of mesh", "copy mesh", "move mesh", "destroy reader", "destroy mesh", "replace or delete a file"};
enum { B_NONE, B_DEFAULT, B_ADD, B_NULL, B_THROW, B_ADD_THROW, B_ADD_TWO };
struct Bld { int kind = B_NONE, id = 0; };
struct Call { int id; std::vector<std::vector<long>> rows; bool self; };
std::vector<Call> * g_calls;                    // host heap
struct builder_error : std::runtime_error { int id; builder_error(int i) : std::runtime_error("builder"), id(i) {} };
struct MReader { bool alive = false, moved = false; int file = 0; std::map<int, Bld> b; int version = 0; };
struct MMesh { bool alive = false, moved = false; int file = 0; MeshDump d; };
int g_version = 0;
const int types_all[] = {3, 21, 5, 9, 22, 23, 10, 12, 24, 25, 8, 11, 4, 13};

template <int D, typename I> struct World {
    using R = io::VTKReader<D, I>; using M = Mesh<D>;
    MReader mr[NR]; MMesh mm[NMS]; std::vector<VModel> files; int current[NF] = {-1, -1, -1}; std::map<int, MeshDump> first; std::map<int, std::string> texts;
    R * rd(int i) { return (R *) g_reader[i]; } M * ms(int i) { return (M *) g_mesh[i]; }
    // the domain a builder adds: index table of whatever width in a segment/quad/hexahedron domain is meaningless for other
    // widths, so builders add the elements of the natural type
    static BaseDomain * add(M & m, const std::string & name, int type, const typename R::ElementsIndices & idx) {
        switch (type) {
        case 21: return m.template add_domain<Segment<D, Quadratic>, I>(name, idx);
        case 5: if constexpr (D >= 2) return m.template add_domain<Triangle<D, Linear>, I>(name, idx); break;
        case 22: if constexpr (D >= 2) return m.template add_domain<Triangle<D, Quadratic>, I>(name, idx); break;
        case 8: case 9: if constexpr (D >= 2) return m.template add_domain<Quad<D, Linear>, I>(name, idx); break;
        case 23: if constexpr (D >= 2) return m.template add_domain<Quad<D, Quadratic>, I>(name, idx); break;
        case 10: if constexpr (D >= 3) return m.template add_domain<Tetrahedron<Linear>, I>(name, idx); break;
        case 24: if constexpr (D >= 3) return m.template add_domain<Tetrahedron<Quadratic>, I>(name, idx); break;
        case 11: case 12: if constexpr (D >= 3) return m.template add_domain<Hexahedron<Linear>, I>(name, idx); break;
        case 25: if constexpr (D >= 3) return m.template add_domain<Hexahedron<Quadratic>, I>(name, idx); break;
        case 3: return m.template add_domain<Segment<D, Linear>, I>(name, idx);
        default: return nullptr;
        }
        return nullptr;
    }
    static bool addable(int type) { return vtk_supported(type, D) || (type == 8 && D >= 2) || (type == 11 && D >= 3); }
    static int kind_of(int type) { return type == 8 ? 9 : type == 11 ? 12 : type; }      // the cell type a dump reports
    static std::string bname(int id) { return "custom domain number " + std::to_string(id) + " with a name of some length"; }
    static bool adds(const Bld & b) { return b.kind == B_ADD || b.kind == B_ADD_THROW || b.kind == B_ADD_TWO; }

    void fail_if(const char * why, int i) { if (why) violation("wrong-mesh", "mesh %d: %s", i, why); }
    static bool same_dump(const MeshDump & a, const MeshDump & b) { if (a.nodes != b.nodes || a.doms.size() != b.doms.size()) return false; for (size_t i = 0; i < a.doms.size(); ++i) if (a.doms[i].first != b.doms[i].first || a.doms[i].second.type != b.doms[i].second.type || a.doms[i].second.rows != b.doms[i].second.rows) return false; return true; }
    void verify() {
        uint64_t h = 3;
        for (int i = 0; i < NMS; ++i) if (mm[i].alive && !mm[i].moved) {
            auto d = dump_mesh<D, I>(*ms(i));
            if (!d.lookup_ok || !d.owner_ok) violation("wrong-mesh", "mesh %d is inconsistent: %s", i, d.owner_ok ? "its lookups disagree" : "a domain does not name it as owner");
            if (!same_dump(d, mm[i].d)) violation("mesh-changed", "mesh %d no longer holds what it held", i);
            h = h * 31 + d.doms.size() * 5 + (uint64_t) mm[i].file;
        }
        for (int i = 0; i < NR; ++i) if (mr[i].alive && !mr[i].moved) { h = h * 131 + (uint64_t) mr[i].file; for (auto & b : mr[i].b) h = h * 7 + (uint64_t) (b.first * 8 + b.second.kind); }
        state(h);
    }
    // Runs an operation; an injected allocation failure must be reported as such, change nothing and leak nothing; the retry works.
    template <typename F> Outcome attempt(const char * what, F && f, bool retry = true) {
        for (int tries = 0;; ++tries) {
            Outcome o = in(f); bool fired = fault_fired(); disarm();
            if (o.ok() || o.type.find("builder_error") != std::string::npos) return o;
            if (fired && tries == 0) { probe((std::string("alloc failure in ") + what).c_str()); verify(); check_leaks("leak-on-failure", true); if (!retry) return o; continue; }
            violation("unexpected-failure", "%s failed with %s (%s)", what, o.type.c_str(), o.what.c_str());
        }
    }
    int pick_reader(int64_t a) { for (int k = 0; k < NR; ++k) { int i = (int) ((a + k) % NR); if (mr[i].alive && !mr[i].moved) return i; } return -1; }
    int pick_mesh(int64_t a) { for (int k = 0; k < NMS; ++k) { int i = (int) ((a + k) % NMS); if (mm[i].alive && !mm[i].moved) return i; } return -1; }
    void kill_reader(int i) { if (!g_reader[i]) return; Outcome o = in([&] { delete rd(i); }); if (!o.ok()) violation("unexpected-failure", "destroying a reader threw"); g_reader[i] = nullptr; mr[i] = MReader(); }
    void kill_mesh(int i) { if (!g_mesh[i]) return; Outcome o = in([&] { delete ms(i); }); if (!o.ok()) violation("unexpected-failure", "destroying a mesh threw"); g_mesh[i] = nullptr; mm[i] = MMesh(); }
    static std::map<int, Bld> defaults() { std::map<int, Bld> m; for (int t : types_all) if (vtk_supported(t, D)) m[t].kind = B_DEFAULT; return m; }

    struct Builder {                      // a callback with enough state to live on the heap
        int id, kind, type; uint64_t pad[4];
        BaseDomain * operator()(M & m, const typename R::ElementsIndices & idx) const {
            for (auto p : pad) if (p != (uint64_t) id * 7919) { HostScope h; violation("builder-damaged", "builder %d is called with damaged state", id); }
            { HostScope h; Call c; c.id = id; c.self = true; for (long r = 0; r < idx.rows(); ++r) { c.rows.emplace_back(); for (long k = 0; k < idx.cols(); ++k) c.rows.back().push_back((long) idx(r, k)); } g_calls->push_back(c); }
            if (kind == B_NULL) return nullptr;
            if (kind == B_THROW) { fault(F_CALLBACK_FAIL); throw builder_error(id); }
            BaseDomain * d = add(m, name(id), type, idx);
            if (kind == B_ADD_TWO) { std::string s = name(id); s += " again"; add(m, s, type, idx); }
            if (kind == B_ADD_THROW) { fault(F_CALLBACK_FAIL); throw builder_error(id); }
            return d;
        }
        static std::string name(int id) { return "custom domain number " + std::to_string(id) + " with a name of some length"; }
    };

    void import(int r, int slot) {
        MReader & x = mr[r]; const VModel & f = files[x.file];
        if (g_mesh[slot]) kill_mesh(slot);
        std::map<int, int> cells; for (auto & c : f.cells) cells[c.type]++;
        int throwers = 0; for (auto & c : cells) { auto b = x.b.find(c.first); if (b != x.b.end() && (b->second.kind == B_THROW || b->second.kind == B_ADD_THROW)) ++throwers; }
        auto once = [&](bool partial) {
            for (size_t i = 0; i < g_calls->size(); ++i) {
                auto & c = (*g_calls)[i]; int type = -1; for (auto & b : x.b) if (b.second.kind > B_DEFAULT && b.second.id == c.id) type = b.first;
                if (type < 0) violation("builder-calls", "an import calls builder %d, which is not registered in that reader any more", c.id);
                for (size_t j = 0; j < i; ++j) if ((*g_calls)[j].id == c.id) violation("builder-calls", "builder %d is called twice in one import", c.id);
                if (!cells.count(type)) violation("builder-calls", "builder %d is called although the file has no such cell", c.id);
                if (c.rows != raw_rows(f, type)) violation("builder-calls", "builder %d of cell type %d is not given the %d cells of that type", c.id, type, cells[type]);
            }
            if (!partial) for (auto & c : cells) { auto b = x.b.find(c.first); if (b == x.b.end() || b->second.kind <= B_DEFAULT) continue; bool called = false; for (auto & k : *g_calls) if (k.id == b->second.id) called = true; if (!called) violation("builder-calls", "the builder registered for cell type %d is not called", c.first); }
        };
        Outcome o = attempt("import", [&] { { HostScope h; if (!g_calls->empty()) { once(true); g_calls->clear(); } } g_mesh[slot] = new M(rd(r)->mesh()); });
        if (throwers) {
            if (o.ok()) violation("failure-lost", "a builder threw but the import reports success");
            once(true); g_calls->clear(); check_leaks("leak-on-failure", true); return;
        }
        if (!o.ok()) violation("unexpected-failure", "an import failed with %s although no builder throws", o.type.c_str());
        once(false); g_calls->clear();
        auto d = dump_mesh<D, I>(*ms(slot));
        if (!d.lookup_ok || !d.owner_ok) violation("wrong-mesh", "an imported mesh is inconsistent");
        auto ax = vtk_axes(f, D);
        if (d.nodes.size() != f.points.size()) violation("wrong-mesh", "%zu nodes instead of %zu", d.nodes.size(), f.points.size());
        for (size_t i = 0; i < d.nodes.size(); ++i) for (int a = 0; a < D; ++a) if (d.nodes[i][(size_t) a] != f.points[i][(size_t) ax[(size_t) a]]) violation("wrong-mesh", "node %zu is at the wrong position", i);
        // every domain is accounted for, exactly once
        std::map<std::string, int> custom; int ndef = 0; for (auto & c : cells) { auto b = x.b.find(c.first); if (b == x.b.end()) continue; if (b->second.kind == B_DEFAULT) ++ndef; else if (adds(b->second) && addable(c.first)) { custom[bname(b->second.id)] = c.first; if (b->second.kind == B_ADD_TWO) custom[bname(b->second.id) + " again"] = c.first; } }
        if (d.doms.size() != custom.size() + (size_t) ndef) violation("wrong-mesh", "%zu domains instead of %zu", d.doms.size(), custom.size() + (size_t) ndef);
        std::map<int, int> seen;
        for (size_t i = 0; i < d.doms.size(); ++i) {
            auto & q = d.doms[i]; auto c = custom.find(q.first);
            if (c != custom.end()) { if (q.second.rows != raw_rows(f, c->second) || q.second.type != kind_of(c->second)) violation("wrong-mesh", "domain '%s' does not hold what its builder gave it", q.first.c_str()); custom.erase(c); continue; }
            if (q.first != "domain_" + std::to_string(i + 1)) violation("wrong-mesh", "domain %zu is named '%s'", i, q.first.c_str());
            int t = -1; for (auto & cc : cells) { auto b = x.b.find(cc.first); if (b != x.b.end() && b->second.kind == B_DEFAULT && kind_of(cc.first) == q.second.type && !seen[cc.first] && rows_match(f, cc.first, q.second.rows)) { t = cc.first; break; } }
            if (t < 0) violation("wrong-mesh", "domain %zu (%s) holds the cells of no cell type of the file", i, q.first.c_str());
            seen[t] = 1;
        }
        auto it = first.find(x.version);
        if (it == first.end()) first[x.version] = d; else if (!same_dump(it->second, d)) violation("imports-differ", "two imports of the same reader differ");
        mm[slot].alive = true; mm[slot].file = x.file; mm[slot].d = d;
    }
    void op(const Op & p) {
        auto A = [&](int k) { return p.a[k] < 0 ? -p.a[k] : p.a[k]; };
        switch (p.code) {
        case READ: { int i = (int) (A(0) % NR), f = (int) (A(1) % NF); if (g_reader[i]) kill_reader(i); std::string path = "/simdisk/f" + std::to_string(f) + ".vtk";
            f = current[f]; if (f < 0) { Outcome o = in([&] { g_reader[i] = new R(R::Read(path)); }); disarm(); if (o.ok()) violation("mesh-from-nothing", "a file that does not exist was read"); check_leaks("leak-on-failure", true); break; }
            attempt("read", [&] { g_reader[i] = new R(R::Read(path)); }); mr[i] = MReader(); mr[i].alive = true; mr[i].file = f; mr[i].b = defaults(); mr[i].version = ++g_version; break; }
        case COPY_READER: case MOVE_READER: {
            int s = pick_reader(A(0)); int d = (int) (A(1) % NR); if (s < 0 || s == d) break; if (g_reader[d]) kill_reader(d);
            if (p.code == COPY_READER) attempt("copy of a reader", [&] { g_reader[d] = new R(*rd(s)); }); else attempt("move of a reader", [&] { g_reader[d] = new R(std::move(*rd(s))); });
            mr[d] = mr[s]; if (p.code == MOVE_READER) mr[s].moved = true; break; }
        case REG_ELEMENT: {
            int i = pick_reader(A(0)); if (i < 0) break; int t = types_all[A(1) % 14]; if (!addable(t) || t == 25) break; auto vt = (VTKCellType) t;
            if (!attempt("registration of an element", [&] {
                switch (t) {
                case 3: rd(i)->template register_element_type<Segment<D, Linear>>(vt); break; case 21: rd(i)->template register_element_type<Segment<D, Quadratic>>(vt); break;
                case 5: if constexpr (D >= 2) rd(i)->template register_element_type<Triangle<D, Linear>>(vt); break; case 22: if constexpr (D >= 2) rd(i)->template register_element_type<Triangle<D, Quadratic>>(vt); break;
                case 8: case 9: if constexpr (D >= 2) rd(i)->template register_element_type<Quad<D, Linear>>(vt); break; case 23: if constexpr (D >= 2) rd(i)->template register_element_type<Quad<D, Quadratic>>(vt); break;
                case 10: if constexpr (D >= 3) rd(i)->template register_element_type<Tetrahedron<Linear>>(vt); break; case 24: if constexpr (D >= 3) rd(i)->template register_element_type<Tetrahedron<Quadratic>>(vt); break;
                case 11: case 12: if constexpr (D >= 3) rd(i)->template register_element_type<Hexahedron<Linear>>(vt); break; } }, p.a[4] & 1).ok()) break;
            mr[i].b[t] = Bld(); mr[i].b[t].kind = B_DEFAULT; mr[i].version = ++g_version; break; }
        case REG_BUILDER: {
            int i = pick_reader(A(0)); if (i < 0) break; int t = types_all[A(1) % 14];
            if (A(3) % 3) { auto & cs = files[mr[i].file].cells; if (!cs.empty()) t = cs[(size_t) (A(1) % (int64_t) cs.size())].type; }
            int k = B_ADD + (int) (A(2) % 5); if (!addable(t) && k != B_THROW) k = B_NULL; Builder b; b.id = p.id; b.kind = k; b.type = t; for (auto & q : b.pad) q = (uint64_t) p.id * 7919;
            if (!attempt("registration of a builder", [&] { rd(i)->register_element_type((VTKCellType) t, b); }, p.a[4] & 1).ok()) break;     // half of the failures are not retried
            mr[i].b[t].kind = k; mr[i].b[t].id = p.id; mr[i].version = ++g_version; break; }
        case IMPORT: { int i = pick_reader(A(0)); if (i < 0) break; import(i, (int) (A(1) % NMS)); break; }
        case PRINT: {
            int i = pick_reader(A(0)); if (i < 0) break; disarm(); std::string text; const VModel & f = files[mr[i].file];
            Outcome o = in([&] { std::ostringstream s; rd(i)->print(s); if (!s) { HostScope h; violation("print", "print left its stream failed"); } std::string x = s.str(); HostScope h; text.assign(x.data(), x.size()); });
            if (!o.ok()) violation("unexpected-failure", "print failed with %s (%s)", o.type.c_str(), o.what.c_str());
            for (size_t n : {f.points.size(), f.cells.size()}) if (text.find(std::to_string(n)) == std::string::npos) violation("print", "the description of a file of %zu points and %zu cells does not mention %zu", f.points.size(), f.cells.size(), n);
            auto it = texts.find(mr[i].file); if (it == texts.end()) texts[mr[i].file] = text; else if (it->second != text) violation("print", "two descriptions of the same file differ");
            break; }
        case ADD_DOMAIN: { int i = pick_mesh(A(0)); if (i < 0 || mm[i].d.nodes.size() < 2) break; std::string n = "added " + std::to_string(p.id); typename R::ElementsIndices x(1, 2); x(0, 0) = 0; x(0, 1) = 1; attempt("add_domain", [&] { ms(i)->template add_domain<Segment<D, Linear>, I>(n, x); }); DomDump q; q.type = 3; q.rows = {{0, 1}}; mm[i].d.doms.emplace_back(n, q); break; }
        case REMOVE_DOMAIN: { int i = pick_mesh(A(0)); if (i < 0 || mm[i].d.doms.empty()) break; size_t k = (size_t) (A(1) % (int64_t) mm[i].d.doms.size()); std::string n = mm[i].d.doms[k].first; attempt("remove", [&] { ms(i)->remove(ms(i)->domain(n)); }); mm[i].d.doms.erase(mm[i].d.doms.begin() + (long) k); break; }
        case COPY_MESH: case MOVE_MESH: { int s = pick_mesh(A(0)), d = (int) (A(1) % NMS); if (s < 0 || s == d) break; if (g_mesh[d]) kill_mesh(d); if (p.code == COPY_MESH) attempt("copy of a mesh", [&] { g_mesh[d] = new M(*ms(s)); }); else attempt("move of a mesh", [&] { g_mesh[d] = new M(std::move(*ms(s))); }); mm[d] = mm[s]; if (p.code == MOVE_MESH) mm[s].moved = true; break; }
        case DEL_READER: kill_reader((int) (A(0) % NR)); break;
        case DEL_MESH: kill_mesh((int) (A(0) % NMS)); break;
        case REWRITE: { int f = (int) (A(0) % NF); disarm(); disk_remove("/simdisk/f" + std::to_string(f) + ".vtk"); current[f] = -1; if (A(1) % 4) write_file(f, (uint64_t) p.id * 1000003 + (uint64_t) A(2) * 61 + (uint64_t) A(3)); break; }   // readers keep what they have read
        }
    }
    void write_file(int f, uint64_t seed) {
        HostScope hs; std::string bytes; VModel model;
        for (;; ++seed) {
            VSpec s = gen_vtk(seed, D, seed & 1); Rng r(seed); long n = (long) s.m.points.size();
            if (r.chance(1, 3)) { int w = (int) r.range(2, 4); for (auto & c : s.m.cells) if (c.type == 13 || c.type == 1 || c.type == 14) { c.type = 4; c.ids.clear(); for (int k = 0; k < w; ++k) c.ids.push_back((long) r.below((uint64_t) n)); } }
            VBytes b = render(s); model = parse_vtk(b.s, D); bytes = b.s; if (model.ok) break;
        }
        files.push_back(model); current[f] = (int) files.size() - 1;
        IoScript io; io.seed = seed; io.short_pct = 30; io.eintr_pct = 10; disk_put("/simdisk/f" + std::to_string(f) + ".vtk", bytes, io);
    }
    void run(const Trace & t) {
        for (int f = 0; f < NF; ++f) write_file(f, (uint64_t) t.get(f == 0 ? "f0" : f == 1 ? "f1" : "f2"));
        for (auto & p : t.ops) { begin_op(p); op(p); disarm(); verify(); end_op(); }
        for (int i = 0; i < NR; ++i) { kill_reader(i); verify(); }
        for (int i = 0; i < NMS; ++i) kill_mesh(i);
        check_leaks("leak", true); disk_reset();
    }
};
struct Readers : Workload {
    const char * op_name(int c) override { return c >= 0 && c < NOPS ? opn[c] : "?"; }
    const char * rule() override { return "a run is 4..30 operations on 3 readers and 4 meshes over 3 generated files, with failing builders and allocation failures at seeded allocation indices; after each operation every live mesh is compared with the model, and every import's builder calls with the file. Non-trivial: at least 2 operations; distinct: different execution hash."; }
    void gen(Rng & r, Trace & t) override {
        t.cfg["dim"] = r.chance(1, 2) ? 3 : r.range(1, 2); t.cfg["idx"] = (int64_t) r.below(2); t.cfg["reuse"] = r.chance(1, 2);
        for (const char * k : {"f0", "f1", "f2"}) t.cfg[k] = (int64_t) r.below(1u << 28);
        int n = (int) r.range(4, r.chance(1, 4) ? 30 : 12), faults = r.chance(1, 3) ? 0 : (int) r.range(10, 60);
        static const int w[NOPS] = {10, 8, 4, 8, 24, 34, 8, 5, 5, 4, 3, 8, 6, 6}; int tot = 0; for (int x : w) tot += x;
        for (int i = 0; i < n; ++i) {
            Op o; o.id = i + 1; int k = (int) r.below((uint64_t) tot); while (k >= w[o.code]) k -= w[o.code++]; if (i == 0) o.code = READ;
            for (auto & a : o.a) a = (int64_t) r.below(60);
            if ((int) r.below(100) < faults) { o.fail = r.chance(3, 4) ? r.range(1, 25) : r.range(1, 120); o.persist = r.chance(1, 4); }
            t.ops.push_back(o);
        }
    }
    template <int D, typename I> static void go(const Trace & t) { World<D, I> * w = new World<D, I>(); w->run(t); delete w; }
    void exec(const Trace & t, Mode) override {
        set_reuse(t.get("reuse")); set_attribute_allocs(true); silence(); g_calls = new std::vector<Call>();
        int d = (int) t.get("dim", 3); bool u = t.get("idx");
        if (d == 1) { if (u) go<1, unsigned int>(t); else go<1, unsigned long long>(t); }
        else if (d == 2) { if (u) go<2, unsigned int>(t); else go<2, unsigned long long>(t); }
        else { if (u) go<3, unsigned long>(t); else go<3, unsigned long long>(t); }
    }
};
struct Reg { Reg() { register_workload("C10", new Readers()); } } reg_;
}
