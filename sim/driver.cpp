// Seeded search, gating, minimisation and replay. Compiled WITHOUT instrumentation.
#include "rt.h"
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <set>
#include <sstream>
#include <unordered_set>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace sim;
namespace sim {
std::string to_text(const Trace & t) {
    std::ostringstream o; Workload * w = workload(t.check);
    o << "check " << t.check << "\nseed " << t.seed << "\nfixed " << (t.fixed_sched ? 1 : 0) << "\n";
    for (auto & c : t.cfg) o << "cfg " << c.first << " " << c.second << "\n";
    for (auto & p : t.ops) { o << "op " << p.id << " " << p.tid << " " << p.code << " " << p.fail << " " << p.persist; for (auto a : p.a) o << " " << a; o << "   # " << (w ? w->op_name(p.code) : "") << (p.fail ? " with allocation failure" : "") << "\n"; }
    for (auto & s : t.sched) o << "sched " << s.tid << " " << s.op << " " << s.ev << " " << s.to << " " << s.forced << "\n";
    return o.str();
}
bool from_text(const std::string & txt, Trace & t, std::string & err) {
    std::istringstream in(txt); std::string l; t = Trace();
    while (std::getline(in, l)) {
        auto h = l.find('#'); if (h != std::string::npos) l = l.substr(0, h);
        std::istringstream s(l); std::string k; if (!(s >> k)) continue;
        if (k == "check") s >> t.check;
        else if (k == "seed") s >> t.seed;
        else if (k == "fixed") { int f; s >> f; t.fixed_sched = f; }
        else if (k == "cfg") { std::string n; int64_t v; s >> n >> v; t.cfg[n] = v; }
        else if (k == "op") { Op p; s >> p.id >> p.tid >> p.code >> p.fail >> p.persist; for (auto & a : p.a) s >> a; t.ops.push_back(p); }
        else if (k == "sched") { Switch w; s >> w.tid >> w.op >> w.ev >> w.to >> w.forced; t.sched.push_back(w); }
        else { err = "bad line: " + l; return false; }
        if (s.fail()) { err = "bad line: " + l; return false; }
    }
    return !t.check.empty();
}
}
static double now() { using namespace std::chrono; return duration<double>(steady_clock::now().time_since_epoch()).count(); }
static std::string esc(const std::string & s) { std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o; }

struct Stats {
    uint64_t runs = 0, events = 0, allocs = 0, switches = 0, nontrivial = 0, ops = 0, faults[F_COUNT] = {0};
    std::map<std::string, uint64_t> probes;
    std::unordered_set<uint64_t> states, il, hashes;
    std::vector<std::string> samples;
};
static Trace make(const std::string & check, uint64_t base, uint64_t idx) {
    Trace t; t.check = check; uint64_t h = 1469598103934665603ull; for (char c : check) h = (h ^ (uint8_t) c) * 1099511628211ull;
    t.seed = mix(mix(base, h), idx);
    Rng r(t.seed); workload(check)->gen(r, t);
    return t;
}
static bool fails_same(const Trace & t, const std::string & cls) { auto r = run_trace(t); return r.status == 2 && r.vclass == cls; }

static Trace minimise(Trace t, const std::string & cls, double budget) {
    double end = now() + budget;
    auto drop = [&](Trace c, std::vector<size_t> keep) { std::vector<Op> o; for (auto k : keep) o.push_back(c.ops[k]); c.ops = o; return c; };
    // operations
    bool again = true;
    while (again && now() < end) {
        again = false;
        for (size_t chunk = std::max<size_t>(1, t.ops.size() / 2);; chunk /= 2) {
            for (size_t i = 0; i < t.ops.size() && now() < end;) {
                std::vector<size_t> keep; for (size_t k = 0; k < t.ops.size(); ++k) if (k < i || k >= i + chunk) keep.push_back(k);
                if (keep.empty()) { i += chunk; continue; }
                Trace c = drop(t, keep);
                if (fails_same(c, cls)) { t = c; again = true; } else i += chunk;
            }
            if (chunk <= 1) break;
        }
        // schedule
        if (t.fixed_sched) for (size_t chunk = std::max<size_t>(1, t.sched.size() / 2);; chunk /= 2) {
            for (size_t i = 0; i < t.sched.size() && now() < end;) {
                Trace c = t; c.sched.erase(c.sched.begin() + i, c.sched.begin() + std::min(c.sched.size(), i + chunk));
                if (fails_same(c, cls)) { t = c; again = true; } else i += chunk;
            }
            if (chunk <= 1) break;
        }
    }
    for (size_t i = 0; i < t.ops.size() && now() < end; ++i) {
        if (t.ops[i].fail) { Trace c = t; c.ops[i].fail = 0; c.ops[i].persist = 0; if (fails_same(c, cls)) t = c; }
        if (t.ops[i].persist) { Trace c = t; c.ops[i].persist = 0; if (fails_same(c, cls)) t = c; }
        for (int k = 0; k < NARGS && now() < end; ++k) {
            for (int64_t v : {(int64_t) 0, t.ops[i].a[k] / 2, t.ops[i].a[k] - 1}) { if (t.ops[i].a[k] == 0 || v == t.ops[i].a[k]) continue; Trace c = t; c.ops[i].a[k] = v; if (fails_same(c, cls)) { t = c; } }
        }
    }
    return t;
}
static void set_alarm(int) {}

int main(int argc, char ** argv) {
    (void) set_alarm;
    std::map<std::string, std::string> a; std::string mode = argc > 1 ? argv[1] : "";
    for (int i = 2; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1];
    rt_init();
    sh = (Shared *) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    auto num = [&](const char * k, long d) { return a.count(k) ? atol(a[k].c_str()) : d; };
    { std::vector<std::string> known; std::stringstream s(a["--known"]); std::string x; while (std::getline(s, x, ',')) if (!x.empty()) known.push_back(x); set_known(known); }
    if (mode == "replay") {
        std::ifstream f(a["--file"]); std::stringstream ss; ss << f.rdbuf(); Trace t; std::string err;
        if (!from_text(ss.str(), t, err)) { fprintf(stderr, "%s\n", err.c_str()); return 3; }
        auto r = run_trace(t);
        printf("{\"status\": %d, \"class\": \"%s\", \"hash\": \"%016llx\", \"op\": %d, \"msg\": \"%s\"}\n", r.status, esc(r.vclass).c_str(), (unsigned long long) r.hash, r.vop, esc(r.msg).c_str());
        return r.status == 1 ? 0 : r.status == 2 ? 1 : 3;
    }
    if (mode == "show") { Trace t = make(a["--check"], num("--seed", 1), num("--index", 0)); fputs(to_text(t).c_str(), stdout); if (a.count("--run")) { auto r = run_trace(t); printf("# status %d class %s hash %016llx events %llu op %d: %s\n", r.status, r.vclass.c_str(), (unsigned long long) r.hash, (unsigned long long) r.events, r.vop, r.msg.c_str()); for (int i = 0; i < sh->nprobe; ++i) printf("# probe %s %llu\n", sh->probes[i].name, (unsigned long long) sh->probes[i].count); } return 0; }
    if (mode != "explore") { fprintf(stderr, "usage: explore|replay|show\n"); return 3; }
    std::string check = a["--check"], out = a["--out"];
    if (!workload(check)) { fprintf(stderr, "unknown check %s\n", check.c_str()); return 3; }
    uint64_t base = strtoull(a.count("--seed") ? a["--seed"].c_str() : "1", nullptr, 10);
    uint64_t runs = num("--runs", 1000), first = num("--first", 0); int jobs = (int) num("--jobs", 8); double wall = (double) num("--wall", 60);
    bool hashes_out = a.count("--hashes");
    volatile int * stop = (volatile int *) mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    double t0 = now();
    std::vector<pid_t> pids;
    for (int j = 0; j < jobs; ++j) {
        pid_t p = fork();
        if (p) { pids.push_back(p); continue; }
        sh = (Shared *) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        Stats st; int rc = 0, unrepro = 0; std::string vtext;
        std::ofstream hf; if (hashes_out) hf.open(out + "/hashes." + std::to_string(j));
        for (uint64_t i = first + j; i < first + runs; i += jobs) {
            if (*stop || now() - t0 > wall) break;
            Trace t = make(check, base, i);
            auto r = run_trace(t);
            st.runs++; st.events += r.events; st.allocs += sh->allocs; st.switches += sh->nswitch; st.ops += t.ops.size();
            for (int k = 0; k < F_COUNT; ++k) st.faults[k] += sh->faults[k];
            for (int k = 0; k < sh->nprobe; ++k) st.probes[sh->probes[k].name] += sh->probes[k].count;
            for (int k = 0; k < sh->nstates; ++k) if (st.states.size() < 4000000) st.states.insert(sh->states[k]);
            if (sh->nswitch) st.il.insert(sh->ilhash);
            if (hashes_out) hf << i << " " << std::hex << r.hash << std::dec << " " << r.status << "\n";
            if (workload(check)->nontrivial(t) && st.hashes.insert(r.hash).second) st.nontrivial++;
            if (st.samples.size() < 2 && j < 2 && (st.runs == 1 || st.runs == 7)) { std::string s = to_text(t); if (s.size() > 3000) s.resize(3000); st.samples.push_back(s + "# hash " + std::to_string(r.hash)); }
            if (r.status == 3) { rc = 3; vtext = "harness error at index " + std::to_string(i) + ": " + r.msg; *stop = 1; break; }
            if (r.status == 2) {
                auto r2 = run_trace(t);
                if (r2.status != 2 || r2.vclass != r.vclass) {     // never reported as a violation; an error if nothing reproducible turns up
                    if (!unrepro++) vtext = "violation not reproducible at index " + std::to_string(i) + ": " + r.vclass + " " + r.msg + " then " + r2.vclass + " " + r2.msg;
                    if (unrepro < 50) continue;
                    rc = 3; break;
                }
                if (__sync_lock_test_and_set(stop, 1)) break;      // another worker reports
                Trace m = t;
                if (!r.sched.empty() && !sh->truncated_sched) { m.fixed_sched = true; m.sched = r.sched; if (!fails_same(m, r.vclass)) { m = t; } }
                m = minimise(m, r.vclass, num("--minimise", 60));
                auto f1 = run_trace(m), f2 = run_trace(m);
                if (f1.status != 2 || f1.vclass != r.vclass || f2.status != 2) { m = t; f1 = run_trace(m); f2 = run_trace(m); }
                if (f1.status != 2 || f2.status != 2) { rc = 3; vtext = "minimised trace not reproducible at index " + std::to_string(i); break; }
                std::ofstream o(out + "/violation.trace");
                o << "# expect class " << f1.vclass << " hash " << std::hex << f1.hash << std::dec << "\n# found at run index " << i << " of base seed " << base << " (run seed " << t.seed << "), " << t.ops.size() << " operations and " << r.sched.size() << " switches before minimisation\n# " << f1.msg << "\n" << to_text(m);
                o.close();
                rc = 1; vtext = f1.vclass + "|" + f1.msg; break;
            }
        }
        if (hashes_out) hf.close();
        if (!rc && unrepro) rc = 3;
        std::ofstream o(out + "/worker." + std::to_string(j));
        o << rc << "\n" << esc(vtext) << "\n" << st.runs << " " << st.events << " " << st.allocs << " " << st.switches << " " << st.nontrivial << " " << st.ops << "\n";
        for (auto f : st.faults) o << f << " "; o << "\n" << st.probes.size() << "\n"; for (auto & p : st.probes) o << p.first << "\t" << p.second << "\n";
        for (auto * s : {&st.states, &st.il, &st.hashes}) { o << s->size() << "\n"; for (auto v : *s) o << v << "\n"; }
        o << st.samples.size() << "\n"; for (auto & s : st.samples) o << esc(s) << "\n";
        o.close(); _exit(rc);
    }
    int rc = 0; for (auto p : pids) { int s; waitpid(p, &s, 0); int e = WIFEXITED(s) ? WEXITSTATUS(s) : 3; if (e == 1) rc = 1; else if (e && rc != 1) rc = 3; }
    Stats T; std::string vtext, herr;
    for (int j = 0; j < jobs; ++j) {
        std::ifstream f(out + "/worker." + std::to_string(j)); int wrc; std::string v; if (!(f >> wrc)) { if (rc != 1) rc = 3; herr = "worker died"; continue; } std::getline(f, v); std::getline(f, v); if (wrc == 1) vtext = v; if (wrc == 3) herr = v;
        uint64_t x[6]; for (auto & y : x) f >> y; T.runs += x[0]; T.events += x[1]; T.allocs += x[2]; T.switches += x[3]; T.ops += x[5];
        for (auto & k : T.faults) { uint64_t y; f >> y; k += y; }
        size_t n; f >> n; std::string l; std::getline(f, l); for (size_t i = 0; i < n; ++i) { std::getline(f, l); auto tb = l.rfind('\t'); T.probes[l.substr(0, tb)] += strtoull(l.c_str() + tb + 1, nullptr, 10); }
        for (auto * s : {&T.states, &T.il, &T.hashes}) { f >> n; for (size_t i = 0; i < n; ++i) { uint64_t y; f >> y; s->insert(y); } }
        f >> n; std::getline(f, l); for (size_t i = 0; i < n; ++i) { std::getline(f, l); T.samples.push_back(l); }
        unlink((out + "/worker." + std::to_string(j)).c_str());
    }
    std::ofstream o(out + "/stats.json");
    o << "{\"rc\": " << rc << ", \"violation\": \"" << vtext << "\", \"error\": \"" << herr << "\", \"runs\": " << T.runs << ", \"requested\": " << runs << ", \"events\": " << T.events << ", \"allocations\": " << T.allocs << ", \"switches\": " << T.switches << ", \"operations\": " << T.ops << ", \"distinct_states\": " << T.states.size() << ", \"distinct_interleavings\": " << T.il.size() << ", \"distinct_nontrivial\": " << T.hashes.size() << ", \"wall_s\": " << now() - t0 << ", \"faults\": {";
    bool c = false; for (int k = 0; k < F_COUNT; ++k) if (T.faults[k]) { o << (c ? ", " : "") << "\"" << fault_names[k] << "\": " << T.faults[k]; c = true; }
    o << "}, \"probes\": {"; c = false; for (auto & p : T.probes) { o << (c ? ", " : "") << "\"" << esc(p.first) << "\": " << p.second; c = true; }
    o << "}, \"rule\": \"" << esc(workload(check)->rule()) << "\", \"samples\": ["; for (size_t i = 0; i < T.samples.size(); ++i) o << (i ? ", " : "") << "\"" << T.samples[i] << "\"";
    o << "]}\n";
    return rc;
}
