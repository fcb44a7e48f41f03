// Runtime of the deterministic simulator. Compiled WITHOUT instrumentation.
//  * memory-access hooks (the __tsan_* entry points the compiler emits) -> preemption points, heap checks, race detection
//  * simulated heap (fixed addresses, never reused, redzones, poison) with scheduled allocation failures
//  * one-thread-at-a-time scheduler over parked pthreads, with simulated mutexes, rwlocks, condition variables, once, guards
#include "rt.h"
#include "rt_internal.h"
#include <atomic>
#include <cerrno>
#include <csetjmp>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <new>
#include <stdexcept>
#include <typeinfo>
#include <cxxabi.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <link.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

extern "C" { void * __libc_malloc(size_t); void __libc_free(void *); void * __libc_realloc(void *, size_t); void * __libc_calloc(size_t, size_t); void * __libc_memalign(size_t, size_t); }

namespace sim {

const char * const fault_names[F_COUNT] = {"allocation_failure", "persistent_allocation_failure", "short_read", "interrupted_read_EINTR", "read_EIO", "early_end_of_file", "open_failure", "file_vanishes", "truncated_file", "corrupted_file", "preemption", "thread_stall", "static_init_contention", "callback_throws", "reference_drop", "garbage_collection", "other"};

Shared * sh = nullptr;
int g_ref_index = 0;
bool g_verbose = false;
__thread TL tl;
bool g_active = false;          // inside a simulated process
static bool g_mt = false;       // several simulated threads are running
static Thr thr[MAXT];
static int g_nthr = 1;

// --------------------------------------------------------------------------------------------
// address space
static const uintptr_t ARENA = 0x100000000000ull;
static const size_t SUB = 1ull << 30;
static const uintptr_t ARENA_END = ARENA + MAXT * SUB;
static const uintptr_t SHADOW = 0x180000000000ull;
static const uintptr_t STACKS = 0x200000000000ull;
static const size_t STK = 8u << 20;
static const uintptr_t CELLS = 0x280000000000ull;
static const size_t MAXPAGES = 1 << 15;          // race-shadow pages available to one run
struct Cell { uint32_t rclk[MAXT], wclk[MAXT]; uint8_t rm[MAXT], wm[MAXT]; uint32_t pad; };
static_assert(sizeof(Cell) == 64, "cell");
static const size_t PT = 1 << 17;
static uintptr_t * pt_key; static uint32_t * pt_val; static uint32_t n_pages = 0;
static uintptr_t text_lo, text_hi, data_lo, data_hi;
struct Seg { uintptr_t lo, hi; };
static Seg g_segs[512]; static int n_segs = 0;
static uintptr_t bump[MAXT];
static uint8_t g_fill = 0xA5;
static Seg g_roots[256]; static int n_roots = 0;
static uint64_t g_live = 0;

struct Hdr { uint64_t magic; uint64_t size; uint64_t total; uint64_t seq; uint32_t state; int32_t op; int32_t tid; int32_t fop; uint64_t pc; uint64_t mark; };   // 64 bytes
static_assert(sizeof(Hdr) == 64, "hdr");
static const uint64_t MAGIC = 0x51AB10C4C0FFEE01ull;
static uint64_t g_seq = 0;

static inline uint8_t * shadow_of(uintptr_t a) { return (uint8_t *) (SHADOW + ((a - ARENA) >> 3)); }
static inline bool in_arena(uintptr_t a) { return a - ARENA < ARENA_END - ARENA; }
bool pc_in_exe(void * pc) { return (uintptr_t) pc >= text_lo && (uintptr_t) pc < text_hi; }

static int phdr_cb(struct dl_phdr_info * i, size_t, void *) {
    bool exe = !i->dlpi_name || !*i->dlpi_name;
    if (strstr(i->dlpi_name ? i->dlpi_name : "", "linux-vdso")) return 0;
    uintptr_t me = (uintptr_t) &rt_init;
    bool self = false;
    for (int k = 0; k < i->dlpi_phnum; ++k) { auto & p = i->dlpi_phdr[k]; uintptr_t a = i->dlpi_addr + p.p_vaddr; if (p.p_type == PT_LOAD && me >= a && me < a + p.p_memsz) self = true; }
    (void) self;
    for (int k = 0; k < i->dlpi_phnum; ++k) {
        auto & p = i->dlpi_phdr[k];
        if (p.p_type != PT_LOAD) continue;
        uintptr_t a = i->dlpi_addr + p.p_vaddr, e = a + p.p_memsz;
        if (exe && (p.p_flags & PF_X)) { text_lo = a; text_hi = e; }
        if (p.p_flags & PF_W) {
            if (exe) { data_lo = a; data_hi = e; }
            if (n_segs < 512) g_segs[n_segs++] = {a, e};
        }
    }
    return 0;
}
static void scan_segments() { n_segs = 0; dl_iterate_phdr(phdr_cb, nullptr); }

static void * map_fixed(uintptr_t a, size_t n) {
    void * p = mmap((void *) a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != (void *) a) { fprintf(stderr, "sim: cannot map %zx at %lx: %s\n", n, (unsigned long) a, strerror(errno)); _exit(3); }
    return p;
}
static bool g_inited = false;
static void * real(const char * n);
void rt_init() {
    if (g_inited) return;
    g_inited = true;
    map_fixed(ARENA, MAXT * SUB);
    map_fixed(SHADOW, MAXT * SUB / 8);
    map_fixed(STACKS, MAXT * STK);
    map_fixed(CELLS, MAXPAGES * 512 * sizeof(Cell));
    pt_key = (uintptr_t *) mmap(nullptr, PT * (sizeof(uintptr_t) + 4), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    pt_val = (uint32_t *) (pt_key + PT);
    for (int i = 0; i < MAXT; ++i) bump[i] = ARENA + i * SUB + 4096;
    scan_segments();
    for (const char * n : {"pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_trylock", "pthread_once", "pthread_cond_wait", "pthread_cond_signal", "pthread_cond_broadcast", "pthread_rwlock_rdlock", "pthread_rwlock_wrlock", "pthread_rwlock_unlock", "sched_yield", "nanosleep"}) real(n);
}

// --------------------------------------------------------------------------------------------
// hashing, logging, violations
static inline void fold(uint64_t v) { uint64_t h = sh->hash ^ v; h *= 0x9FB21C651E98DF25ull; sh->hash = h ^ (h >> 29); }
void log(uint64_t v) { if (sh) fold(v + 0x77); }
void log(const char * s) { if (!sh) return; uint64_t h = 1469598103934665603ull; for (; *s; ++s) h = (h ^ (uint8_t) *s) * 1099511628211ull; fold(h); }
void probe(const char * name, uint64_t n) {
    if (!sh) return;
    for (int i = 0; i < sh->nprobe; ++i) if (!strcmp(sh->probes[i].name, name)) { sh->probes[i].count += n; return; }
    if (sh->nprobe < MAXPROBE) { snprintf(sh->probes[sh->nprobe].name, sizeof sh->probes[0].name, "%s", name); sh->probes[sh->nprobe++].count = n; }
}
void state(uint64_t h) { if (sh && sh->nstates < MAXSTATES) { sh->states[sh->nstates++] = h; } }
void fault(FaultKind k, uint64_t n) { if (sh) sh->faults[k] += n; }

static void finish_child(int st) { sh->status = st; _exit(0); }
void violation(const char * cls, const char * fmt, ...) {
    tl.nest = 1; tl.sim = 0;
    if (!sh) { fprintf(stderr, "violation outside run %s\n", cls); _exit(3); }
    if (sh->status == 0) {
        snprintf(sh->vclass, sizeof sh->vclass, "%s", cls);
        va_list ap; va_start(ap, fmt); vsnprintf(sh->msg, sizeof sh->msg, fmt, ap); va_end(ap);
        sh->vop = tl.op;
    }
    finish_child(2);
    __builtin_unreachable();
}
static char g_known[16][64]; static int n_known = 0;
void set_known(const std::vector<std::string> & k) { for (auto & c : k) if (n_known < 16) snprintf(g_known[n_known++], 64, "%s", c.c_str()); }
void known_violation(const char * cls, const char * msg) {
    for (int i = 0; i < n_known; ++i) if (!strcmp(g_known[i], cls)) { char b[80]; snprintf(b, sizeof b, "known:%s", cls); probe(b); return; }
    violation(cls, "%s", msg);
}
void harness_error(const char * fmt, ...) {
    tl.nest = 1; tl.sim = 0;
    if (sh && sh->status == 0) { snprintf(sh->vclass, sizeof sh->vclass, "harness"); va_list ap; va_start(ap, fmt); vsnprintf(sh->msg, sizeof sh->msg, fmt, ap); va_end(ap); sh->vop = tl.op; }
    if (!sh) { fprintf(stderr, "harness error outside run: %s\n", fmt); _exit(3); }
    finish_child(3);
    __builtin_unreachable();
}

// --------------------------------------------------------------------------------------------
// heap
static size_t g_big_limit = 256ull << 20;
static inline void poke(void * p, int v, size_t n) { void * d = p; asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(v) : "memory"); }
static inline void copy(void * d, const void * s, size_t n) { asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); }

// optional reuse of freed blocks (as a real allocator does): address-keyed stale state becomes observable
static bool g_reuse = false;
static void * g_freelist[MAXT][64];            // size classes of 16 bytes up to 1 KB
static void clear_cells(uintptr_t a, size_t n);
void set_reuse(bool b) { g_reuse = b; }

static void * heap_alloc(size_t n, size_t align, void * pc) {
    int t = tl.tid; uintptr_t & b = bump[t];
    if (align < 16) align = 16;
    if (n > g_big_limit) return nullptr;
    if (g_reuse && align == 16 && n && n <= 1008) {
        void *& fl = g_freelist[t][(n + 15) / 16];
        if (fl) {
            void * p = fl; Hdr * hd = (Hdr *) p - 1; fl = (void *) hd->mark;
            hd->size = n; hd->seq = ++g_seq; hd->state = 1; hd->op = tl.op; hd->tid = t; hd->fop = 0; hd->pc = (uint64_t) pc; hd->mark = 0;
            uint8_t * s = shadow_of((uintptr_t) p); size_t full = n >> 3; poke(s, 8, full); if (n & 7) s[full] = n & 7;
            poke(p, g_fill, n); clear_cells((uintptr_t) p, n);
            ++g_live; sh->allocs++;
            return p;
        }
    }
    uintptr_t h = (b + 15) & ~15ull;
    uintptr_t user = (h + sizeof(Hdr) + align - 1) & ~(align - 1);
    uintptr_t end = (user + n + 16 + 15) & ~15ull;
    if (end + 64 >= ARENA + (t + 1) * SUB) return nullptr;
    Hdr * hd = (Hdr *) (user - sizeof(Hdr));
    hd->magic = MAGIC; hd->size = n; hd->total = end; hd->seq = ++g_seq; hd->state = 1; hd->op = tl.op; hd->tid = t; hd->fop = 0; hd->pc = (uint64_t) pc; hd->mark = 0;
    // link: the gap between b and the header is skipped by the walker through a tiny jump record
    *(uint64_t *) h = h == (uintptr_t) hd ? MAGIC : (uintptr_t) hd;
    b = end;
    uint8_t * s = shadow_of(user);
    size_t full = n >> 3;
    poke(s, 8, full);
    if (n & 7) s[full] = n & 7;
    poke((void *) user, g_fill, n < 65536 ? n : 65536);
    ++g_live; sh->allocs++;
    return (void *) user;
}
static inline Hdr * hdr_of(void * p) { return (Hdr *) ((uintptr_t) p - sizeof(Hdr)); }
static void race_range(uintptr_t a, size_t n, bool w, void * pc);
static void heap_free(void * p, void * pc) {
    Hdr * h = hdr_of(p);
    if (h->magic != MAGIC) violation("bad-free", "free of %p, which is not the start of an allocated block (pc=%p)", p, pc);
    if (h->state != 1) violation("double-free", "block of %lu bytes allocated at pc=%p in op %d is freed twice, first in op %d, now in op %d (pc=%p)", (unsigned long) h->size, (void *) h->pc, h->op, h->fop, tl.op, pc);
    if (g_mt && tl.sim) race_range((uintptr_t) p, h->size < 4096 ? h->size : 4096, true, pc);
    h->state = 2; h->fop = tl.op; --g_live;
    uint8_t * s = shadow_of((uintptr_t) p);
    poke(s, 0, (h->size + 7) >> 3);
    poke(p, 0xDD, h->size < (1u << 20) ? h->size : (1u << 20));
    if (g_reuse && h->size && h->size <= 1008 && ((uintptr_t) p & 15) == 0 && h->total - (uintptr_t) p <= ((h->size + 15) & ~15ull) + 16) { int t = tl.tid < 0 ? 0 : tl.tid; h->mark = (uint64_t) g_freelist[t][(h->size + 15) / 16]; g_freelist[t][(h->size + 15) / 16] = p; }
}
bool addr_is_live(const void * p, size_t n) {
    uintptr_t a = (uintptr_t) p;
    if (!in_arena(a)) return true;
    for (uintptr_t x = a; x < a + n; ++x) { if (!in_arena(x)) return false; if ((x & 7) >= *shadow_of(x)) return false; }
    return true;
}
// First live or dead block containing or following the address, for reports
static const char * describe(uintptr_t a, char * buf, size_t n) {
    uintptr_t lo = a & ~15ull;
    for (int i = 0; i < 1 << 16 && in_arena(lo - sizeof(Hdr)); ++i, lo -= 16) {
        Hdr * h = (Hdr *) (lo - sizeof(Hdr));
        if (h->magic == MAGIC) {
            snprintf(buf, n, "%ld bytes into a %lu-byte block allocated in op %d (pc=%p)%s", (long) (a - lo), (unsigned long) h->size, h->op, (void *) h->pc, h->state == 2 ? " and already freed" : "");
            return buf;
        }
    }
    snprintf(buf, n, "wild address in the simulated heap"); return buf;
}
static void bad_access(uintptr_t a, size_t n, bool w, void * pc) {
    uintptr_t lo = a & ~15ull; const char * cls = "heap-out-of-bounds"; char b[256];
    for (int i = 0; i < 1 << 16 && in_arena(lo - sizeof(Hdr)); ++i, lo -= 16) { Hdr * h = (Hdr *) (lo - sizeof(Hdr)); if (h->magic == MAGIC) { if (h->state == 2 && a < lo + h->size) cls = "use-after-free"; break; } }
    describe(a, b, sizeof b);
    violation(cls, "%s of %zu bytes, %s (pc=%p)", w ? "write" : "read", n, b, pc);
}
static inline void check_heap(uintptr_t a, size_t n, bool w, void * pc) {
    uintptr_t x = a, e = a + n;
    while (x < e) {
        if (!in_arena(x)) return;
        unsigned v = *shadow_of(x), off = x & 7; uintptr_t gend = (x | 7) + 1; uintptr_t lim = e < gend ? e : gend;
        if (off + (lim - x) > v) bad_access(x, n, w, pc);
        x = lim;
    }
}
size_t live_blocks() { return g_live; }
void set_fill(uint8_t f) { g_fill = f; }
void add_root(const void * p, size_t n) { if (n_roots < 256) g_roots[n_roots++] = {(uintptr_t) p, (uintptr_t) p + n}; }
void clear_roots() { n_roots = 0; }
void set_attribute_allocs(bool b) { tl.attribute = b; }

// returns true when the allocation must fail
static inline bool alloc_fault(void * pc) {
    if (!tl.op) return false;
    if (tl.attribute && !pc_in_exe(pc)) return false;
    ++tl.nalloc;
    if (!tl.fail || tl.nalloc < tl.fail) return false;
    if (tl.nalloc > tl.fail && !tl.persist) return false;
    if (!tl.fired) { fault(F_ALLOC); if (tl.persist) fault(F_ALLOC_PERSIST); }
    tl.fired = 1; fold(0xFA17 + tl.nalloc);
    return true;
}
static inline void alloc_event(void * pc);
static void * sim_alloc(size_t n, size_t align, void * pc) {
    alloc_event(pc);
    if (alloc_fault(pc)) return nullptr;
    fold(n);
    return heap_alloc(n, align, pc);
}
static inline bool simming() { return tl.sim && !tl.nest && g_active; }

bool fault_fired() { return tl.fired; }
void disarm() { tl.fail = 0; tl.persist = 0; }
uint64_t allocs_in_op() { return tl.nalloc; }

// --------------------------------------------------------------------------------------------
// leak check: conservative reachability over the simulated heap
struct MarkStack { uintptr_t * v; size_t n, cap; };
static MarkStack ms;
static Hdr * block_containing(uintptr_t a);
static void mark_range(uintptr_t lo, uintptr_t hi) {
    lo = (lo + 7) & ~7ull;
    for (uintptr_t p = lo; p + 8 <= hi; p += 8) {
        uintptr_t v = *(uintptr_t *) p;
        if (!in_arena(v)) continue;
        Hdr * h = block_containing(v);
        if (h && h->state == 1 && !h->mark) { h->mark = 1; if (ms.n < ms.cap) ms.v[ms.n++] = (uintptr_t) (h + 1); }
    }
}
static Hdr ** g_blocks; static size_t g_nblocks;
static Hdr * block_containing(uintptr_t a) {
    size_t lo = 0, hi = g_nblocks;
    while (lo < hi) { size_t m = (lo + hi) / 2; if ((uintptr_t) (g_blocks[m] + 1) <= a) lo = m + 1; else hi = m; }
    if (!lo) return nullptr;
    Hdr * h = g_blocks[lo - 1]; uintptr_t s = (uintptr_t) (h + 1);
    return a <= s + h->size ? h : nullptr;
}
static void collect_blocks() {
    size_t cap = g_seq + 16;
    g_blocks = (Hdr **) mmap(nullptr, cap * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    g_nblocks = 0;
    for (int t = 0; t < MAXT; ++t) {
        uintptr_t a = ARENA + t * SUB + 4096;
        while (a < bump[t]) {
            a = (a + 15) & ~15ull;
            uint64_t j = *(uint64_t *) a;
            Hdr * h = j == MAGIC ? (Hdr *) a : (Hdr *) j;
            if (h->magic != MAGIC) harness_error("heap walk failed at %lx", (unsigned long) a);
            if (g_nblocks < cap) g_blocks[g_nblocks++] = h;
            a = h->total;
        }
    }
    ms.cap = cap; ms.n = 0; ms.v = (uintptr_t *) mmap(nullptr, cap * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
}
size_t live_blocks_exe() {
    int sv = tl.nest; tl.nest = 1; size_t maplen = (g_seq + 16) * 8, n = 0;
    collect_blocks();
    for (size_t i = 0; i < g_nblocks; ++i) if (g_blocks[i]->state == 1 && pc_in_exe((void *) g_blocks[i]->pc)) ++n;
    munmap(g_blocks, maplen); munmap(ms.v, maplen); tl.nest = sv;
    return n;
}
__attribute__((noinline)) void check_leaks(const char * cls, bool exe_only) {
    int sv = tl.nest; tl.nest = 1;
    scan_segments();
    size_t maplen = (g_seq + 16) * 8;
    collect_blocks();
    for (size_t i = 0; i < g_nblocks; ++i) if (g_blocks[i]->state == 1) g_blocks[i]->mark = 0;
    jmp_buf jb; setjmp(jb);
    for (int i = 0; i < n_segs; ++i) mark_range(g_segs[i].lo, g_segs[i].hi);
    for (int i = 0; i < n_roots; ++i) mark_range(g_roots[i].lo, g_roots[i].hi);
    mark_range((uintptr_t) __builtin_frame_address(0), STACKS + (tl.tid + 1) * STK);
    mark_range((uintptr_t) &jb, (uintptr_t) (&jb + 1));
    while (ms.n) { uintptr_t p = ms.v[--ms.n]; mark_range(p, p + ((Hdr *) p - 1)->size); }
    size_t leaks = 0, bytes = 0; Hdr * first = nullptr;
    for (size_t i = 0; i < g_nblocks; ++i) {
        Hdr * h = g_blocks[i];
        if (h->state == 1 && !h->mark && !(exe_only && !pc_in_exe((void *) h->pc))) { ++leaks; bytes += h->size; if (!first) first = h; }
    }
    munmap(g_blocks, maplen); munmap(ms.v, maplen);
    if (leaks) violation(cls, "%zu unreachable block(s), %zu bytes; first: %lu bytes allocated in op %d (pc=%p)", leaks, bytes, (unsigned long) first->size, first->op, (void *) first->pc);
    tl.nest = sv;
}

// --------------------------------------------------------------------------------------------
// race detection
static Cell * cells_of(uintptr_t page) {
    size_t i = (page * 0x9E3779B97F4A7C15ull) >> (64 - 17);
    for (;;) {
        if (pt_key[i] == page) return (Cell *) (CELLS + (size_t) pt_val[i] * 512 * sizeof(Cell));
        if (!pt_key[i]) {
            if (n_pages >= MAXPAGES) return nullptr;
            pt_key[i] = page; pt_val[i] = n_pages++;
            return (Cell *) (CELLS + (size_t) pt_val[i] * 512 * sizeof(Cell));
        }
        i = (i + 1) & (PT - 1);
    }
}
static void clear_cells(uintptr_t a, size_t n) {
    if (!n_pages) return;
    for (uintptr_t x = a & ~7ull; x < a + n; x += 8) { Cell * pg = cells_of(x >> 12); if (pg) poke(&pg[(x & 4095) >> 3], 0, sizeof(Cell)); }
}
static bool g_shared_touch = false;   // the last checked access touched a cell another thread also used
static void race_report(uintptr_t a, int other, bool ow, bool w, void * pc) {
    char b[256]; const char * d = in_arena(a) ? describe(a, b, sizeof b) : (snprintf(b, sizeof b, "static storage data=%#lx", (unsigned long) a), b);
    violation("data-race", "thread %d %ss while thread %d %s the same bytes without synchronisation (op %d against op %d): %s (pc=%p)", tl.tid, w ? "write" : "read", other, ow ? "wrote" : "read", tl.op, thr[other].last_op, d, pc);
}
static inline void race_cell(Cell * c, uint8_t m, bool w, uintptr_t a, void * pc) {
    int t = tl.tid; Thr & me = thr[t];
    for (int o = 1; o < g_nthr; ++o) {
        if (o == t) continue;
        if (c->wm[o] | c->rm[o]) g_shared_touch = true;
        if ((c->wm[o] & m) && c->wclk[o] > me.vc[o]) race_report(a, o, true, w, pc);
        if (w && (c->rm[o] & m) && c->rclk[o] > me.vc[o]) race_report(a, o, false, w, pc);
    }
    uint32_t k = me.vc[t];
    if (w) { if (c->wclk[t] == k) c->wm[t] |= m; else { c->wclk[t] = k; c->wm[t] = m; } }
    else { if (c->rclk[t] == k) c->rm[t] |= m; else { c->rclk[t] = k; c->rm[t] = m; } }
}
static void race_range(uintptr_t a, size_t n, bool w, void * pc) {
    uintptr_t x = a, e = a + n;
    while (x < e) {
        Cell * pg = cells_of(x >> 12);
        if (!pg) return;
        uintptr_t gend = (x | 7) + 1, lim = e < gend ? e : gend;
        uint8_t m = (uint8_t) (((1u << (lim - x)) - 1) << (x & 7));
        race_cell(&pg[(x & 4095) >> 3], m, w, x, pc);
        x = lim;
    }
}
// sync objects: address -> vector clock
struct Sync { uintptr_t a; uint32_t vc[MAXT]; int owner; int count; int readers; int kind; };
static Sync g_sync[4096];
static Sync & sync_of(uintptr_t a) {
    size_t i = (a * 0x9E3779B97F4A7C15ull) >> 52;
    for (size_t k = 0; k < 4096; ++k) { Sync & s = g_sync[(i + k) & 4095]; if (s.a == a) return s; if (!s.a) { s.a = a; s.owner = -1; return s; } }
    harness_error("too many synchronisation objects");
}
static void acquire(Sync & s) { Thr & me = thr[tl.tid]; for (int i = 0; i < MAXT; ++i) if (s.vc[i] > me.vc[i]) me.vc[i] = s.vc[i]; }
static void release(Sync & s) { Thr & me = thr[tl.tid]; for (int i = 0; i < MAXT; ++i) if (me.vc[i] > s.vc[i]) s.vc[i] = me.vc[i]; me.vc[tl.tid]++; }

// --------------------------------------------------------------------------------------------
// scheduler
static long futex(std::atomic<int> * a, int op, int v) { return syscall(SYS_futex, (int *) a, op, v, nullptr, nullptr, 0); }
static void park(Thr & t) { while (t.go.load(std::memory_order_acquire) == 0) futex(&t.go, FUTEX_WAIT_PRIVATE, 0); t.go.store(0, std::memory_order_relaxed); }
static void unpark(Thr & t) { t.go.store(1, std::memory_order_release); futex(&t.go, FUTEX_WAKE_PRIVATE, 1); }

static Rng g_srng;
static int g_policy; static uint64_t g_mean; static int64_t g_countdown;
static uint64_t g_total_ev, g_step_budget = 40000000ull, g_op_start_ev;
static int g_prio[MAXT]; static uint64_t g_change[32]; static int n_change; static int g_lowprio;
static int g_stall_tid; static uint64_t g_stall_at, g_stall_len; static uint64_t g_stall_until;
static uint64_t g_since_switch;
static bool g_fixed; static const Trace * g_trace;
static struct { uint64_t key; int to; } * g_rmap; static size_t g_rcap;
static uint64_t skey(int tid, int op, uint32_t ev, int forced) { return ((uint64_t) (tid + 1) << 60) ^ ((uint64_t) (uint32_t) op << 36) ^ ((uint64_t) ev << 2) ^ (forced ? 2 : 1); }
static void build_rmap(const Trace & t) {
    g_rcap = 64; while (g_rcap < t.sched.size() * 2 + 2) g_rcap *= 2;
    g_rmap = (decltype(g_rmap)) mmap(nullptr, g_rcap * sizeof(*g_rmap), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    for (auto & s : t.sched) { uint64_t k = skey(s.tid, s.op, s.ev, s.forced); size_t i = (k * 0x9E3779B97F4A7C15ull) >> 20 & (g_rcap - 1); while (g_rmap[i].key && g_rmap[i].key != k) i = (i + 1) & (g_rcap - 1); if (!g_rmap[i].key) { g_rmap[i].key = k; g_rmap[i].to = s.to; } }
}
static int rlookup(uint64_t k) { size_t i = (k * 0x9E3779B97F4A7C15ull) >> 20 & (g_rcap - 1); while (g_rmap[i].key) { if (g_rmap[i].key == k) return g_rmap[i].to; i = (i + 1) & (g_rcap - 1); } return -1; }

static int runnable(int * out, int except) { int n = 0; for (int i = 1; i < g_nthr; ++i) if (i != except && thr[i].st == RUNNABLE) out[n++] = i; return n; }
static void next_interval() { double u = g_srng.unit(); if (u < 1e-9) u = 1e-9; g_countdown = 1 + (int64_t) (-__builtin_log(u) * (double) g_mean); }

static void record_switch(int to, int forced) {
    sh->nswitch++;
    uint64_t k = skey(tl.tid, tl.op, tl.ev, forced);
    fold(k * 31 + to);
    sh->ilhash = (sh->ilhash ^ (k * 131 + to)) * 0x9FB21C651E98DF25ull; sh->ilhash ^= sh->ilhash >> 31;
    if (sh->nsched < MAXSCHED) sh->sched[sh->nsched++] = Switch{tl.tid, tl.op, tl.ev, to, forced}; else sh->truncated_sched = 1;
    if (!forced) fault(F_PREEMPT);
}
static void do_switch(int to, int forced) {
    record_switch(to, forced);
    Thr & me = thr[tl.tid];
    me.last_op = tl.op; g_since_switch = 0;
    unpark(thr[to]);
    park(me);
}
static int pick(const int * c, int n) {
    if (g_policy == 1) { int b = c[0]; for (int i = 1; i < n; ++i) if (g_prio[c[i]] > g_prio[b]) b = c[i]; return b; }
    int m = 0, d[MAXT];
    for (int i = 0; i < n; ++i) if (!(c[i] == g_stall_tid && g_total_ev < g_stall_until)) d[m++] = c[i];
    if (m) return d[g_srng.below(m)];
    return c[g_srng.below(n)];
}
// voluntary preemption point
static void maybe_switch(bool shared, bool boundary) {
    int c[MAXT];
    if (g_fixed) {
        int to = rlookup(skey(tl.tid, tl.op, tl.ev, 0));
        if (to > 0 && to < g_nthr && to != tl.tid && thr[to].st == RUNNABLE) do_switch(to, 0);
        return;
    }
    bool sw = false;
    ++g_since_switch;
    switch (g_policy) {
        case 0: sw = --g_countdown <= 0; break;                                   // random walk
        case 1: for (int i = 0; i < n_change; ++i) if (g_change[i] == g_total_ev) { g_prio[tl.tid] = --g_lowprio; sw = true; } break;   // PCT
        case 2: sw = shared ? g_srng.chance(1, 3) : --g_countdown <= 0; break;    // biased to accesses of shared cells
        case 3: sw = boundary && g_srng.chance(1, 2); break;                      // operation-granular
        case 4: sw = --g_countdown <= 0; if (tl.tid == g_stall_tid && g_total_ev >= g_stall_at && !g_stall_until) { g_stall_until = g_total_ev + g_stall_len; fault(F_STALL); sw = true; } break;   // stall
    }
    if (g_since_switch > 200000) sw = true;   // fairness
    if (!sw) return;
    if (g_policy == 0 || g_policy == 2 || g_policy == 4) next_interval();
    int n = runnable(c, tl.tid);
    if (!n) { g_since_switch = 0; return; }
    int to;
    if (g_policy == 1 && g_since_switch <= 200000) { int all[MAXT]; int m = runnable(all, 0); to = pick(all, m); if (to == tl.tid) return; }
    else to = pick(c, n);
    do_switch(to, 0);
}
// the current thread cannot continue (blocked, finished or yielding)
static bool forced_switch(bool must) {
    int c[MAXT]; int n = runnable(c, tl.tid);
    if (!n) return false;
    int to = -1;
    if (g_fixed) { to = rlookup(skey(tl.tid, tl.op, tl.ev, 1)); if (!(to > 0 && to < g_nthr && to != tl.tid && thr[to].st == RUNNABLE)) to = c[0]; }
    else to = pick(c, n);
    (void) must;
    do_switch(to, 1);
    return true;
}
static void block_on(void * obj) {
    Thr & me = thr[tl.tid];
    tl.ev++;
    me.st = BLOCKED; me.wait = obj;
    if (!g_mt || !forced_switch(true)) violation("deadlock", "no runnable thread: thread %d waits for %p in op %d", tl.tid, in_arena((uintptr_t) obj) ? obj : nullptr, tl.op);
}
static void wake(void * obj, int max = MAXT) { for (int i = 0; i < g_nthr && max; ++i) if (thr[i].st == BLOCKED && thr[i].wait == obj) { thr[i].st = RUNNABLE; thr[i].wait = nullptr; --max; } }

static inline void step_check() {
    if (++g_total_ev - g_op_start_ev > g_step_budget) violation("no-progress", "operation %d did not finish within %llu steps", tl.op, (unsigned long long) g_step_budget);
}
static inline void event(uint64_t h, bool shared, bool boundary = false) {
    tl.ev++; sh->events++;
    step_check();
    if (g_mt) { fold(h ^ ((uint64_t) tl.tid << 56)); maybe_switch(shared, boundary); }
}
static inline void alloc_event(void *) { if (g_mt && !tl.quiet_lib) event(0xA110C, false); else if (!g_mt) { sh->events++; step_check(); } }

// CPU-time fallback for loops inside uninstrumented code
static void on_prof(int) { tl.nest = 1; tl.sim = 0; if (sh && sh->status == 0) { snprintf(sh->vclass, sizeof sh->vclass, "no-progress"); snprintf(sh->msg, sizeof sh->msg, "the run did not finish within its CPU budget"); sh->status = 2; } _exit(0); }
static void on_sig(int s, siginfo_t * si, void *) {
    tl.nest = 1; tl.sim = 0;
    if (sh && sh->status == 0) {
        snprintf(sh->vclass, sizeof sh->vclass, "crash-%s", s == SIGSEGV ? "SIGSEGV" : s == SIGABRT ? "SIGABRT" : s == SIGFPE ? "SIGFPE" : s == SIGBUS ? "SIGBUS" : "SIGILL");
        uintptr_t a = (uintptr_t) si->si_addr; const char * k = s != SIGSEGV ? "" : a < 4096 ? " at a null address" : " at an invalid address";
        snprintf(sh->msg, sizeof sh->msg, "signal %d%s in op %d, thread %d", s, k, tl.op, tl.tid);
        sh->vop = tl.op; sh->status = 2;
    }
    _exit(0);
}
static void on_terminate() {
    tl.nest = 1; tl.sim = 0;
    const char * tn = "no active exception";
    if (std::type_info * ti = abi::__cxa_current_exception_type()) tn = ti->name();
    violation("terminate", "std::terminate was called (exception type %s) in op %d", tn, tl.op);
}
static void thread_signals() {
    static char alt[MAXT][65536];
    stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt[tl.tid]; ss.ss_size = sizeof alt[0]; sigaltstack(&ss, nullptr);
}
static void install_signals() {
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_sig; sa.sa_flags = SA_SIGINFO | SA_ONSTACK; sigemptyset(&sa.sa_mask);
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL}) sigaction(s, &sa, nullptr);
    struct sigaction sp; memset(&sp, 0, sizeof sp); sp.sa_handler = on_prof; sp.sa_flags = SA_ONSTACK; sigaction(SIGPROF, &sp, nullptr);
    itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = 30; setitimer(ITIMER_PROF, &it, nullptr);
    std::set_terminate(on_terminate);
}
const std::function<void(int)> * g_fn;
static void * thread_main(void * p) {
    int tid = (int) (intptr_t) p;
    tl.tid = tid; tl.stk_lo = STACKS + tid * STK; tl.attribute = thr[0].attribute; tl.quiet_lib = thr[0].quiet_lib;
    thread_signals();
    park(thr[tid]);
    try { (*g_fn)(tid); } catch (...) { tl.sim = 0; violation("uncaught", "exception escaped the workload thread"); }
    tl.sim = 0; tl.op = 0; tl.ev = 0x3fffffff;
    Thr & me = thr[tid];
    me.st = DONE; me.last_op = 0; me.vc[tid]++;
    int c[MAXT];
    if (runnable(c, tid)) {
        int to;
        if (g_fixed) { to = rlookup(skey(tid, 0, tl.ev, 1)); if (!(to > 0 && to < g_nthr && thr[to].st == RUNNABLE)) to = c[0]; }
        else to = pick(c, runnable(c, tid));
        record_switch(to, 1);
        unpark(thr[to]);
    } else {
        for (int i = 1; i < g_nthr; ++i) if (thr[i].st == BLOCKED) violation("deadlock", "thread %d never wakes up", i);
        unpark(thr[0]);
    }
    return nullptr;
}
void run_threads(const Trace & t, int n, const std::function<void(int)> & fn) {
    g_trace = &t; g_fixed = t.fixed_sched; if (g_fixed) build_rmap(t);
    g_fn = &fn;
    g_nthr = n + 1;
    g_srng = Rng(mix(t.seed, 0x5C4ED));
    g_policy = (int) t.get("policy"); g_mean = (uint64_t) t.get("mean", 50); if (g_mean < 1) g_mean = 1;
    next_interval();
    uint64_t est = (uint64_t) t.get("est", 2000);
    n_change = (int) t.get("pctd", 3); if (n_change > 32) n_change = 32;
    for (int i = 0; i < n_change; ++i) g_change[i] = g_total_ev + 1 + g_srng.below(est);
    for (int i = 1; i <= n; ++i) g_prio[i] = 100 + i;
    for (int i = n; i > 1; --i) { int j = 1 + (int) g_srng.below(i); std::swap(g_prio[i], g_prio[j]); }
    g_lowprio = 50;
    g_stall_tid = g_policy == 4 ? 1 + (int) g_srng.below(n) : 0; g_stall_at = g_total_ev + 1 + g_srng.below(est); g_stall_len = 2000 + g_srng.below(20000); g_stall_until = 0;
    thr[0].attribute = tl.attribute; thr[0].quiet_lib = tl.quiet_lib;
    pthread_t pt[MAXT];
    int sv = tl.sim; tl.sim = 0;
    for (int i = 1; i <= n; ++i) {
        thr[i].st = RUNNABLE; thr[i].go = 0; memcpy(thr[i].vc, thr[0].vc, sizeof thr[0].vc); thr[i].vc[i]++;
        pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstack(&at, (void *) (STACKS + i * STK), STK);
        if (pthread_create(&pt[i], &at, thread_main, (void *) (intptr_t) i)) harness_error("pthread_create failed");
        pthread_attr_destroy(&at);
    }
    thr[0].vc[0]++;
    g_mt = true; thr[0].st = BLOCKED; thr[0].wait = (void *) 1;
    int first;
    { int c[MAXT]; int m = runnable(c, 0); tl.ev = 0; if (g_fixed) { first = rlookup(skey(0, 0, 0, 1)); if (first < 1 || first > n) first = 1; } else first = pick(c, m); int svop = tl.op; tl.op = 0; record_switch(first, 1); tl.op = svop; }
    unpark(thr[first]);
    park(thr[0]);
    g_mt = false; thr[0].st = RUNNABLE; thr[0].wait = nullptr;
    for (int i = 1; i <= n; ++i) { pthread_join(pt[i], nullptr); for (int k = 0; k < MAXT; ++k) if (thr[i].vc[k] > thr[0].vc[k]) thr[0].vc[k] = thr[i].vc[k]; thr[i].st = UNUSED; }
    tl.sim = sv;
    g_nthr = 1;
}
void set_quiet_lib(bool b) { tl.quiet_lib = b; }
bool multi_threaded() { return g_mt; }
void sched_point(uint64_t h) { if (simming()) event(h, false); }

// --------------------------------------------------------------------------------------------
// operations
void begin_op(const Op & op) {
    tl.op = op.id; tl.ev = 0; tl.nalloc = 0; tl.fail = op.fail; tl.persist = op.persist; tl.fired = 0;
    g_op_start_ev = g_total_ev;
    if (g_mt) thr[tl.tid].last_op = op.id;
    fold(0xB0 + op.id * 977 + op.code);
    if (g_mt) event(0xBE61, false, true);
}
void end_op() {
    if (g_mt) event(0xE4D, false, true);
    fold(0xE0 + tl.op);
    tl.fail = 0; tl.persist = 0; tl.op = 0; tl.ev = 0;
    g_op_start_ev = g_total_ev;
}
SimScope::SimScope() : saved(tl.sim) { tl.sim = 1; }
SimScope::~SimScope() { tl.sim = saved; }
HostScope::HostScope() : saved(tl.sim) { tl.sim = 0; }
HostScope::~HostScope() { tl.sim = saved; }

Outcome classify_current_exception() {
    Outcome o;
    try { throw; }
    catch (const std::bad_alloc & e) { o.k = Outcome::BAD_ALLOC; o.type = "std::bad_alloc"; o.what = e.what(); }
    catch (const std::logic_error & e) { o.k = Outcome::LOGIC; o.type = typeid(e).name(); o.what = e.what(); }
    catch (const std::exception & e) { o.k = Outcome::RUNTIME; o.type = typeid(e).name(); o.what = e.what(); }
    catch (...) { o.k = Outcome::OTHER; o.type = "non-standard exception"; }
    return o;
}

// --------------------------------------------------------------------------------------------
// result streams
void Out::d(double x) { HostScope h; v.push_back(x); }
bool same(const std::vector<double> & a, const std::vector<double> & b, double tol) {
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); ++i) {
        double x = a[i], y = b[i];
        if (x == y) continue;
        if (x != x && y != y) continue;
        if (x != x || y != y) return false;
        double m = __builtin_fabs(x) > __builtin_fabs(y) ? __builtin_fabs(x) : __builtin_fabs(y);
        if (!(__builtin_fabs(x - y) <= tol * (1 + m))) return false;
    }
    return true;
}
bool ref_of(int op, std::vector<double> & out) {
    for (int i = 0; i < sh->nrefops; ++i) if (sh->refops[i].op == op) { out.assign(sh->ref + sh->refops[i].off, sh->ref + sh->refops[i].off + sh->refops[i].len); return true; }
    return false;
}
void put_ref(int op, const std::vector<double> & v) {
    if (sh->nrefops >= MAXREFOPS || sh->nref + v.size() > MAXREF) harness_error("reference buffer full");
    auto & e = sh->refops[sh->nrefops++]; e.op = op; e.off = (uint32_t) sh->nref; e.len = (uint32_t) v.size();
    for (double x : v) sh->ref[sh->nref++] = x;
}
static double g_tol = 1e-9;
void set_tolerance(double t) { g_tol = t; }
void record_or_compare(Mode mode, const Op & op, const Out & o, const char * what) {
    HostScope h;
    int sv = tl.nest; tl.nest = 1;
    if (mode == REF) put_ref(op.id, o.v);
    else {
        std::vector<double> r;
        for (double x : o.v) { int64_t q; memcpy(&q, &x, 8); fold((uint64_t) q); }
        if (ref_of(op.id, r) && !same(r, o.v, g_tol)) {
            size_t i = 0; while (i < r.size() && i < o.v.size() && same({r[i]}, {o.v[i]}, g_tol)) ++i;
            violation("wrong-result", "%s (op %d, thread %d) returned a result that differs from the one obtained without interference: %zu against %zu values, first difference at %zu: %.17g instead of %.17g", what, op.id, tl.tid, o.v.size(), r.size(), i, i < o.v.size() ? o.v[i] : 0.0, i < r.size() ? r[i] : 0.0);
        }
    }
    tl.nest = sv;
}

// --------------------------------------------------------------------------------------------
// the simulated process
static const Trace * c_trace; static Workload * c_w; static Mode c_mode;
static void * t0_main(void *) {
    tl.tid = 0; tl.stk_lo = STACKS; thread_signals();
    thr[0].st = RUNNABLE; thr[0].vc[0] = 1;
    sh->hash = 0x1234; sh->events = 0;
    g_fill = c_mode == REF ? 0xFE : 0xF7;
    g_active = true;
    c_w->exec(*c_trace, c_mode);
    sh->steps_max = g_total_ev;
    finish_child(1);
    return nullptr;
}
static void child(const Trace & t, Workload * w, Mode m) {
    c_trace = &t; c_w = w; c_mode = m;
    install_signals();
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstack(&at, (void *) STACKS, STK);
    pthread_t p;
    if (pthread_create(&p, &at, t0_main, nullptr)) { snprintf(sh->msg, sizeof sh->msg, "pthread_create"); finish_child(3); }
    pthread_join(p, nullptr);
    finish_child(3);
}
static int run_child(const Trace & t, Workload * w, Mode m) {
    sh->status = 0; sh->vclass[0] = 0; sh->msg[0] = 0; sh->vop = 0;
    pid_t p = fork();
    if (p < 0) { sh->status = 3; snprintf(sh->msg, sizeof sh->msg, "fork: %s", strerror(errno)); return 3; }
    if (p == 0) child(t, w, m);
    int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (sh->status == 0) {
        if (WIFSIGNALED(st)) { sh->status = WTERMSIG(st) == SIGKILL ? 3 : 2; snprintf(sh->vclass, sizeof sh->vclass, "crash-signal-%d", WTERMSIG(st)); snprintf(sh->msg, sizeof sh->msg, "the simulated process was ended by signal %d", WTERMSIG(st)); }
        else { sh->status = 2; snprintf(sh->vclass, sizeof sh->vclass, "exit"); snprintf(sh->msg, sizeof sh->msg, "the code under test ended the process (status %d)", st); }
    }
    return sh->status;
}
static void reset_shared() {
    sh->nref = 0; sh->nrefops = 0;
    sh->truncated_sched = 0; sh->hash = sh->events = sh->allocs = sh->nswitch = sh->steps_max = sh->ilhash = 0;
    memset(sh->faults, 0, sizeof sh->faults); sh->nsched = 0; sh->nprobe = 0; sh->nstates = 0;
}
RunResult run_trace(const Trace & t) {
    Workload * w = workload(t.check);
    RunResult r; r.status = 3; r.vop = 0; r.hash = r.events = 0;
    if (!w) { r.msg = "unknown check " + t.check; return r; }
    reset_shared();
    int n = w->refs(t);
    for (int i = 0; i < n; ++i) {
        g_ref_index = i;
        int st = run_child(t, w, REF);
        if (st != 1) { r.status = st; r.vclass = std::string(sh->vclass); r.msg = std::string("in the sequential reference execution: ") + sh->msg; r.vop = sh->vop; r.hash = sh->hash; r.events = sh->events; return r; }
    }
    sh->truncated_sched = 0; sh->hash = sh->events = sh->allocs = sh->nswitch = sh->steps_max = sh->ilhash = 0; memset(sh->faults, 0, sizeof sh->faults); sh->nsched = 0; sh->nprobe = 0; sh->nstates = 0;
    g_ref_index = 0;
    run_child(t, w, RUN);
    r.status = sh->status; r.vclass = sh->vclass; r.msg = sh->msg; r.vop = sh->vop; r.hash = sh->hash; r.events = sh->events;
    r.sched.assign(sh->sched, sh->sched + sh->nsched);
    return r;
}
static std::map<std::string, Workload *> & registry() { static std::map<std::string, Workload *> m; return m; }
void register_workload(const char * c, Workload * w) { registry()[c] = w; }
Workload * workload(const std::string & c) { auto i = registry().find(c); return i == registry().end() ? nullptr : i->second; }

// --------------------------------------------------------------------------------------------
// memory access entry point
static inline __attribute__((always_inline)) void access(void * p, size_t n, bool w, void * pc) {
    if (!tl.sim || tl.nest || !g_active) return;
    uintptr_t a = (uintptr_t) p;
    if (a - tl.stk_lo < STK) return;
    if (in_arena(a)) {
        check_heap(a, n, w, pc);
        if (g_mt) { g_shared_touch = false; race_range(a, n, w, pc); event(a ^ (w ? 1ull << 62 : 0), g_shared_touch); }
        else { sh->events++; step_check(); }
    } else if (a >= data_lo && a < data_hi) {
        if (g_mt) { g_shared_touch = false; race_range(a, n, w, pc); event(a ^ (w ? 1ull << 62 : 0), true); }
        else { sh->events++; step_check(); }
    } else if (!g_mt) step_check();
    else { tl.ev++; step_check(); maybe_switch(false, false); }
}
static void mem_range(const void * p, size_t n, bool w, void * pc) { if (n) access((void *) p, n, w, pc); }

static void * real(const char * n) {
    static struct { const char * n; void * f; } tab[64]; static int k = 0;
    for (int i = 0; i < k; ++i) if (!strcmp(tab[i].n, n)) return tab[i].f;
    void * f = dlsym(RTLD_NEXT, n);
    if (k < 64) tab[k++] = {n, f};
    return f;
}
void * real_fn(const char * n) { return real(n); }
} // namespace sim

using namespace sim;
#define PC __builtin_return_address(0)

// ---- compiler hooks ----------------------------------------------------------------------------
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) { if (tl.sim && g_active && !tl.nest) step_check(); }
void __tsan_func_exit() {}
#define RW(N) \
void __tsan_read##N(void * a) { access(a, N, false, PC); } \
void __tsan_write##N(void * a) { access(a, N, true, PC); } \
void __tsan_unaligned_read##N(void * a) { access(a, N, false, PC); } \
void __tsan_unaligned_write##N(void * a) { access(a, N, true, PC); } \
void __tsan_volatile_read##N(void * a) { access(a, N, false, PC); } \
void __tsan_volatile_write##N(void * a) { access(a, N, true, PC); } \
void __tsan_unaligned_volatile_read##N(void * a) { access(a, N, false, PC); } \
void __tsan_unaligned_volatile_write##N(void * a) { access(a, N, true, PC); } \
void __tsan_read_write##N(void * a) { access(a, N, false, PC); access(a, N, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void * a, unsigned long n) { mem_range(a, n, false, PC); }
void __tsan_write_range(void * a, unsigned long n) { mem_range(a, n, true, PC); }
void __tsan_vptr_update(void ** p, void * v) { if (*p != v) access(p, 8, true, PC); else access(p, 8, false, PC); }
void __tsan_vptr_read(void ** p) { access(p, 8, false, PC); }

// atomics: executed by the one running thread; they order memory as their memory order says
static inline void at_pre(void * a, size_t n, bool w, void * pc) {
    if (!tl.sim || tl.nest || !g_active) return;
    if (in_arena((uintptr_t) a)) check_heap((uintptr_t) a, n, w, pc);
    if (g_mt) event((uintptr_t) a ^ 0xA7031C, true); else { sh->events++; step_check(); }
}
static inline void at_sync(volatile void * a, int mo, bool ld, bool st) {
    if (!tl.sim || tl.nest || !g_mt) return;
    Sync & s = sync_of((uintptr_t) a);
    bool acq = ld && (mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST || mo == __ATOMIC_CONSUME);
    bool rel = st && (mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST);
    if (acq) acquire(s);
    if (rel) release(s);
}
#define AT(B, T) \
T __tsan_atomic##B##_load(const volatile T * a, int mo) { at_pre((void *) a, sizeof(T), false, PC); at_sync((volatile void *) a, mo, true, false); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
void __tsan_atomic##B##_store(volatile T * a, T v, int mo) { at_pre((void *) a, sizeof(T), true, PC); at_sync(a, mo, false, true); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##B##_exchange(volatile T * a, T v, int mo) { at_pre((void *) a, sizeof(T), true, PC); at_sync(a, mo, true, true); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##B##_fetch_add(volatile T * a, T v, int mo) { at_pre((void *) a, sizeof(T), true, PC); at_sync(a, mo, true, true); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##B##_fetch_sub(volatile T * a, T v, int mo) { at_pre((void *) a, sizeof(T), true, PC); at_sync(a, mo, true, true); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##B##_fetch_and(volatile T * a, T v, int mo) { at_pre((void *) a, sizeof(T), true, PC); at_sync(a, mo, true, true); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##B##_fetch_or(volatile T * a, T v, int mo) { at_pre((void *) a, sizeof(T), true, PC); at_sync(a, mo, true, true); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##B##_fetch_xor(volatile T * a, T v, int mo) { at_pre((void *) a, sizeof(T), true, PC); at_sync(a, mo, true, true); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##B##_fetch_nand(volatile T * a, T v, int mo) { at_pre((void *) a, sizeof(T), true, PC); at_sync(a, mo, true, true); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
int __tsan_atomic##B##_compare_exchange_strong(volatile T * a, T * e, T v, int mo, int fmo) { at_pre((void *) a, sizeof(T), true, PC); bool ok = __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); at_sync(a, ok ? mo : fmo, true, ok); return ok; } \
int __tsan_atomic##B##_compare_exchange_weak(volatile T * a, T * e, T v, int mo, int fmo) { at_pre((void *) a, sizeof(T), true, PC); bool ok = __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); at_sync(a, ok ? mo : fmo, true, ok); return ok; } \
T __tsan_atomic##B##_compare_exchange_val(volatile T * a, T e, T v, int mo, int fmo) { at_pre((void *) a, sizeof(T), true, PC); bool ok = __atomic_compare_exchange_n(a, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); at_sync(a, ok ? mo : fmo, true, ok); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
static Sync g_fence;
void __tsan_atomic_thread_fence(int) { if (tl.sim && g_mt && !tl.nest) { event(0xFE4CE, true); acquire(g_fence); release(g_fence); } }
void __tsan_atomic_signal_fence(int) {}

// ---- libc memory functions -----------------------------------------------------------------------
void * memcpy(void * __restrict d, const void * __restrict s, size_t n) { if (n && tl.sim && g_active && !tl.nest) { if (!(tl.quiet_lib && !pc_in_exe(PC))) { access((void *) s, n, false, PC); access(d, n, true, PC); } } sim::copy(d, s, n); return d; }
void * memmove(void * d, const void * s, size_t n) {
    if (n && tl.sim && g_active && !tl.nest) { if (!(tl.quiet_lib && !pc_in_exe(PC))) { access((void *) s, n, false, PC); access(d, n, true, PC); } }
    if ((uintptr_t) d - (uintptr_t) s >= n) sim::copy(d, s, n);
    else { char * dd = (char *) d; const char * ss = (const char *) s; while (n--) { dd[n] = ss[n]; asm volatile("" ::: "memory"); } }
    return d;
}
void * memset(void * d, int c, size_t n) { if (n && tl.sim && g_active && !tl.nest) { if (!(tl.quiet_lib && !pc_in_exe(PC))) access(d, n, true, PC); } sim::poke(d, c, n); return d; }

// ---- allocation ------------------------------------------------------------------------------------
void * malloc(size_t n) { if (simming()) { void * p = sim_alloc(n, 16, PC); if (!p) errno = ENOMEM; return p; } return __libc_malloc(n); }
void free(void * p) { if (!p) return; if (in_arena((uintptr_t) p)) { if (simming()) alloc_event(PC); heap_free(p, PC); return; } __libc_free(p); }
void * calloc(size_t a, size_t b) {
    if (!simming()) return __libc_calloc(a, b);
    size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
    void * p = sim_alloc(n, 16, PC); if (!p) { errno = ENOMEM; return nullptr; } sim::poke(p, 0, n); return p;
}
void * realloc(void * p, size_t n) {
    if (p && !in_arena((uintptr_t) p)) return __libc_realloc(p, n);
    if (!p && !simming()) return __libc_malloc(n);
    if (p && n == 0) { free(p); return nullptr; }
    void * q;
    if (simming()) q = sim_alloc(n, 16, PC); else { q = __libc_malloc(n); }
    if (!q) { errno = ENOMEM; return nullptr; }
    if (p) { size_t o = hdr_of(p)->size; sim::copy(q, p, o < n ? o : n); heap_free(p, PC); }
    return q;
}
void * reallocarray(void * p, size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; } return realloc(p, n); }
int posix_memalign(void ** r, size_t al, size_t n) { void * p = simming() ? sim_alloc(n, al, PC) : __libc_memalign(al, n); if (!p) return ENOMEM; *r = p; return 0; }
void * aligned_alloc(size_t al, size_t n) { return simming() ? sim_alloc(n, al, PC) : __libc_memalign(al, n); }
void * memalign(size_t al, size_t n) { return simming() ? sim_alloc(n, al, PC) : __libc_memalign(al, n); }
size_t malloc_usable_size(void * p) {
    if (!p) return 0;
    if (in_arena((uintptr_t) p)) return hdr_of(p)->size;
    auto f = (size_t (*)(void *)) real("malloc_usable_size"); return f(p);
}
} // extern "C"
static inline void * do_new(size_t n, size_t al, void * pc) {
    void * p = simming() ? sim_alloc(n, al, pc) : (al > 16 ? __libc_memalign(al, n ? n : 1) : __libc_malloc(n ? n : 1));
    return p;
}
void * operator new(size_t n) { void * p = do_new(n, 16, PC); if (!p) throw std::bad_alloc(); return p; }
void * operator new[](size_t n) { void * p = do_new(n, 16, PC); if (!p) throw std::bad_alloc(); return p; }
void * operator new(size_t n, const std::nothrow_t &) noexcept { return do_new(n, 16, PC); }
void * operator new[](size_t n, const std::nothrow_t &) noexcept { return do_new(n, 16, PC); }
void * operator new(size_t n, std::align_val_t a) { void * p = do_new(n, (size_t) a, PC); if (!p) throw std::bad_alloc(); return p; }
void * operator new[](size_t n, std::align_val_t a) { void * p = do_new(n, (size_t) a, PC); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void * p) noexcept { free(p); }
void operator delete[](void * p) noexcept { free(p); }
void operator delete(void * p, size_t) noexcept { free(p); }
void operator delete[](void * p, size_t) noexcept { free(p); }
void operator delete(void * p, const std::nothrow_t &) noexcept { free(p); }
void operator delete[](void * p, const std::nothrow_t &) noexcept { free(p); }
void operator delete(void * p, std::align_val_t) noexcept { free(p); }
void operator delete[](void * p, std::align_val_t) noexcept { free(p); }
void operator delete(void * p, size_t, std::align_val_t) noexcept { free(p); }
void operator delete[](void * p, size_t, std::align_val_t) noexcept { free(p); }

// ---- synchronisation ---------------------------------------------------------------------------------
// registering the destructor of a thread_local is the C library's affair: glibc ends the process when it lacks memory
extern "C" int __cxa_thread_atexit(void (*f)(void *), void * o, void * d) {
    int sv = tl.nest; tl.nest = 1; int r = ((int (*)(void (*)(void *), void *, void *)) real("__cxa_thread_atexit_impl"))(f, o, d); tl.nest = sv; return r;
}
#define SIMSYNC (tl.sim && g_active && !tl.nest && (g_mt))
#define LIBPT (tl.quiet_lib && !pc_in_exe(PC))
extern "C" {
static int sim_lock(void * m, bool tr, bool quiet) {
    if (!quiet) event(0x10CC, true);
    Sync & s = sync_of((uintptr_t) m);
    while (s.owner >= 0 && s.owner != tl.tid) { if (tr) return EBUSY; block_on(m); }
    if (s.owner == tl.tid && s.kind != PTHREAD_MUTEX_RECURSIVE) { if (tr) return EBUSY; violation("deadlock", "thread %d locks a mutex it already holds in op %d", tl.tid, tl.op); }
    s.owner = tl.tid; s.count++; acquire(s);
    return 0;
}
static int sim_unlock(void * m, bool quiet) {
    Sync & s = sync_of((uintptr_t) m);
    if (s.owner == tl.tid && --s.count == 0) { release(s); s.owner = -1; wake(m); }
    if (!quiet) event(0x0C10, true);
    return 0;
}
int pthread_mutex_lock(pthread_mutex_t * m) { if (SIMSYNC) { sync_of((uintptr_t) m).kind = m->__data.__kind & 3; return sim_lock(m, false, LIBPT); } return ((int (*)(pthread_mutex_t *)) real("pthread_mutex_lock"))(m); }
int pthread_mutex_trylock(pthread_mutex_t * m) { if (SIMSYNC) { sync_of((uintptr_t) m).kind = m->__data.__kind & 3; return sim_lock(m, true, LIBPT); } return ((int (*)(pthread_mutex_t *)) real("pthread_mutex_trylock"))(m); }
int pthread_mutex_unlock(pthread_mutex_t * m) { if (SIMSYNC) return sim_unlock(m, LIBPT); return ((int (*)(pthread_mutex_t *)) real("pthread_mutex_unlock"))(m); }
int pthread_rwlock_rdlock(pthread_rwlock_t * m) {
    if (!SIMSYNC) return ((int (*)(pthread_rwlock_t *)) real("pthread_rwlock_rdlock"))(m);
    if (!LIBPT) event(0x2D10, true); Sync & s = sync_of((uintptr_t) m); while (s.owner >= 0) block_on(m); s.readers++; acquire(s); return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t * m) {
    if (!SIMSYNC) return ((int (*)(pthread_rwlock_t *)) real("pthread_rwlock_wrlock"))(m);
    if (!LIBPT) event(0x2D11, true); Sync & s = sync_of((uintptr_t) m); while (s.owner >= 0 || s.readers) block_on(m); s.owner = tl.tid; acquire(s); return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t * m) {
    if (!SIMSYNC) return ((int (*)(pthread_rwlock_t *)) real("pthread_rwlock_unlock"))(m);
    Sync & s = sync_of((uintptr_t) m); release(s); if (s.owner == tl.tid) s.owner = -1; else if (s.readers) s.readers--; wake(m); if (!LIBPT) event(0x2D12, true); return 0;
}
int pthread_cond_wait(pthread_cond_t * c, pthread_mutex_t * m) {
    if (!SIMSYNC) return ((int (*)(pthread_cond_t *, pthread_mutex_t *)) real("pthread_cond_wait"))(c, m);
    Sync & s = sync_of((uintptr_t) m); int k = s.count; s.count = 0; release(s); s.owner = -1; wake(m);
    block_on(c); acquire(sync_of((uintptr_t) c)); sim_lock(m, false, LIBPT); s.count = k; return 0;
}
int pthread_cond_signal(pthread_cond_t * c) { if (!SIMSYNC) return ((int (*)(pthread_cond_t *)) real("pthread_cond_signal"))(c); release(sync_of((uintptr_t) c)); wake(c, 1); if (!LIBPT) event(0xC51, true); return 0; }
int pthread_cond_broadcast(pthread_cond_t * c) { if (!SIMSYNC) return ((int (*)(pthread_cond_t *)) real("pthread_cond_broadcast"))(c); release(sync_of((uintptr_t) c)); wake(c); if (!LIBPT) event(0xC52, true); return 0; }
int pthread_once(pthread_once_t * o, void (*f)(void)) {
    if (!(tl.sim && g_active && !tl.nest)) return ((int (*)(pthread_once_t *, void (*)(void))) real("pthread_once"))(o, f);
    if (g_mt && !LIBPT) event(0x0CE, true);
    if (*(volatile int *) o == 2) { if (g_mt) acquire(sync_of((uintptr_t) o)); return 0; }
    if (!g_mt) {                       // same encoding as glibc: 2 = done; an exception leaves the flag unset
        struct Undo { pthread_once_t * o; bool ok = false; ~Undo() { *(int *) o = ok ? 2 : 0; } } u{o};
        f(); u.ok = true; return 0;
    }
    Sync & s = sync_of((uintptr_t) o);
    while (s.owner >= 0) { fault(F_GUARD_CONTENTION); block_on(o); }
    if (*(volatile int *) o == 2) { acquire(s); return 0; }
    s.owner = tl.tid;
    struct Undo { pthread_once_t * o; Sync & s; bool ok = false; ~Undo() { if (ok) *(int *) o = 2; s.owner = -1; release(s); wake(o); } } u{o, s};
    f(); u.ok = true;
    return 0;
}
int sched_yield() { if (SIMSYNC) { event(0x91E1D, true); tl.ev++; forced_switch(false); return 0; } return ((int (*)()) real("sched_yield"))(); }
int nanosleep(const struct timespec * a, struct timespec * b) { if (SIMSYNC) { event(0x51EE9, true); tl.ev++; forced_switch(false); return 0; } return ((int (*)(const struct timespec *, struct timespec *)) real("nanosleep"))(a, b); }
int clock_nanosleep(clockid_t c, int fl, const struct timespec * a, struct timespec * b) { if (SIMSYNC) { event(0x51EE8, true); tl.ev++; forced_switch(false); return 0; } return ((int (*)(clockid_t, int, const struct timespec *, struct timespec *)) real("clock_nanosleep"))(c, fl, a, b); }
// ---- clock: simulated time advances with the events of the run, 1 microsecond each ------------------------------
static void sim_clock(struct timespec * t) { uint64_t us = 1000000ull * 1500000000ull + sh->events; t->tv_sec = (time_t) (us / 1000000); t->tv_nsec = (long) (us % 1000000) * 1000; }
int clock_gettime(clockid_t c, struct timespec * t) { if (simming()) { sim_clock(t); return 0; } return (int) syscall(SYS_clock_gettime, c, t); }
int gettimeofday(struct timeval * __restrict t, void * __restrict z) { if (simming()) { struct timespec s; sim_clock(&s); t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; return 0; } return (int) syscall(SYS_gettimeofday, t, z); }
time_t time(time_t * p) { struct timespec s; if (simming()) sim_clock(&s); else syscall(SYS_clock_gettime, CLOCK_REALTIME, &s); if (p) *p = s.tv_sec; return s.tv_sec; }
} // extern "C"

namespace __cxxabiv1 {
// guard byte 0: initialised; byte 1: being initialised
extern "C" int __cxa_guard_acquire(__cxxabiv1::__guard * g) {
    volatile uint8_t * b = (volatile uint8_t *) g;
    bool simt = tl.sim && g_active && !tl.nest && g_mt;
    bool quiet = LIBPT;
    if (simt && !quiet) event(0x6A4D, true);
    for (;;) {
        if (b[0]) { if (simt) acquire(sync_of((uintptr_t) g)); return 0; }
        if (!b[1]) { b[1] = 1; if (simt) { Sync & s = sync_of((uintptr_t) g); s.owner = tl.tid; acquire(s); } return 1; }
        if (!simt) violation("deadlock", "recursive static initialisation in op %d", tl.op);
        if (sync_of((uintptr_t) g).owner == tl.tid) violation("deadlock", "recursive static initialisation in op %d", tl.op);
        fault(F_GUARD_CONTENTION); block_on(g);
    }
}
extern "C" void __cxa_guard_release(__cxxabiv1::__guard * g) noexcept {
    volatile uint8_t * b = (volatile uint8_t *) g;
    bool simt = tl.sim && g_active && !tl.nest && g_mt;
    b[0] = 1; b[1] = 0;
    if (simt) { Sync & s = sync_of((uintptr_t) g); release(s); s.owner = -1; wake(g); if (!LIBPT) event(0x6A4E, true); }
}
extern "C" void __cxa_guard_abort(__cxxabiv1::__guard * g) noexcept {
    volatile uint8_t * b = (volatile uint8_t *) g;
    bool simt = tl.sim && g_active && !tl.nest && g_mt;
    b[1] = 0;
    if (simt) { Sync & s = sync_of((uintptr_t) g); release(s); s.owner = -1; wake(g); if (!LIBPT) event(0x6A4F, true); }
}
}
