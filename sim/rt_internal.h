#pragma once
#include <atomic>
#include <cstdint>
#include <vector>
namespace sim {
struct TL {
    int tid, sim, nest, quiet_lib; bool attribute;
    uintptr_t stk_lo;
    int op; uint32_t ev;
    int64_t nalloc, fail, persist; int fired;
};
extern __thread TL tl __attribute__((tls_model("initial-exec")));
enum { UNUSED, RUNNABLE, BLOCKED, DONE };
struct Thr { std::atomic<int> go{0}; int st = UNUSED; void * wait = nullptr; uint32_t vc[MAXT] = {0}; int last_op = 0; bool attribute = false; int quiet_lib = 0; };
extern bool g_active;
bool pc_in_exe(void *);
void * real_fn(const char *);
}
