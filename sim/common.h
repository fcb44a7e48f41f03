// Helpers shared by the workloads.
#pragma once
#include "rt.h"
#include <cmath>
namespace sim {
inline void gen_sched(Rng & r, Trace & t) {
    int p = (int) r.below(10);
    t.cfg["policy"] = p < 3 ? 0 : p < 6 ? 1 : p < 8 ? 2 : p < 9 ? 3 : 4;
    static const int means[] = {2, 5, 15, 60, 300}; t.cfg["mean"] = means[r.below(5)];
    static const int ests[] = {150, 600, 3000, 15000}; t.cfg["est"] = ests[r.below(4)];
    t.cfg["pctd"] = r.range(1, 6);
}
inline double unit(uint64_t seed, int k) { Rng r(mix(seed, (uint64_t) k + 11)); return r.unit(); }
inline double sym(uint64_t seed, int k) { return 2 * unit(seed, k) - 1; }
}
