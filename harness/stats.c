/* DEBUG statistics: the totals are the numbers of atomic instructions the threads executed between start and stop. */
#include "vf.h"
#include <config.h>
#include <primitives.h>
#include <stats.h>
#ifndef NT
#define NT 2
#endif
#ifndef OPS
#define OPS 2
#endif
#ifndef RUNS
#define RUNS 1
#endif
extern volatile int64_t __total_failed_cas, __total_executed_cas, __total_executed_swap, __total_executed_faa;
const int vf_nthreads = NT;
static volatile uint64_t w64, wp; static volatile uint32_t w32; static volatile __uint128_t w128; static int64_t cas[NT], fail[NT], swp[NT], faa[NT];
static void one(int t, int k, int count) {
    int64_t c = 0, f = 0, s = 0, a = 0; int ok;
    switch (k) {
    case 0: ok = synchCASPTR(&wp, 0, 1 + t); c = 1; f = !ok; break;
    case 1: ok = synchCAS64(&w64, 0, 1 + t); c = 1; f = !ok; break;
    case 2: ok = synchCAS32(&w32, 0, 1 + t); c = 1; f = !ok; break;
    case 3: ok = synchCAS128(&w128, 0, 0, 1 + t, 2); c = 1; f = !ok; break;
    case 4: synchSWAP(&wp, (void *)5); s = 1; break;
    case 5: synchFAA64((volatile int64_t *)&w64, 1); a = 1; break;
    default: synchFAA32((volatile int32_t *)&w32, -1); a = 1; break;
    }
    if (count) { cas[t] += c; fail[t] += f; swp[t] += s; faa[t] += a; }
}
static const int kind[NT * RUNS * (OPS + 1)] = {KINDS};
void vf_setup(void) { w64 = vf_choose(1, 2); w32 = vf_choose(2, 2); wp = vf_choose(3, 2); ((volatile uint64_t *)&w128)[0] = vf_choose(4, 2); synchInitCPUCounters(); }
void vf_thread(int t) {
    int r, i;
    for (r = 0; r < RUNS; r++) {
        one(t, kind[(t * RUNS + r) * (OPS + 1)], 0); /* before the start: not counted */
        synchStartCPUCounters(t);
        for (i = 0; i < OPS; i++) one(t, kind[(t * RUNS + r) * (OPS + 1) + 1 + i], 1);
        synchStopCPUCounters(t);
    }
}
void vf_final(void) {
    int64_t c = 0, f = 0, s = 0, a = 0; int t;
    for (t = 0; t < NT; t++) { c += cas[t]; f += fail[t]; s += swp[t]; a += faa[t]; }
    vf_assert(__total_executed_cas == c, "the number of compare-and-swaps is wrong");
    vf_assert(__total_failed_cas == f, "the number of failed compare-and-swaps is wrong");
    vf_assert(__total_executed_swap == s, "the number of swaps is wrong");
    vf_assert(__total_executed_faa >= a && __total_executed_faa <= a + 4 * NT * RUNS, "the number of fetch-and-adds is wrong"); /* collecting the totals takes at most four per thread itself */
    vf_cover(f > 0, "a compare-and-swap fails");
}
