/* Random generator: documented ranges, determined by the thread's own seed alone, the documented recurrences, no
   degenerate state; for every seed. Floating-point ranges: fastrand_range.c (CBMC). */
#include "vf.h"
#include <config.h>
#include <primitives.h>
#include <fastrand.h>
#include "ops.h"
#ifndef DRAWS
#define DRAWS 3
#endif
const int vf_nthreads = NT;
static uint32_t seed[NT], got32[NT][DRAWS]; static long got[NT][DRAWS];
void vf_setup(void) { int t; for (t = 0; t < NT; t++) seed[t] = (uint32_t)vf_nondet(t); }
void vf_thread(int t) {
    int i;
    vf_op_begin();
    synchFastRandomSetSeed(seed[t]);
    for (i = 0; i < DRAWS; i++) { vf_op_begin(); got[t][i] = synchFastRandom(); got32[t][i] = synchFastRandom32(); }
}
void vf_final(void) {
    int t, i;
    for (t = 0; t < NT; t++) {
        long n = (long)seed[t]; uint32_t z = seed[t], w = seed[t] / 2;
        if (z == 0 || z == 0x9068ffffu) z++; /* the two values the recurrence maps to themselves */
        if (w == 0 || w == 0x464fffffu) w++;
        for (i = 0; i < DRAWS; i++) {
            vf_assert(got[t][i] >= 0 && got[t][i] < SYNCH_RAND_MAX, "a random number is outside the documented range");
            n = (long)((unsigned long)n * 1103515245UL + 12345UL);
            vf_assert(got[t][i] == (long)((unsigned)(n / 65536) % 32768), "the 15-bit generator does not follow its own thread's seed");
            z = 36969 * (z & 65535) + (z >> 16); w = 18000 * (w & 65535) + (w >> 16);
            vf_assert(got32[t][i] == (z << 16) + w, "the 32-bit generator does not follow its own thread's seed");
        }
    }
    vf_cover(1, "all operations complete");
}
