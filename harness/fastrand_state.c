/* The state of the multiply-with-carry generator: seeding never produces a fixed point, and no step reaches one from any
   other state (an inductive argument, so it holds after any number of steps). Reads the generator's own variables. */
#include "vf.h"
#include <config.h>
#include "libconcurrent/primitives/fastrand.c"
const int vf_nthreads = 1;
/* z: only the fixed points themselves lead to the fixed points */
static int badz(uint32_t z) { return z == 0 || z == 0x9068ffffu; }
static int badw(uint32_t w) { return w == 0 || w == 0x464fffffu || w >> 31; } /* the invariant keeps w below 2^31: from there no step reaches a fixed point */
void vf_thread(int t) {
    uint32_t s = (uint32_t)vf_nondet(0), z = (uint32_t)vf_nondet(1), w = (uint32_t)vf_nondet(2); (void)t;
    synchFastRandomSetSeed(s);
    vf_assert(!badz(__fast_random_next_z) && !badw(__fast_random_next_w), "a seed leads to a state that never changes again");
    vf_assume(!badz(z)); vf_assume(!badw(w));
    __fast_random_next_z = z; __fast_random_next_w = w;
    synchFastRandom32();
    vf_assert(!badz(__fast_random_next_z) && !badw(__fast_random_next_w), "the generator reaches a state that never changes again");
    vf_assert(__fast_random_next_z != z || __fast_random_next_w != w, "the generator's state does not change");
    vf_cover(1, "all operations complete");
}
