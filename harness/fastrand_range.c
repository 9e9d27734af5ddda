/* CBMC: requests for a number in a range are answered from that range, for every seed and every range within the bound. */
#include "cb.h"
#include <stdint.h>
#include <fastrand.h>
int main(int argc, char **argv) {
    uint32_t seed, l32, h32, v32; long low, high, v;
    CB_ARGS(argc, argv);
    seed = (uint32_t)IN(0);
    synchFastRandomSetSeed(seed);
#ifdef WIDTH
    l32 = (uint32_t)IN(1); h32 = (uint32_t)IN(2);
#if WIDTH == 0   /* any power of two, any place */
    { uint32_t k = (uint32_t)IN(3); CB_ASSUME(k < 32); CB_ASSUME(h32 == l32 + ((uint32_t)1 << k)); }
#elif WIDTH == 1 /* the widest range */
    CB_ASSUME(l32 == 0); CB_ASSUME(h32 == UINT32_MAX);
#else
    CB_ASSUME(h32 - l32 < WIDTH);
#endif
    CB_ASSUME(l32 < h32);
    v32 = synchFastRandomRange32(l32, h32);
    CB_ASSERT(v32 >= l32 && v32 <= h32, "a range request is answered from outside the range");
#else
    low = (long)IN(1); high = (long)IN(2);
    CB_ASSUME(low < high && low >= 0 && high <= SYNCH_RAND_MAX);
    v = synchFastRandomRange(low, high);
    CB_ASSERT(v >= low && v <= high, "a range request is answered from outside the range");
#endif
    return 0;
}
