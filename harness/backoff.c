/* Back-off: for every limit pair, step and sequence of calls the value stays within its limits and moves as documented. */
#include "vf.h"
#include <config.h>
#include <primitives.h>
#include <backoff.h>
#ifndef SHIFT
#define SHIFT ((unsigned)vf_nondet(3) & 31)
#endif
#ifdef SEQ
static const int seq[] = {SEQ};
#define CALL(i) seq[i]
#define STEPS ((int)(sizeof(seq) / sizeof(seq[0])))
#else
#define CALL(i) vf_choose(10 + i, CALLS)
#endif
const int vf_nthreads = 1;
int sched_yield(void) { return 0; }
_Bool vf_ov_synchIsSystemOversubscribed(void) { return vf_nondet(90) & 1; }
void vf_thread(int t) {
    SynchBackoffStruct b; uint64_t lo, hi; int i; (void)t;
    unsigned base = (unsigned)vf_nondet(1) & 31, cap = (unsigned)vf_nondet(2) & 31, shift = SHIFT;
    vf_assume((base <= cap) & (cap <= MAXCAP));
    lo = ((uint64_t)1 << base) - 1; hi = (uint64_t)1 << cap; /* the documentation speaks of 2^bits; the delays are 2^bits - 1 */
    synchInitBackoff(&b, base, cap, shift);
    vf_assert((b.backoff >= lo) & (b.backoff <= lo + 1), "the first delay is not the smallest one");
    for (i = 0; i < STEPS; i++) {
        uint64_t old = b.backoff; int k = CALL(i);
        if (k == 0) { synchBackoffIncrease(&b); vf_assert(b.backoff >= old, "increase made the delay shorter"); vf_assert((shift == 0) | (old + 1 >= hi) | (b.backoff > old), "increase left a delay below the limit unchanged"); }
        else if (k == 1) { synchBackoffReduce(&b); vf_assert(b.backoff <= old, "reduce made the delay longer"); vf_assert((shift == 0) | (old <= lo + 1) | (b.backoff < old), "reduce left a delay above the limit unchanged"); }
        else if (k == 2) { synchResetBackoff(&b); vf_assert((b.backoff >= lo) & (b.backoff <= lo + 1), "reset did not restore the smallest delay"); }
        else { synchBackoffDelay(&b); vf_assert(b.backoff >= old, "a delay made the next delay shorter"); }
        vf_assert(b.backoff <= hi, "the delay exceeds its upper limit"); vf_assert(b.backoff >= lo, "the delay is below its lower limit");
    }
}
void vf_final(void) { vf_cover(1, "all operations complete"); }
