/* Barrier: PHASES waits by each of NT participants (the same barrier, reused), then optionally leave / last-leave, and
   optionally a second life of the barrier after the last-leave. */
#include "vf.h"
#include <config.h>
#include <primitives.h>
#include <barrier.h>
#include <threadtools.h>
#include "ops.h"
#include "pids.h"
#ifndef PARTIES
#define PARTIES NT /* the participants beyond the NT active ones leave during set-up */
#endif
#ifndef PHASES
#define PHASES 2
#endif
#ifndef LIVES
#define LIVES 1
#endif
const int vf_nthreads = NT;
static SynchBarrier bar; static volatile int entered[NT], left[NT]; static volatile int life;
void vf_setup(void) { int i; synchBarrierSet(&bar, PARTIES); for (i = NT; i < PARTIES; i++) synchBarrierLeave(&bar); FIBERS_START(); }
void vf_thread(int t) {
    int k, i, r;
    FIBER_BEGIN(t);
    for (r = 0; r < LIVES; r++) {
        if (r > 0) while (life != r) synchResched();
        for (k = 1; k <= PHASES; k++) {
            vf_op_begin();
            entered[t] = r * PHASES + k;
            synchBarrierWait(&bar);
            for (i = 0; i < NT; i++) vf_assert(entered[i] >= r * PHASES + k, "a thread left a round of the barrier that another one had not entered");
        }
#ifdef LEAVE
        left[t] = r + 1;
        if (t == LEAVE - 1) {
            synchBarrierLastLeave(&bar);
            for (i = 0; i < NT; i++) vf_assert(left[i] == r + 1, "the last-leave waiter returned before a participant left");
            if (r + 1 < LIVES) { synchBarrierSet(&bar, NT); life = r + 1; }
        } else synchBarrierLeave(&bar);
#endif
    }
    FIBER_END(t);
}
void vf_final(void) { vf_cover(1, "all operations complete"); }
