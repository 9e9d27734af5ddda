/* Locks: nobody else is between acquire and release; what one holder writes the next one sees. */
#include "vf.h"
#include <config.h>
#include <primitives.h>
#include "ops.h"
#include "pids.h"
const int vf_nthreads = NT;
#if defined(OBJ_CLH)
#include <clh.h>
static CLHLockStruct *lk;
static void init(void) { lk = CLHLockInit(NTHREADS); }
static void tinit(int t) { (void)t; }
#define LOCK(t) CLHLock(lk, PID(t))
#define UNLOCK(t) CLHUnlock(lk, PID(t))
#else
#include <mcs.h>
static MCSLockStruct *lk; static MCSThreadState th[NT];
static void init(void) { lk = MCSLockInit(); }
static void tinit(int t) { MCSThreadStateInit(&th[t], PID(t)); }
#define LOCK(t) MCSLock(lk, &th[t], PID(t))
#define UNLOCK(t) MCSUnlock(lk, &th[t], PID(t))
#endif
static volatile int holder; static volatile int64_t a, b; static volatile int last = -1, first = -1;
void vf_setup(void) { init(); holder = 0; FIBERS_START(); }
void vf_thread(int t) {
    int k;
    FIBER_BEGIN(t);
    tinit(t);
    for (k = 0; k < opsOf(t); k++) {
        int64_t x;
        vf_op_begin();
        LOCK(t);
        vf_assert(holder == 0, "two threads hold the lock at the same time");
        holder = t + 1;
        x = a; vf_assert(b == x, "a holder sees the previous holder's writes only in part");
        a = x + 1; if (first < 0) first = t; last = t;
        b = x + 1;
        vf_assert(holder == t + 1, "two threads hold the lock at the same time");
        holder = 0;
        UNLOCK(t);
    }
    FIBER_END(t);
}
void vf_final(void) {
    vf_assert(a == NOPS && b == NOPS, "a critical section's writes were lost");
    if (NT > 1) { vf_cover(first == NT - 1, "the last thread enters first"); vf_cover(last == 0, "the first thread enters last"); }
    LOCK(0); UNLOCK(0); LOCK(0); UNLOCK(0);
    vf_cover(1, "all operations complete");
}
