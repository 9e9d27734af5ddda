/* Queues and stacks: every history is linearizable; symbolic operation kinds, values and schedule. */
#include "vf.h"
#include <stddef.h>
#include <string.h>
#include <config.h>
#include <primitives.h>
#include "ops.h"
#include "pids.h"
#ifndef PRE
#define PRE 0
#endif
#ifndef KIND
#define KIND(o) vf_choose(o, 2) /* 0 insert, 1 remove */
#endif
#ifndef REGIONS
#define REGIONS 1
#endif
const int vf_nthreads = NT;
#include "objs.h"
#include <queue-stack.h>
#ifdef STACK
#define EMPTYV EMPTY_STACK
#else
#define EMPTYV EMPTY_QUEUE
#endif
#define NV (NOPS + PRE)
static int64_t val[NV + 1], res[NOPS + 1], drain[NV + 2]; static int kind[NOPS + 1];
void vf_setup(void) {
    int i, j;
    for (i = 0; i < NV; i++) {
#ifdef CONCRETE_VALUES
        val[i] = 100 + i;
#else
        val[i] = (int64_t)vf_nondet(i); vf_assume((val[i] != EMPTYV) & (val[i] != GUARD_VALUE));
#endif
    }
#if !defined(CONCRETE_VALUES) && !defined(ANYVALUES)
    for (i = 0; i < NV; i++) for (j = 0; j < i; j++) vf_assume(val[i] != val[j]);
#endif
#ifdef KINDS
    { static const int k[] = {KINDS}; for (i = 0; i < NOPS; i++) kind[i] = k[i]; }
#else
    for (i = 0; i < NOPS; i++) kind[i] = KIND(i);
#endif
    init();
    tinit(0); /* set-up runs as thread 0 */
    for (i = 0; i < PRE; i++) INS(0, val[NOPS + i]);
    FIBERS_START();
}
void vf_thread(int t) {
    int k;
    FIBER_BEGIN(t);
    if (t > 0) tinit(t);
    for (k = 0; k < opsOf(t); k++) {
        int o = baseOf(t) + k;
        t_inv[o] = vf_op_begin();
        ATOMIC_ON(t); if (kind[o]) res[o] = REM(t); else INS(t, val[o]); ATOMIC_OFF(t);
        t_res[o] = vf_now();
    }
    FIBER_END(t);
}
static int lin_try(const int *perm) {
    int64_t q[NV + 2]; int head = 0, tail = 0, i, ok = 1;
    for (i = 0; i < PRE; i++) q[tail++] = val[NOPS + i];
    for (i = 0; i < NOPS; i++) {
        int o = perm[i];
        if (!kind[o]) q[tail++] = val[o];
        else if (head == tail) ok &= res[o] == EMPTYV;
#ifdef STACK
        else ok &= res[o] == q[--tail];
#else
        else ok &= res[o] == q[head++];
#endif
    }
    for (i = 0; i <= NV; i++) {
        if (head == tail) ok &= drain[i] == EMPTYV;
#ifdef STACK
        else ok &= drain[i] == q[--tail];
#else
        else ok &= drain[i] == q[head++];
#endif
    }
    return ok;
}
#include "lin.h"
void vf_final(void) {
    int i;
    for (i = 0; i <= NV; i++) drain[i] = REM(0);
    vf_assert(linearizable(), "the history has no sequential explanation that respects real-time order");
    for (i = 0; i < NOPS; i++) if (kind[i]) { vf_cover(res[i] != EMPTYV, "a removal returns an element"); vf_cover(res[i] == EMPTYV, "a removal reports empty"); }
    vf_cover(1, "all operations complete");
}
