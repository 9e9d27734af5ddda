/* Combining objects: every operation applied exactly once, alone, with its own argument and pid, inside its interval,
   and its own result returned. */
#include "vf.h"
#include <stddef.h>
#include <string.h>
#include <config.h>
#include <primitives.h>
#include "ops.h"
#include "pids.h"
const int vf_nthreads = NT;
static volatile int64_t cnt; static volatile int busy;
static volatile int64_t log_arg[NOPS + 2]; static volatile int log_pid[NOPS + 2], log_time[NOPS + 2];
static int64_t r_ret[NOPS]; static int64_t args[NOPS];
static int64_t resv[NOPS + 2];
static char the_state[8];
static RetVal apply(ArgVal arg, int pid) {
    int64_t k;
    vf_assert(busy == 0, "two operations are applied at the same time");
    busy = 1;
    k = cnt;
    vf_assert(k < NOPS, "more operations were applied than were submitted");
    log_arg[k] = arg; log_pid[k] = pid; log_time[k] = vf_now();
    cnt = k + 1;
    busy = 0;
    return resv[k];
}
#if defined(OBJ_CC)
#include <ccsynch.h>
static CCSynchStruct obj CACHE_ALIGN; static CCSynchThreadState th[NT];
static void init(void) { CCSynchStructInit(&obj, NTHREADS); }
static void tinit(int t) { CCSynchThreadStateInit(&obj, &th[t], PID(t)); }
#define STATEFUL 1
#define APPLY(t, a) CCSynchApplyOp(&obj, &th[t], sfunc, the_state, a, PID(t))
#elif defined(OBJ_DSM)
#include <dsmsynch.h>
static DSMSynchStruct obj CACHE_ALIGN; static DSMSynchThreadState th[NT];
static void init(void) { DSMSynchStructInit(&obj, NTHREADS); }
static void tinit(int t) { DSMSynchThreadStateInit(&obj, &th[t], PID(t)); }
#define STATEFUL 1
#define APPLY(t, a) DSMSynchApplyOp(&obj, &th[t], sfunc, the_state, a, PID(t))
#elif defined(OBJ_H)
#include <hsynch.h>
#ifndef CLUSTERS
#define CLUSTERS 1
#endif
static HSynchStruct obj CACHE_ALIGN; static HSynchThreadState th[NT];
static void init(void) { HSynchStructInit(&obj, NTHREADS, CLUSTERS); }
static void tinit(int t) { HSynchThreadStateInit(&obj, &th[t], PID(t)); }
#define STATEFUL 1
#define APPLY(t, a) HSynchApplyOp(&obj, &th[t], sfunc, the_state, a, PID(t))
#elif defined(OBJ_OSCI)
#include <osci.h>
static OsciStruct obj CACHE_ALIGN; static OsciThreadState th[NT];
static void init(void) { OsciInit(&obj, NTHREADS, FIBERS); }
static void tinit(int t) { OsciThreadStateInit(&th[t], &obj, PID(t)); }
#define STATEFUL 1
#define APPLY(t, a) OsciApplyOp(&obj, &th[t], sfunc, the_state, a, PID(t))
#elif defined(OBJ_OYAMA)
#include <oyama.h>
static OyamaStruct obj CACHE_ALIGN; static OyamaThreadState th[NT];
static void init(void) { OyamaInit(&obj, NTHREADS); }
static void tinit(int t) { OyamaThreadStateInit(&th[t]); }
#define STATEFUL 0
#define APPLY(t, a) OyamaApplyOp(&obj, &th[t], sfunc, a, PID(t))
#elif defined(OBJ_FC)
#include <fc.h>
static FCStruct obj CACHE_ALIGN; static FCThreadState th[NT];
static void init(void) { FCStructInit(&obj, NTHREADS); }
static void tinit(int t) { FCThreadStateInit(&obj, &th[t], PID(t)); }
#define STATEFUL 1
#define APPLY(t, a) FCApplyOp(&obj, &th[t], sfunc, the_state, a, PID(t))
#endif
#if STATEFUL
static RetVal sfunc(void *state, ArgVal arg, int pid) { vf_assert(state == (void *)the_state, "wrong object state passed to the operation"); return apply(arg, pid); }
#else
static RetVal sfunc(ArgVal arg, int pid) { return apply(arg, pid); }
#endif
void vf_setup(void) {
    int i, j;
    for (i = 0; i < NOPS; i++) { args[i] = (int64_t)vf_nondet(i); resv[i] = (int64_t)vf_nondet(32 + i); }
    for (i = 0; i < NOPS; i++) for (j = 0; j < i; j++) { vf_assume(args[i] != args[j]); vf_assume(resv[i] != resv[j]); }
    init();
    tinit(0); /* set-up runs as thread 0 */
    FIBERS_START();
}
void vf_thread(int t) {
    int k;
    FIBER_BEGIN(t);
    if (t > 0) tinit(t);
    for (k = 0; k < opsOf(t); k++) {
        int o = baseOf(t) + k;
        t_inv[o] = vf_op_begin();
        r_ret[o] = APPLY(t, args[o]);
        t_res[o] = vf_now();
    }
    FIBER_END(t);
}
void vf_final(void) {
    int i, k, t;
    vf_assert(cnt == NOPS, "some operation was not applied");
    for (t = 0; t < NT; t++) {
        int prev = -1;
        for (i = baseOf(t); i < baseOf(t) + opsOf(t); i++) {
            int n = 0, pos = -1;
            for (k = 0; k < NOPS; k++) if (log_arg[k] == args[i]) { n++; pos = k; }
            vf_assert(n == 1, "an operation was not applied exactly once with its own argument");
            if (n != 1) return;
            vf_assert(log_pid[pos] == PID(t), "an operation was applied with another thread's id");
            vf_assert(log_time[pos] >= t_inv[i] && log_time[pos] <= t_res[i], "an operation was applied outside its interval");
            vf_assert(r_ret[i] == resv[pos], "an operation returned a value its application did not produce");
            vf_assert(prev < pos, "operations of one thread applied out of order");
            prev = pos;
            if (NT > 1) vf_cover(pos == NOPS - 1 - i, "reversed application order");
        }
    }
    vf_cover(1, "all operations complete");
}
