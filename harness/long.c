/* One operation that may be preempted anywhere while another thread completes M whole operations (M of 300 and more:
   narrow sequence numbers, tags and indices wrap around), then finishes.  Universal objects: a sum; containers: insertions. */
#include "vf.h"
#include <stddef.h>
#include <string.h>
#include <config.h>
#include <primitives.h>
#define OPS0 1
#define OPS1 0
#include "ops.h"
#include "pids.h"
#ifndef FIRST
#define FIRST 4 /* the sequence can be interrupted after so many of its operations */
#endif
#ifndef M
#define M 260
#endif
const int vf_nthreads = 2;
static int64_t r0, r1[M]; 
#define BIG (((int64_t)1) << 40)
#if defined(OBJ_SIM) || defined(OBJ_LFU)
#if defined(OBJ_SIM)
#include <sim.h>
#else
#include <lfuobject.h>
#endif
static RetVal sfunc(void *state, ArgVal a, int pid) { ObjectState *s = state; int64_t old = s->state; (void)pid; s->state = old + a; return old; }
#if defined(OBJ_SIM)
static SimStruct obj CACHE_ALIGN; static SimThreadState th[NT];
static void init(void) { synchSimStructInit(&obj, NTHREADS, BACKOFF); }
static void tinit(int t) { SimThreadStateInit(&th[t], NTHREADS, PID(t)); }
#define APPLY(t, a) SimApplyOp(&obj, &th[t], sfunc, a, PID(t))
#else
static LFUObjectStruct obj CACHE_ALIGN; static LFUObjectThreadState th[NT];
static void init(void) { LFUObjectInit(&obj, 0); }
static void tinit(int t) { LFUObjectThreadStateInit(&th[t], 1, 4); }
#define APPLY(t, a) LFUObjectApplyOp(&obj, &th[t], sfunc, a, PID(t))
#endif
#define OP0() r0 = APPLY(0, BIG)
#define OP1(k) r1[k] = APPLY(1, 1)
#else
#define REGIONS 1
#include "objs.h"
#define OP0() INS(0, BIG)
#ifdef PAIRS
#define OP1(k) do { INS(1, (k) + 1); r1[k] = REM(1); } while (0)
#else
#define OP1(k) INS(1, (k) + 1)
#endif
#endif
void vf_setup(void) { init(); tinit(0); }
void vf_thread(int t) {
    int k;
    if (t > 0) tinit(t);
    if (t == 0) { vf_op_begin(); OP0(); }
    else { vf_op_begin(); vf_atomic(1); for (k = 0; k < M; k++) { if (k == FIRST) { vf_atomic(0); vf_op_begin(); vf_atomic(1); } OP1(k); } vf_atomic(0); }
}
void vf_final(void) {
    int k;
#if defined(OBJ_SIM) || defined(OBJ_LFU)
    vf_assert(APPLY(0, 0) == BIG + M, "an operation was lost or applied twice");
    vf_assert((r0 >= 0) & (r0 <= M), "an operation returned a value its application did not produce");
    for (k = 0; k < M; k++) vf_assert(r1[k] == k + (r0 <= k ? BIG : 0), "an operation returned a value its application did not produce");
#else
    int64_t d[M + 2]; int at = -1;
    for (k = 0; k < M + 2; k++) d[k] = REM(0);
    for (k = 0; k <= M; k++) if (d[k] == BIG) { vf_assert(at < 0, "an element was removed twice"); at = k; }
    vf_assert(at >= 0, "an element was lost");
#ifdef STACK
    vf_assert(d[M + 1] == EMPTY_STACK, "more elements than were inserted");
    for (k = 0; k <= M; k++) if (k != at) vf_assert(d[k] == M - k + (k > at), "the elements are out of order");
#else
    vf_assert(d[M + 1] == EMPTY_QUEUE, "more elements than were inserted");
    for (k = 0; k <= M; k++) if (k != at) vf_assert(d[k] == k + 1 - (k > at), "the elements are out of order");
#endif
#endif
    vf_cover(1, "all operations complete");
}
