/* Every object for every number of threads n in LO..HI (one path per n): all n states are initialised and every thread
   operates.  The engine checks that no access leaves the memory of its object; the results are checked as well. */
#include "vf.h"
#include <stddef.h>
#include <string.h>
#include <config.h>
#include <primitives.h>
#ifndef NT
#define NT 1
#endif
#ifndef FIBERS
#define FIBERS 1
#endif
#ifndef REGIONS
#define REGIONS 1
#endif
#ifndef BACKOFF
#define BACKOFF 1
#endif
#ifndef ROUNDS
#define ROUNDS 2
#endif
const int vf_nthreads = 1;
static int nthr, stride = 1; static int regions = REGIONS;
#ifndef NCORES
#define NCORES 8
#endif
extern int vf_core, vf_pid;
static int at(int p) { vf_pid = p; vf_core = (p * stride) % NCORES; return p; }
#define NTHREADS nthr
#define PID(t) (t)
#define NSTATES HI
#undef REGIONS
#define REGIONS regions
#if defined(OBJ_CC) || defined(OBJ_DSM) || defined(OBJ_H) || defined(OBJ_OSCI) || defined(OBJ_OYAMA) || defined(OBJ_FC) || defined(OBJ_SIM) || defined(OBJ_LFU)
static volatile int64_t shared;
#if defined(OBJ_CC)
#include <ccsynch.h>
static CCSynchStruct obj CACHE_ALIGN; static CCSynchThreadState th[HI];
#define init() CCSynchStructInit(&obj, nthr)
#define tinit(t) CCSynchThreadStateInit(&obj, &th[t], t)
#define APPLY(t, a) CCSynchApplyOp(&obj, &th[t], sfunc, (void *)&shared, a, t)
#elif defined(OBJ_DSM)
#include <dsmsynch.h>
static DSMSynchStruct obj CACHE_ALIGN; static DSMSynchThreadState th[HI];
#define init() DSMSynchStructInit(&obj, nthr)
#define tinit(t) DSMSynchThreadStateInit(&obj, &th[t], t)
#define APPLY(t, a) DSMSynchApplyOp(&obj, &th[t], sfunc, (void *)&shared, a, t)
#elif defined(OBJ_H)
#include <hsynch.h>
static HSynchStruct obj CACHE_ALIGN; static HSynchThreadState th[HI];
#define init() HSynchStructInit(&obj, nthr, regions)
#define tinit(t) HSynchThreadStateInit(&obj, &th[t], t)
#define APPLY(t, a) HSynchApplyOp(&obj, &th[t], sfunc, (void *)&shared, a, t)
#elif defined(OBJ_OSCI)
#include <osci.h>
static OsciStruct obj CACHE_ALIGN; static OsciThreadState th[HI];
#define init() OsciInit(&obj, nthr, FIBERS)
#define tinit(t) OsciThreadStateInit(&th[t], &obj, t)
#define APPLY(t, a) OsciApplyOp(&obj, &th[t], sfunc, (void *)&shared, a, t)
#elif defined(OBJ_OYAMA)
#include <oyama.h>
static OyamaStruct obj CACHE_ALIGN; static OyamaThreadState th[HI];
#define init() OyamaInit(&obj, nthr)
#define tinit(t) OyamaThreadStateInit(&th[t])
#define APPLY(t, a) OyamaApplyOp(&obj, &th[t], sfunc, a, t)
#elif defined(OBJ_FC)
#include <fc.h>
static FCStruct obj CACHE_ALIGN; static FCThreadState th[HI];
#define init() FCStructInit(&obj, nthr)
#define tinit(t) FCThreadStateInit(&obj, &th[t], t)
#define APPLY(t, a) FCApplyOp(&obj, &th[t], sfunc, (void *)&shared, a, t)
#elif defined(OBJ_SIM)
#include <sim.h>
static SimStruct obj CACHE_ALIGN; static SimThreadState th[HI];
#define init() synchSimStructInit(&obj, nthr, BACKOFF)
#define tinit(t) SimThreadStateInit(&th[t], nthr, t)
#define APPLY(t, a) SimApplyOp(&obj, &th[t], sfunc, a, t)
#else
#include <lfuobject.h>
static LFUObjectStruct obj CACHE_ALIGN; static LFUObjectThreadState th[HI];
#define init() LFUObjectInit(&obj, 0)
#define tinit(t) LFUObjectThreadStateInit(&th[t], 1, 4)
#define APPLY(t, a) LFUObjectApplyOp(&obj, &th[t], sfunc, a, t)
#endif
#if defined(OBJ_SIM) || defined(OBJ_LFU)
static RetVal sfunc(void *state, ArgVal arg, int pid) { ObjectState *s = state; int64_t old = s->state; (void)pid; s->state = old + arg; return old; }
#elif defined(OBJ_OYAMA)
static RetVal sfunc(ArgVal arg, int pid) { int64_t old = shared; (void)pid; shared = old + arg; return old; }
#else
static RetVal sfunc(void *state, ArgVal arg, int pid) { int64_t *s = state, old = *s; (void)pid; *s = old + arg; return old; }
#endif
static void work(void) {
    int r, p; int64_t sum = 0, a = vf_nondet(1);
    for (r = 0; r < ROUNDS; r++) for (p = 0; p < nthr; p++) { int64_t x = a + p; vf_assert((at(p), APPLY(p, x)) == sum, "an operation returned a value its application did not produce"); sum += x; }
}
#elif defined(OBJ_CLHH) || defined(OBJ_DSMH)
#ifdef OBJ_CLHH
#include <clhhash.h>
static CLHHash obj CACHE_ALIGN; static CLHHashThreadState th[HI];
#define init() CLHHashStructInit(&obj, CELLS, nthr)
#define tinit(t) CLHHashThreadStateInit(&obj, &th[t], CELLS, t)
#define HINS(t, k, v) CLHHashInsert(&obj, &th[t], k, v, t)
#define HDEL(t, k) CLHHashDelete(&obj, &th[t], k, t)
#define HSEARCH(t, k) CLHHashSearch(&obj, &th[t], k, t)
#else
#include <dsmhash.h>
static DSMHash obj CACHE_ALIGN; static DSMHashThreadState th[HI];
#define init() DSMHashInit(&obj, CELLS, nthr)
#define tinit(t) DSMHashThreadStateInit(&obj, &th[t], CELLS, t)
#define HINS(t, k, v) DSMHashInsert(&obj, &th[t], k, v, t)
#define HDEL(t, k) DSMHashDelete(&obj, &th[t], k, t)
#define HSEARCH(t, k) DSMHashSearch(&obj, &th[t], k, t)
#endif
static void work(void) {
    int p;
    for (p = 0; p < nthr; p++) { at(p); HINS(p, p, p + 1); }
    for (p = 0; p < nthr; p++) vf_assert((at(p), HSEARCH(p, p)) != 0, "a stored key is not found");
    for (p = 0; p < nthr; p++) { at(p); HDEL(p, p); vf_assert((at(p), HSEARCH(p, p)) == 0, "a deleted key is found"); }
}
#elif defined(OBJ_CLH) || defined(OBJ_MCS)
#ifdef OBJ_CLH
#include <clh.h>
static CLHLockStruct *lock;
#define init() (lock = CLHLockInit(nthr))
#define tinit(t) (void)0
#define LOCK(t) CLHLock(lock, t)
#define UNLOCK(t) CLHUnlock(lock, t)
#else
#include <mcs.h>
static MCSLockStruct *lock; static MCSThreadState th[HI];
#define init() (lock = MCSLockInit())
#define tinit(t) MCSThreadStateInit(&th[t], t)
#define LOCK(t) MCSLock(lock, &th[t], t)
#define UNLOCK(t) MCSUnlock(lock, &th[t], t)
#endif
static void work(void) { int r, p; for (r = 0; r < ROUNDS; r++) for (p = 0; p < nthr; p++) { at(p); LOCK(p); UNLOCK(p); } vf_assert(1, "the lock can be taken"); }
#else
#include "objs.h"
#include <queue-stack.h>
#ifdef STACK
#define EMPTYV EMPTY_STACK
#else
#define EMPTYV EMPTY_QUEUE
#endif
static void work(void) {
    int r, p; int64_t a = (int64_t)vf_nondet(1); vf_assume((a > 0) & (a < 1000000));
    for (r = 0; r < ROUNDS; r++) {
        vf_assert((at(0), REM(0)) == EMPTYV, "an empty structure does not report empty");
        for (p = 0; p < nthr; p++) at(p), INS(p, a + p);
#ifdef STACK
        for (p = 0; p < nthr; p++) vf_assert((at(p), REM(p)) == a + (nthr - 1 - p), "a removal does not return the element it should");
#else
        for (p = 0; p < nthr; p++) vf_assert((at(p), REM(p)) == a + p, "a removal does not return the element it should");
#endif
        vf_assert((at(nthr - 1), REM(nthr - 1)) == EMPTYV, "an empty structure does not report empty");
    }
}
#endif
void vf_thread(int t) {
    int p;
    (void)t;
    nthr = vf_split(vf_choose(0, HI - LO + 1)) + LO;
#ifdef SPLIT_REGIONS
    regions = vf_split(vf_choose(1, SPLIT_REGIONS));
#endif
#ifdef STRIDES
    stride = vf_split(vf_choose(2, STRIDES)); /* how threads are spread over the cores */
#endif
    at(0); init();
    for (p = 0; p < nthr; p++) { at(p); tinit(p); }
#ifdef CHECK_NODES
    { int q; for (p = 0; p < nthr; p++) for (q = 0; q < p; q++) vf_assert(th[p].next_node != th[q].next_node, "two threads share a node"); }
#endif
    work();
    vf_cover(nthr == HI, "the largest number of threads");
}
void vf_final(void) { vf_cover(1, "all operations complete"); }
