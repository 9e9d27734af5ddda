/* Universal constructions: the object is the list of all operations applied to it (4 bits each) and every operation
   returns the list before itself, so a wrong order, a lost, repeated or foreign application, a wrong argument, thread id
   or return value all show.  -DSUM: the object is a sum of arbitrary 64-bit arguments instead. */
#include "vf.h"
#include <stddef.h>
#include <string.h>
#include <config.h>
#include <primitives.h>
#include "ops.h"
#include "pids.h"
const int vf_nthreads = NT;
static RetVal sfunc(void *state, ArgVal arg, int pid);
#if defined(OBJ_SIM)
#include <sim.h>
static SimStruct obj CACHE_ALIGN; static SimThreadState th[NT];
static void init(void) { synchSimStructInit(&obj, NTHREADS, BACKOFF); }
static void tinit(int t) { SimThreadStateInit(&th[t], NTHREADS, PID(t)); }
#define APPLY(t, a) SimApplyOp(&obj, &th[t], sfunc, a, PID(t))
#elif defined(OBJ_LFU)
#include <lfuobject.h>
static LFUObjectStruct obj CACHE_ALIGN; static LFUObjectThreadState th[NT];
static void init(void) { LFUObjectInit(&obj, 0); }
static void tinit(int t) { LFUObjectThreadStateInit(&th[t], 1, 4); }
#define APPLY(t, a) LFUObjectApplyOp(&obj, &th[t], sfunc, a, PID(t))
#endif
#define READ 0
#ifdef SUM
static int64_t arg[NOPS + 1], ret[NOPS + 1], fin;
static RetVal sfunc(void *state, ArgVal a, int pid) { ObjectState *s = state; int64_t old = s->state; (void)pid; s->state = old + a; return old; }
void vf_setup(void) { int i; for (i = 0; i < NOPS; i++) arg[i] = vf_nondet(i); init(); tinit(0); FIBERS_START(); }
static int lin_try(const int *perm) { int64_t s = 0; int i, ok = 1; for (i = 0; i < NOPS; i++) { ok &= ret[perm[i]] == s; s += arg[perm[i]]; } ok &= fin == s; return ok; }
#include "lin.h"
#else
static const int64_t *arg; static int64_t argv[NOPS + 1]; static uint64_t ret[NOPS + 1], fin;
static RetVal sfunc(void *state, ArgVal a, int pid) {
    ObjectState *s = state; uint64_t old = s->state, id = (uint64_t)a & 15;
    if (a != READ) { if ((a >> 8) != pid + 1) id = 15; s->state = (old << 4) | id; }
    return old;
}
void vf_setup(void) { int t, k; for (t = 0; t < NT; t++) for (k = 0; k < opsOf(t); k++) argv[baseOf(t) + k] = ((int64_t)(PID(t) + 1) << 8) | (baseOf(t) + k + 1); arg = argv; init(); tinit(0); FIBERS_START(); }
#endif
void vf_thread(int t) {
    int k;
    FIBER_BEGIN(t);
    if (t > 0) tinit(t);
    for (k = 0; k < opsOf(t); k++) {
        int o = baseOf(t) + k;
        t_inv[o] = vf_op_begin();
        ATOMIC_ON(t); ret[o] = APPLY(t, arg[o]); ATOMIC_OFF(t);
        t_res[o] = vf_now();
    }
    FIBER_END(t);
}
void vf_final(void) {
    fin = APPLY(0, READ);
#ifdef SUM
    vf_assert(linearizable(), "the history has no sequential explanation that respects real-time order");
#else
    {
        int i, j; int pos[NOPS + 1];
        if (NOPS < 16) vf_assert((fin >> (4 * NOPS)) == 0, "more operations were applied than were submitted");
        for (i = 0; i < NOPS; i++) {
            int n = 0, p = 0;
            for (j = 0; j < NOPS; j++) { int is = ((fin >> (4 * j)) & 15) == i + 1; n += is; if (is) p = NOPS - 1 - j; }
            pos[i] = p;
            vf_assert(n == 1, "an operation was not applied exactly once with its own argument and thread id");
        }
        for (i = 0; i < NOPS; i++) {
            int okr = 0;
            for (j = 0; j < NOPS; j++) if (((fin >> (4 * j)) & 15) == i + 1) okr |= ret[i] == (j == 15 ? 0 : fin >> (4 * (j + 1)));
            vf_assert(okr, "an operation returned a value its application did not produce");
            for (j = 0; j < NOPS; j++) vf_assert(!(t_res[i] < t_inv[j] && pos[j] < pos[i]), "an operation was applied outside its interval");
        }
        if (NT > 1) vf_cover(pos[0] == NOPS - 1, "the first thread is last");
    }
#endif
    vf_cover(1, "all operations complete");
}
