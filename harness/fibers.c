/* Fibers of one posix thread: every spawned fiber runs exactly once with its argument, a yield lets another unfinished fiber
   run, the waiting call returns only after all of them, and a slot of a finished fiber can be used again. */
#include "vf.h"
#include <stdlib.h>
#include <config.h>
#include <primitives.h>
#include <uthreads.h>
#ifndef YIELDS
#define YIELDS 2 /* a fiber yields 0..YIELDS times */
#endif
#ifndef LATE
#define LATE 0 /* spawned after the main fiber has yielded */
#endif
#ifndef LIVES
#define LIVES 1
#endif
#define N (FIRST + LATE)
const int vf_nthreads = 1;
static int ran[LIVES * N + 1], finished[LIVES * N + 1], spawned[LIVES * N + 1], idx[LIVES * N + 1], live, turns, waiting; /* waiting: the main fiber waits for the others */ static int64_t key[LIVES * N + 1]; static long seen[LIVES * N + 1]; static int last;
/* blocks taken while a fiber is created: its stack, released once, after it has finished */
static void *stack[LIVES * N + 1]; static int freed[LIVES * N + 1], creating = -1;
void *vf_ov_synchGetMemory(unsigned long n) { void *p = malloc(n); if (creating >= 0) { stack[creating] = p; creating = -1; } return p; }
void *vf_ov_synchGetAlignedMemory(unsigned long a, unsigned long n) { (void)a; return vf_ov_synchGetMemory(n); }
void vf_ov_synchFreeMemory(void *p, unsigned long n) {
    int f; (void)n;
    for (f = 0; f < LIVES * N; f++) if (stack[f] && stack[f] == p && freed[f] == 0) { vf_assert(finished[f], "the stack of a fiber is released before it has finished"); freed[f] = 1; }
    /* the block itself stays allocated, so that no later one has the same address */
}
static int turn(int f) { turns++; last = f; return turns; }
static void yield(int f) {
    int t = turn(f), others = live - waiting > 1; synchFiberYield();
    if (others) vf_assert(turns != t, "a yield did not let another fiber run");
    turn(f);
}
static int yields(int f) { return vf_split(vf_choose(10 + f, YIELDS + 1)); }
static void *body(void *arg) {
    long a = (long)arg; int f = (int)(a & 0xff) - 1, i, n;
    vf_assert((f >= 0) & (f < LIVES * N), "a fiber runs with an argument nobody gave it");
    if (f < 0 || f >= LIVES * N) return NULL;
    vf_assert(spawned[f], "a fiber runs that was not spawned");
    ran[f]++; seen[f] = a; idx[f] = synchCurrentFiberIndex(); turn(f);
    for (i = 0; i < LIVES * N; i++) if (i != f && ran[i] && !finished[i]) vf_assert(idx[i] != idx[f], "two running fibers have the same index");
    vf_assert(idx[f] > 0 && idx[f] <= MAXF - 1, "a fiber's index is outside the range of indices");
    n = yields(f);
    for (i = 0; i < n; i++) { yield(f); vf_assert(synchCurrentFiberIndex() == idx[f], "a fiber's index changes while it runs"); }
    finished[f]++; live--; turns++;
    return NULL;
}
static void spawn(int f) {
    int r, before = live;
    key[f] = (int64_t)(vf_nondet(f) << 8) | (f + 1); spawned[f] = 1; live++;
    creating = f; r = synchSpawnFiber(body, key[f]); creating = -1;
    if (before > MAXF - 1) vf_assert(r == -1, "more fibers than the announced maximum");
    else vf_assert(r != -1, "a fiber could not be created although fewer than the maximum exist");
    if (r == -1) { spawned[f] = 0; live--; }
}
void vf_thread(int t) {
    int i, l, n; (void)t;
    for (l = 0; l < LIVES; l++) {
        live = 1;
        synchInitFibers(MAXF);
        vf_assert(synchCurrentFiberIndex() == 0, "the index of the main fiber is not 0");
        for (i = 0; i < FIRST; i++) spawn(l * N + i);
        n = yields(LIVES * N + l);
        for (i = 0; i < n; i++) yield(-1);
        for (; i < LATE + n; i++) { spawn(l * N + FIRST + i - n); yield(-1); }
        waiting = 1; synchWaitForAllFibers(); waiting = 0;
        vf_assert(synchCurrentFiberIndex() == 0, "the index of the main fiber is not 0");
        for (i = 0; i < N; i++) {
            int f = l * N + i;
            vf_assert(ran[f] == spawned[f], "a spawned fiber did not run exactly once"); vf_assert(finished[f] == spawned[f], "the wait returned before a fiber had finished");
            if (spawned[f]) vf_assert(seen[f] == key[f], "a fiber received another argument");
            if (stack[f]) vf_assert(freed[f] == 1, "the stack of a finished fiber is not released");
        }
    }
}
void vf_final(void) { vf_cover(1, "all operations complete"); }
