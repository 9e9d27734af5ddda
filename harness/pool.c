/* Pool: arbitrary sequences of STEPS allocate / recycle / roll-back calls (roll-back within its documented contract),
   then destroy. The harness owns the allocator underneath and counts what is outstanding. */
#include "vf.h"
#include <stdlib.h>
#include <malloc.h>
#include <config.h>
#include <primitives.h>
#include <pool.h>
#ifndef SIZE
#define SIZE 8388000
#endif
#ifndef STEPS
#define STEPS 6
#endif
const int vf_nthreads = 1;
static int outstanding, taken;
void *vf_ov_synchGetAlignedMemory(size_t a, size_t n) { outstanding++; taken++; return memalign(a, n); }
void *vf_ov_synchGetMemory(size_t n) { outstanding++; taken++; return malloc(n); }
void vf_ov_synchFreeMemory(void *p, size_t n) { (void)n; outstanding--; free(p); }
static SynchPoolStruct pool, pool2;
static char *obj[STEPS]; static int live[STEPS], fresh_seq[STEPS]; /* by allocation number */
static int nalloc, nlive, nrec, run, peak; static int order[STEPS]; static int norder;
#define SZ ((unsigned long)(SIZE < sizeof(void *) ? sizeof(void *) : SIZE))
static void mark(int i) { obj[i][0] = (char)(i + 1); obj[i][SIZE - 1] = (char)(i + 1); }
static void check_all(void) { int i; for (i = 0; i < nalloc; i++) if (live[i]) vf_assert(obj[i][0] == (char)(i + 1) && obj[i][SIZE - 1] == (char)(i + 1), "a live object was changed by the allocator or by another object's owner"); }
static void do_alloc(void) {
    int i; char *p = synchAllocObj(&pool);
    vf_assert(p != NULL, "allocation failed although memory is available");
    for (i = 0; i < nalloc; i++) if (live[i]) vf_assert(p >= obj[i] + SZ || p + SZ <= obj[i], "a live object was handed out again, or overlaps a new one");
    obj[nalloc] = p; live[nalloc] = 1; mark(nalloc); nlive++; if (nlive > peak) peak = nlive;
    if (nrec > 0) { nrec--; run = 0; } else run++;
    nalloc++;
}
void vf_thread(int t) {
    int s, i, r;
    (void)t;
    r = synchInitPool(&pool, SIZE);
    vf_assert(r == SYNCH_POOL_INIT_SUCC, "a supported object size was refused");
    for (s = 0; s < STEPS; s++) {
#ifdef SCRIPT
        static const int script[] = {SCRIPT}; int op = script[s];
#else
        int op = vf_choose(s, 3);
#endif
        if (op == 0) do_alloc();
        else if (op == 1) { /* recycle the i-th allocation */
            i = vf_choose(16 + s, STEPS); vf_assume(i < nalloc); vf_assume(live[i]);
            synchRecycleObj(&pool, obj[i]);
            live[i] = 0; nlive--;
#ifndef SYNCH_POOL_NODE_RECYCLING_DISABLE
            nrec++;
#endif
            { int j, after = 0; for (j = i + 1; j < nalloc; j++) after += live[j] == 1 || live[j] == 0; if (after < run) run = after; }
        } else { /* cancel the last n allocations: all live and none from the recycle list */
            int n = vf_choose(32 + s, STEPS + 1), j; vf_assume(n <= run);
            synchRollback(&pool, n);
            for (j = 0; j < STEPS; j++) if (j >= nalloc - n && j < nalloc) { live[j] = 0; nlive--; }
            nalloc -= n; run -= n;
        }
        check_all();
    }
    vf_cover(nlive >= 3, "three objects live at once"); vf_cover(nrec > 0, "something is recycled");
    { /* a second pool with as many live objects needs at least as many blocks */
        int b1 = taken, b2;
        synchInitPool(&pool2, SIZE);
        for (i = 0; i < STEPS; i++) if (i < peak) synchAllocObj(&pool2);
        b2 = taken - b1;
#ifndef SYNCH_POOL_NODE_RECYCLING_DISABLE
        vf_assert(b1 <= b2, "recycled or rolled-back objects are not reused: the pool took more memory than its live objects ever needed");
#endif
        synchDestroyPool(&pool2);
    }
    synchDestroyPool(&pool);
    vf_assert(outstanding == 0, "destroying the pool did not release each of its blocks exactly once");
    vf_cover(1, "all operations complete");
}
