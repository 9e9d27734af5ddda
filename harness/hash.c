/* Hash tables: histories of insert / delete / search on symbolic keys are linearizable as operations on a map.
   -DVALUES (single thread): the stored value is the one most recently inserted. */
#include "vf.h"
#include <config.h>
#include <primitives.h>
#include "ops.h"
#include "pids.h"
#ifndef CELLS
#define CELLS 2
#endif
#ifndef PRE
#define PRE 0
#endif
#ifndef NKEYS
#define NKEYS 2 /* operations choose among this many arbitrary keys */
#endif
const int vf_nthreads = NT;
#if defined(OBJ_CLHH)
#include <clhhash.h>
typedef CLHHash H; static CLHHash h CACHE_ALIGN; static CLHHashThreadState th[NT];
static void init(void) { CLHHashStructInit(&h, CELLS, NTHREADS); }
static void tinit(int t) { CLHHashThreadStateInit(&h, &th[t], CELLS, PID(t)); }
#define INS(t, k, v) CLHHashInsert(&h, &th[t], k, v, PID(t))
#define SRC(t, k) CLHHashSearch(&h, &th[t], k, PID(t))
#define DEL(t, k) CLHHashDelete(&h, &th[t], k, PID(t))
#else
#include <dsmhash.h>
typedef DSMHash H; static DSMHash h CACHE_ALIGN; static DSMHashThreadState th[NT];
static void init(void) { DSMHashInit(&h, CELLS, NTHREADS); }
static void tinit(int t) { DSMHashThreadStateInit(&h, &th[t], CELLS, PID(t)); }
#define INS(t, k, v) DSMHashInsert(&h, &th[t], k, v, PID(t))
#define SRC(t, k) DSMHashSearch(&h, &th[t], k, PID(t))
#define DEL(t, k) DSMHashDelete(&h, &th[t], k, PID(t))
#endif
static int64_t key[NKEYS]; static int kind[NOPS + 1], kx[NOPS + 1]; static int64_t val[NOPS + PRE + 1], res[NOPS + 1], fin[NKEYS];
#ifdef VALUES
static int value_of(int64_t k, int64_t *v) {
    int c, n, found = 0; HashNode *p;
    for (c = 0; c < CELLS; c++) for (p = h.cells[c].ptr, n = 0; p != NULL; p = p->next, n++) {
        vf_assert(n < NOPS + PRE, "a bucket's list is longer than the number of inserts");
        if (n >= NOPS + PRE) break;
        if (p->key == k) { vf_assert(!found, "a key is stored twice"); found = 1; *v = p->value; }
    }
    return found;
}
#endif
void vf_setup(void) {
    int i, j;
    for (i = 0; i < NKEYS; i++) {
        key[i] = (int64_t)vf_nondet(i);
#ifdef NONNEG
        vf_assume(key[i] >= 0);
#endif
        for (j = 0; j < i; j++) vf_assume(key[i] != key[j]);
    }
#ifdef SAMECELL
    for (i = 1; i < NKEYS; i++) vf_assume(((uint64_t)key[i] - (uint64_t)key[0]) % CELLS == 0);
#endif
#ifdef KINDS
    { static const int k[] = {KINDS}; for (i = 0; i < NOPS; i++) kind[i] = k[i]; }
#else
    for (i = 0; i < NOPS; i++) kind[i] = vf_choose(i, 3);
#endif
#ifdef KEYS
    { static const int k[] = {KEYS}; for (i = 0; i < NOPS; i++) kx[i] = k[i]; }
#else
    for (i = 0; i < NOPS; i++) kx[i] = vf_choose(16 + i, NKEYS);
#endif
    for (i = 0; i < NOPS + PRE; i++) val[i] = (int64_t)vf_nondet(64 + i);
    init();
    tinit(0);
    for (i = 0; i < PRE; i++) INS(0, key[i], val[NOPS + i]);
}
void vf_thread(int t) {
    int k;
    if (t > 0) tinit(t);
    for (k = 0; k < opsOf(t); k++) {
        int o = baseOf(t) + k;
        t_inv[o] = vf_op_begin();
        if (kind[o] == 0) INS(t, key[kx[o]], val[o]);
        else if (kind[o] == 1) DEL(t, key[kx[o]]);
        else res[o] = SRC(t, key[kx[o]]);
        t_res[o] = vf_now();
    }
}
static int lin_try(const int *perm) {
    int in[NKEYS], i, j, ok = 1; int64_t v[NKEYS];
    for (j = 0; j < NKEYS; j++) { in[j] = j < PRE; v[j] = j < PRE ? val[NOPS + j] : 0; }
    for (i = 0; i < NOPS; i++) {
        int o = perm[i];
        for (j = 0; j < NKEYS; j++) {
            int me = kx[o] == j;
            if (kind[o] == 0) { if (me) { in[j] = 1; v[j] = val[o]; } }
            else if (kind[o] == 1) { if (me) in[j] = 0; }
            else ok &= !me | ((res[o] != 0) == in[j]);
        }
    }
    for (j = 0; j < NKEYS; j++) ok &= (fin[j] != 0) == in[j];
#ifdef VALUES
    for (j = 0; j < NKEYS; j++) { int64_t x = 0; int f = value_of(key[j], &x); ok &= f == in[j]; ok &= !f | (x == v[j]); }
#endif
    return ok;
}
#include "lin.h"
void vf_final(void) {
    int i;
    for (i = 0; i < NKEYS; i++) fin[i] = SRC(0, key[i]);
    vf_assert(linearizable(), "the history has no sequential explanation as a map that respects real-time order");
    for (i = 0; i < NOPS; i++) if (kind[i] == 2) { vf_cover(res[i] != 0, "a search finds its key"); vf_cover(res[i] == 0, "a search misses"); }
    vf_cover(1, "all operations complete");
}
