/* Atomic primitives: documented result and effect for every operand, nothing else touched (NT=1); atomicity against each
   other (NT>1). */
#include "vf.h"
#include <config.h>
#include <primitives.h>
#include "ops.h"
const int vf_nthreads = NT;
static volatile uint64_t m[8] __attribute__((aligned(16))); static uint64_t o[8];
#define REL(c, msg) vf_assert(c, msg)
static void others(int a, int b) { int i; for (i = 0; i < 8; i++) if (i != a && i != b) REL(m[i] == o[i], "a primitive changed neighbouring memory"); }
static void reload(void) { int i; for (i = 0; i < 8; i++) m[i] = o[i]; }
#if NT == 1
void vf_setup(void) { int i; for (i = 0; i < 8; i++) o[i] = vf_nondet(i); reload(); }
void vf_thread(int t) {
    uint64_t b = vf_nondet(20), c = vf_nondet(21), b1 = vf_nondet(22), c1 = vf_nondet(23); int r, eq; volatile uint32_t *h; uint32_t old; (void)t;
    r = synchCAS64(&m[2], b, c) != 0; REL(r == (o[2] == b), "CAS64 returns the wrong result"); REL(m[2] == (o[2] == b ? c : o[2]), "CAS64 leaves the wrong value"); others(2, 2); reload();
    r = synchCASPTR(&m[3], b, c) != 0; REL(r == (o[3] == b), "CASPTR returns the wrong result"); REL(m[3] == (o[3] == b ? c : o[3]), "CASPTR leaves the wrong value"); others(3, 3); reload();
    for (eq = 0; eq < 2; eq++) { /* both halves of a word */
        h = (volatile uint32_t *)&m[4]; old = h[eq];
        r = synchCAS32(&h[eq], b, c) != 0; REL(r == (old == (uint32_t)b), "CAS32 returns the wrong result"); REL(h[eq] == (old == (uint32_t)b ? (uint32_t)c : old), "CAS32 leaves the wrong value");
        REL(h[1 - eq] == (uint32_t)(eq ? o[4] : o[4] >> 32), "CAS32 changed neighbouring memory"); others(4, 4); reload();
        old = h[eq];
        REL((uint32_t)synchFAA32(&h[eq], c) == old, "FAA32 returns the wrong result"); REL(h[eq] == (uint32_t)(old + (uint32_t)c), "FAA32 leaves the wrong value");
        REL(h[1 - eq] == (uint32_t)(eq ? o[4] : o[4] >> 32), "FAA32 changed neighbouring memory"); others(4, 4); reload();
    }
    r = synchCAS128(&m[2], b, b1, c, c1) != 0; eq = o[2] == b && o[3] == b1;
    REL(r == eq, "CAS128 returns the wrong result"); REL(m[2] == (eq ? c : o[2]) && m[3] == (eq ? c1 : o[3]), "CAS128 leaves the wrong value"); others(2, 3); reload();
    REL((uint64_t)synchSWAP(&m[5], b) == o[5], "SWAP returns the wrong result"); REL(m[5] == b, "SWAP leaves the wrong value"); others(5, 5); reload();
    REL((uint64_t)synchFAA64(&m[5], b) == o[5], "FAA64 returns the wrong result"); REL(m[5] == o[5] + b, "FAA64 leaves the wrong value"); others(5, 5); reload();
    { unsigned char k = (unsigned char)(b1 & 63); uint64_t p = synchBitTAS64(&m[6], k);
      REL(((p >> k) & 1) == ((o[6] >> k) & 1), "BitTAS64 does not report the bit's previous value"); REL(m[6] == (o[6] | ((uint64_t)1 << k)), "BitTAS64 leaves the wrong value"); others(6, 6); reload(); }
    { uint64_t x = vf_nondet(30); int n = 0, i; for (i = 0; i < 64; i++) n += (x >> i) & 1; REL((int)synchNonZeroBits(x) == n, "the number of set bits is wrong");
      vf_assume(x != 0); r = synchBitSearchFirst(x); REL(r >= 0 && r < 64, "first-set search out of range"); REL((x >> r) & 1, "first-set search finds a clear bit"); REL((x & (((uint64_t)1 << r) - 1)) == 0, "first-set search skips a set bit"); }
    vf_cover(o[2] == b && o[3] == b1, "CAS128 succeeds"); vf_cover(o[2] == b && o[3] != b1, "CAS128 fails on the upper half only");
    vf_cover(1, "all operations complete");
}
#else
/* P selects the primitive all threads use on the same word */
static uint64_t arg[NT], arg2[NT], ret[NT], init, init2; static int won[NT];
void vf_setup(void) { int i, j; init = vf_nondet(0); init2 = vf_nondet(1); m[2] = init; m[3] = init2; for (i = 0; i < NT; i++) { arg[i] = vf_nondet(2 + i); arg2[i] = vf_nondet(12 + i); for (j = 0; j < i; j++) vf_assume(arg[i] != arg[j]); vf_assume(arg[i] != init);
#if P == 5
        vf_assume((uint32_t)arg[i] != (uint32_t)init);
#endif
    } }
void vf_thread(int t) {
    vf_op_begin();
#if P == 0
    ret[t] = synchFAA64(&m[2], arg[t]);
#elif P == 1
    ret[t] = (uint32_t)synchFAA32(&m[2], arg[t]);
#elif P == 2
    ret[t] = (uint64_t)synchSWAP(&m[2], arg[t]);
#elif P == 3
    won[t] = synchCAS64(&m[2], init, arg[t]);
#elif P == 4
    won[t] = synchCASPTR(&m[2], init, arg[t]);
#elif P == 5
    won[t] = synchCAS32(&m[2], init, arg[t]);
#elif P == 6
    won[t] = synchCAS128(&m[2], init, init2, arg[t], arg2[t]);
#elif P == 7
    won[t] = !((synchBitTAS64(&m[2], 5) >> 5) & 1);
#elif P == 8 /* mixed: one adds, the others compare-and-swap or set a bit */
    if (t == 0) ret[t] = synchFAA64(&m[2], 1); else if (t == 1) won[t] = synchCAS64(&m[2], init, arg[t]); else ret[t] = (uint64_t)synchSWAP(&m[2], arg[t]);
#endif
}
void vf_final(void) {
    int i, j, n = 0, k = 0; uint64_t sum = init; (void)j; (void)k;
    for (i = 0; i < NT; i++) { n += won[i] != 0; sum += arg[i]; }
#if P == 0 || P == 1
    { /* every thread's result is the initial value plus the arguments of the set of threads before it; the sets form a chain */
        uint64_t mask = P == 0 ? ~0ULL : 0xffffffffULL; int ok = 0, a, b, c;
        vf_assert((m[2] & mask) == (sum & mask), "an addition was lost");
        if (P == 1) vf_assert(m[2] >> 32 == init >> 32, "FAA32 changed neighbouring memory");
        for (a = 0; a < NT; a++) for (b = 0; b < NT; b++) for (c = 0; c < (NT > 2 ? NT : 1); c++) {
            if (a == b || (NT > 2 && (c == a || c == b))) continue;
            ok |= ((ret[a] & mask) == (init & mask)) & ((ret[b] & mask) == ((init + arg[a]) & mask)) & (NT < 3 || ((ret[c] & mask) == ((init + arg[a] + arg[b]) & mask)));
        }
        vf_assert(ok, "the results of concurrent additions have no sequential explanation");
    }
#elif P == 2
    for (i = 0; i < NT; i++) { int c = m[2] == arg[i]; for (j = 0; j < NT; j++) c += ret[j] == arg[i]; vf_assert(c == 1, "concurrent swaps lost or duplicated a value"); }
    for (j = 0; j < NT; j++) k += ret[j] == init;
    vf_assert(k == 1, "concurrent swaps lost or duplicated a value");
#elif P == 8
    { int ok = 0, a;
      if (NT == 2) { ok |= (ret[0] == init) & !won[1] & (m[2] == init + 1); ok |= won[1] & (ret[0] == arg[1]) & (m[2] == arg[1] + 1); }
      else for (a = 0; a < 1; a++) {
        uint64_t I = init, A = arg[1], S = arg[2];
        ok |= (ret[0] == I) & !won[1] & (ret[2] == I + 1) & (m[2] == S);              /* F C S */
        ok |= (ret[0] == I) & (ret[2] == I + 1) & (won[1] == 0) & (m[2] == S);        /* F S C (S != I) */
        ok |= (won[1] != 0) & (ret[0] == A) & (ret[2] == A + 1) & (m[2] == S);        /* C F S */
        ok |= (won[1] != 0) & (ret[2] == A) & (ret[0] == S) & (m[2] == S + 1);        /* C S F */
        ok |= (ret[2] == I) & (ret[0] == S) & ((won[1] != 0) == (S + 1 == I)) & (m[2] == (S + 1 == I ? A : S + 1)); /* S F C */
        ok |= (ret[2] == I) & !won[1] & (ret[0] == S) & (m[2] == S + 1);              /* S C F */
      }
      vf_assert(ok, "concurrent primitives have no sequential explanation"); }
#else
#if P == 7
    vf_assert(m[2] == (init | 32), "the bit is not set"); vf_assert(n == ((init >> 5) & 1 ? 0 : 1), "not exactly one of the concurrent callers set the bit");
#else
    vf_assert(n == 1, "not exactly one of the concurrent compare-and-swaps succeeded");
    for (i = 0; i < NT; i++) if (won[i]) vf_assert(P == 5 ? m[2] == ((init & 0xffffffff00000000ULL) | (uint32_t)arg[i]) : m[2] == arg[i] && (P != 6 || m[3] == arg2[i]), "the value of the successful compare-and-swap was not stored");
#endif
#endif
    vf_cover(1, "all operations complete");
}
#endif
