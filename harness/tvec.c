/* Toggle vectors as sets of thread indices, for arbitrary contents, bits and operand aliasing; guard words around them. */
#include "vf.h"
#include <config.h>
#include <primitives.h>
#include <tvec.h>
#ifndef N
#define N 65
#endif
#define W (((N) >> 6) + 1)
#define G 2
#ifndef NT
#define NT 1
#endif
const int vf_nthreads = NT;
static uint64_t mem[4][W + 2 * G], ini[4][W + 2 * G]; static ToggleVector v[4];
static uint64_t lim(int w) { int left = (N) - w * 64; return left >= 64 ? ~0ULL : left <= 0 ? 0 : ((uint64_t)1 << left) - 1; }
static void load(int k, int id) { int i; for (i = 0; i < W; i++) v[k].cell[i] = vf_nondet(id * 16 + i) & lim(i); }
static int has(int k, int b) { return TVEC_IS_SET(&v[k], b); }
#ifdef BIG /* many words: the indices are one of a few at the ends of words */
static int idx(int id, int n) { static const int at[8] = {0, 63, 64, 127, 128, 255, 256, (N) - 1}; int x = at[vf_choose(id, 8)]; vf_assume(x < n); return x; }
#else
static int idx(int id, int n) { int x = (int)vf_nondet(id) & 255; vf_assume(x < n); return x; }
#endif
static int was[4], pid[NT];
static void guards(void) { int k, i; for (k = 0; k < 4; k++) for (i = 0; i < G; i++) vf_assert(mem[k][i] == ini[k][i] && mem[k][G + W + i] == ini[k][G + W + i], "memory outside the vector was changed"); }
void vf_setup(void) {
    int k, i;
    for (k = 0; k < 4; k++) {
        for (i = 0; i < W + 2 * G; i++) mem[k][i] = ini[k][i] = vf_nondet(100 + k * 16 + i);
        TVEC_INIT_AT(&v[k], N, &mem[k][G]);
        for (i = 0; i < N; i++) vf_assert(!has(k, i), "a new vector is not empty");
    }
    guards();
#if NT > 1
    for (k = 0; k < NT; k++) { pid[k] = idx(80 + k, N); for (i = 0; i < k; i++) vf_assume(pid[k] != pid[i]); }
#endif
}
#if NT == 1
void vf_thread(int t) {
    int b = idx(70, N), q = idx(71, N), k, al, i, bank; uint64_t sum; (void)t;
#ifdef Q
    q = Q;
#endif
    for (al = 0; al < 4; al++) { /* result in a third vector, in the first operand, in the second one; both operands the same */
        int r = al == 0 || al == 3 ? 2 : al - 1, o2 = al == 3 ? 0 : 1, op;
        for (op = 0; op < 3; op++) {
            load(0, 1); load(1, 2); load(2, 3);
            for (k = 0; k < 3; k++) was[k] = has(k, q);
            if (op == 0) { TVEC_AND(&v[r], &v[0], &v[o2]); vf_assert(has(r, q) == (was[0] & was[o2]), "AND is not the intersection"); }
            else if (op == 1) { TVEC_OR(&v[r], &v[0], &v[o2]); vf_assert(has(r, q) == (was[0] | was[o2]), "OR is not the union"); }
            else { TVEC_XOR(&v[r], &v[0], &v[o2]); vf_assert(has(r, q) == (was[0] ^ was[o2]), "XOR is not the symmetric difference"); }
            for (k = 0; k < 3; k++) if (k != r) vf_assert(has(k, q) == was[k], "an operand was changed");
            bank = TVEC_GET_BANK_OF_BIT(q, N);
            load(0, 1); load(1, 2); load(2, 3);
            if (op == 0) { TVEC_AND_BANKS(&v[r], &v[0], &v[o2], bank); vf_assert(has(r, q) == (was[0] & was[o2]), "AND of the bit's bank is wrong"); }
            else if (op == 1) { TVEC_XOR_BANKS(&v[r], &v[0], &v[o2], bank); vf_assert(has(r, q) == (was[0] ^ was[o2]), "XOR of the bit's bank is wrong"); }
            else { TVEC_ATOMIC_COPY_BANKS(&v[r], &v[o2], bank); vf_assert(has(r, q) == was[o2], "copy of the bit's bank is wrong"); }
        }
    }
    guards();
    load(0, 1); load(1, 2); was[0] = has(0, q);
    TVEC_SET_BIT(&v[0], b); vf_assert(has(0, q) == (q == b ? 1 : was[0]), "setting a bit does not set exactly that bit");
    load(0, 1); TVEC_REVERSE_BIT(&v[0], b); vf_assert(has(0, q) == (q == b ? !was[0] : was[0]), "reversing a bit does not reverse exactly that bit");
    load(0, 1); TVEC_COPY(&v[1], &v[0]); vf_assert(has(1, q) == was[0] && has(0, q) == was[0], "a copy differs from its source");
    load(0, 1); TVEC_NEGATIVE(&v[1], &v[0]);
    for (i = 0; i < W; i++) vf_assert(v[1].cell[i] == -v[0].cell[i], "the negative is wrong");
    bank = TVEC_GET_BANK_OF_BIT(b, N); vf_assert(bank >= 0 && bank < W, "bank out of range");
    load(0, 1); load(1, 2); TVEC_NEGATIVE_BANK(&v[1], &v[0], bank); vf_assert(v[1].cell[bank] == -v[0].cell[bank], "the negative of a bank is wrong");
    guards();
    /* the announce protocol: a thread adds its bit, then the negative of its bit, and so on; only its own bit changes */
    load(0, 1); TVEC_SET_ZERO(&v[1]); for (i = 0; i < W; i++) vf_assert(v[1].cell[i] == 0, "a cleared vector is not empty");
    TVEC_SET_BIT(&v[1], b); was[0] = has(0, q);
    if (has(0, b)) TVEC_NEGATIVE(&v[1], &v[1]);
    TVEC_ATOMIC_ADD_BANK(&v[0], &v[1], bank); vf_assert(has(0, q) == (q == b ? !was[0] : was[0]), "the atomic toggle changes other bits than the thread's own");
    TVEC_NEGATIVE_BANK(&v[1], &v[1], bank);
    TVEC_ATOMIC_ADD_BANK(&v[0], &v[1], bank); vf_assert(has(0, q) == was[0], "the second atomic toggle does not undo the first");
    TVEC_NEGATIVE_BANK(&v[1], &v[1], bank);
    TVEC_ATOMIC_ADD_BANK(&v[0], &v[1], bank); vf_assert(has(0, q) == (q == b ? !was[0] : was[0]), "the atomic toggle changes other bits than the thread's own");
    guards();
#ifdef COUNT
    load(0, 1); sum = 0; for (i = 0; i < N; i++) sum += has(0, i);
    vf_assert(TVEC_COUNT_BITS(&v[0]) == (int)sum, "the population count is wrong");
#else
    (void)sum; TVEC_SET_ZERO(&v[0]); vf_assert(TVEC_COUNT_BITS(&v[0]) == 0, "the population count is wrong");
    TVEC_SET_BIT(&v[0], b); vf_assert(TVEC_COUNT_BITS(&v[0]) == 1, "the population count is wrong");
    TVEC_SET_BIT(&v[0], q); vf_assert(TVEC_COUNT_BITS(&v[0]) == 1 + (q != b), "the population count is wrong");
#endif
    { uint64_t x = vf_nondet(60); int p, a; vf_assume(x != 0); p = synchBitSearchFirst(x); vf_assert(p >= 0 && p < 64, "first-set search out of range"); vf_assert((x >> p) & 1, "first-set search finds a clear bit"); a = idx(72, 64); vf_assert(a >= p || !((x >> a) & 1), "first-set search skips a set bit"); }
    { ToggleVector w; TVEC_INIT(&w, N); for (i = 0; i < N; i++) vf_assert(!TVEC_IS_SET(&w, i), "a new vector is not empty"); TVEC_SET_BIT(&w, N - 1); TVEC_SET_BIT(&w, b); vf_assert(TVEC_IS_SET(&w, q) == (q == b || q == N - 1), "setting a bit does not set exactly that bit"); }
    vf_cover(b == N - 1, "last index");
    vf_cover(1, "all operations complete");
}
#else
/* concurrent announcements: every thread toggles its own bit TOG times; the others' bits are never disturbed */
#ifndef TOG
#define TOG 2
#endif
void vf_thread(int t) {
    ToggleVector m; uint64_t own[W]; int i, bank;
    TVEC_INIT_AT(&m, N, own); TVEC_SET_BIT(&m, pid[t]); bank = TVEC_GET_BANK_OF_BIT(pid[t], N);
    for (i = 0; i < TOG; i++) {
        vf_op_begin();
        TVEC_ATOMIC_ADD_BANK(&v[0], &m, bank); TVEC_NEGATIVE_BANK(&m, &m, bank);
        vf_assert(has(0, pid[t]) == ((i & 1) == 0), "a thread's own bit does not show its announcement");
    }
}
void vf_final(void) {
    int q = idx(90, N), i, mine = 0;
    for (i = 0; i < NT; i++) mine |= pid[i] == q;
    vf_assert(has(0, q) == (mine ? TOG & 1 : 0), "concurrent announcements disturb each other");
    guards();
    vf_cover(1, "all operations complete");
}
#endif
