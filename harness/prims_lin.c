/* Concurrent atomic primitives on one (double) word, any operands, equal ones included: results and final memory have a
   sequential explanation that respects real-time order. KINDS: 0 FAA64 1 FAA32 2 SWAP 3 CAS64 4 CASPTR 5 CAS32 6 CAS128 7 BitTAS64 */
#include "vf.h"
#include <config.h>
#include <primitives.h>
#include "ops.h"
const int vf_nthreads = NT;
static const int kind[NOPS] = {KINDS};
static volatile uint64_t m[8] __attribute__((aligned(16))); static uint64_t o[8], a[NOPS], b[NOPS], c[NOPS], d[NOPS], ret[NOPS];
void vf_setup(void) {
    int i;
    for (i = 0; i < 8; i++) { o[i] = vf_nondet(i); m[i] = o[i]; }
    for (i = 0; i < NOPS; i++) { a[i] = vf_nondet(10 + i); b[i] = vf_nondet(20 + i); c[i] = vf_nondet(30 + i); d[i] = vf_nondet(40 + i); }
}
void vf_thread(int t) {
    int k;
    for (k = 0; k < opsOf(t); k++) {
        int i = baseOf(t) + k; uint64_t r = 0;
        t_inv[i] = vf_op_begin();
        switch (kind[i]) {
        case 0: r = synchFAA64(&m[2], a[i]); break;
        case 1: r = (uint32_t)synchFAA32(&m[2], a[i]); break;
        case 2: r = (uint64_t)synchSWAP(&m[2], a[i]); break;
        case 3: r = synchCAS64(&m[2], a[i], b[i]) != 0; break;
        case 4: r = synchCASPTR(&m[2], a[i], b[i]) != 0; break;
        case 5: r = synchCAS32(&m[2], a[i], b[i]) != 0; break;
        case 6: r = synchCAS128(&m[2], a[i], c[i], b[i], d[i]) != 0; break;
        case 7: r = (synchBitTAS64(&m[2], (unsigned char)(a[i] & 63)) >> (a[i] & 63)) & 1; break;
        }
        ret[i] = r; t_res[i] = vf_now();
    }
}
static int lin_try(const int *perm) {
    uint64_t w = o[2], x = o[3], H = 0xffffffff00000000ULL; int k, ok = 1;
    for (k = 0; k < NOPS; k++) {
        int i = perm[k], e;
        switch (kind[i]) {
        case 0: ok &= ret[i] == w; w += a[i]; break;
        case 1: ok &= ret[i] == (uint32_t)w; w = (w & H) | (uint32_t)(w + a[i]); break;
        case 2: ok &= ret[i] == w; w = a[i]; break;
        case 3: case 4: e = w == a[i]; ok &= ret[i] == (uint64_t)e; w = e ? b[i] : w; break;
        case 5: e = (uint32_t)w == (uint32_t)a[i]; ok &= ret[i] == (uint64_t)e; w = e ? (w & H) | (uint32_t)b[i] : w; break;
        case 6: e = (w == a[i]) & (x == c[i]); ok &= ret[i] == (uint64_t)e; w = e ? b[i] : w; x = e ? d[i] : x; break;
        case 7: ok &= ret[i] == ((w >> (a[i] & 63)) & 1); w |= (uint64_t)1 << (a[i] & 63); break;
        }
    }
    return ok & (m[2] == w) & (m[3] == x);
}
#include "lin.h"
void vf_final(void) {
    int i;
    for (i = 0; i < 8; i++) if (i != 2 && i != 3) vf_assert(m[i] == o[i], "a primitive changed neighbouring memory");
    vf_assert(linearizable(), "concurrent primitives have no sequential explanation");
    vf_cover(1, "all operations complete");
}
