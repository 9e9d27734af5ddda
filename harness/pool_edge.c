/* Pool: refused and extreme object sizes; many small objects across block boundaries */
#include "vf.h"
#include <stdlib.h>
#include <malloc.h>
#include <config.h>
#include <primitives.h>
#include <pool.h>
const int vf_nthreads = 1;
static SynchPoolStruct pool;
void vf_thread(int t) {
    uint32_t size = (uint32_t)vf_nondet(0); int r; (void)t;
#ifdef BIG
    /* whatever is accepted must be usable: the block holds at least one whole object */
    static const uint32_t sz[] = {1, 8, 4096, 16 << 20, (32 << 20) - 4096, (32 << 20) - 64, (32 << 20) - 33, (32 << 20) - 32, (32 << 20) - 31, (32 << 20) - 8, 32 << 20, (32 << 20) + 1, 0xffffffffu};
    int i; char *p, *q;
    for (i = 0; i < (int)(sizeof(sz) / sizeof(sz[0])); i++) {
        r = synchInitPool(&pool, sz[i]);
        vf_assert(r == SYNCH_POOL_INIT_SUCC || r == SYNCH_POOL_INIT_ERROR, "undocumented result of the initialisation");
        if (sz[i] <= (16u << 20)) vf_assert(r == SYNCH_POOL_INIT_SUCC, "a supported object size was refused");
        if (sz[i] >= (64u << 20)) vf_assert(r == SYNCH_POOL_INIT_ERROR, "an unsupported object size was accepted");
        if (r != SYNCH_POOL_INIT_SUCC) continue;
        p = synchAllocObj(&pool); q = synchAllocObj(&pool);
        vf_assert(p != NULL && q != NULL, "allocation failed although memory is available");
        p[0] = 1; q[0] = 2; p[sz[i] - 1] = 3; q[sz[i] - 1] = 4;
        if (sz[i] > 1) vf_assert(p[0] == 1 && q[0] == 2, "objects overlap");
        vf_assert(p[sz[i] - 1] == 3 && q[sz[i] - 1] == 4, "objects overlap");
        synchDestroyPool(&pool);
    }
#else
    vf_assume(size > (64u << 20));
    r = synchInitPool(&pool, size);
    vf_assert(r == SYNCH_POOL_INIT_ERROR, "an unsupported object size was accepted");
#endif
    vf_cover(1, "all operations complete");
}
