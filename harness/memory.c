/* Memory helpers: for every size, power-of-two alignment and placement of the system's block, the returned block is aligned,
   large enough and inside the system's block; a failing system allocation stops the program. */
#include "vf.h"
#include <stddef.h>
#include <config.h>
#include <primitives.h>
#ifndef LOALIGN
#define LOALIGN 0
#endif
const int vf_nthreads = 1;
static uint64_t base[CALLS + 1], got[CALLS + 1], freed_p, freed_n; static int calls, frees, failed; static unsigned pagebits;
static void *sys(size_t n, size_t align) {
    uint64_t b = vf_nondet(100 + calls); int f = vf_choose(200 + calls, 2);
    if (f) { failed = 1; return NULL; }
    vf_assume((b != 0) & ((b & (align - 1)) == 0) & (n < (1UL << 50)) & (b < (1UL << 50))); /* the block lies in the address space */
    base[calls] = b; got[calls] = n; calls++; return (void *)b;
}
int vf_ov_numa_pagesize(void) { return 1 << pagebits; }
int vf_ov_getpagesize(void) { return 1 << pagebits; }
long vf_ov_sysconf(int k) { return k == 30 ? 1 << pagebits : 4; }
void *vf_ov_numa_alloc_local(size_t n) { return sys(n, (size_t)1 << pagebits); }
void *vf_ov_numa_alloc(size_t n) { return sys(n, (size_t)1 << pagebits); }
void *vf_ov_malloc(size_t n) { return sys(n, 16); }
void *vf_ov_memalign(size_t a, size_t n) { return sys(n, a < 16 ? 16 : a); }
void *vf_ov_aligned_alloc(size_t a, size_t n) { return sys(n, a < 16 ? 16 : a); }
int vf_ov_posix_memalign(void **p, size_t a, size_t n) { *p = sys(n, a < 16 ? 16 : a); return *p ? 0 : 12; }
void vf_ov_numa_free(void *p, size_t n) { frees++; freed_p = (uint64_t)p; freed_n = n; }
void vf_ov_free(void *p) { frees++; freed_p = (uint64_t)p; freed_n = got[calls - 1]; }
int vf_ov_numa_num_task_nodes(void) { return 1; }
int vf_ov_numa_node_of_cpu(int c) { (void)c; return 0; }
int vf_ov_numa_available(void) { return 0; }
int vf_ov_numa_max_node(void) { return 0; }
int vf_ov_numa_num_configured_nodes(void) { return 1; }
int vf_ov_numa_num_configured_cpus(void) { return 4; }
void vf_ov_perror(const char *s) { (void)s; }
void vf_ov_exit(int c) { vf_assert(failed, "the program stops although memory was available"); vf_assert(c != 0, "the program stops without reporting failure"); vf_assume(0); for (;;) ; }
void vf_thread(int t) {
    int i; (void)t;
    pagebits = vf_split(vf_choose(1, 2)) ? 16 : 12;
    for (i = 0; i < CALLS; i++) {
        uint64_t size = vf_nondet(10 + i), p; uint64_t a = 1; int k = vf_choose(20 + i, 2), ab = vf_split(vf_choose(30 + i, MAXALIGN - LOALIGN + 1)) + LOALIGN;
        vf_assume((size > 0) & (size < (1UL << 48)));
        if (k == 0) p = (uint64_t)synchGetMemory(size);
        else { a = (uint64_t)1 << ab; p = (uint64_t)synchGetAlignedMemory(a, size); }
        vf_assert(!failed, "a failed allocation was not reported");
        vf_assert(p != 0, "an unusable pointer was returned");
        vf_assert((p & (a - 1)) == 0, "the block is not aligned as requested");
        vf_assert((p & 7) == 0, "the block is not aligned for machine words");
        vf_assert(calls == i + 1, "the block was not newly allocated");
        if (calls == i + 1) {
            vf_assert((p >= base[i]) & (p + size <= base[i] + got[i]), "the block is not inside the memory obtained from the system");
            if (k == 0 || a <= 4096) {
                int f = frees; synchFreeMemory((void *)p, size);
                vf_assert(frees == f + 1, "the block is not released exactly once"); vf_assert((freed_p == base[i]) & (freed_n == got[i]), "not exactly the allocated block is released");
            }
        }
    }
}
void vf_final(void) { vf_cover(1, "all operations complete"); }
