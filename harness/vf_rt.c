/* Environment linked into every scenario: library calls expanded to plain code, and stand-ins for the parts of the
   environment that are outside the properties (processor detection, processor yield, contention delay). */
#include "vf.h"
#include "ops.h"
#include "pids.h"
#ifndef MODEL
#define MODEL 2 /* INTEL_X86_MACHINE */
#endif
void *vf_memcpy(void *d, const void *s, unsigned long n) {
    unsigned long i = 0;
    if ((((unsigned long)d | (unsigned long)s) & 7) == 0) for (; i + 8 <= n; i += 8) *(uint64_t *)((char *)d + i) = *(const uint64_t *)((const char *)s + i);
    if ((((unsigned long)d | (unsigned long)s) & 3) == 0) for (; i + 4 <= n; i += 4) *(uint32_t *)((char *)d + i) = *(const uint32_t *)((const char *)s + i);
    for (; i < n; i++) ((char *)d)[i] = ((const char *)s)[i];
    return d;
}
void *vf_memmove(void *d, const void *s, unsigned long n) {
    if ((unsigned long)d <= (unsigned long)s || (unsigned long)s + n <= (unsigned long)d) return vf_memcpy(d, s, n);
    while (n > 0) { n--; ((char *)d)[n] = ((const char *)s)[n]; }
    return d;
}
void *vf_memset(void *d, int c, unsigned long n) {
    unsigned long i = 0; uint64_t w = (uint8_t)c; w |= w << 8; w |= w << 16; w |= w << 32;
    if (((unsigned long)d & 7) == 0) for (; i + 8 <= n; i += 8) *(uint64_t *)((char *)d + i) = w;
    if (((unsigned long)d & 3) == 0) for (; i + 4 <= n; i += 4) *(uint32_t *)((char *)d + i) = (uint32_t)w;
    for (; i < n; i++) ((char *)d)[i] = (char)c;
    return d;
}
uint64_t vf_ov_synchGetMachineModel(void) { return MODEL; }
#if FIBERS > 1
/* the fibers of a posix thread share it cooperatively: only the owner runs, a yield passes ownership on */
volatile int vf_fib_owner[8] = {-1, -1, -1, -1, -1, -1, -1, -1}; volatile int vf_fib_ended[8]; int vf_fib_on;
static int fib_next(int t) {
    int n, g = PID(t) / FIBERS;
    for (n = t + 1; n < NT; n++) if (PID(n) / FIBERS == g && !vf_fib_ended[n]) return n;
    for (n = 0; n < t; n++) if (PID(n) / FIBERS == g && !vf_fib_ended[n]) return n;
    return t;
}
void vf_fibers_start(void) { int t; for (t = NT - 1; t >= 0; t--) vf_fib_owner[PID(t) / FIBERS] = t; vf_fib_on = 1; }
void vf_fiber_begin(int t) { while (vf_fib_owner[PID(t) / FIBERS] != t) ; }
void vf_fiber_end(int t) { vf_fib_ended[t] = 1; vf_fib_owner[PID(t) / FIBERS] = fib_next(t); }
void vf_ov_synchResched(void) {
    int t = vf_tid(), n;
    if (!vf_fib_on || vf_fib_ended[t]) return;
    n = fib_next(t);
    if (n == t) return;
    vf_fib_owner[PID(t) / FIBERS] = n;
    while (vf_fib_owner[PID(t) / FIBERS] != t) ;
}
#elif !defined(REAL_RESCHED)
void vf_ov_synchResched(void) { }
#endif
#ifndef NCORES
#define NCORES 8
#endif
int numa_pagesize(void) { return 4096; }
int getpagesize(void) { return 4096; }
#ifndef OWN_NUMA
long sysconf(int k) { return k == 30 ? 4096 : NCORES; } /* 30: _SC_PAGESIZE */
#endif
void *vf_memalign_(unsigned long, unsigned long) __asm__("memalign");
int posix_memalign(void **p, unsigned long a, unsigned long n) { *p = vf_memalign_(a, n); return 0; }
int memcmp(const void *a, const void *b, unsigned long n) { const unsigned char *x = a, *y = b; for (; n; n--, x++, y++) if (*x != *y) return *x < *y ? -1 : 1; return 0; }
int strcmp(const char *a, const char *b) { for (; *a && *a == *b; a++, b++); return (unsigned char)*a - (unsigned char)*b; }
unsigned long strlen(const char *s) { unsigned long n = 0; while (s[n]) n++; return n; }
#ifndef NODES
#define NODES 1
#endif
#ifndef NODE_OF
#define NODE_OF(c) ((c) % NODES)
#endif
#ifndef OWN_NUMA
int numa_num_task_nodes(void) { return NODES; }
int numa_node_of_cpu(int c) { return NODE_OF(c); }
int numa_available(void) { return 0; }
int numa_max_node(void) { return NODES - 1; }
int numa_num_configured_nodes(void) { return NODES; }
int numa_num_configured_cpus(void) { return NCORES; }
#endif
struct SynchBackoffStruct;
#ifndef REAL_BACKOFF
void vf_ov_synchBackoffDelay(struct SynchBackoffStruct *b) { (void)b; }
#endif
#ifndef REAL_RANDOM
long vf_ov_synchFastRandomRange(long low, long high) { (void)high; return low; }
#endif
#ifdef SWEEP
int vf_core, vf_pid; /* set by the harness before it acts for a thread */
int vf_ov_synchGetThreadId(void) { return vf_pid; }
int vf_ov_synchGetPosixThreadId(void) { return vf_pid; }
int vf_ov_synchGetPreferredCore(void) { return vf_core; }
uint32_t vf_ov_synchGetNCores(void) { return NCORES; }
int vf_ov_synchGetPreferredNumaNode(void) { return NODE_OF(vf_core); }
#elif !defined(REAL_THREADTOOLS)
int vf_ov_synchGetThreadId(void) { return PID(vf_tid()); }
int vf_ov_synchGetPosixThreadId(void) { return PID(vf_tid()); }
int vf_ov_synchGetPreferredCore(void) { return PID(vf_tid()); }
uint32_t vf_ov_synchGetNCores(void) { return NCORES; }
int vf_ov_synchGetPreferredNumaNode(void) { return NODE_OF(PID(vf_tid())); }
#endif
void *__keep_refs[] = {(void *)vf_memcpy, (void *)vf_memmove, (void *)vf_memset};
