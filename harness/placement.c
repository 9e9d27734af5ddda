/* Thread placement: for every policy, thread id and topology the preferred core and NUMA node exist and belong together. */
#include "vf.h"
#include <config.h>
#include <primitives.h>
#include <threadtools.h>
const int vf_nthreads = 1;
extern uint32_t synchPreferredCoreOfThread(uint32_t pid);
extern uint32_t synchPreferredNumaNodeOfThread(uint32_t pid);
static int ncores, nnodes; static int node_of[MAXCORES]; static int pinned = -1, masks;
long vf_ov_sysconf(int k) { (void)k; return ncores; }
int numa_num_task_nodes(void) { return nnodes; }
int numa_num_configured_nodes(void) { return nnodes; }
int numa_num_configured_cpus(void) { return ncores; }
int numa_max_node(void) { return nnodes - 1; }
int numa_available(void) { return 0; }
int numa_node_of_cpu(int c) { if (c < 0 || c >= ncores) return -1; 
#ifdef LAYOUT
    { int i = c; return LAYOUT; }
#else
    return node_of[c];
#endif
}
int vf_ov_pthread_setconcurrency(int n) { (void)n; return 0; }
int vf_ov_sched_setaffinity(int pid, unsigned long len, const void *mask) {
    const uint64_t *w = mask; int i, n = 0; (void)pid;
    for (i = 0; i < (int)(len / 8); i++) if (w[i] != 0) { n++; pinned = i * 64 + synchBitSearchFirst(w[i]); vf_assert((w[i] & (w[i] - 1)) == 0, "a thread is bound to more than one core"); }
    vf_assert(n == 1, "a thread is not bound to exactly one core"); masks++;
    return 0;
}
void vf_thread(int t) {
    uint32_t pid, core, policy, c2; int n, i, q; (void)t;
    ncores = vf_split(vf_choose(0, HICORES - LOCORES + 1)) + LOCORES; nnodes = vf_split(vf_choose(1, NODES)) + 1;
    vf_assume(nnodes <= ncores);
#ifdef EVEN
    vf_assume(ncores % (EVEN * nnodes) == 0);
#endif
    for (i = 0; i < ncores; i++) {
#ifndef LAYOUT
        node_of[i] = (int)vf_nondet(100 + i); vf_assume((node_of[i] >= 0) & (node_of[i] < nnodes)); /* any distribution of the cores */
#endif
    }
    pid = (uint32_t)vf_nondet(2) & (MAXPID - 1);
    q = vf_split(vf_choose(3, 9)); policy = q < 7 ? q : q == 7 ? 0xFFFFFFFFU : SYNCH_THREAD_PLACEMENT_DEFAULT;
    if (q < 8) synchSetThreadPlacementPolicy(policy); /* else the policy in force from the start */
    vf_assert(synchGetThreadPlacementPolicy() <= SYNCH_THREAD_PLACEMENT_POLICY_MAX, "an unsupported policy is in force");
    if (policy <= SYNCH_THREAD_PLACEMENT_POLICY_MAX) vf_assert(synchGetThreadPlacementPolicy() == policy, "the requested policy is not in force");
    vf_assert(synchGetNCores() == (uint32_t)ncores, "the number of cores is wrong");
    core = synchPreferredCoreOfThread(pid); n = (int)synchPreferredNumaNodeOfThread(pid);
    vf_assert(core < (uint32_t)ncores, "the preferred core does not exist");
    vf_assert((n >= 0) & (n < nnodes), "the preferred NUMA node does not exist");
    if (core < (uint32_t)ncores) vf_assert(numa_node_of_cpu(core) == n, "the preferred NUMA node does not contain the preferred core");
    if (policy == SYNCH_THREAD_PLACEMENT_FLAT) vf_assert(core == pid % (uint32_t)ncores, "the flat policy does not place threads on consecutive cores");
#ifdef PIN
    c2 = vf_split(vf_choose(4, PIN)); core = synchPreferredCoreOfThread(c2);
    synchThreadPin(c2);
    vf_assert(pinned == (int)core, "a thread is bound to another core than the preferred one");
    vf_assert(synchGetPreferredCore() == pinned, "the recorded core is not the one the thread is bound to");
    vf_assert(synchGetPreferredNumaNode() == numa_node_of_cpu(pinned), "the recorded node is not the one of the core the thread is bound to");
#endif
}
void vf_final(void) { vf_cover(1, "all operations complete"); }
