/* Starting and joining threads: with N threads (U fibers per posix thread) every id 0..N-1 runs the function exactly once, each
   sees its own ids, the join returns only after all of them, and threads can be started again.
   Engine thread 0 is the program; every posix thread it creates is one of the other engine threads. */
#include "vf.h"
#include <config.h>
#include <primitives.h>
#include <threadtools.h>
#include <uthreads.h>
#ifndef U
#define U 1
#endif
#ifndef U2
#define U2 U
#endif
#ifndef N2
#define N2 N
#endif
#ifndef LIVES
#define LIVES 1
#endif
#ifndef NCORES
#define NCORES 4
#endif
#ifndef YIELDS
#define YIELDS 1
#endif
#define KT(n, u) ((u) > 1 ? (n) / (u) : (n)) /* posix threads, the starting one included */
const int vf_nthreads = 1 + (KT(N, U) - 1) + (LIVES > 1 ? KT(N2, U2) - 1 : 0);
#define MAXN (N > N2 ? N : N2)
static int n_of[2] = {N, N2}, u_of[2] = {U, U2};
static volatile int created, closed, life; static void *(*volatile fn_of[16])(void *); static void *volatile arg_of[16];
static int ran[LIVES][MAXN], finished[LIVES][MAXN];
int vf_ov_pthread_create(unsigned long *th, const void *attr, void *(*f)(void *), void *arg) {
    int s = created; (void)attr;
    vf_assert(s < vf_nthreads - 1, "more threads are created than were asked for");
    if (s >= vf_nthreads - 1) return 0;
    *th = s; fn_of[s] = f; arg_of[s] = arg; created = s + 1; return 0;
}
int vf_ov_sched_setaffinity(int pid, unsigned long len, const void *mask) { (void)pid; (void)len; (void)mask; return 0; }
int vf_ov_pthread_setconcurrency(int n) { (void)n; return 0; }
long vf_ov_sysconf(int k) { return k == 30 ? 4096 : NCORES; }
int numa_num_task_nodes(void) { return 1; }
int numa_node_of_cpu(int c) { (void)c; return 0; }
int numa_available(void) { return 0; }
int numa_max_node(void) { return 0; }
int numa_num_configured_nodes(void) { return 1; }
int numa_num_configured_cpus(void) { return NCORES; }
static int os_yields[8], turns[MAXN], unfinished[LIVES][MAXN];
int vf_ov_sched_yield(void) { if (!os_yields[vf_tid()]) os_yields[vf_tid()] = 1; return 0; }
static void *body(void *arg) {
    long id = (long)arg; int l = life, u = u_of[l], i, core;
    vf_assert((id >= 0) & (id < n_of[l]), "a thread runs with an id that does not exist");
    if (id < 0 || id >= n_of[l]) return NULL;
    ran[l][id]++;
    vf_assert(ran[l][id] == 1, "two threads run with the same id");
    vf_assert(synchGetThreadId() == id, "a thread sees another id than the one it was given");
    vf_assert(synchGetPosixThreadId() == (u > 1 ? id / u * u : id), "a thread sees the id of another posix thread");
    vf_assert(synchIsSystemOversubscribed() | (n_of[l] <= NCORES), "oversubscription is not detected"); vf_assert(!synchIsSystemOversubscribed() | (u > 1) | (n_of[l] > NCORES), "oversubscription is reported although there are enough cores");
    core = synchGetPreferredCore();
    vf_assert(core == (int)synchPreferredCoreOfThread(u > 1 ? id / u : id % NCORES), "a thread is not placed on its preferred core");
    for (i = 0; i < YIELDS; i++) {
        int g = id / u, x = ++turns[g], others = unfinished[l][g] > 1;
        os_yields[vf_tid()] = 0;
        synchResched();
        if (u > 1 && others) vf_assert(turns[g] != x, "a fiber that yields does not let the other fibers of its posix thread run");
        if (u == 1 && n_of[l] > NCORES) vf_assert(os_yields[vf_tid()], "a thread that yields does not give way although there are more threads than cores");
        vf_assert(synchGetThreadId() == id, "a thread's id changes while it runs");
    }
    finished[l][id]++; unfinished[l][id / u]--; turns[id / u]++;
    return NULL;
}
void vf_thread(int t) {
    int l, i;
    if (t > 0) { while (created < t && !closed) ; if (created >= t) fn_of[t - 1](arg_of[t - 1]); return; }
    for (l = 0; l < LIVES; l++) {
        life = l; for (i = 0; i < n_of[l]; i++) unfinished[l][i] = u_of[l];
        synchStartThreadsN(n_of[l], body, u_of[l] == 1 ? SYNCH_DONT_USE_UTHREADS : u_of[l]);
        synchJoinThreadsN(n_of[l]);
        for (i = 0; i < n_of[l]; i++) vf_assert(finished[l][i] == 1, "the join returned before every thread had finished");
    }
    closed = 1;
}
void vf_final(void) {
    int l, i;
    for (l = 0; l < LIVES; l++) for (i = 0; i < n_of[l]; i++) vf_assert((ran[l][i] == 1) & (finished[l][i] == 1), "an id did not run exactly once");
    vf_assert(created == vf_nthreads - 1, "fewer threads are created than were asked for");
    vf_cover(1, "all operations complete");
}
