/* Native replay: runs the instrumented real code under the schedule the solver chose.
   usage: prog schedule-file ; exit 0: no violation, 10: assertion violated, 11: hang reproduced, 12: crash, 13: infeasible assumption.
   With a second argument "wait": after the schedule every other thread stops for good and the one that ran last goes on
   alone; 14: it never finishes, 15: it had not finished when the schedule ended (more own steps than the bound), but does alone */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
#include <pthread.h>
#include <signal.h>
#include <unistd.h>
#include <sys/mman.h>
extern const int vf_nthreads;
void vf_setup(void) __attribute__((weak)); void vf_thread(int); void vf_final(void) __attribute__((weak)); void vf_always(void) __attribute__((weak));
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER; static pthread_cond_t cv = PTHREAD_COND_INITIALIZER;
static int segT[100000]; static unsigned long segN[100000]; static int nseg, cur; static unsigned long used;
static int done[64], running; static uint64_t nd[4096]; static int ch[4096];
static __thread int tid = -1; static int phase; static unsigned long extra, extraTurn; static int spinOnly = -1;
static int waitMode, alone = -1; static unsigned long aloneSteps;
static int alldone(void) { int i; for (i = 0; i < vf_nthreads; i++) if (!done[i]) return 0; return 1; }
static void hang(void) { printf("REPLAY: HANG: threads still unfinished after a long fair continuation:"); { int i; for (i = 0; i < vf_nthreads; i++) if (!done[i]) printf(" %d", i); } printf("\n"); fflush(stdout); _exit(11); }
static void advance(void) { /* mu held: choose next segment; skip finished threads */
    int last = running;
    for (;;) {
        if (cur < nseg) { cur++; used = 0; }
        if (cur < nseg) { if (done[segT[cur]] || segN[cur] == 0) continue; running = segT[cur]; break; }
        if (waitMode) {
            if (last >= 0 && done[last]) { printf(alone >= 0 ? "REPLAY: WAIT: the operation was unfinished when the schedule ended and finished alone after %lu more steps\n" : "REPLAY: completed within the schedule\n", aloneSteps); fflush(stdout); _exit(alone >= 0 ? 15 : 0); }
            alone = running = last; break;
        }
        if (alldone()) { running = -2; break; }
        /* fair continuation after the schedule */
        { int i, t = running < 0 ? 0 : running; for (i = 1; i <= vf_nthreads; i++) { int c = (t + i) % vf_nthreads; if (!done[c]) { running = c; break; } } }
        extraTurn = 0; break;
    }
    pthread_cond_broadcast(&cv);
}
void vf_yield(void) {
    if (phase != 1 || tid < 0) return;
    pthread_mutex_lock(&mu);
    for (;;) {
        while (running != tid) pthread_cond_wait(&cv, &mu);
        if (cur < nseg) { if (used < segN[cur]) { used++; break; } advance(); }
        else if (alone >= 0) { if (++aloneSteps > 400000) { printf("REPLAY: WAIT: thread %d never finishes while the others stand still\n", tid); fflush(stdout); _exit(14); } break; }
        else { if (++extra > 400000) hang(); if (++extraTurn > 500) { advance(); continue; } break; }
    }
    pthread_mutex_unlock(&mu);
}
uint64_t vf_nondet(int id) { return nd[id]; }
int vf_choose(int id, int n) { (void)n; return ch[id]; }
void vf_assume(int c) { if (!c) { printf("REPLAY: assumption does not hold\n"); fflush(stdout); _exit(13); } }
void vf_assert(int c, const char *m) { if (!c) { printf("REPLAY: VIOLATED: %s\n", m); fflush(stdout); _exit(10); } }
void vf_cover(int c, const char *m) { (void)c; (void)m; }
int vf_now(void) { return cur; }
int vf_op_begin(void) { vf_yield(); return cur; }
int vf_tid(void) { return tid >= 0 ? tid : 0; }
int vf_done(int t) { return done[t]; }
int vf_split(int v) { return v; }
void vf_atomic(int on) { (void)on; /* the schedule already respects it */ }
static void *body(void *a) {
    tid = (int)(long)a;
    pthread_mutex_lock(&mu); while (running != tid) pthread_cond_wait(&cv, &mu); pthread_mutex_unlock(&mu);
    vf_thread(tid);
    pthread_mutex_lock(&mu); while (running != tid) pthread_cond_wait(&cv, &mu); done[tid] = 1; if (cur < nseg || !alldone() || alone >= 0) advance(); else { running = -2; pthread_cond_broadcast(&cv); } pthread_mutex_unlock(&mu);
    return NULL;
}
static void crash(int s) { char b[80]; int n = snprintf(b, 80, "REPLAY: CRASH: signal %d\n", s); (void)!write(1, b, n); _exit(12); }
/* environment stand-ins */
static struct { void *p; size_t n; } blk[65536]; static int nblk;
void *numa_alloc_local(size_t n) { void *p; if (posix_memalign(&p, 4096, n ? n : 1)) abort(); memset(p, 0, n); if (nblk < 65536) { blk[nblk].p = p; blk[nblk++].n = n; } return p; }
void *numa_alloc(size_t n) { return numa_alloc_local(n); }
void numa_free(void *p, size_t n) {
    int i;
    for (i = 0; i < nblk; i++) if (blk[i].p == p) { if ((blk[i].n + 4095) / 4096 != (n + 4095) / 4096) vf_assert(0, "a block is released with another size than it was allocated with"); blk[i].p = NULL; break; }
    free(p);
}
__attribute__((weak)) int numa_num_task_nodes(void) { return 1; }
__attribute__((weak)) int numa_node_of_cpu(int c) { (void)c; return 0; }
__attribute__((weak)) int numa_available(void) { return 0; }
int main(int argc, char **argv) {
    FILE *f = fopen(argv[1], "r"); char k[32]; pthread_t th[64]; int i; waitMode = argc > 2 && !strcmp(argv[2], "wait");
    if (!f) return 3;
    while (fscanf(f, "%31s", k) == 1) {
        if (!strcmp(k, "threads")) { int x; if (fscanf(f, "%d", &x) != 1) return 3; }
        else if (!strcmp(k, "nd")) { int id; unsigned long v; if (fscanf(f, "%d %lu", &id, &v) != 2) return 3; nd[id] = v; }
        else if (!strcmp(k, "choose")) { int id, v; if (fscanf(f, "%d %d", &id, &v) != 2) return 3; ch[id] = v; }
        else if (!strcmp(k, "seg")) { if (fscanf(f, "%d %lu", &segT[nseg], &segN[nseg]) != 2) return 3; nseg++; }
        else return 3;
    }
    signal(SIGSEGV, crash); signal(SIGBUS, crash); signal(SIGABRT, crash); signal(SIGFPE, crash); signal(SIGILL, crash);
    alarm(60); signal(SIGALRM, crash);
    if (vf_setup) vf_setup();
    phase = 1; cur = -1; running = -1; pthread_mutex_lock(&mu); advance(); pthread_mutex_unlock(&mu);
    for (i = 1; i < vf_nthreads; i++) pthread_create(&th[i], NULL, body, (void *)(long)i);
    body((void *)0);  /* the main thread is thread 0: set-up and final phase share its thread-local data */
    for (i = 1; i < vf_nthreads; i++) pthread_join(th[i], NULL);
    tid = -1;
    phase = 2;
    if (vf_final) vf_final();
    if (vf_always) vf_always();
    printf("REPLAY: completed without violation\n");
    return 0;
}
