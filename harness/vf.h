/* Harness API. In the symbolic engine these are built in; natively replay_rt.c defines them. */
#ifndef VF_H
#define VF_H
#include <stdint.h>
uint64_t vf_nondet(int id);              /* an arbitrary 64-bit value, the same for the same id */
int vf_choose(int id, int n);            /* an arbitrary value in 0..n-1, the same for the same id */
void vf_assume(int c);
void vf_assert(int c, const char *msg);
void vf_cover(int c, const char *msg);   /* reachability witness */
int vf_op_begin(void);                   /* preemption point; returns the current time (segment number) */
int vf_now(void);
int vf_tid(void);
int vf_done(int t);
int vf_split(int v);                      /* same value; the analysis continues separately for each value */
void vf_atomic(int on);                  /* no preemption between vf_atomic(1) and vf_atomic(0) */
#endif
