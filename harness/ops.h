/* operation counts per thread: -DNT, -DOPS (all threads) or -DOPS0.. (single threads) */
#ifndef NT
#define NT 2
#endif
#ifndef OPS
#define OPS 1
#endif
#ifndef OPS0
#define OPS0 OPS
#endif
#ifndef OPS1
#define OPS1 OPS
#endif
#ifndef OPS2
#define OPS2 OPS
#endif
#ifndef OPS3
#define OPS3 OPS
#endif
#define NOPS (OPS0 + (NT > 1 ? OPS1 : 0) + (NT > 2 ? OPS2 : 0) + (NT > 3 ? OPS3 : 0))
static const int ops_of[4] = {OPS0, OPS1, OPS2, OPS3};
static const int base_of[4] = {0, OPS0, OPS0 + OPS1, OPS0 + OPS1 + OPS2};
#define opsOf(t) ops_of[t]
#define baseOf(t) base_of[t]
static int t_inv[NOPS + 1], t_res[NOPS + 1];
/* -DATOMIC_FROM=n: the operations of threads n and up run without preemption (a smaller set of schedules) */
#ifdef ATOMIC_FROM
#define ATOMIC_ON(t) do { if ((t) >= ATOMIC_FROM) vf_atomic(1); } while (0)
#define ATOMIC_OFF(t) do { if ((t) >= ATOMIC_FROM) vf_atomic(0); } while (0)
#else
#define ATOMIC_ON(t) (void)0
#define ATOMIC_OFF(t) (void)0
#endif
