/* Harness API of the CBMC scenarios; natively (-DREPLAY) the inputs come from the command line. */
#ifndef CB_H
#define CB_H
#include <stdint.h>
#ifdef REPLAY
#include <stdio.h>
#include <stdlib.h>
static uint64_t cb_val[64];
#define CB_ARGS(c, v) do { int i_; for (i_ = 1; i_ < (c) && i_ < 65; i_++) cb_val[i_ - 1] = strtoull((v)[i_], 0, 10); } while (0)
#define IN(k) cb_val[k]
#define CB_ASSUME(c) do { if (!(c)) { printf("REPLAY: assumption does not hold\n"); exit(13); } } while (0)
#define CB_ASSERT(c, m) do { if (!(c)) { printf("REPLAY: VIOLATED: %s\n", m); exit(10); } } while (0)
#else
uint64_t nondet_u64(void);
static uint64_t cb_in[64];
#define CB_ARGS(c, v) ((void)0)
#define IN(k) (cb_in[k] = nondet_u64())
#define CB_ASSUME(c) __CPROVER_assume(c)
#define CB_ASSERT(c, m) __CPROVER_assert(c, m)
#endif
#endif
