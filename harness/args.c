/* Command-line arguments of the benchmarks: for every sequence of K options (any of the documented spellings, any of the values
   below, in any order, with repetitions) the configuration handed to the benchmark is the documented one. getopt_long is
   expanded to a small model of GNU getopt (exact long names, unique abbreviations, attached and separate values). */
#include "vf.h"
#include <stddef.h>
#include <getopt.h>
#include <config.h>
#include <bench_args.h>
#include <hsynch.h>
#include <threadtools.h>
#ifndef FIRST
#define FIRST -1
#endif
#ifndef K
#define K 2
#endif
const int vf_nthreads = 1;
char *optarg; int optind = 1, opterr = 1, optopt;
static int next, expect_exit, err_exit;
static int same(const char *x, const char *y) { while (*x && *x == *y) { x++; y++; } return *x == *y; }
static int prefix(const char *x, const char *y) { while (*x && *x == *y) { x++; y++; } return *x == 0; }
static unsigned long num(const char *s) { unsigned long v = 0; while (*s >= '0' && *s <= '9') { v = v * 10 + (unsigned long)(*s - '0'); s++; } return v; }
static char *numend(const char *s) { while (*s >= '0' && *s <= '9') s++; return (char *)s; }
int vf_ov_atoi(const char *s) { return (int)num(s); }
long vf_ov_atol(const char *s) { return (long)num(s); }
long long vf_ov_atoll(const char *s) { return (long long)num(s); }
long vf_ov_strtol(const char *s, char **e, int b) { (void)b; if (e) *e = numend(s); return (long)num(s); }
unsigned long vf_ov_strtoul(const char *s, char **e, int b) { (void)b; if (e) *e = numend(s); return num(s); }
long long vf_ov_strtoll(const char *s, char **e, int b) { (void)b; if (e) *e = numend(s); return (long long)num(s); }
unsigned long long vf_ov_strtoull(const char *s, char **e, int b) { (void)b; if (e) *e = numend(s); return num(s); }
long vf_ov___isoc23_strtol(const char *s, char **e, int b) { return vf_ov_strtol(s, e, b); }
unsigned long vf_ov___isoc23_strtoul(const char *s, char **e, int b) { return vf_ov_strtoul(s, e, b); }
long long vf_ov___isoc23_strtoll(const char *s, char **e, int b) { return vf_ov_strtoll(s, e, b); }
unsigned long long vf_ov___isoc23_strtoull(const char *s, char **e, int b) { return vf_ov_strtoull(s, e, b); }
static int isdone(void) { return next; }
int vf_ov_getopt_long(int argc, char *const argv[], const char *sopts, const struct option *lopts, int *li) {
    const char *s; int quiet = sopts[0] == ':', i = next, has = 0, val = '?';
    const int *flag = NULL;
    optarg = NULL; if (i == 0) i = 1;
    if (i >= argc) { optind = i; return -1; }
    s = argv[i]; i++;
    if (s[0] != '-' || s[1] == 0) { next = optind = argc; return -1; }
    if (s[1] == '-') {
        int k, hit = -1, exact = 0, hits = 0;
        for (k = 0; lopts[k].name; k++) {
            if (same(s + 2, lopts[k].name)) { hit = k; exact = 1; }
            else if (!exact && prefix(s + 2, lopts[k].name)) { if (hit < 0) hit = k; hits++; }
        }
        if (hit < 0 || (!exact && hits != 1)) { next = optind = i; return '?'; }
        if (li) *li = hit;
        has = lopts[hit].has_arg; val = lopts[hit].val; flag = lopts[hit].flag;
    } else {
        const char *p = sopts; if (*p == ':') p++;
        while (*p && *p != s[1]) p++;
        if (*p == 0 || s[1] == ':') { next = optind = i; optopt = s[1]; return '?'; }
        has = p[1] == ':' ? 1 : 0; val = s[1];
    }
    if (has == 1) { if (i >= argc) { next = optind = i; optopt = val; return quiet ? ':' : '?'; } optarg = argv[i]; i++; }
    next = optind = i;
    if (flag) { *(int *)flag = val; return 0; }
    return val;
}
int vf_ov_getopt(int argc, char *const argv[], const char *sopts) { static const struct option none[1]; return vf_ov_getopt_long(argc, argv, sopts, none, NULL); }
static int printed;
int vf_ov_fprintf(void *f, const char *s, ...) { (void)f; (void)s; printed++; return 1; }
int vf_ov_printf(const char *s, ...) { (void)s; printed++; return 1; }
int vf_ov_puts(const char *s) { (void)s; printed++; return 1; }
int vf_ov_fputs(const char *s, void *f) { (void)s; (void)f; printed++; return 1; }
unsigned long vf_ov_fwrite(const void *s, unsigned long n, unsigned long m, void *f) { (void)s; (void)n; (void)f; printed++; return m; }
void vf_ov_exit(int c) {
    vf_assert(printed > 0, "the program stops without explaining the arguments");
    vf_assert(expect_exit, "the program stops on documented arguments");
    if (err_exit) vf_assert(c != 0, "wrong arguments are not reported in the exit status"); else vf_assert(c == 0, "asking for help is reported as a failure");
    vf_assume(0); for (;;) ;
}
/* t f r w b l n */
static char *const NAME[7][4] = {{"-t", "--threads", "-t", "--threads"}, {"-f", "--fibers", "-f", "--fibers"}, {"-r", "--runs", "-r", "--runs"}, {"-w", "--max_work", "-w", "--max_work"}, {"-b", "--backoff_high", "--backoff", "-b"}, {"-l", "--backoff_low", "-l", "--backoff_low"}, {"-n", "--numa_nodes", "-n", "--numa_nodes"}};
static char *const VAL[8] = {"1", "2", "3", "64", "260", "4096", "65535", "6000000000"};
static const unsigned long NUM[8] = {1, 2, 3, 64, 260, 4096, 65535, 6000000000UL};
void vf_thread(int t) {
    char *argv[2 * K + 3]; int argc = 1, i, n = vf_split(vf_choose(1, K + 1)); unsigned long f[7]; int set[7]; SynchBenchArgs a; unsigned long nth, runs; (void)t; (void)isdone;
    argv[0] = "bench";
    for (i = 0; i < 7; i++) { f[i] = 0; set[i] = 0; }
    for (i = 0; i < n; i++) {
        int k = FIRST >= 0 && i == 0 ? FIRST : vf_split(vf_choose(10 + i, 7)), sp = vf_split(vf_choose(20 + i, 3)), v = vf_choose(30 + i, 8); if (K == 1) v = vf_split(v);
        vf_assume((k == 4 || sp < 2) & (k == 2 || v < (k < 2 ? 6 : 7)));
        argv[argc++] = NAME[k][sp]; argv[argc++] = VAL[v]; f[k] = NUM[v]; set[k] = 1;
    }
#ifdef WRONG /* help, an unknown option, a missing value, at the end */
    {
        int w = vf_split(vf_choose(2, 6)); expect_exit = 1; err_exit = w > 1;
        argv[argc++] = w == 0 ? "-h" : w == 1 ? "--help" : w == 2 ? "-z" : w == 3 ? "--nosuchoption" : w == 4 ? "-t" : "--runs";
    }
#endif
    argv[argc] = NULL;
    a.runs = a.total_runs = 77; a.nthreads = a.fibers_per_thread = a.max_work = a.numa_nodes = 77; a.backoff_low = a.backoff_high = 77;
    synchParseArguments(&a, argc, argv);
#ifdef WRONG
    vf_assert(0, "help or wrong arguments do not stop the program");
#endif
    nth = (set[0] ? f[0] : synchGetNCores()) * (set[1] && f[1] != SYNCH_DONT_USE_UTHREADS ? f[1] : 1); runs = set[2] ? f[2] : SYNCH_RUNS;
    vf_assert(a.nthreads == nth, "the number of threads is not threads times fibers");
    vf_assert(a.fibers_per_thread == (set[1] ? f[1] : SYNCH_DONT_USE_UTHREADS), "the number of fibers is not the requested one");
    vf_assert(a.total_runs == runs, "the number of operations is not the requested one");
    vf_assert(a.runs == runs / nth, "the operations are not divided among the threads");
    vf_assert(a.max_work == (set[3] ? f[3] : SYNCH_MAX_WORK), "the local work is not the requested one");
    vf_assert(a.backoff_high == (set[4] ? f[4] : 0), "the upper back-off bound is not the requested one");
    vf_assert(a.backoff_low == (set[5] ? f[5] : 0), "the lower back-off bound is not the requested one");
    vf_assert(a.numa_nodes == (set[6] ? f[6] : HSYNCH_DEFAULT_NUMA_POLICY), "the number of NUMA nodes is not the requested one");
    vf_cover(n == K, "all options are used");
}
