/* which of the object's NTHREADS thread ids the NT active threads use */
#ifndef NTHREADS
#define NTHREADS NT
#endif
#ifdef PIDS
static const int pid_of[4] = {PIDS};
#define PID(t) pid_of[t]
#else
#define PID(t) (t)
#endif
#ifndef BACKOFF
#define BACKOFF 1
#endif
#ifndef FIBERS
#define FIBERS 1
#endif
#if FIBERS > 1
void vf_fibers_start(void); void vf_fiber_begin(int t); void vf_fiber_end(int t);
#define FIBERS_START() vf_fibers_start()
#define FIBER_BEGIN(t) vf_fiber_begin(t)
#define FIBER_END(t) vf_fiber_end(t)
#else
#define FIBERS_START() ((void)0)
#define FIBER_BEGIN(t) ((void)0)
#define FIBER_END(t) ((void)0)
#endif
