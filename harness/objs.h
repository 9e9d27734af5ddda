/* the queues and stacks behind one interface: init(), tinit(t), INS(t, value), REM(t); STACK is defined for stacks */
#ifndef NSTATES
#define NSTATES NT
#endif
#if defined(OBJ_CCQ)
#include <ccqueue.h>
static CCQueueStruct obj CACHE_ALIGN; static CCQueueThreadState th[NSTATES];
static void init(void) { CCQueueStructInit(&obj, NTHREADS); }
static void tinit(int t) { CCQueueThreadStateInit(&obj, &th[t], PID(t)); }
#define INS(t, a) CCQueueApplyEnqueue(&obj, &th[t], a, PID(t))
#define REM(t) CCQueueApplyDequeue(&obj, &th[t], PID(t))
#elif defined(OBJ_DSMQ)
#include <dsmqueue.h>
static DSMQueueStruct obj CACHE_ALIGN; static DSMQueueThreadState th[NSTATES];
static void init(void) { DSMQueueStructInit(&obj, NTHREADS); }
static void tinit(int t) { DSMQueueThreadStateInit(&obj, &th[t], PID(t)); }
#define INS(t, a) DSMQueueApplyEnqueue(&obj, &th[t], a, PID(t))
#define REM(t) DSMQueueApplyDequeue(&obj, &th[t], PID(t))
#elif defined(OBJ_HQ)
#include <hqueue.h>
static HQueueStruct obj CACHE_ALIGN; static HQueueThreadState th[NSTATES];
static void init(void) { HQueueInit(&obj, NTHREADS, REGIONS); }
static void tinit(int t) { HQueueThreadStateInit(&obj, &th[t], PID(t)); }
#define INS(t, a) HQueueApplyEnqueue(&obj, &th[t], a, PID(t))
#define REM(t) HQueueApplyDequeue(&obj, &th[t], PID(t))
#elif defined(OBJ_OSCIQ)
#include <osciqueue.h>
static OsciQueueStruct obj CACHE_ALIGN; static OsciQueueThreadState th[NSTATES];
static void init(void) { OsciQueueInit(&obj, NTHREADS, FIBERS); }
static void tinit(int t) { OsciQueueThreadStateInit(&obj, &th[t], PID(t)); }
#define INS(t, a) OsciQueueApplyEnqueue(&obj, &th[t], a, PID(t))
#define REM(t) OsciQueueApplyDequeue(&obj, &th[t], PID(t))
#elif defined(OBJ_FCQ)
#include <fcqueue.h>
static FCQueueStruct obj CACHE_ALIGN; static FCQueueThreadState th[NSTATES];
static void init(void) { FCQueueStructInit(&obj, NTHREADS); }
static void tinit(int t) { FCQueueThreadStateInit(&obj, &th[t], PID(t)); }
#define INS(t, a) FCQueueApplyEnqueue(&obj, &th[t], a, PID(t))
#define REM(t) FCQueueApplyDequeue(&obj, &th[t], PID(t))
#elif defined(OBJ_SIMQ)
#include <simqueue.h>
static SimQueueStruct obj CACHE_ALIGN; static SimQueueThreadState th[NSTATES];
static void init(void) { SimQueueStructInit(&obj, NTHREADS, BACKOFF); }
static void tinit(int t) { SimQueueThreadStateInit(&obj, &th[t], PID(t)); }
#define INS(t, a) SimQueueEnqueue(&obj, &th[t], a, PID(t))
#define REM(t) SimQueueDequeue(&obj, &th[t], PID(t))
#elif defined(OBJ_MSQ)
#include <msqueue.h>
static MSQueueStruct obj CACHE_ALIGN; static MSQueueThreadState th[NSTATES];
static void init(void) { MSQueueInit(&obj); }
static void tinit(int t) { MSQueueThreadStateInit(&th[t], 1, 1); }
#define INS(t, a) MSQueueEnqueue(&obj, &th[t], a)
#define REM(t) MSQueueDequeue(&obj, &th[t])
#elif defined(OBJ_LCRQ)
#include <lcrq.h>
static LCRQStruct obj CACHE_ALIGN; static LCRQThreadState th[NSTATES];
static void init(void) { LCRQInit(&obj, NTHREADS); }
static void tinit(int t) { LCRQThreadStateInit(&th[t], PID(t)); }
#define INS(t, a) LCRQEnqueue(&obj, &th[t], a, PID(t))
#define REM(t) LCRQDequeue(&obj, &th[t], PID(t))
#elif defined(OBJ_CCS)
#include <ccstack.h>
#define STACK 1
static CCStackStruct obj CACHE_ALIGN; static CCStackThreadState th[NSTATES];
static void init(void) { CCStackInit(&obj, NTHREADS); }
static void tinit(int t) { CCStackThreadStateInit(&obj, &th[t], PID(t)); }
#define INS(t, a) CCStackPush(&obj, &th[t], a, PID(t))
#define REM(t) CCStackPop(&obj, &th[t], PID(t))
#elif defined(OBJ_DSMS)
#include <dsmstack.h>
#define STACK 1
static DSMStackStruct obj CACHE_ALIGN; static DSMStackThreadState th[NSTATES];
static void init(void) { DSMSStackInit(&obj, NTHREADS); }
static void tinit(int t) { DSMStackThreadStateInit(&obj, &th[t], PID(t)); }
#define INS(t, a) DSMStackPush(&obj, &th[t], a, PID(t))
#define REM(t) DSMStackPop(&obj, &th[t], PID(t))
#elif defined(OBJ_HS)
#include <hstack.h>
#define STACK 1
static HStackStruct obj CACHE_ALIGN; static HStackThreadState th[NSTATES];
static void init(void) { HStackInit(&obj, NTHREADS, REGIONS); }
static void tinit(int t) { HStackThreadStateInit(&obj, &th[t], PID(t)); }
#define INS(t, a) HStackPush(&obj, &th[t], a, PID(t))
#define REM(t) HStackPop(&obj, &th[t], PID(t))
#elif defined(OBJ_OSCIS)
#include <oscistack.h>
#define STACK 1
static OsciStackStruct obj CACHE_ALIGN; static OsciStackThreadState th[NSTATES];
static void init(void) { OsciStackInit(&obj, NTHREADS, FIBERS); }
static void tinit(int t) { OsciStackThreadStateInit(&obj, &th[t], PID(t)); }
#define INS(t, a) OsciStackApplyPush(&obj, &th[t], a, PID(t))
#define REM(t) OsciStackApplyPop(&obj, &th[t], PID(t))
#elif defined(OBJ_FCS)
#include <fcstack.h>
#define STACK 1
static FCStackStruct obj CACHE_ALIGN; static FCStackThreadState th[NSTATES];
static void init(void) { FCStackInit(&obj, NTHREADS); }
static void tinit(int t) { FCStackThreadStateInit(&obj, &th[t], PID(t)); }
#define INS(t, a) FCStackPush(&obj, &th[t], a, PID(t))
#define REM(t) FCStackPop(&obj, &th[t], PID(t))
#elif defined(OBJ_SIMS)
#include <simstack.h>
#define STACK 1
static SimStackStruct obj CACHE_ALIGN; static SimStackThreadState th[NSTATES];
static void init(void) { SimStackStructInit(&obj, NTHREADS, BACKOFF); }
static void tinit(int t) { SimStackThreadStateInit(&th[t], NTHREADS, PID(t)); }
#define INS(t, a) SimStackPush(&obj, &th[t], a, PID(t))
#define REM(t) SimStackPop(&obj, &th[t], PID(t))
#elif defined(OBJ_LFS)
#include <lfstack.h>
#define STACK 1
static LFStackStruct obj CACHE_ALIGN; static LFStackThreadState th[NSTATES];
static void init(void) { LFStackInit(&obj); }
static void tinit(int t) { LFStackThreadStateInit(&th[t], 1, 1); }
#define INS(t, a) LFStackPush(&obj, &th[t], a)
#define REM(t) LFStackPop(&obj, &th[t])
#endif
