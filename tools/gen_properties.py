#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the text is easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})
C = "libconcurrent/concurrent/"; I = "libconcurrent/includes/"; M = "libconcurrent/primitives/"

prop("C01", "Blocking combining objects apply each request exactly once, for its invoker",
 "For every blocking combining object (CC-Synch, DSM-Synch, H-Synch, Osci, Oyama, flat combining), each operation a thread submits is applied exactly once to the object, at some moment between its invocation and its return, with the argument and thread id that were submitted. No two applications ever overlap, and the value the submitting thread gets back is exactly the value its own application produced.",
 ["schedules", "inputs", "configurations"],
 "every interleaving of concurrent operations, every argument value, every number of threads, clusters and both node-allocation modes",
 "The benchmarks only compare a final operation counter after a random run; arguments, thread ids, return values and real-time order are never examined, and only the schedules the OS happens to produce are seen.",
 [C+"ccsynch.c", C+"dsmsynch.c", C+"hsynch.c", C+"osci.c", C+"oyama.c", C+"fc.c", I+"ccsynch.h", I+"dsmsynch.h", I+"hsynch.h", I+"osci.h", I+"oyama.h", I+"fc.h"],
 [("announce by swap on the tail and spin on own node", C+"ccsynch.c: CCSynchApplyOp"), ("same with per-thread node pair", C+"dsmsynch.c: DSMSynchApplyOp"), ("per-cluster combining under a global lock", C+"hsynch.c: HSynchApplyOp"), ("announce list + fat nodes", C+"osci.c: OsciApplyOp"), ("stack of pending requests + lock", C+"oyama.c: OyamaApplyOp"), ("publication list + lock", C+"fc.c: FCApplyOp")],
 observe=["the sequential function passed to the object", "return value of the apply call"])

prop("C02", "The wait-free universal construction (PSim) is linearizable",
 "Every operation applied through the wait-free universal construction takes effect exactly once, atomically, between its invocation and its return, and returns the value of a sequential execution of all operations in that order. This holds for any sequential function over the object state, any number of threads and any amount of helping.",
 ["schedules", "inputs"], "every interleaving, every argument, all thread counts up to the bound",
 "The only test sums a counter at the end; a lost, duplicated or stale result in a rare interleaving, and every wrong return value, goes unseen.",
 [C+"sim.c", I+"sim.h", I+"tvec.h"],
 [("announce by toggling own bit, copy state, apply all active requests, publish by CAS", C+"sim.c: SimApplyOp"), ("sequence-stamped state index", I+"sim.h: pointer_t")],
 observe=["return value of the apply call"])

prop("C03", "The lock-free universal object is linearizable",
 "Every operation applied through the lock-free object takes effect exactly once and atomically between its invocation and its return, and returns the result of applying its function to the object value immediately before it.",
 ["schedules", "inputs"], "every interleaving of concurrent operations and every argument value",
 "The benchmark for it is not part of the test run at all, and it never checks returned values.",
 [C+"lfuobject.c", I+"lfuobject.h"], [("read, compute, publish by CAS, retry", C+"lfuobject.c: LFUObjectApplyOp")])

prop("C04", "Blocking combining queues are linearizable FIFO queues",
 "For the queues built on CC-Synch, DSM-Synch, H-Synch, Osci and flat combining, every concurrent history is equivalent to a sequential FIFO queue that respects real-time order: dequeues return enqueued values in order, each value once, nothing is lost or invented. A dequeue reports the documented empty value only if the queue was empty at some moment during it.",
 ["schedules", "inputs", "histories"], "every interleaving and history of enqueues and dequeues, every value",
 "The tests only count leftover nodes after a balanced random run; the order, identity and value of elements are never compared.",
 [C+"ccqueue.c", C+"dsmqueue.c", C+"hqueue.c", C+"osciqueue.c", C+"fcqueue.c", I+"ccqueue.h", I+"dsmqueue.h", I+"hqueue.h", I+"osciqueue.h", I+"fcqueue.h"],
 [("two combining instances, one per end, around a sentinel list", C+"ccqueue.c"), ("same", C+"dsmqueue.c"), ("same", C+"hqueue.c"), ("same", C+"osciqueue.c"), ("same", C+"fcqueue.c")],
 observe=["dequeue return values"])

prop("C05", "The wait-free SimQueue is a linearizable FIFO queue",
 "Every concurrent history of the wait-free combining queue is equivalent to a sequential FIFO queue respecting real-time order; every dequeue returns the value removed on its own behalf, and the documented empty value only when the queue was empty at some moment during the call.",
 ["schedules", "inputs", "histories"], "every interleaving of enqueues and dequeues, every value and thread count within the bound",
 "The test counts leftover nodes; a value delivered to two dequeuers, or to the wrong one, leaves the count unchanged.",
 [C+"simqueue.c", I+"simqueue.h", I+"tvec.h"],
 [("separate enqueue and dequeue combining states published by CAS", C+"simqueue.c: SimQueueEnqueue/SimQueueDequeue"), ("linking of the enqueued batch", C+"simqueue.c: SimQueueEnqLinkQueue")])

prop("C06", "The lock-free MSQueue is a linearizable FIFO queue",
 "Every concurrent history of the lock-free Michael-Scott queue is equivalent to a sequential FIFO queue respecting real-time order: each enqueued value is dequeued at most once and in order, none is lost, and empty is reported only when the queue was empty at some moment during the call.",
 ["schedules", "inputs", "histories"], "every interleaving of enqueues and dequeues and every value",
 "This queue is not exercised by the test run at all.",
 [C+"msqueue.c", I+"msqueue.h"], [("two-step enqueue with tail helping", C+"msqueue.c: MSQueueEnqueue"), ("head CAS dequeue", C+"msqueue.c: MSQueueDequeue")])

prop("C07", "LCRQ is a linearizable FIFO queue across ring wrap-around and ring changes",
 "Every concurrent history of the ring-based queue is equivalent to a sequential FIFO queue respecting real-time order, including when indices wrap around a ring, when a ring is closed and a new one is linked, and when dequeuers overtake enqueuers. Empty is reported only when the queue was empty at some moment during the call.",
 ["schedules", "inputs", "histories"], "every interleaving of enqueues and dequeues, small and large rings, every value",
 "With the default ring size the tests practically never wrap, close or replace a ring, and they only count leftover elements.",
 [C+"lcrq.c", I+"lcrq.h"], [("cell transitions by double-width CAS with index and safe bit", C+"lcrq.c: LCRQEnqueue/LCRQDequeue"), ("ring closing and linking", C+"lcrq.c"), ("index repair after overtaking", C+"lcrq.c: fixState")])

prop("C08", "Blocking combining stacks are linearizable LIFO stacks",
 "For the stacks built on CC-Synch, DSM-Synch, H-Synch, Osci and flat combining, every concurrent history is equivalent to a sequential LIFO stack that respects real-time order: each pushed value is popped at most once, in last-in first-out order, and none is lost or invented. A pop reports the documented empty value only if the stack was empty at some moment during it.",
 ["schedules", "inputs", "histories"], "every interleaving and history of pushes and pops, every value",
 "The tests only count leftover nodes after a balanced random run; order and values are never compared.",
 [C+"ccstack.c", C+"dsmstack.c", C+"hstack.c", C+"oscistack.c", C+"fcstack.c", I+"ccstack.h", I+"dsmstack.h", I+"hstack.h", I+"oscistack.h", I+"fcstack.h"],
 [("push/pop multiplexed over one combining instance", C+"ccstack.c: serialPushPop"), ("same", C+"dsmstack.c"), ("same", C+"hstack.c"), ("same", C+"oscistack.c"), ("same", C+"fcstack.c")])

prop("C09", "The wait-free SimStack is a linearizable LIFO stack",
 "Every concurrent history of the wait-free combining stack is equivalent to a sequential LIFO stack respecting real-time order; every pop returns the value removed on its own behalf, and the documented empty value only when the stack was empty at some moment during the call. Nodes recycled or returned after a failed attempt never corrupt the stack.",
 ["schedules", "inputs", "histories"], "every interleaving of pushes and pops, every value and thread count within the bound",
 "The test counts leftover nodes only; interleavings in which a combiner loses its publication race and undoes its allocations are rare and their effect on values is not checked.",
 [C+"simstack.c", I+"simstack.h", I+"tvec.h", M+"pool.c"], [("combine pushes and pops on a copied state, publish by CAS, roll back allocations on failure", C+"simstack.c: SimStackApplyOp")])

prop("C10", "The lock-free stack is a linearizable LIFO stack",
 "Every concurrent history of the lock-free stack is equivalent to a sequential LIFO stack respecting real-time order: each pushed value is popped at most once, in order, none is lost, and empty is reported only when the stack was empty at some moment during the call.",
 ["schedules", "inputs", "histories"], "every interleaving of pushes and pops and every value",
 "This stack is not exercised by the test run at all.",
 [C+"lfstack.c", I+"lfstack.h"], [("CAS on the top pointer with retry", C+"lfstack.c: LFStackPush/LFStackPop")])

prop("C11", "Queue locks give mutual exclusion",
 "Between a thread's return from acquiring a CLH or MCS lock and its release of it, no other thread returns from acquiring the same lock. Everything written inside one critical section is visible to the next holder.",
 ["schedules", "configurations"], "every interleaving of acquire/release pairs and repeated acquisitions by the same thread",
 "The benchmark checks only a counter after a random run; a window of a few instructions around hand-over is not reachable by chance.",
 [C+"clh.c", C+"mcs.c", I+"clh.h", I+"mcs.h"], [("spin on predecessor's node, recycle it on release", C+"clh.c: CLHLock/CLHUnlock"), ("explicit successor link and hand-over", C+"mcs.c: MCSLock/MCSUnlock")])

prop("C12", "No waiter is left stuck: blocking objects and locks always hand over",
 "In every blocking combining object (including the queues and stacks built on them) and every lock, if all threads keep taking steps, every pending operation eventually returns. No interleaving reaches a state in which unfinished operations wait for each other for ever.",
 ["schedules", "configurations"], "every interleaving followed by a fair continuation",
 "A lost hand-over shows up as a hang only in a specific interleaving; a passing random run shows nothing about the others.",
 [C+"ccsynch.c", C+"dsmsynch.c", C+"hsynch.c", C+"osci.c", C+"oyama.c", C+"fc.c", C+"clh.c", C+"mcs.c"],
 [("combiner releases the next waiter when it stops", C+"ccsynch.c"), ("tail CAS / wait for successor link", C+"dsmsynch.c"), ("cluster tail and lock release", C+"hsynch.c"), ("lock hand-over", C+"clh.c, "+C+"mcs.c")])

prop("C13", "Wait-free operations finish in a bounded number of their own steps",
 "An operation on the wait-free universal construction, wait-free queue or wait-free stack finishes within a bound on its own steps that does not depend on the schedule: neither the speed nor a permanent stop of any other thread, at any point, can prevent it from returning.",
 ["schedules", "crash_points"], "every interleaving, including threads stopped for ever at any point",
 "Tests never stop a thread in the middle of an operation, so a hidden wait on another thread is invisible to them.",
 [C+"sim.c", C+"simqueue.c", C+"simstack.c"], [("at most two publication attempts, helped by whoever wins", C+"sim.c: SimApplyOp"), ("same", C+"simqueue.c"), ("same", C+"simstack.c")])

prop("C14", "The barrier releases nobody before everyone has arrived, and can be reused",
 "No thread returns from its k-th wait on a barrier before all participating threads have entered their k-th wait, for every round k and every number of threads; and once all have entered, all return. A last-leave waiter returns only after every participant has left, and afterwards the barrier can be set up and used again.",
 ["schedules", "configurations"], "every interleaving, consecutive rounds, every participant count",
 "Benchmarks use one barrier round per run and would not notice an early release.",
 [M+"barrier.c", I+"barrier.h"], [("arrive counter and sense/leave phases", M+"barrier.c")])

prop("C15", "The pool allocator hands out disjoint, usable, recyclable objects",
 "For every object size and every sequence of allocate, recycle, roll-back and destroy calls by a thread, each live object is a distinct region of at least the requested size, inside memory owned by the pool, overlapping no other live object and never changed by the allocator while live. Recycled objects and objects taken back by roll-back (of the most recently allocated objects, as documented) become available again, and destroy releases every block once. Object sizes that cannot be served are refused.",
 ["inputs", "histories", "configurations"], "every object size, every call sequence within the bound, including those that cross block boundaries",
 "There is no test of the pool; benchmarks use a few fixed sizes and never read objects back.",
 [M+"pool.c", I+"pool.h"], [("bump allocation inside linked blocks", M+"pool.c: synchAllocObj"), ("free list threaded through objects", M+"pool.c: synchRecycleObj"), ("undo of last allocations", M+"pool.c: synchRollback")])

prop("C16", "Hash tables behave as maps for every key and value",
 "For both hash tables, after any sequence of inserts, deletes and searches, a search for a key reports whether the key was inserted and not deleted since, the value stored with a present key is the one most recently inserted for it, no key is stored twice, and operations on one key never affect another. This holds for all 64-bit keys (including negative ones), any table size, and any bucket length.",
 ["inputs", "histories", "configurations"], "all keys, values, table sizes and operation sequences within the bound",
 "The benchmark uses small non-negative random keys, mostly distinct buckets, and checks no result.",
 [C+"clhhash.c", C+"dsmhash.c", I+"clhhash.h", I+"dsmhash.h"], [("bucket list update under a lock", C+"clhhash.c"), ("bucket list update through combining", C+"dsmhash.c")])

prop("C17", "Hash tables are linearizable under concurrent operations",
 "Concurrent inserts, deletes and searches on either hash table give results equivalent to some sequential order of map operations that respects real time, whether they fall in the same bucket or not.",
 ["schedules", "inputs", "histories"], "every interleaving of operations on same and different buckets",
 "The benchmark checks no results of concurrent operations.",
 [C+"clhhash.c", C+"dsmhash.c", C+"clh.c", C+"dsmsynch.c"], [("per-bucket lock", C+"clhhash.c"), ("per-bucket combining instance", C+"dsmhash.c")])

prop("C18", "Toggle-bit vectors implement per-thread bit operations for any size",
 "For any number of threads, the toggle-bit vector operations behave as operations on a set of thread indices: setting, clearing, negating, copying, and/or/xor, population count and first-set search give the mathematical result on exactly the intended bits. The shared atomic form changes exactly one thread's bit and never disturbs other bits.",
 ["inputs", "configurations", "schedules"], "every vector content, every index and every vector length within the bound",
 "Tests run with at most eight threads, i.e. one word; positions beyond the first word and all borrow/carry effects between bits are not exercised.",
 [I+"tvec.h"], [("word/offset decomposition", I+"tvec.h"), ("atomic toggle by adding +/- 2^k", I+"tvec.h, "+C+"sim.c")])

prop("C19", "Atomic primitives have their documented semantics on every operand",
 "Each atomic primitive (compare-and-swap of 32, 64 and 128 bits and of pointers, swap, fetch-and-add of 32 and 64 bits, bit-test-and-set) returns the documented result and leaves the documented memory contents, for every operand, touches no neighbouring memory, and is atomic with respect to concurrent primitives. The emulated variants selected by build options and the instrumented variants of debug builds behave identically.",
 ["inputs", "schedules", "configurations"], "all operand values, native/emulated/debug builds, every interleaving of two primitives",
 "The test suite is built in one configuration and never calls a primitive with chosen operands.",
 [M+"primitives.c", I+"primitives.h"], [("builtin or inline-assembly atomics", M+"primitives.c, "+I+"primitives.h")])

prop("C20", "The random generator stays in range and never degenerates",
 "For every seed, the per-thread random generator produces values within its documented range, range requests return values inside the requested interval, both ends included, and the generator state never reaches a value from which it stops changing.",
 ["inputs", "configurations"], "every seed and every generator state, every interval",
 "The benchmarks use the generator with a handful of seeds and do not look at its values.",
 [M+"fastrand.c", I+"fastrand.h"], [("linear congruential / shift state update", M+"fastrand.c")])

prop("C21", "Thread placement stays inside the machine",
 "For every placement policy, machine topology (cores, NUMA nodes, SMT or not) and thread id, the preferred core is an existing core and the preferred NUMA node is an existing node that contains that core. Out-of-range policies fall back to a supported one.",
 ["inputs", "configurations"], "every thread id, policy and topology within the bound",
 "Tests run on one machine with one topology and the default policy.",
 [M+"threadtools.c", I+"threadtools.h"], [("policy arithmetic", M+"threadtools.c: synchPreferredCoreOfThread, synchPreferredNumaNodeOfThread")])

prop("C22", "Memory helpers return usable, aligned memory or stop the program",
 "For every size and power-of-two alignment, the allocation helpers return a block of at least the requested size, aligned as requested and entirely inside newly allocated memory. When the system cannot supply memory the program stops with an error instead of returning an unusable pointer.",
 ["inputs", "fault_sequences"], "every size and alignment, every placement of the underlying block, allocation failure at any call",
 "Tests never make an allocation fail and use few sizes.",
 [M+"primitives.c", I+"primitives.h"], [("align-up inside an over-sized block", M+"primitives.c: synchGetAlignedMemory"), ("failure exit", M+"primitives.c: synchGetMemory")])

prop("C23", "Adaptive back-off stays inside its configured limits",
 "For every configuration and every sequence of contention outcomes, the back-off delay stays between its lower and upper limit, grows and shrinks only as documented, and the delay loop always terminates.",
 ["inputs", "histories"], "every limit pair and every sequence of increase, reduce and delay calls",
 "No test observes the delay values.",
 [M+"backoff.c", I+"backoff.h"], [("doubling/halving with clamping", M+"backoff.c")])

prop("C24", "Every storable value survives a round trip through every queue and stack",
 "For each queue and stack, every 64-bit value other than the documented reserved ones that is inserted into an empty or non-empty structure is returned unchanged by the matching removal, and is not mistaken for a marker, an operation code or an empty indication.",
 ["inputs", "configurations"], "all 2^64 values except the documented reserved ones, all queues and stacks",
 "Benchmarks insert thread ids or small random numbers and never compare what comes out.",
 [C+"ccqueue.c", C+"dsmqueue.c", C+"hqueue.c", C+"osciqueue.c", C+"fcqueue.c", C+"simqueue.c", C+"msqueue.c", C+"lcrq.c", C+"ccstack.c", C+"dsmstack.c", C+"hstack.c", C+"oscistack.c", C+"fcstack.c", C+"simstack.c", C+"lfstack.c", I+"queue-stack.h"],
 [("reserved values", I+"queue-stack.h"), ("operation code sharing the argument word", C+"ccstack.c"), ("empty-cell marker", C+"lcrq.c")])

prop("C25", "Cluster layout of the hierarchical object is valid for every configuration",
 "For every number of threads, number of clusters and machine topology, the hierarchical combining object assigns each thread to an existing cluster, gives each thread nodes of its own, and neither initialisation nor operations touch memory outside what was allocated for the object.",
 ["configurations", "schedules"], "every thread count, cluster count and topology within the bound",
 "Tests use one machine and two cluster settings; an index beyond the allocated cluster arrays silently hits neighbouring memory.",
 [C+"hsynch.c", I+"hsynch.h"], [("mapping of thread to cluster and node slot", C+"hsynch.c: HSynchStructInit, HSynchThreadStateInit")])

prop("C26", "Objects work and stay inside their own memory for every thread count",
 "Initialising any of the library's objects for n threads and having each of the n threads initialise its state and operate on the object gives every thread the correct results and accesses only memory allocated for that object or thread, for every n from one up to the bound, and with user-level threads enabled.",
 ["configurations", "inputs"], "every thread count within the bound, with and without user-level threads",
 "An off-by-one in sizing or indexing is masked by padding, huge-page rounding and the few thread counts tested.",
 [C+"sim.c", C+"simqueue.c", C+"simstack.c", C+"osci.c", C+"osciqueue.c", C+"oscistack.c", C+"fc.c", C+"oyama.c", C+"ccsynch.c", C+"dsmsynch.c", C+"clh.c", C+"mcs.c", C+"clhhash.c", C+"dsmhash.c", I+"tvec.h"],
 [("array sizing in the init functions", "libconcurrent/concurrent/*.c: *Init")])

prop("C27", "Operations of the lock-free objects never wait for another thread",
 "An operation on the lock-free universal object, queue or stack never waits for another thread to act: whatever point another thread has stopped at, the operation returns when running alone, and it repeats an attempt only if an operation of another thread took effect meanwhile.",
 ["schedules", "crash_points"], "every interleaving within the bound, including threads stopped for ever at any point",
 "Tests never stop a thread in the middle of an operation; a helping step that is missing or a hidden lock shows only then.",
 [C+"lfuobject.c", C+"msqueue.c", C+"lfstack.c"], [("help of a lagging tail", C+"msqueue.c"), ("retry on a failed compare-and-swap only", C+"lfuobject.c, "+C+"lfstack.c")])

prop("C28", "Starting threads and fibers runs every one of them exactly once",
 "Starting n threads, with or without several fibers per posix thread, runs the given function exactly once for every id from 0 to n-1; each sees its own thread id and posix thread id throughout, and the join returns only after all have finished. Fibers of a posix thread each run once with their argument, a yield hands control to another unfinished fiber, waiting for fibers returns only after all have finished, the slot of a finished fiber can be used again and its stack is released once. Threads can be started again afterwards, in the same or the other mode.",
 ["schedules", "configurations", "histories"], "every interleaving of the posix threads and every number of yields within the bound",
 "The tests start threads once per process, in one mode, with fibers that finish in the order of their creation.",
 [M+"threadtools.c", M+"uthreads.c", M+"barrier.c", I+"threadtools.h", I+"uthreads.h"], [("ids and leave barrier", M+"threadtools.c: synchStartThreadsN"), ("slots, yield and hand-over", M+"uthreads.c")])

prop("C29", "Benchmark arguments give exactly the documented configuration",
 "Parsing a command line of documented options, in any order, spelling and repetition, yields exactly the requested configuration, with the documented defaults for everything not given: the number of threads is the requested one times the fibers per thread, and the requested operations are divided among them. Asking for help ends the program successfully; an unknown option or a missing value ends it with a failure status.",
 ["inputs"], "every sequence of options within the bound, every documented spelling, a set of values covering 8, 16, 32 and 64 bit widths",
 "The tests pass the same two or three short options; a long spelling, a truncated value or an interplay of options goes unnoticed.",
 [M+"bench_args.c", I+"bench_args.h"], [("option table and switch", M+"bench_args.c: synchParseArguments")])

prop("C30", "Statistics of DEBUG builds count every atomic instruction once",
 "In a DEBUG build the reported totals of compare-and-swaps, failed compare-and-swaps and swaps equal the numbers the threads executed between starting and stopping their counters, for every schedule and also when counting is started again; fetch-and-adds are counted likewise, apart from the few the library itself executes while adding up.",
 ["schedules", "histories"], "every sequence of primitives and every interleaving within the bound",
 "The tests print the statistics and check none of them; a lost update or a missing count only skews published measurements.",
 [M+"stats.c", M+"primitives.c"], [("per-thread counters and totals", M+"stats.c"), ("counting in the primitives", M+"primitives.c")])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
