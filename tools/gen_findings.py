#!/usr/bin/env python3
"""Writes known_findings.json: defects of the pinned commit that were repaired.  An entry "known" would be a defect that is
recorded and not repaired (check.py matches it by property, scenario and obligation); there is none.  "fixed" suppresses nothing."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = [("C01", "8687cb8", "FC: a combiner applied every request with its own thread id instead of the announcing thread's (any schedule in which one thread serves another)"),
 ("C08", "1b8d09c", "CC/DSM/H/Osci/FC stacks: pushing INT_MIN was taken for a pop request (push(INT_MIN); pop() returned an older element)"),
 ("C24", "1b8d09c", "CC/DSM/H/Osci/FC stacks: the value INT_MIN did not round-trip"),
 ("C08", "9b96ea5", "FCStackPop returned 0 instead of EMPTY_STACK on an empty stack"),
 ("C04", "6f85708", "FCQueue stored the thread id instead of the value and returned wrong values (enqueue(v); dequeue())"),
 ("C05", "00c855b", "SimQueue: copies of the dequeue record shared one array of return values, so a helper that failed its CAS overwrote published results"),
 ("C26", "5ecd975", "OsciInit: number of groups computed from the requested number of fibers, so too few groups when it is reduced to nthreads (out of bounds access)"),
 ("C26", "1dcf8e4", "OsciQueue/OsciStack: one pool per group instead of one per fiber (out of bounds access for fibers > 1)"),
 ("C07", "5c0a11b", "LCRQ: an enqueued -1 was taken for an empty cell and lost (enqueue(-1); dequeue())"),
 ("C24", "5c0a11b", "LCRQ: the value -1 did not round-trip"),
 ("C16", "0dd1218", "CLHHash/DSMHash: deleting the second key of a bucket also dropped the first (insert a; insert b; delete a)"),
 ("C16", "a730a50", "CLHHash/DSMHash: negative keys index the table out of bounds (insert(-1))"),
 ("C16", "34ffc76", "CLHHash/DSMHash: inserting an existing key did not update its value (insert(k,v); insert(k,w))"),
 ("C15", "aee1857", "pool: a newly allocated block was not linked, so a roll-back across it never reused it and destroy did not free it"),
 ("C22", "5111004", "synchGetAlignedMemory: the result could not be released with synchFreeMemory and a failing posix_memalign was not detected"),
 ("C25", "2e003b2", "H-Synch: a thread could be placed on a cluster that does not exist (nthreads not a multiple of the cluster size)"),
 ("C25", "b25f9c6", "H-Synch: cluster arrays too small for the threads that may join it"),
 ("C14", "1f2ad5c", "barrier: synchBarrierLastLeave could return before another participant had left, so the barrier could not be reused or freed safely"),
 ("C21", "6b8d1fa", "thread placement: division by zero on a machine with one core, and a NUMA node that does not exist or does not contain the preferred core (odd core counts, interleaved numbering)"),
 ("C28", "425989b", "synchStartThreadsN with fibers after a start without them: synchResched never yields to another fiber (mode of the earlier start kept)"),
 ("C28", "1b481fc", "fibers: only the first page of a finished fiber's stack was released"),
 ("C28", "d4872bc", "fibers: after a fiber finished, a newly spawned fiber could overwrite the slot of a fiber still running, which was lost (spawn A, B; A finishes; spawn C), and the wait never returned"),
 ("C29", "e76357b", "benchmark arguments: the documented option --backoff was rejected as an ambiguous abbreviation (--backoff 10)"),
 ("C28", "ffdb650", "fibers: the stack of a finished fiber was never released when the next fiber to run had not run before (spawn A, B without yields)")]
json.dump([{"status": "fixed", "property": p, "commit": c, "what": w, "line": "fixed: property=%s %s %s" % (p, c, w)} for p, c, w in F], open(os.path.join(H, "known_findings.json"), "w"), indent=1)
