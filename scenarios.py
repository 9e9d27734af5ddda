"""Scenario table: which harness, defines and bounds decide which property."""
import itertools
ASSUMPTIONS = [
    "sequentially consistent memory; at most rounds-1 preemptions of each thread (every context switch at a thread that waits or has finished is free)",
    "retry loops are followed up to the stated number of iterations; loops in which longer paths exist are listed under retry_loops_cut",
    "malloc never hands out the same address twice in one execution (the library's own pools recycle, and that is encoded)",
    "stand-ins for the environment: processor detection (MODEL), number of cores, NUMA library, processor yield, contention delay and its random choice",
    "trusted: clang 18's IR for the sources, the engine's encoding (self-tested against constant folding; counterexamples and sample executions are replayed natively), CaDiCaL",
]
PROP_ASSUMPTIONS = {
    "C02": ["the sequential function has no side effect outside the object's state, as the interface demands"],
    "C12": ["a fair scheduler: a thread whose condition has become true runs on"],
    "C13": ["the bound on steps is decided with an adversary of up to 6 completed operations; other threads never block inside the operation by construction of the obligation"],
    "C15": ["callers respect the pool's contract: objects are recycled once, roll-back only of the latest allocations"],
    "C20": ["the interval function is decided by CBMC (IEEE double precision)"],
    "C21": ["the topology reported by the NUMA library is consistent: every core of the machine lies on an existing node"],
    "C28": ["posix threads, contexts and affinity calls behave as documented (modelled); n is a multiple of the fibers per posix thread"],
    "C29": ["getopt_long and the number conversions behave as documented (modelled: exact long names, unique abbreviations, separate values); a positive number of threads"],
    "C30": ["DEBUG build with native fetch-and-add and swap"],
}
ONLY = {"C12": "deadlock,wait", "C13": "deadlock,wait", "C27": "deadlock,wait"}  # kinds of obligations a property is about; all kinds if absent
SCENARIOS = []
def sc(name, props, src, defs=(), libdefs=(), tier="quick", **kw):
    opts = kw.pop("opts", {})
    SCENARIOS.append(dict(name=name, props=list(props), src=src, defs=list(defs), libdefs=list(libdefs), tier=tier, opts=opts, **kw))
def R(r, c=3, **kw): return dict(rounds=r, closing=c, **kw)
Q, T = "quick", "thorough"

# ---- C01 (and C12): blocking combining objects -------------------------------------------------------------------
for o in ("CC", "DSM", "H", "OSCI", "OYAMA", "FC"):
    l = o.lower(); D = ["OBJ_" + o]; P = ["C01"]; B = P + ["C12"]
    sc("comb_%s_2x1" % l, B, "combine.c", D + ["NT=2", "OPS=1"], opts=R(3, 2))
    sc("comb_%s_2x1_r4" % l, B, "combine.c", D + ["NT=2", "OPS=1"], opts=R(4, 2), tier=T)
    sc("comb_%s_seq" % l, P, "combine.c", D + ["NT=1", "OPS=6"], opts=R(1, 1))
    sc("comb_%s_3x1" % l, B, "combine.c", D + ["NT=3", "OPS=1"], opts=R(2, 3), cost=5)
    sc("comb_%s_2x2" % l, B, "combine.c", D + ["NT=2", "OPS=2"], opts=R(2, 3), cost=5)
    sc("comb_%s_1_3" % l, P, "combine.c", D + ["NT=2", "OPS0=1", "OPS1=3"], opts=R(2, 3), cost=4)
    sc("comb_%s_wide" % l, P, "combine.c", D + ["NT=2", "OPS=1", "NTHREADS=70", "PIDS=3,66"], opts=R(2, 2))
    sc("comb_%s_wide2" % l, P, "combine.c", D + ["NT=2", "OPS=2", "NTHREADS=9", "PIDS=0,8"], opts=R(2, 2))
    sc("comb_%s_small" % l, B, "combine.c", D + ["NT=3", "OPS=1"], libdefs=["SYNCH_VERIFY"], opts=R(2, 3), cost=5)
    sc("comb_%s_small_2x2" % l, B, "combine.c", D + ["NT=2", "OPS=2"], libdefs=["SYNCH_VERIFY"], opts=R(2, 3), cost=5)
    sc("comb_%s_debug" % l, P, "combine.c", D + ["NT=2", "OPS=1"], libdefs=["DEBUG"], opts=R(2, 2))
    sc("comb_%s_o2" % l, P, "combine.c", D + ["NT=2", "OPS=1"], opt="-O2", opts=R(2, 2))
    sc("comb_%s_3x1_r3" % l, B, "combine.c", D + ["NT=3", "OPS=1"], opts=R(3, 3), tier=T)
    sc("comb_%s_2x2_r3" % l, B, "combine.c", D + ["NT=2", "OPS=2"], opts=R(3, 3), tier=T)
    sc("comb_%s_small_r3" % l, B, "combine.c", D + ["NT=3", "OPS=1"], libdefs=["SYNCH_VERIFY"], opts=R(3, 3), tier=T)
    sc("comb_%s_3x2" % l, B, "combine.c", D + ["NT=3", "OPS=2"], opts=R(2, 3), tier=T)
    sc("comb_%s_4x1" % l, B, "combine.c", D + ["NT=4", "OPS=1"], opts=R(2, 3), tier=T)
    sc("comb_%s_1_5" % l, P, "combine.c", D + ["NT=2", "OPS0=1", "OPS1=5"], opts=R(3, 3), tier=T)
for x, d, n in (("c2", ["CLUSTERS=2"], 2), ("c2t3", ["CLUSTERS=2", "NTHREADS=4", "PIDS=0,1,2"], 3), ("c3", ["CLUSTERS=3", "NTHREADS=3"], 3)):
    sc("comb_h_" + x, ["C01", "C12"], "combine.c", ["OBJ_H", "NT=%d" % n, "OPS=1"] + d, opts=R(2, 3), cost=4)
    sc("comb_h_%s_small" % x, ["C01", "C12"], "combine.c", ["OBJ_H", "NT=%d" % n, "OPS=1"] + d, libdefs=["SYNCH_VERIFY"], opts=R(2, 3), cost=4)
for x, d, n in (("f2", ["FIBERS=2", "NTHREADS=2"], 2), ("f2t3", ["FIBERS=2", "NTHREADS=4", "PIDS=0,1,2"], 3), ("f2x2", ["FIBERS=2", "NTHREADS=4", "PIDS=1,2"], 2), ("f3", ["FIBERS=3", "NTHREADS=3"], 3)):
    sc("comb_osci_" + x, ["C01", "C12"], "combine.c", ["OBJ_OSCI", "NT=%d" % n, "OPS=1"] + d, opts=R(3, 3), cost=4)
    sc("comb_osci_%s_small" % x, ["C01", "C12"], "combine.c", ["OBJ_OSCI", "NT=%d" % n, "OPS=1"] + d, libdefs=["SYNCH_VERIFY"], opts=R(3, 3), cost=4)

# ---- C02, C03: universal constructions ----------------------------------------------------------------------------
for o, p in (("SIM", "C02"), ("LFU", "C03")):
    l = o.lower(); D = ["OBJ_" + o]
    def u(name, defs, opts, **kw): sc("uni_%s_%s" % (l, name), [p], "universal.c", D + defs, opts=opts, **kw)
    u("2x1", ["NT=2", "OPS=1"], R(3))
    u("2x1_r5", ["NT=2", "OPS=1"], R(5))
    u("sum_2x1", ["NT=2", "OPS=1", "SUM"], R(3))
    u("sum_2x2", ["NT=2", "OPS=2", "SUM"], R(2))
    u("2x2", ["NT=2", "OPS=2"], R(2))
    u("2x2_r3", ["NT=2", "OPS=2"], R(3), cost=3)
    u("3x1", ["NT=3", "OPS=1"], R(2))
    u("3x1_r3", ["NT=3", "OPS=1"], R(3), cost=5)
    u("1_3", ["NT=2", "OPS0=1", "OPS1=3"], R(3), cost=4)
    u("3_1", ["NT=2", "OPS0=3", "OPS1=1"], R(3), cost=4)
    u("wide", ["NT=2", "OPS=1", "NTHREADS=70", "PIDS=3,66"], R(2))
    u("wide2", ["NT=2", "OPS=2", "NTHREADS=130", "PIDS=64,129"], R(2))
    u("64", ["NT=2", "OPS=1", "NTHREADS=64", "PIDS=0,63"], R(2))
    u("backoff", ["NT=2", "OPS=1", "BACKOFF=100"], R(3))
    u("debug", ["NT=2", "OPS=1"], R(2), libdefs=["DEBUG"])
    u("o2", ["NT=2", "OPS=1"], R(2), opt="-O2")
    u("seq", ["NT=1", "OPS=9"], R(1, 1))
    u("seq70", ["NT=1", "OPS=9", "NTHREADS=70", "PIDS=65"], R(1, 1))
    u("1_5", ["NT=2", "OPS0=1", "OPS1=5"], R(3), tier=T)
    u("2x3", ["NT=2", "OPS=3"], R(3), tier=T)
    u("3x2", ["NT=3", "OPS=2"], R(2), tier=T)
    u("4x1", ["NT=4", "OPS=1"], R(2), tier=T)

# ---- C04..C10 (and C12): queues and stacks ------------------------------------------------------------------------
CONT = {"C04": ("CCQ", "DSMQ", "HQ", "OSCIQ", "FCQ"), "C05": ("SIMQ",), "C06": ("MSQ",), "C07": ("LCRQ",), "C08": ("CCS", "DSMS", "HS", "OSCIS", "FCS"), "C09": ("SIMS",), "C10": ("LFS",)}
def kinds(n): return list(itertools.product((0, 1), repeat=n))
for p, objs in CONT.items():
    many = len(objs) > 1
    for o in objs:
        l = o.lower(); D = ["OBJ_" + o]; L = ["RING_POW=1"] if o == "LCRQ" else []; V = L + ["SYNCH_VERIFY"]; B = [p] + (["C12"] if many else [])
        def c(name, defs, opts, libdefs=L, props=[p], **kw): sc("%s_%s" % (l, name), props, "container.c", D + defs, libdefs=libdefs, opts=opts, **kw)
        c("2x1", ["NT=2", "OPS=1", "PRE=0"], R(2 if o == "LCRQ" else 3), V if o == "LCRQ" else L, props=B, cost=3)
        if o != "LCRQ": c("2x1_p1", ["NT=2", "OPS=1", "PRE=1"], R(3), cost=2)
        else: c("2x1_p1", ["NT=2", "OPS=1", "PRE=1"], R(2), V, cost=5)
        c("seq", ["NT=1", "OPS=6"], R(1, 1), L if o != "LCRQ" else [], cost=3)
        if o == "LCRQ":
            c("seq_ring2", ["NT=1", "OPS=5"], R(1, 1), V)
            c("fill", ["NT=1", "OPS=9", "KINDS=0,0,0,0,0,1,1,1,1"], R(1, 1), V)
            c("fill2", ["NT=1", "OPS=9", "KINDS=0,1,0,0,0,1,0,1,1"], R(1, 1), V)
            c("fill3", ["NT=1", "OPS=9", "KINDS=1,0,0,0,1,1,1,1,0"], R(1, 1), V)
        c("wide", ["NT=2", "OPS=1", "NTHREADS=70", "PIDS=3,66"], R(2), V if o == "LCRQ" else L)
        c("debug", ["NT=2", "OPS=1", "PRE=1", "KINDS=0,1"], R(2), L + ["DEBUG"])
        c("o2", ["NT=2", "OPS=1", "PRE=1", "KINDS=0,1"], R(2), L, opt="-O2")
        # two threads, two operations each: one scenario per combination of operation kinds
        for k in kinds(4):
            n = "".join("ir"[x] for x in k); K = "KINDS=" + ",".join(map(str, k)); pre = 1
            few = k in ((0, 1, 0, 1), (0, 0, 1, 1), (0, 1, 1, 1), (1, 1, 1, 0), (0, 1, 1, 0), (0, 0, 0, 1))
            c("2x2_" + n, ["NT=2", "OPS=2", "PRE=%d" % pre, K], R(2), V, props=B, cost=2, tier=Q if few or not many else T)
            c("2x2_%s_r3" % n, ["NT=2", "OPS=2", "PRE=0", K], R(3), V, tier=T)
            few = k in ((1, 0, 1, 0), (1, 0, 0, 1), (0, 1, 1, 1), (1, 0, 1, 1), (0, 1, 0, 1))
            c("1_3_" + n, ["NT=2", "OPS0=1", "OPS1=3", "PRE=1", K], R(3), V, cost=2, tier=Q if few or not many else T)
            c("3_1_" + n, ["NT=2", "OPS0=3", "OPS1=1", "PRE=1", K], R(3), V, tier=T)
        for k in kinds(3):
            n = "".join("ir"[x] for x in k); K = "KINDS=" + ",".join(map(str, k))
            few = k in ((0, 1, 1), (1, 1, 1), (0, 0, 1))
            c("3x1_" + n, ["NT=3", "OPS=1", "PRE=1", K], R(2), V, props=B, cost=3, tier=Q if few else T)
            c("3x1_%s_r3" % n, ["NT=3", "OPS=1", "PRE=1", K], R(3), V, tier=T)
        for k in kinds(6) if not many else ():
            if sum(k) in (2, 3, 4):
                c("1_5_" + "".join("ir"[x] for x in k), ["NT=2", "OPS0=1", "OPS1=5", "PRE=0", "KINDS=" + ",".join(map(str, k))], R(2), V, tier=T)
# one operation that may be preempted anywhere, while another thread completes a long sequence of operations (recycling of nodes and records, ABA)
for l, p, src, o, L in (("sim", "C02", "universal.c", "SIM", []), ("lfu", "C03", "universal.c", "LFU", []), ("simq", "C05", "container.c", "SIMQ", []), ("msq", "C06", "container.c", "MSQ", []), ("lcrq", "C07", "container.c", "LCRQ", ["RING_POW=1", "SYNCH_VERIFY"]), ("sims", "C09", "container.c", "SIMS", []), ("lfs", "C10", "container.c", "LFS", [])):
    def st(name, defs, opts, **kw): sc("%s_stall_%s" % (l, name), [p], src, ["OBJ_" + o] + defs, libdefs=L, opts=opts, **kw)
    if src == "universal.c":
        for n in range(2, 10): st("%d" % n, ["NT=2", "OPS0=1", "OPS1=%d" % n, "SUM", "ATOMIC_FROM=1"], R(2), cost=2, tier=Q if o == "SIM" or n < 6 else T)
        for n in (12, 17, 24): st("%d" % n, ["NT=2", "OPS0=1", "OPS1=%d" % n, "SUM", "ATOMIC_FROM=1"], R(2), tier=T)
        st("3x", ["NT=3", "OPS0=1", "OPS1=1", "OPS2=5", "SUM", "ATOMIC_FROM=2"], R(2), tier=T)
        st("2_5", ["NT=2", "OPS0=2", "OPS1=5", "SUM", "ATOMIC_FROM=1"], R(2), cost=2, tier=Q if o == "SIM" else T); st("5_r3", ["NT=2", "OPS0=1", "OPS1=5", "SUM", "ATOMIC_FROM=1"], R(3), cost=2)
        continue
    for n, k in (("dede", "0,1,0,1,0,1,0,1"), ("eedd", "0,0,0,1,1,1,0,1"), ("dddd", "1,1,1,1,1,1,0,0"), ("eeee", "0,0,0,0,0,0,1,1"), ("dedd", "1,0,1,1,0,1,0,1")):
        for f in (0, 1):
            for pre in (0, 1, 2, 4):
                K = ["NT=2", "OPS0=1", "PRE=%d" % pre, "ATOMIC_FROM=1"]; m = "%s_%s_p%d" % ("ir"[f], n, pre)
                st(m, K + ["OPS1=8", "KINDS=%d,%s" % (f, k)], R(2), cost=2); st(m + "_r3", K + ["OPS1=6", "KINDS=%d,%s" % (f, k[:11])], R(3), tier=T)
    for k in ("0,0,0,0,1,0,1", "0,1,0,1,1,0,1", "1,0,0,1,0,1,0", "1,1,1,0,1,0,0", "1,1,0,0,1,1,0"):
        st("3x_" + "".join("ir"[int(x)] for x in k.split(",")), ["NT=3", "OPS0=1", "OPS1=1", "OPS2=5", "PRE=1", "ATOMIC_FROM=2", "KINDS=" + k], R(2), tier=T)
    for k in ("0,0", "0,1", "1,0", "1,1"):
        st("2_5_" + k.replace(",", ""), ["NT=2", "OPS0=2", "OPS1=5", "PRE=1", "ATOMIC_FROM=1", "KINDS=%s,0,1,1,0,1" % k], R(2), cost=3)
for o, p in (("HQ", "C04"), ("HS", "C08")):
    for r in (2, 3): sc("%s_regions%d" % (o.lower(), r), [p, "C12"], "container.c", ["OBJ_" + o, "NT=2", "OPS=1", "PRE=1", "REGIONS=%d" % r, "NTHREADS=6", "PIDS=1,4"], opts=R(2), cost=3)
for o, p in (("OSCIQ", "C04"), ("OSCIS", "C08")):
    for x, d, n in (("f2", ["FIBERS=2", "NTHREADS=2"], 2), ("f2x2", ["FIBERS=2", "NTHREADS=4", "PIDS=1,2"], 2), ("f2t3", ["FIBERS=2", "NTHREADS=4", "PIDS=0,1,2", "KINDS=0,1,1"], 3)):
        sc("%s_%s" % (o.lower(), x), [p, "C12"], "container.c", ["OBJ_" + o, "NT=%d" % n, "OPS=1", "PRE=1"] + d, opts=R(2), cost=3)

# ---- C11 (and C12): locks -----------------------------------------------------------------------------------------
for o in ("CLH", "MCS"):
    def k(name, defs, opts, **kw): sc("lock_%s_%s" % (o.lower(), name), ["C11", "C12"], "locks.c", ["OBJ_" + o] + defs, opts=opts, **kw)
    k("2x1", ["NT=2", "OPS=1"], R(4)); k("2x2", ["NT=2", "OPS=2"], R(4)); k("3x1", ["NT=3", "OPS=1"], R(4)); k("3x2", ["NT=3", "OPS=2"], R(2)); k("4x1", ["NT=4", "OPS=1"], R(3)); k("1_4", ["NT=2", "OPS0=1", "OPS1=4"], R(3))
    k("wide", ["NT=2", "OPS=2", "NTHREADS=70", "PIDS=3,66"], R(3)); k("debug", ["NT=2", "OPS=1"], R(3), libdefs=["DEBUG"]); k("o2", ["NT=2", "OPS=2"], R(3), opt="-O2")
    k("seq", ["NT=1", "OPS=6"], R(1, 1)); k("3x2_r4", ["NT=3", "OPS=2"], R(4, 4), tier=T); k("3x3", ["NT=3", "OPS=3"], R(3, 4), tier=T); k("4x2", ["NT=4", "OPS=2"], R(3, 4), tier=T)
    k("emul", ["NT=2", "OPS=2"], R(3), libdefs=["SYNCH_EMULATE_SWAP", "SYNCH_EMULATE_FAA"])

# ---- C14: barrier -------------------------------------------------------------------------------------------------
def b(name, defs, opts, **kw): sc("bar_" + name, ["C14", "C12"], "barrier.c", defs, opts=opts, **kw)
for n in (1, 2, 3, 4):
    b("%dx2" % n, ["NT=%d" % n, "PHASES=2"], R(3, 5)); b("%dx4" % n, ["NT=%d" % n, "PHASES=4"], R(3, 8))
    for w in (1, n) if n > 1 else (1,):
        b("%d_leave%d" % (n, w), ["NT=%d" % n, "PHASES=1", "LEAVE=%d" % w], R(3, 5)); b("%d_leave%d_only" % (n, w), ["NT=%d" % n, "PHASES=0", "LEAVE=%d" % w], R(3, 5))
        b("%d_lives%d" % (n, w), ["NT=%d" % n, "PHASES=0", "LEAVE=%d" % w, "LIVES=2"], R(3, 6)); b("%d_waitlives%d" % (n, w), ["NT=%d" % n, "PHASES=1", "LEAVE=%d" % w, "LIVES=2"], R(3, 8))
b("o2", ["NT=2", "PHASES=3"], R(3, 6), opt="-O2"); b("emul", ["NT=2", "PHASES=3"], R(3, 6), libdefs=["SYNCH_EMULATE_FAA"]); b("2x8", ["NT=2", "PHASES=8"], R(6, 12), tier=T); b("4x4_r5", ["NT=4", "PHASES=4"], R(5, 10), tier=T)

# ---- C15: pool ----------------------------------------------------------------------------------------------------
def p_(name, defs, src="pool.c", **kw): sc("pool_" + name, ["C15"], src, defs, opts=dict(rounds=1, closing=1, unwind=kw.pop("unwind", 16)), **kw)
for size in (1, 3, 8, 24, 64, 4096, 6000000, 8388000, 8388600, 11184000, 16777184, 16777200, 16777216, 33554400):
    p_("s%d" % size, ["STEPS=8", "SIZE=%d" % size]); p_("s%d_deep" % size, ["STEPS=10", "SIZE=%d" % size], tier=T)
p_("norecycle", ["STEPS=7", "SIZE=12000000"], libdefs=["SYNCH_POOL_NODE_RECYCLING_DISABLE"]); p_("debug", ["STEPS=7", "SIZE=12000000"], libdefs=["DEBUG"])
p_("refused", ["SYM"], src="pool_edge.c"); p_("extreme", ["BIG"], src="pool_edge.c")

# ---- C16, C17: hash tables ----------------------------------------------------------------------------------------
for o in ("CLHH", "DSMH"):
    def h(name, props, defs, opts, **kw): sc("hash_%s_%s" % (o.lower(), name), props, "hash.c", ["OBJ_" + o] + defs, opts=opts, **kw)
    for cells in (1, 2, 3, 8):
        h("seq_c%d" % cells, ["C16"], ["NT=1", "OPS=%d" % (3 if cells == 8 else 4), "CELLS=%d" % cells, "NKEYS=2", "VALUES"], R(1, 1, unwind=16), cost=9)
    for n, kk in (("iiidsd", "0,0,0,1,2,1"), ("iiiddi", "0,0,0,1,1,0"), ("iidisd", "0,0,1,0,2,1"), ("iiiids", "0,0,0,0,1,2"), ("dsidsi", "1,2,0,1,2,0")):
        h("seq1_" + n, ["C16"], ["NT=1", "OPS=6", "CELLS=1", "NKEYS=3", "VALUES", "KINDS=" + kk], R(1, 1, unwind=16), cost=3)
        h("seq2_" + n, ["C16"], ["NT=1", "OPS=6", "CELLS=2", "NKEYS=3", "VALUES", "KINDS=" + kk], R(1, 1, unwind=16), cost=5, tier=T)
    h("bucket", ["C16"], ["NT=1", "OPS=4", "PRE=4", "NKEYS=4", "CELLS=1", "VALUES"], R(1, 1, unwind=16), cost=3)
    for k in itertools.product((0, 1, 2), repeat=2):
        n = "".join("ids"[x] for x in k)
        for kx in ("0,0", "0,1"):
            for pre in (0, 1, 2):
                h("2x1_%s_%s_p%d" % (n, kx.replace(",", ""), pre), ["C17"], ["NT=2", "OPS=1", "CELLS=1", "NKEYS=2", "PRE=%d" % pre, "KINDS=%d,%d" % k, "KEYS=" + kx], R(3))
    for k in itertools.product((0, 1, 2), repeat=2): h("2x1_c2_" + "".join("ids"[x] for x in k), ["C17"], ["NT=2", "OPS=1", "CELLS=2", "NKEYS=2", "PRE=1", "KINDS=%d,%d" % k, "KEYS=0,1"], R(2), cost=4)
    for k in ((0, 1, 0, 1), (0, 2, 1, 2), (0, 1, 2, 2), (1, 2, 0, 2), (0, 0, 1, 1)):
        n = "".join("ids"[x] for x in k)
        for kx in ("0,0,0,0", "0,1,1,0", "0,1,0,1"): h("2x2_%s_%s" % (n, kx.replace(",", "")), ["C17"], ["NT=2", "OPS=2", "CELLS=1", "NKEYS=2", "PRE=1", "KINDS=%d,%d,%d,%d" % k, "KEYS=" + kx], R(2), cost=3)
    h("3x1", ["C17"], ["NT=3", "OPS=1", "CELLS=1", "NKEYS=2", "PRE=1", "KINDS=0,1,2", "KEYS=0,0,0"], R(2), cost=3); h("3x1b", ["C17"], ["NT=3", "OPS=1", "CELLS=1", "NKEYS=2", "PRE=2", "KINDS=1,1,0", "KEYS=0,1,0"], R(2), cost=3)
    h("wide", ["C17"], ["NT=2", "OPS=1", "CELLS=1", "NKEYS=2", "PRE=1", "KINDS=0,1", "KEYS=0,1", "NTHREADS=70", "PIDS=3,66"], R(2))
    for cells in (3, 5, 6): # bucket counts that are no power of two: every operation on a bucket takes that bucket's lock
        for k in itertools.product((0, 1, 2), repeat=2):
            for kx in ("0,0", "0,1"): h("2x1_c%d_%s_%s" % (cells, "".join("ids"[x] for x in k), kx.replace(",", "")), ["C17"], ["NT=2", "OPS=1", "CELLS=%d" % cells, "NKEYS=2", "SAMECELL", "PRE=1", "KINDS=%d,%d" % k, "KEYS=" + kx], R(2), cost=2, tier=Q if cells == 3 else T)
    for k in ((0, 1, 0, 1), (0, 2, 1, 2)): h("2x2_c3_" + "".join("ids"[x] for x in k), ["C17"], ["NT=2", "OPS=2", "CELLS=3", "NKEYS=2", "SAMECELL", "PRE=1", "KINDS=%d,%d,%d,%d" % k, "KEYS=0,1,1,0"], R(2), cost=3)
    h("2x1_sym", ["C17"], ["NT=2", "OPS=1", "CELLS=2", "NKEYS=2", "PRE=1"], R(2), tier=T)

# ---- C18: toggle vectors ------------------------------------------------------------------------------------------
def t(name, defs, opts, **kw): sc("tvec_" + name, ["C18"], "tvec.c", defs, opts=opts, **kw)
for n in (1, 2, 31, 32, 33, 63, 64, 65, 127, 128, 129, 130): t("n%d" % n, ["N=%d" % n], R(1, 1, unwind=200))
for n in (2, 8, 20): t("count%d" % n, ["N=%d" % n, "COUNT"], R(1, 1, unwind=200))
for n in (191, 192, 193, 256, 320): t("n%d" % n, ["N=%d" % n], R(1, 1, unwind=400), tier=T)
for n in (64, 65, 128, 129, 192, 193, 256, 257, 300, 320, 512, 513, 1025): t("big%d" % n, ["N=%d" % n, "BIG"], R(1, 1, unwind=2000), cost=3)
for n in (4, 64, 70): t("conc%d" % n, ["NT=2", "N=%d" % n], R(2, 2))
t("conc128", ["NT=3", "N=128", "TOG=1"], R(2, 2)); t("conc64_3", ["NT=2", "N=64", "TOG=3"], R(2, 2), tier=T); t("emul", ["NT=2", "N=4"], R(2, 2), libdefs=["SYNCH_EMULATE_FAA"]); t("o2", ["N=65"], R(1, 1, unwind=200), opt="-O2")

# ---- C19: primitives ----------------------------------------------------------------------------------------------
PL = (("", []), ("_debug", ["DEBUG"]), ("_emul", ["SYNCH_EMULATE_FAA", "SYNCH_EMULATE_SWAP"]), ("_emul_debug", ["SYNCH_EMULATE_FAA", "SYNCH_EMULATE_SWAP", "DEBUG"]), ("_nonuma", ["SYNCH_DISABLE_BACKOFF"]))
for n, l in PL[:4]:
    sc("prim_seq" + n, ["C19"], "prims.c", ["NT=1"], libdefs=l, opts=R(1, 1, unwind=80)); sc("prim_seq_o2" + n, ["C19"], "prims.c", ["NT=1"], libdefs=l, opts=R(1, 1, unwind=80), opt="-O2")
    for q in range(9):
        sc("prim_2_%d%s" % (q, n), ["C19"], "prims.c", ["NT=2", "P=%d" % q], libdefs=l, opts=R(3, 2))
        sc("prim_3_%d%s" % (q, n), ["C19"], "prims.c", ["NT=3", "P=%d" % q], libdefs=l, opts=R(2, 2), tier=T if q < 2 else Q)

    for k in itertools.combinations_with_replacement(range(8), 2):
        sc("prim_pair_%d%d%s" % (k + (n,)), ["C19"], "prims_lin.c", ["NT=2", "OPS=1", "KINDS=%d,%d" % k], libdefs=l, opts=R(3, 2), tier=Q if n != "_debug" else T)
        sc("prim_2x2_%d%d%d%d%s" % (k[0], k[1], k[1], k[0], n), ["C19"], "prims_lin.c", ["NT=2", "OPS=2", "KINDS=%d,%d,%d,%d" % (k[0], k[1], k[1], k[0])], libdefs=l, opts=R(2, 2), tier=T)
    for k in ((0, 0, 0), (0, 2, 3), (2, 2, 2), (1, 5, 0), (3, 3, 2), (6, 0, 7), (7, 7, 7), (2, 4, 0), (1, 1, 1)):
        sc("prim_triple_%d%d%d%s" % (k + (n,)), ["C19"], "prims_lin.c", ["NT=3", "OPS=1", "KINDS=%d,%d,%d" % k], libdefs=l, opts=R(2, 2), tier=Q if n != "_debug" and k != (1, 5, 0) else T, cost=2)

# ---- C20: random numbers ------------------------------------------------------------------------------------------
sc("rand_seq", ["C20"], "fastrand.c", ["NT=1", "DRAWS=4", "REAL_RANDOM"], opts=R(1, 1)); sc("rand_2", ["C20"], "fastrand.c", ["NT=2", "DRAWS=2", "REAL_RANDOM"], opts=R(3, 2)); sc("rand_3", ["C20"], "fastrand.c", ["NT=3", "DRAWS=2", "REAL_RANDOM"], opts=R(2, 2))
sc("rand_state", ["C20"], "fastrand_state.c", ["REAL_RANDOM"], opts=R(1, 1), without=["primitives_fastrand.bc"])
for w, tier in ((None, Q), (0, Q), (1, Q), (256, Q), (65536, T)):
    sc("rand_range" + ("" if w is None else "32_w%d" % w), ["C20"], "fastrand_range.c", [] if w is None else ["WIDTH=%d" % w], tier=tier, cbmc=["primitives/fastrand.c"], functions=["synchFastRandomSetSeed", "synchFastRandom", "synchFastRandom32", "synchFastRandomRange32" if w is not None else "synchFastRandomRange"], cost=9, time=600)

# ---- C13: wait-freedom, C27: lock-freedom.  Exceeding the bound on a thread's own steps is a violation here, and so is a thread that spins -----
W = {"cut-violation": True, "spin-violation": True}
def w_(name, p, src, defs, opts, **kw): sc("wait_" + name, [p], src, defs, opts=dict(opts, **W), **kw)
for n, src, o in (("sim", "universal.c", "OBJ_SIM"), ("simq", "container.c", "OBJ_SIMQ"), ("sims", "container.c", "OBJ_SIMS")):
    D = [o]; K = src == "container.c"; P = "C13"
    w_(n + "_2x1", P, src, D + ["NT=2", "OPS=1"], R(3, unwind=3), cost=4)
    w_(n + "_wide", P, src, D + ["NT=2", "OPS=1", "NTHREADS=70", "PIDS=3,66"], R(3, unwind=3), cost=4)
    w_(n + "_backoff", P, src, D + ["NT=2", "OPS=1", "BACKOFF=100"], R(3, unwind=3), cost=4)
    w_(n + "_debug", P, src, D + ["NT=2", "OPS=1"], R(3, unwind=3), libdefs=["DEBUG"], cost=4)
    w_(n + "_seq", P, src, D + ["NT=1", "OPS=5"], R(1, 1, unwind=24))
    ks = [()] if not K else ["0,0,0,0,0,0", "1,1,1,1,1,1", "1,0,1,0,1,0", "0,1,0,1,0,1", "1,0,0,0,0,0", "0,1,1,1,1,1"]
    for k in ks:
        x = ["PRE=2", "KINDS=" + k] if k else []; m = "_" + "".join("ir"[int(y)] for y in k.split(",")) if k else ""
        # the other thread completes a whole operation at every preemption: the longest possible chain of failed attempts
        w_(n + "_1_4" + m, P, src, D + ["NT=2", "OPS0=1", "OPS1=4", "ATOMIC_FROM=1"] + x, R(5, 2, unwind=3), cost=7)
        w_(n + "_1_5" + m, P, src, D + ["NT=2", "OPS0=1", "OPS1=5", "ATOMIC_FROM=1"] + x, R(6, 2, unwind=4), tier=Q if not K else T, cost=9)
        w_(n + "_1_4_wide" + m, P, src, D + ["NT=2", "OPS0=1", "OPS1=4", "ATOMIC_FROM=1", "NTHREADS=70", "PIDS=3,66"] + x, R(5, 2, unwind=3), tier=Q if not K else T, cost=9)
        w_(n + "_1_3" + m, P, src, D + ["NT=2", "OPS0=1", "OPS1=3"] + x, R(3, unwind=3), tier=T)
        w_(n + "_1_6" + m, P, src, D + ["NT=2", "OPS0=1", "OPS1=6", "ATOMIC_FROM=1"] + x, R(7, 2, unwind=5), tier=T)
        w_(n + "_1_2_2" + m, P, src, D + ["NT=3", "OPS0=1", "OPS1=2", "OPS2=2", "ATOMIC_FROM=1"] + x, R(3, 3, unwind=4), tier=T)
    for k in ("0,0,0", "1,1,1", "0,1,1", "0,0,1") if K else ("",):
        x = ["PRE=1", "KINDS=" + k] if k else []; m = "_" + "".join("ir"[int(y)] for y in k.split(",")) if k else ""
        w_(n + "_3x1" + m, P, src, D + ["NT=3", "OPS=1"] + x, R(2, unwind=4), cost=8)
        w_(n + "_3x1_r3" + m, P, src, D + ["NT=3", "OPS=1"] + x, R(3, unwind=4), tier=Q if not K else T, cost=9)
for n, src, o in (("lfu", "universal.c", "OBJ_LFU"), ("msq", "container.c", "OBJ_MSQ"), ("lfs", "container.c", "OBJ_LFS")):
    D = [o]; K = src == "container.c"; P = "C27"
    w_(n + "_seq", P, src, D + ["NT=1", "OPS=5"], R(1, 1, unwind=3))
    for k in ("0,0", "0,1", "1,0", "1,1") if K else ("",):
        x = ["PRE=1", "KINDS=" + k] if k else []; m = "_" + "".join("ir"[int(y)] for y in k.split(",")) if k else ""
        w_(n + "_2x1" + m, P, src, D + ["NT=2", "OPS=1"] + x, R(3, unwind=3))
        w_(n + "_2x1_r5" + m, P, src, D + ["NT=2", "OPS=1"] + x, R(5, unwind=3))
    for k in ("0,0,0", "0,1,1", "1,0,0", "1,1,1") if K else ("",):
        x = ["PRE=1", "KINDS=" + k] if k else []; m = "_" + "".join("ir"[int(y)] for y in k.split(",")) if k else ""
        w_(n + "_1_2" + m, P, src, D + ["NT=2", "OPS0=1", "OPS1=2"] + x, R(4, unwind=5))
        w_(n + "_3x1" + m, P, src, D + ["NT=3", "OPS=1"] + x, R(3, unwind=5))

V_ = ["SYNCH_VERIFY"]
for rp in (1, 3): # a ring of 2 and of 8 cells; SYNCH_VERIFY shortens the dequeuer's wait for a slow enqueuer
    L = ["RING_POW=%d" % rp] + V_; D = ["OBJ_LCRQ"]; c27 = lambda n, d, o, **kw: w_("lcrq%d_%s" % (rp, n), "C27", "container.c", D + d, o, libdefs=L, **kw)
    for n, k in (("i", "0,0,0,0,0,0"), ("r", "1,1,1,1,1,1"), ("iiirrr", "0,0,0,1,1,1"), ("iriiir", "0,1,0,0,0,1"), ("riirri", "1,0,0,1,1,0"), ("irirri", "0,1,0,1,1,0")): c27("seq_" + n, ["NT=1", "OPS=6", "KINDS=" + k], R(1, 1, unwind=12))
    for k in ("0,0", "0,1", "1,0", "1,1"):
        for pre in (0, 1, 2): c27("2x1_%s_p%d" % ("".join("ir"[int(y)] for y in k.split(",")), pre), ["NT=2", "OPS=1", "PRE=%d" % pre, "KINDS=" + k], R(2, unwind=12), cost=3)
    for f in (0, 1):
        for n, k in (("dede", "0,1,0,1,0,1,0,1"), ("eedd", "0,0,0,1,1,1,0,1"), ("dddd", "1,1,1,1,1,1,0,0"), ("eeee", "0,0,0,0,0,0,1,1")):
            c27("stall_%s_%s" % ("ir"[f], n), ["NT=2", "OPS0=1", "OPS1=8", "PRE=1", "ATOMIC_FROM=1", "KINDS=%d,%s" % (f, k)], R(2, unwind=12), cost=2)

# ---- C26: every object with every number of threads; C25: cluster layouts ---------------------------------------------
def sw(name, props, o, defs, **kw): sc("size_%s_%s" % (o.lower(), name), props, "sweep.c", ["SWEEP", "OBJ_" + o] + defs, opts=R(1, 1, unwind=kw.pop("unwind", 700)), **kw)
SIMF = ("SIM", "SIMQ", "SIMS"); HF = ("H", "HQ", "HS"); OF = ("OSCI", "OSCIQ", "OSCIS"); HASH = ("CLHH", "DSMH")
for o in ("CC", "DSM", "H", "OSCI", "OYAMA", "FC", "LFU", "CLH", "MCS", "CCQ", "DSMQ", "HQ", "OSCIQ", "FCQ", "MSQ", "LCRQ", "CCS", "DSMS", "HS", "OSCIS", "FCS", "LFS") + HASH:
    X = ["CELLS=16"] if o in HASH else []; L = ["RING_POW=1"] if o == "LCRQ" else []
    sw("all", ["C26"], o, ["LO=1", "HI=130"] + X, libdefs=L, cost=4); sw("all_debug", ["C26"], o, ["LO=1", "HI=20"] + X, libdefs=L + ["DEBUG"]); sw("more", ["C26"], o, ["LO=131", "HI=300", "ROUNDS=1"] + X, libdefs=L, tier=T)
    sw("all_o2", ["C26"], o, ["LO=1", "HI=20"] + X, libdefs=L, opt="-O2")
for o in HASH:
    for c in (1, 3, 64): sw("cells%d" % c, ["C26"], o, ["LO=1", "HI=20", "CELLS=%d" % c])
for o in SIMF:
    for lo, hi, r in ((1, 24, 2), (25, 59, 1), (60, 67, 2), (68, 90, 1), (91, 125, 1), (126, 131, 1), (190, 195, 1)): sw("%d_%d" % (lo, hi), ["C26"], o, ["LO=%d" % lo, "HI=%d" % hi, "ROUNDS=%d" % r], cost=4)
    sw("1_10_debug", ["C26"], o, ["LO=1", "HI=10"], libdefs=["DEBUG"]); sw("1_10_o2", ["C26"], o, ["LO=1", "HI=10"], opt="-O2"); sw("1_12_backoff", ["C26"], o, ["LO=1", "HI=12", "BACKOFF=100"])
    for lo in range(132, 330, 24): sw("%d_%d" % (lo, lo + 23), ["C26"], o, ["LO=%d" % lo, "HI=%d" % (lo + 23), "ROUNDS=1"], tier=T)
for o in OF:
    for f in (2, 3, 4, 8): sw("fibers%d" % f, ["C26"], o, ["LO=1", "HI=66", "FIBERS=%d" % f])
for o in HF:
    N = ["CHECK_NODES"] if o == "H" else []
    for x, d in (("1", []), ("2", ["NODES=2"]), ("2b", ["NODES=2", "NODE_OF(c)=((c)/4)"]), ("4", ["NODES=4", "NCORES=16"]), ("4b", ["NODES=4", "NCORES=16", "NODE_OF(c)=((c)/4)"]), ("3", ["NODES=3", "NCORES=9"]), ("1core", ["NCORES=1"]), ("uneven", ["NODES=2", "NCORES=6", "NODE_OF(c)=((c)>=2)"])):
        sw("regions_nodes" + x, ["C25"], o, ["LO=1", "HI=20", "SPLIT_REGIONS=21", "STRIDES=3"] + N + d, cost=8)
        sw("native_nodes" + x, ["C25"], o, ["LO=1", "HI=70", "REGIONS=0", "STRIDES=3"] + d, cost=3)
    sw("regions_more", ["C25"], o, ["LO=60", "HI=70", "SPLIT_REGIONS=12"], cost=4); sw("regions_debug", ["C25"], o, ["LO=1", "HI=9", "SPLIT_REGIONS=10", "STRIDES=2"] + N, libdefs=["DEBUG"]); sw("regions_o2", ["C25"], o, ["LO=1", "HI=9", "SPLIT_REGIONS=10", "STRIDES=2"] + N, opt="-O2")
    sw("regions_wide", ["C25"], o, ["LO=1", "HI=40", "SPLIT_REGIONS=42", "STRIDES=3", "NODES=4", "NCORES=16"] + N, tier=T)

# ---- C24: every storable value --------------------------------------------------------------------------------------
for p, objs in CONT.items():
    for o in objs:
        l = o.lower(); L = ["RING_POW=1"] if o == "LCRQ" else []; V = ["SYNCH_VERIFY"]
        def v(name, defs, opts, libdefs=L, **kw): sc("value_%s_%s" % (l, name), ["C24"], "container.c", ["OBJ_" + o, "ANYVALUES"] + defs, libdefs=libdefs, opts=opts, **kw)
        v("seq", ["NT=1", "OPS=5"], R(1, 1, unwind=24), V if o == "LCRQ" else L, cost=2); v("seq_pre", ["NT=1", "OPS=3", "PRE=3"], R(1, 1, unwind=24)); v("debug", ["NT=1", "OPS=4"], R(1, 1, unwind=24), L + ["DEBUG"]); v("o2", ["NT=1", "OPS=4"], R(1, 1, unwind=24), opt="-O2")
        v("long", ["NT=1", "OPS=12", "KINDS=0,0,1,0,0,1,1,0,1,0,1,1"], R(1, 1, unwind=24)); v("long2", ["NT=1", "OPS=12", "KINDS=0,0,0,0,0,1,1,1,1,1,1,0"], R(1, 1, unwind=24))
        for k in ("0,0", "0,1", "1,1"): v("2x1_" + k.replace(",", ""), ["NT=2", "OPS=1", "PRE=2", "KINDS=" + k], R(2), V if o == "LCRQ" else L, cost=2)
        v("wide", ["NT=1", "OPS=3", "NTHREADS=70", "PIDS=66", "PRE=1"], R(1, 1, unwind=24))
        v("longer", ["NT=1", "OPS=7"], R(1, 1, unwind=32), V if o == "LCRQ" else L, tier=T)

# ---- C21: thread placement ------------------------------------------------------------------------------------------
def pl(name, lo, hi, pid, nodes, defs=(), **kw): sc("place_" + name, ["C21"], "placement.c", ["OWN_NUMA", "REAL_THREADTOOLS", "NODES=%d" % nodes, "MAXCORES=%d" % hi, "LOCORES=%d" % lo, "HICORES=%d" % hi, "MAXPID=%d" % pid] + list(defs), opts=R(1, 1, unwind=300), **kw)
for n in range(1, 17): pl("any%d" % n, n, n, 64 if n <= 8 else 32, 4, cost=3)
for n in (18, 20, 24): pl("any%d" % n, n, n, 64, 4, tier=T)
for n in (8, 6): pl("any%d_n8" % n, n, n, 32, 8, cost=4); pl("any%d_debug" % n, n, n, 32, 2, libdefs=["DEBUG"]); pl("any%d_o2" % n, n, n, 32, 2, opt="-O2")
for n in (1, 2, 3, 4, 6, 8): pl("pin%d" % n, n, n, 8, 2, ["PIN=20"], cost=5)
pl("pin64", 64, 64, 4, 3, ["PIN=70", "LAYOUT=i%nnodes"], cost=5); pl("pin70", 70, 70, 4, 2, ["PIN=140", "LAYOUT=i/(ncores/nnodes)", "EVEN=1"], cost=5)
for n in (24, 32, 48, 64, 96, 128):
    for x, l in (("smt", ["EVEN=2", "LAYOUT=(i%(ncores/2))/(ncores/2/nnodes)"]), ("linear", ["EVEN=1", "LAYOUT=i/(ncores/nnodes)"]), ("mixed", ["LAYOUT=i%nnodes"])): pl("%d_%s" % (n, x), n, n, 256, 4, l, cost=3, tier=Q if n in (24, 64, 128) else T)

# ---- C22: memory helpers; C23: back-off ----------------------------------------------------------------------------------
def me(name, defs, **kw): sc("mem_" + name, ["C22"], "memory.c", defs, opts=R(1, 1, unwind=80), **kw)
me("pages", ["CALLS=1", "MAXALIGN=12"]); me("pages_debug", ["CALLS=1", "MAXALIGN=12"], libdefs=["DEBUG"]); me("pages_o2", ["CALLS=1", "MAXALIGN=12"], opt="-O2"); me("twice", ["CALLS=2", "MAXALIGN=7"]); me("thrice", ["CALLS=3", "MAXALIGN=3"])
for a in range(13, 31): me("align%d" % a, ["CALLS=1", "LOALIGN=%d" % a, "MAXALIGN=%d" % a]); me("twice_align%d" % a, ["CALLS=2", "LOALIGN=%d" % a, "MAXALIGN=%d" % a], tier=Q if a in (13, 16, 21) else T)
def bo(name, defs, **kw): sc("backoff_" + name, ["C23"], "backoff.c", ["REAL_BACKOFF", "REAL_THREADTOOLS"] + defs, opts=dict(R(1, 1, unwind=80), **W), **kw)
bo("any4", ["MAXCAP=31", "CALLS=3", "STEPS=4"], cost=3); bo("any5", ["MAXCAP=31", "CALLS=3", "STEPS=5"], cost=8); bo("any6_step1", ["MAXCAP=31", "CALLS=3", "STEPS=6", "SHIFT=1"], cost=4); bo("off", ["MAXCAP=31", "CALLS=4", "STEPS=3"], libdefs=["SYNCH_DISABLE_BACKOFF"])
bo("delay3", ["MAXCAP=5", "CALLS=4", "STEPS=3"]); bo("delay4", ["MAXCAP=5", "CALLS=4", "STEPS=4"], cost=8); bo("delay5_step1", ["MAXCAP=5", "CALLS=4", "STEPS=5", "SHIFT=1"], tier=T); bo("delay3_6", ["MAXCAP=6", "CALLS=4", "STEPS=3", "SHIFT=1"]); bo("delay_debug", ["MAXCAP=4", "CALLS=4", "STEPS=3"], libdefs=["DEBUG"])
bo("up_down", ["MAXCAP=31", "SEQ=0,0,0,0,0,0,1,1,1,1,1,1,1,1"]); bo("zigzag", ["MAXCAP=31", "SEQ=0,1,0,0,1,1,0,0,0,1,1,1,1"]); bo("delays", ["MAXCAP=6", "SEQ=3,3,3,3,3,3,1,1,1,1,1,2,3,3,0,3"]); bo("delays_step1", ["MAXCAP=6", "SHIFT=1", "SEQ=3,3,3,3,3,3,1,1,1,1,1,2,3,3,0,3"])
bo("long_up", ["MAXCAP=31", "SHIFT=1", "SEQ=" + ",".join(["0"] * 33 + ["1"] * 34)]); bo("delays8", ["MAXCAP=8", "SHIFT=1", "SEQ=3,3,3,3,3,3,3,3,3,3"], tier=T)

# ---- C28: threads and fibers ----------------------------------------------------------------------------------------------
def rt(name, defs, r=2, **kw): sc("run_" + name, ["C28"], "runtime.c", ["REAL_THREADTOOLS", "REAL_RESCHED", "OWN_NUMA"] + defs, opts=R(r, 3, unwind=40), **kw)
for n in (1, 2, 3, 4):
    rt("%d" % n, ["N=%d" % n]); rt("%d_over" % n, ["N=%d" % n, "NCORES=1"]); rt("%d_over2" % n, ["N=%d" % n, "NCORES=2"]); rt("%d_r4" % n, ["N=%d" % n], r=4, tier=Q if n < 4 else T)
    for m in (1, 2, 3): rt("%d_then_%d" % (n, m), ["N=%d" % n, "N2=%d" % m, "LIVES=2"], tier=Q if n + m < 6 else T)
for u in (2, 3, 4):
    for k in (1, 2, 3):
        rt("%d_u%d" % (u * k, u), ["N=%d" % (u * k), "U=%d" % u, "YIELDS=2"]); rt("2_then_%d_u%d" % (u * k, u), ["N=2", "N2=%d" % (u * k), "U2=%d" % u, "LIVES=2"], tier=Q if k < 3 else T); rt("%d_u%d_then_2" % (u * k, u), ["N=%d" % (u * k), "U=%d" % u, "N2=2", "U2=1", "LIVES=2"], tier=Q if k < 3 else T)
    rt("%d_u%d_again" % (2 * u, u), ["N=%d" % (2 * u), "U=%d" % u, "LIVES=2"]); rt("u%d_then_u2" % u, ["N=%d" % (2 * u), "U=%d" % u, "N2=4", "U2=2", "LIVES=2"])
rt("4_u2_then_3_over", ["N=4", "U=2", "N2=3", "U2=1", "LIVES=2", "NCORES=2"]); rt("3_debug", ["N=3"], libdefs=["DEBUG"]); rt("4_u2_debug", ["N=4", "U=2"], libdefs=["DEBUG"]); rt("3_o2", ["N=3"], opt="-O2"); rt("3_emul", ["N=3", "LIVES=2", "N2=2"], libdefs=["SYNCH_EMULATE_FAA"])
def fb(name, defs, **kw): sc("fiber_" + name, ["C28"], "fibers.c", ["REAL_RESCHED", "REAL_THREADTOOLS"] + defs, opts=dict(R(1, 1, unwind=40), **W), **kw)
fb("3", ["MAXF=3", "FIRST=2", "YIELDS=2"]); fb("4", ["MAXF=4", "FIRST=3", "YIELDS=1"]); fb("late1", ["MAXF=3", "FIRST=1", "LATE=1"]); fb("late", ["MAXF=3", "FIRST=2", "LATE=1"], cost=2); fb("twice", ["MAXF=2", "FIRST=1", "YIELDS=2", "LIVES=2"]); fb("full", ["MAXF=3", "FIRST=3", "YIELDS=1"])
fb("late4", ["MAXF=4", "FIRST=2", "LATE=1", "YIELDS=2"], cost=3); fb("late5", ["MAXF=4", "FIRST=2", "LATE=2", "YIELDS=1"]); fb("6", ["MAXF=6", "FIRST=4", "YIELDS=1"]); fb("9", ["MAXF=9", "FIRST=8", "YIELDS=0"]); fb("twice3", ["MAXF=3", "FIRST=2", "YIELDS=1", "LIVES=2"]); fb("4_deep", ["MAXF=4", "FIRST=3", "YIELDS=3"], tier=T); fb("3_deep", ["MAXF=3", "FIRST=3", "YIELDS=3"], cost=2); fb("debug", ["MAXF=3", "FIRST=2", "YIELDS=1"], libdefs=["DEBUG"])

# ---- configurations that the stress tests never select: other processors, large thread ids, fibers on every blocking object ----
FIBX = (("f2", ["FIBERS=2", "NTHREADS=2"], 2, 3), ("f2x2", ["FIBERS=2", "NTHREADS=4", "PIDS=1,2"], 2, 2), ("f2t3", ["FIBERS=2", "NTHREADS=4", "PIDS=0,1,2"], 3, 2))
WIDEX = (("w130", ["NTHREADS=130", "PIDS=2,129"], 2), ("w300", ["NTHREADS=300", "PIDS=130,299"], 2), ("w300b", ["NTHREADS=300", "PIDS=3,259"], 2))
for o in ("CC", "DSM", "H", "OSCI", "OYAMA", "FC"):
    l = o.lower(); D = ["OBJ_" + o]
    for m in (0, 1, 3, 4) if o in ("CC", "DSM", "H") else ():
        sc("comb_%s_model%d" % (l, m), ["C01", "C12"], "combine.c", D + ["NT=2", "OPS=1", "MODEL=%d" % m], opts=R(3, 2), tier=Q if m in (1, 4) else T)
        sc("comb_%s_model%d_2x2" % (l, m), ["C01", "C12"], "combine.c", D + ["NT=2", "OPS=2", "MODEL=%d" % m], opts=R(2, 3), cost=5, tier=Q if m == 1 else T)
        sc("comb_%s_model%d_small" % (l, m), ["C01", "C12"], "combine.c", D + ["NT=3", "OPS=1", "MODEL=%d" % m], libdefs=["SYNCH_VERIFY"], opts=R(2, 3), cost=5, tier=Q if m == 1 else T)
    for x, d, n, r in FIBX if o != "OSCI" else (): sc("comb_%s_%s" % (l, x), ["C01", "C12"], "combine.c", D + ["NT=%d" % n, "OPS=1"] + d, opts=R(r, 3), cost=3)
    for x, d, r in WIDEX: sc("comb_%s_%s" % (l, x), ["C01"], "combine.c", D + ["NT=2", "OPS=1"] + d, opts=R(r, 2), cost=2)
for o, p in (("SIM", "C02"), ("LFU", "C03")):
    for x, d, r in WIDEX: sc("uni_%s_%s" % (o.lower(), x), [p], "universal.c", ["OBJ_" + o, "NT=2", "OPS=1"] + d, opts=R(r), cost=2, tier=Q if o == "SIM" else T)
for x, d, n, r in FIBX: sc("uni_sim_" + x, ["C02"], "universal.c", ["OBJ_SIM", "NT=%d" % n, "OPS=1"] + d, opts=R(r), cost=3)
for p, objs in CONT.items():
    for o in objs:
        l = o.lower(); L = ["RING_POW=1", "SYNCH_VERIFY"] if o == "LCRQ" else []
        for x, d, r in WIDEX if o not in ("MSQ", "LFS") else (): sc("%s_%s" % (l, x), [p], "container.c", ["OBJ_" + o, "NT=2", "OPS=1", "PRE=1"] + d, libdefs=L, opts=R(r), cost=2, tier=Q if x == "w300" else T)
        for m in (0, 1, 3, 4) if o in ("CCQ", "DSMQ", "HQ", "CCS", "DSMS", "HS") else (): sc("%s_model%d" % (l, m), [p, "C12"], "container.c", ["OBJ_" + o, "NT=2", "OPS=1", "PRE=1", "MODEL=%d" % m], opts=R(2), cost=2, tier=Q if m == 1 else T)
        for x, d, n, r in FIBX if o not in ("MSQ", "LFS", "LCRQ", "OSCIQ", "OSCIS") else ():
            sc("%s_%s" % (l, x), [p] + (["C12"] if o not in ("SIMQ", "SIMS") else []), "container.c", ["OBJ_" + o, "NT=%d" % n, "OPS=1", "PRE=1"] + d + (["KINDS=0,1,1"] if n == 3 else []), opts=R(2), cost=3)
for o in ("CLH", "MCS"):
    for x, d, n, r in FIBX: sc("lock_%s_%s" % (o.lower(), x), ["C11", "C12"], "locks.c", ["OBJ_" + o, "NT=%d" % n, "OPS=2"] + d, opts=R(3))
    for x, d, r in WIDEX: sc("lock_%s_%s" % (o.lower(), x), ["C11", "C12"], "locks.c", ["OBJ_" + o, "NT=2", "OPS=2"] + d, opts=R(3))
for o in HASH:
    for x, d, r in WIDEX: sc("hash_%s_%s" % (o.lower(), x), ["C17"], "hash.c", ["OBJ_" + o, "NT=2", "OPS=1", "CELLS=1", "NKEYS=2", "PRE=1", "KINDS=0,1", "KEYS=0,1"] + d, opts=R(2), cost=2)
for x, d, n, r in FIBX: b(x, ["NT=%d" % n, "PHASES=3"] + d, R(3, 8)); b(x + "_leave", ["NT=%d" % n, "PHASES=1", "LEAVE=1", "LIVES=2"] + d, R(3, 8))
for n in (64, 127, 128, 129, 255, 256, 257, 300): b("parties%d" % n, ["NT=2", "PHASES=1", "PARTIES=%d" % n], R(3, 5)); b("parties%d_leave" % n, ["NT=2", "PHASES=0", "LEAVE=1", "PARTIES=%d" % n], R(3, 5))
for o in ("CC", "DSM", "H", "CCQ", "DSMQ", "HQ", "CCS", "DSMS", "HS"):
    for m in (1, 4): sw("model%d" % m, ["C26"], o, ["LO=1", "HI=40", "MODEL=%d" % m], tier=Q if m == 1 else T)
for o in HF: sw("model1_regions", ["C25"], o, ["LO=1", "HI=12", "SPLIT_REGIONS=13", "STRIDES=2", "NODES=2", "MODEL=1"], cost=3)

# ---- C29: command-line arguments ----------------------------------------------------------------------------------
def ar(name, defs, **kw): sc("args_" + name, ["C29"], "args.c", defs, opts=dict(R(1, 1, unwind=60), **W), **kw)
ar("one", ["K=1"]); ar("wrong", ["K=1", "WRONG"]); ar("one_debug", ["K=1"], libdefs=["DEBUG"]);
for k in range(7): ar("two_%d" % k, ["K=2", "FIRST=%d" % k], cost=3); ar("three_%d" % k, ["K=3", "FIRST=%d" % k], cost=9, tier=T)

# ---- C30: statistics of DEBUG builds ------------------------------------------------------------------------------
def stt(name, nt, ops, runs, kinds, o, **kw): sc("stats_" + name, ["C30"], "stats.c", ["NT=%d" % nt, "OPS=%d" % ops, "RUNS=%d" % runs, "KINDS=" + ",".join(map(str, kinds))], libdefs=["DEBUG"], opts=o, **kw)
for k in range(7): # every primitive alone, twice in a row, against each other one
    stt("1_%d" % k, 1, 3, 1, (k, k, k, k), R(1, 1)); stt("again_%d" % k, 1, 2, 2, (k, k, 0, k, k, k), R(1, 1))
    for j in range(k, 7): stt("2_%d%d" % (k, j), 2, 1, 1, (k, k, j, j), R(3, 2)); stt("2x2_%d%d" % (k, j), 2, 2, 1, (5, k, j, 4, j, k), R(2, 2)); stt("3_%d%d" % (k, j), 3, 1, 1, (0, k, 5, j, 4, (k + j) % 7), R(2, 2), tier=Q if (k + j) % 3 == 0 else T)
stt("mixed", 1, 7, 1, (0, 0, 1, 2, 3, 4, 5, 6), R(1, 1)); stt("2_again", 2, 1, 2, (0, 1, 4, 0, 5, 0, 1, 4), R(2, 2))

# ---- other build options: no NUMA support, cache-line padding off, no recycling in pools, emulated primitives ----
NONUMA, COMPACT, NOREC, EMUL = ["!SYNCH_NUMA_SUPPORT"], ["!SYNCH_COMPACT_ALLOCATION"], ["SYNCH_POOL_NODE_RECYCLING_DISABLE"], ["SYNCH_EMULATE_FAA", "SYNCH_EMULATE_SWAP"]
for o in ("CC", "DSM", "H", "OSCI", "OYAMA", "FC"):
    l = o.lower()
    for n, L in (("emul", EMUL), ("nocompact", COMPACT)) + ((("nonuma", NONUMA),) if o == "H" else ()):
        sc("comb_%s_%s" % (l, n), ["C01", "C12"], "combine.c", ["OBJ_" + o, "NT=2", "OPS=2"], libdefs=L, opts=R(2, 3), cost=3); sc("comb_%s_%s_3x1" % (l, n), ["C01", "C12"], "combine.c", ["OBJ_" + o, "NT=3", "OPS=1"], libdefs=L, opts=R(2, 3), cost=3)
for o, p in (("SIM", "C02"), ("LFU", "C03")):
    for n, L in (("emul", EMUL), ("nocompact", COMPACT)): sc("uni_%s_%s" % (o.lower(), n), [p], "universal.c", ["OBJ_" + o, "NT=2", "OPS=1"], libdefs=L, opts=R(3), cost=2)
for p, objs in CONT.items():
    for o in objs:
        l = o.lower(); V = ["RING_POW=1", "SYNCH_VERIFY"] if o == "LCRQ" else []
        for n, L in (("emul", EMUL), ("nocompact", COMPACT), ("norecycle", NOREC)):
            for k in ((0, 1, 0, 1), (1, 0, 1, 0)): sc("%s_%s_%s" % (l, n, "".join("ir"[x] for x in k)), [p], "container.c", ["OBJ_" + o, "NT=2", "OPS=2", "PRE=1", "KINDS=%d,%d,%d,%d" % k], libdefs=V + L, opts=R(2), cost=2)
            sc("value_%s_%s" % (l, n), ["C24"], "container.c", ["OBJ_" + o, "ANYVALUES", "NT=1", "OPS=8", "KINDS=0,0,1,0,1,1,0,1"], libdefs=V + L, opts=R(1, 1, unwind=24))
for o in ("CC", "DSM", "H", "OSCI", "OYAMA", "FC", "LFU", "CLH", "MCS", "CCQ", "DSMQ", "HQ", "OSCIQ", "FCQ", "MSQ", "LCRQ", "CCS", "DSMS", "HS", "OSCIS", "FCS", "LFS", "SIM", "SIMQ", "SIMS") + HASH:
    X = ["CELLS=16"] if o in HASH else []; V = ["RING_POW=1"] if o == "LCRQ" else []
    for n, L in (("nocompact", COMPACT), ("norecycle", NOREC), ("nonuma", NONUMA)): sw(n, ["C26"], o, ["LO=1", "HI=%d" % (9 if o in SIMF else 20)] + X, libdefs=V + L)
    for n in (257, 300, 513, 1025): # beyond the sizes the other scenarios visit
        if o not in SIMF: sw("n%d" % n, ["C26"], o, ["LO=%d" % n, "HI=%d" % n, "ROUNDS=1"] + X, libdefs=V, cost=2, unwind=3000, tier=Q if n in (257, 513) else T)
        elif n < 500: sw("n%d" % n, ["C26"], o, ["LO=%d" % n, "HI=%d" % n, "ROUNDS=1"], cost=5, tier=Q if n == 257 else T)
for o in HF: sw("nonuma_regions", ["C25"], o, ["LO=1", "HI=12", "SPLIT_REGIONS=13", "STRIDES=2"], libdefs=NONUMA, cost=3); sw("nonuma_native", ["C25"], o, ["LO=1", "HI=70", "REGIONS=0", "STRIDES=3"], libdefs=NONUMA, cost=3)
for size in (1, 24, 4096, 12000000): p_("s%d_nocompact" % size, ["STEPS=7", "SIZE=%d" % size], libdefs=COMPACT)
me("pages_nonuma", ["CALLS=1", "MAXALIGN=12"], libdefs=NONUMA); me("twice_nonuma", ["CALLS=2", "MAXALIGN=7"], libdefs=NONUMA)
for n in (1, 2, 3, 7, 8): pl("any%d_nonuma" % n, n, n, 64, 1, libdefs=NONUMA)
for n in (1, 3): rt("%d_nonuma" % n, ["N=%d" % n], libdefs=NONUMA); rt("%d_u2_nonuma" % (2 * n), ["N=%d" % (2 * n), "U=2"], libdefs=NONUMA)

# ---- very long completed sequences around one stalled operation: sequence numbers, tags and pool indices wrap around ----
for o, p in (("SIM", "C02"), ("LFU", "C03"), ("SIMQ", "C05"), ("MSQ", "C06"), ("LCRQ", "C07"), ("SIMS", "C09"), ("LFS", "C10")):
    for m in (9, 260, 1028, 4100): sc("long_%s_%d" % (o.lower(), m), [p], "long.c", ["OBJ_" + o, "NT=2", "M=%d" % m], libdefs=["RING_POW=1", "SYNCH_VERIFY"] if o == "LCRQ" else [], opts=R(2), cost=9, tier=T if m == 4100 or m > 9 and o == "SIMS" or m > 260 and o == "LCRQ" else Q)

NAMES = {s["name"] for s in SCENARIOS}
assert len(NAMES) == len(SCENARIOS)
