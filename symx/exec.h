// Bounded symbolic execution of all threads with symbolic scheduling (lazy sequentialisation, guarded values).
#pragma once
#include "prog.h"
#include <functional>
#include <unordered_set>

struct LoopAct { int hdr, iter = 0, symIter = 0, locIter = 0; bool sym = false, vis = false; Lit wrote = LF, preempted = LF; std::vector<ValId> snap; };
struct Frame { FnInfo *f; std::vector<ValId> regs; std::vector<LoopAct> loops; int blk = 0, idx = 0; int callDst = -1, callN = 0; };
struct Ctx { std::vector<Frame> fr; uint64_t stack = 0; bool fresh = false; }; // a context saved by setjmp, getcontext or swapcontext
struct State { Lit g = LT; std::vector<Frame> fr; bool resumed = false; int atomic = 0; std::vector<int> tok; std::map<uint64_t, Ctx> ctx; int sw = 0; uint64_t hist = 14695981039346656037ull, stack = 0; };
typedef std::vector<int> Key;
struct Alloc { uint64_t base, size; std::string name; Lit freed = LF; bool undef = false; };
struct Cell { uint8_t size; ValId v; };
struct Viol { Lit g; std::string msg, kind; };

struct Config {
    int rounds = 2, closing = 2, unwind = 3, threads = 0, hardLoop = 100000; bool cutViol = false, spinViol = false, noDeadlock = false, undefMalloc = false;
    double timeLimit = 1e9; uint64_t maxNodes = 60000000; int maxAddr = 64; bool verbose = false;
};

struct Engine {
    Aig G; Terms T; Vals V; Prog P; Config cfg;
    Engine() : T(G), V(G, T), P(T, V) { }
    // persistent over passes
    std::map<std::pair<int, Key>, std::pair<uint64_t, uint64_t>> allocMemo; uint64_t heapNext = 0x10000000;
    std::unordered_set<uint64_t> shared; // 8-byte words accessed by two threads, one of them writing
    std::unordered_map<uint64_t, std::string> gstr;
    // per pass
    std::unordered_map<uint64_t, Cell> mem; std::map<uint64_t, Alloc> allocs;
    std::unordered_map<uint64_t, std::pair<uint32_t, uint32_t>> acc; // word -> reader mask, writer mask
    std::map<Key, State> work; std::vector<std::map<Key, State>> stopped; std::vector<Lit> done;
    std::map<std::pair<int, Key>, Lit> stopVar; std::vector<std::pair<std::pair<int, Key>, Lit>> stopList;
    std::map<int, ValId> nondet; std::map<int, std::vector<Lit>> chooseBits; std::map<int, std::pair<int, ValId>> chooseVal; std::map<int, TermId> ndTerm;
    std::vector<Viol> viol; std::map<std::string, Lit> cover; Lit cut = LF; std::set<std::string> cutLocs; Lit segWrote = LF, anyBlocked = LF;
    int tid = 0, seg = 0; bool stopAllowed = false, trackAcc = false; int phase = 0; // 0 setup 1 threads 2 final
    uint64_t nInstr = 0, nStates = 0, nMerges = 0, nStopPts = 0, nBranches = 0; std::map<std::string, uint64_t> fnsSeen;
    std::chrono::steady_clock::time_point t0 = std::chrono::steady_clock::now();
    // concrete mode
    bool concrete = false; std::function<bool(int, const Key &)> stopOracle; std::map<int, uint64_t> ndModel, chModel;
    uint64_t steps = 0; std::vector<std::pair<int, uint64_t>> segSteps; std::vector<std::string> trace; bool wantTrace = false;
    double secs() const { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }

    void resetPass() {
        mem.clear(); allocs.clear(); acc.clear(); work.clear(); stopped.clear(); done.clear(); stopVar.clear(); stopList.clear();
        viol.clear(); cover.clear(); cut = LF; cutLocs.clear(); nInstr = nStates = nMerges = nStopPts = nBranches = 0; segSteps.clear(); trace.clear(); anyBlocked = LF; setupG = LF;
        nondet.clear(); chooseVal.clear(); chooseBits.clear(); ndTerm.clear();
        for (auto &kv : P.gaddr) {
            auto *g = kv.first; uint64_t sz = P.DL->getTypeAllocSize(g->getValueType()); addAlloc(kv.second, sz, g->getName().str(), false);
            if (g->hasInitializer()) writeInit(kv.second, sz, g->getInitializer());
        }
        for (int t = 0; t <= cfg.threads; t++) for (auto &kv : P.tlsOff) {
            auto *g = kv.first; uint64_t sz = P.DL->getTypeAllocSize(g->getValueType()), a = tlsAddr(t, kv.second); addAlloc(a, sz, g->getName().str(), false);
            if (g->hasInitializer()) writeInit(a, sz, g->getInitializer());
        }
    }
    uint64_t tlsAddr(int t, uint64_t off) { return 0x8000000 + (uint64_t)t * 0x10000 + off; }
    void addAlloc(uint64_t a, uint64_t sz, const std::string &n, bool undef) { Alloc x; x.base = a; x.size = sz; x.name = n; x.undef = undef; allocs[a] = x; }
    void initTyped(uint64_t a, llvm::Type *ty, const std::vector<uint8_t> &by, uint64_t off) {
        using namespace llvm;
        if (auto *st = dyn_cast<StructType>(ty)) { auto *sl = P.DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) initTyped(a, st->getElementType(i), by, off + sl->getElementOffset(i)); return; }
        if (auto *at = dyn_cast<ArrayType>(ty)) { if (at->getElementType()->isIntegerTy(8)) { bool z = true; for (uint64_t i = 0; i < at->getNumElements(); i++) if (by[off + i]) z = false; if (z) return; }
            uint64_t es = P.DL->getTypeAllocSize(at->getElementType()); for (uint64_t i = 0; i < at->getNumElements(); i++) initTyped(a, at->getElementType(), by, off + i * es); return; }
        uint64_t n = P.DL->getTypeStoreSize(ty); if (n > 8) return; uint64_t v = 0; for (uint64_t i = 0; i < n; i++) v |= (uint64_t)by[off + i] << (8 * i);
        if (v == 0 && n < 8) { /* keep explicit zero cells small in number */ }
        mem[a + off] = {(uint8_t)n, V.cst(8 * n, v)};
    }
    void writeInit(uint64_t a, uint64_t sz, const llvm::Constant *c) { if (c->isNullValue()) return; std::vector<uint8_t> by(sz, 0); P.initBytes(c, by, 0); initTyped(a, c->getType(), by, 0); gstr[a] = std::string((char *)by.data(), by.size()); }

    // ---------- memory ----------
    Alloc *find(uint64_t a, uint64_t n) { auto it = allocs.upper_bound(a); if (it == allocs.begin()) return nullptr; --it; if (a >= it->second.base && a + n <= it->second.base + it->second.size) return &it->second; return nullptr; }
    std::vector<uint64_t> overlaps(uint64_t a, int n) { std::vector<uint64_t> r; for (uint64_t x = a - 7; x < a + n; x++) { auto it = mem.find(x); if (it != mem.end() && x + it->second.size > a) r.push_back(x); } return r; }
    ValId uninit(uint64_t a, int n) {
        Alloc *al = find(a, n);
        if (al && al->undef && !concrete) return V.one(T.var(8 * n, "undef"));
        return V.cst(8 * n, 0);
    }
    void splitCell(uint64_t x, int piece) { Cell c = mem[x]; mem.erase(x); for (int k = 0; k < c.size / piece; k++) { ValId s = k ? V.binop(LT, T_LSHR, 8 * c.size, c.v, V.cst(8 * c.size, 8 * piece * k)) : c.v; mem[x + k * piece] = {(uint8_t)piece, V.unop(T_TRUNC, 8 * piece, s)}; } }
    ValId &cell(uint64_t a, int n) {
        auto it = mem.find(a); if (it != mem.end() && it->second.size == n) return it->second.v;
        auto ov = overlaps(a, n);
        if (ov.empty()) { Cell c{(uint8_t)n, uninit(a, n)}; return (mem[a] = c).v; }
        if (ov.size() == 1 && ov[0] <= a && ov[0] + mem[ov[0]].size >= a + n) { int cs = mem[ov[0]].size; splitCell(ov[0], (cs % n == 0 && (a - ov[0]) % n == 0) ? n : 1); if (mem.count(a) && mem[a].size == n) return mem[a].v; ov = overlaps(a, n); }
        for (auto x : ov) if (x < a || x + mem[x].size > a + n) splitCell(x, 1);
        ValId v = 0; uint64_t p = a;
        while (p < a + n) {
            ValId piece; int sz; auto f = mem.find(p);
            if (f != mem.end()) { piece = f->second.v; sz = f->second.size; mem.erase(f); } else { sz = 1; while (p + sz < a + n && !mem.count(p + sz)) sz++; while (sz & (sz - 1)) sz--; if (sz > 8) sz = 8; piece = uninit(p, sz); }
            ValId z = V.unop(T_ZEXT, 8 * n, piece); if (p > a) z = V.binop(LT, T_SHL, 8 * n, z, V.cst(8 * n, 8 * (p - a)));
            v = v ? V.binop(LT, T_OR, 8 * n, v, z) : z; p += sz;
        }
        Cell c{(uint8_t)n, v}; return (mem[a] = c).v;
    }
    void note(uint64_t a, int n, bool w) { if (!trackAcc) return; for (uint64_t x = a >> 3; x <= (a + n - 1) >> 3; x++) { auto &p = acc[x]; (w ? p.second : p.first) |= 1u << tid; } }
    void addViol(Lit g, const std::string &msg, const std::string &kind) { for (auto &v : viol) if (v.msg == msg) { v.g = G.Or(v.g, g); return; } viol.push_back({g, msg, kind}); }
    // addresses that are valid for the access; the state's guard is restricted to them
    std::vector<std::pair<uint64_t, Lit>> addrs(State &s, ValId av, int n, const Ins &in, bool w) {
        av = V.filter(s.g, av); std::vector<std::pair<uint64_t, Lit>> r; Lit bad = LF;
        for (uint32_t i = 0; i < V.size(av); i++) {
            Entry e = V.begin(av)[i];
            if (!T.isC(e.t)) { // computed from symbolic data: out-of-object query first, then enumerate the in-object values
                Lit ge = G.And(s.g, e.g); const std::vector<Lit> bt = T.blast(e.t); Lit inside = LF;
                for (auto &kv : allocs) { if (kv.second.size < (uint64_t)n) continue; TermId lo = T.op(T_UGE, 1, e.t, T.cst(64, kv.first)), hi = T.op(T_ULE, 1, e.t, T.cst(64, kv.first + kv.second.size - n)); inside = G.Or(inside, G.And(T.lit(lo), T.lit(hi))); }
                Lit out = G.And(ge, lnot(inside));
                if (out != LF && G.feasible(out, LT)) { addViol(out, std::string(w ? "write to " : "read from ") + "address outside any live object at " + in.loc, "memory"); bad = G.Or(bad, G.And(e.g, lnot(inside))); }
                Lit rest = G.And(ge, inside); int cnt = 0;
                while (rest != LF) {
                    int q = G.solve({rest}, -1); if (q != 1) break;
                    uint64_t a = 0; std::function<bool(Lit)> ev = [&](Lit l) -> bool { uint32_t nn = l >> 1; bool v; if (nn == 0) v = false; else if (G.nodes[nn].a == ~0u) v = G.modelOf(nn); else if (nn < G.satvar.size() && G.satvar[nn] >= 0) v = G.S->model[G.satvar[nn]] == Minisat::lbool((uint8_t)0); else v = ev(G.nodes[nn].a) && ev(G.nodes[nn].b); return v ^ (l & 1); };
                    for (int b = 0; b < 64; b++) if (ev(bt[b])) a |= 1ull << b;
                    Lit eq = T.lit(T.op(T_EQ, 1, e.t, T.cst(64, a))); if (++cnt > cfg.maxAddr) throw Unsupported("more than " + std::to_string(cfg.maxAddr) + " addresses at " + in.loc);
                    Alloc *al = find(a, n); if (!al) throw Unsupported("address enumeration"); Lit c = G.And(e.g, eq);
                    if (al->freed != LF) { Lit u = G.And(G.And(s.g, c), al->freed); if (u != LF && G.feasible(u, LT)) addViol(u, "access to freed memory (" + al->name + ") at " + in.loc, "memory"); }
                    note(a, n, w); r.push_back({a, c}); rest = G.And(rest, lnot(eq));
                }
                continue; }
            uint64_t a = T.cv(e.t); Alloc *al = find(a, n);
            if (!al) { bad = G.Or(bad, e.g); char b[64]; snprintf(b, 64, "%s", a < 4096 ? "null pointer" : "address outside any live object"); addViol(G.And(s.g, e.g), std::string(w ? "write to " : "read from ") + b + " at " + in.loc, "memory"); continue; }
            if (al->freed != LF) { Lit u = G.And(G.And(s.g, e.g), al->freed); if (u != LF && G.feasible(u, LT)) { addViol(u, "access to freed memory (" + al->name + ") at " + in.loc, "memory"); } }
            note(a, n, w); r.push_back({a, e.g});
        }
        if (bad != LF) { s.g = G.And(s.g, lnot(bad)); if (r.empty() || !G.feasible(s.g, LT)) throw Infeasible(); }
        return r;
    }
    ValId load(State &s, const std::vector<std::pair<uint64_t, Lit>> &as, int n) {
        if (as.size() == 1) return V.filter(s.g, cell(as[0].first, n));
        std::vector<Entry> e;
        for (auto &a : as) { ValId c = cell(a.first, n); for (uint32_t i = 0; i < V.size(c); i++) { Entry x = V.begin(c)[i]; x.g = G.And(x.g, a.second); if (x.g != LF && (V.size(c) == 1 || G.feasible(s.g, x.g))) e.push_back(x); } }
        return V.make(e);
    }
    Lit store(State &s, const std::vector<std::pair<uint64_t, Lit>> &as, int n, ValId v, Lit extra) { // returns guard under which something changed
        Lit w = LF;
        for (auto &a : as) {
            Lit c = G.And(G.And(s.g, a.second), extra); if (c == LF) continue;
            ValId &cl = cell(a.first, n); ValId nv = V.merge(c, v, lnot(c), cl);
            if (nv != cl) { cl = nv; w = G.Or(w, c); }
        }
        return w;
    }
    void wrote(State &s, Lit w) { if (w == LF) return; segWrote = G.Or(segWrote, w); for (auto &f : s.fr) for (auto &l : f.loops) l.wrote = G.Or(l.wrote, w); }

    // ---------- values ----------
    ValId val(const Frame &f, const Opnd &o) { if (o.reg >= 0) { ValId v = f.regs[o.reg]; if (!v) throw std::runtime_error("undefined register in " + f.f->name); return v; } if (o.tls != ~0ull) return V.cst(64, tlsAddr(tid, o.tls)); return o.c; }
    Key keyOf(const State &s) {
        Key k; if (s.sw) { k.push_back(0x70000000 + s.sw); k.push_back((int)(s.hist & 0x7fffffff)); k.push_back((int)(s.hist >> 33)); } for (int t : s.tok) k.push_back(0x50000000 + t); if (s.atomic) k.push_back(0x60000000 + s.atomic); for (auto &f : s.fr) { for (auto &l : f.loops) { k.push_back(l.hdr); k.push_back(l.iter); } k.push_back(f.blk); k.push_back(f.idx); if (&f != &s.fr.back()) k.push_back(0x40000000 + s.fr[&f - &s.fr[0] + 1].f->id); }
        return k;
    }
    void mergeInto(State &a, State &b) {
        nMerges++; mergeFrames(a, b, a.fr, b.fr, true);
        for (auto &kv : a.ctx) { auto it = b.ctx.find(kv.first); if (it != b.ctx.end()) mergeFrames(a, b, kv.second.fr, it->second.fr, false); }
        a.g = G.Or(a.g, b.g);
    }
    void mergeFrames(State &a, State &b, std::vector<Frame> &af, std::vector<Frame> &bf, bool top) {
        for (size_t i = 0; i < af.size(); i++) {
            Frame &x = af[i], &y = bf[i]; auto &lv = x.f->blks[x.blk].live[i + 1 == af.size() && (top || x.idx == 0) ? x.idx : x.idx + 1];
            for (int r : lv) if (x.regs[r] != y.regs[r]) { if (!x.regs[r] || !y.regs[r]) { if (!x.regs[r]) x.regs[r] = y.regs[r]; continue; } x.regs[r] = V.merge(a.g, x.regs[r], b.g, y.regs[r]); }
            for (size_t l = 0; l < x.loops.size(); l++) {
                LoopAct &p = x.loops[l], &q = y.loops[l]; p.symIter = std::max(p.symIter, q.symIter); p.locIter = std::max(p.locIter, q.locIter); p.sym |= q.sym; p.vis |= q.vis;
                if (p.wrote != q.wrote) p.wrote = G.Or(G.And(a.g, p.wrote), G.And(b.g, q.wrote));
                if (p.preempted != q.preempted) p.preempted = G.Or(G.And(a.g, p.preempted), G.And(b.g, q.preempted));
                for (size_t v = 0; v < p.snap.size(); v++) p.snap[v] = V.merge(a.g, p.snap[v], b.g, q.snap[v]);
            }
        }
    }
    // ---------- contexts: setjmp/longjmp, ucontext ----------
    void saveCtx(State &s, uint64_t at) { for (auto &f : s.fr) for (auto &l : f.loops) l.wrote = LT; Ctx c; c.fr = s.fr; c.stack = s.stack; s.ctx[at] = std::move(c); }
    void jumpCtx(State &s, uint64_t at, int rv, const Ins &in) {
        auto it = s.ctx.find(at); if (it == s.ctx.end()) { addViol(s.g, "a jump to a context that was never saved at " + in.loc, "memory"); return; }
        for (int x : keyOf(s)) { s.hist ^= (uint32_t)x; s.hist *= 1099511628211ull; } s.sw++;
        if (s.sw > 20000) { cut = G.Or(cut, s.g); cutLocs.insert("context switches"); if (cfg.cutViol && phase == 1) addViol(s.g, "fibers do not finish within the bound on switches", "wait"); return; }
        s.fr = it->second.fr; s.stack = it->second.stack;
        if (s.stack) { auto al = allocs.find(s.stack); if (al != allocs.end() && al->second.freed != LF) { Lit b = G.And(s.g, al->second.freed); if (b != LF && G.feasible(b, LT)) { addViol(b, "a context continues on a released stack at " + in.loc, "memory"); s.g = G.And(s.g, lnot(b)); if (s.g == LF) return; } } }
        if (!it->second.fresh) { Frame &f = s.fr.back(); Ins &c = f.f->blks[f.blk].ins[f.idx]; if (c.dst >= 0) f.regs[c.dst] = V.cst(c.width, rv); f.idx++; }
        push(work, std::move(s));
    }
    void push(std::map<Key, State> &m, State &&s) {
        if (s.g == LF) return;
        Key k = keyOf(s); auto it = m.find(k);
        if (it == m.end()) m.emplace(std::move(k), std::move(s)); else mergeInto(it->second, s);
    }
    // take CFG edge from current block of top frame to block b
    void edge(State &&s, int b) {
        Frame &f = s.fr.back(); int from = f.blk; FnInfo *fi = f.f; Blk &B = fi->blks[b];
        // loops: keep the common prefix
        size_t keep = 0; while (keep < f.loops.size() && keep < B.loops.size() && f.loops[keep].hdr == B.loops[keep]) keep++;
        f.loops.resize(keep);
        bool back = B.isHdr && keep == B.loops.size() && keep > 0 && f.loops.back().hdr == b && (f.loops.back().hdr == from || contains(fi->blks[from], b));
        std::vector<ValId> nv;
        for (auto &p : B.phis) { ValId v = 0; for (auto &e : p.in) if (e.first == from) v = val(f, e.second); nv.push_back(v); }
        if (back) {
            LoopAct &l = f.loops.back(); bool same = l.snap == nv;
            if (!same && l.snap.size() == nv.size()) { same = true; for (size_t i = 0; i < nv.size() && same; i++) if (l.snap[i] != nv[i]) { if (V.filter(s.g, l.snap[i]) != V.filter(s.g, nv[i])) same = false; } }
            if (same && phase == 1) {
                Lit prog = G.Or(l.wrote, l.preempted); Lit blk = G.And(s.g, lnot(prog));
                if (blk != LF && G.feasible(blk, LT)) {
                    State q = s; q.g = blk; Frame &qf = q.fr.back(); LoopAct &ql = qf.loops.back(); for (auto &pf : q.fr) for (auto &pl : pf.loops) if (pl.vis) pl.preempted = LT; /* others run before the enclosing iteration ends */ ql.vis = false; ql.wrote = LF; ql.preempted = LF;
                    for (size_t i = 0; i < nv.size(); i++) qf.regs[B.phis[i].dst] = nv[i];
                    qf.blk = b; qf.idx = 0; q.resumed = true;
                    if (cfg.spinViol) { auto &in = B.ins[0]; addViol(blk, "operation waits for another thread (loop in " + fi->name + ")", "wait"); (void)in; }
                    push(stopped[tid], std::move(q));
                    s.g = G.And(s.g, prog);
                    if (s.g == LF || !G.feasible(s.g, LT)) return;
                }
            }
            bool loc = false; // an iteration without shared accesses (say, a search through a private word) is no attempt: it only counts towards a generous bound
            if (cfg.cutViol && phase == 1) {
                loc = l.sym && !l.vis && cfg.threads > 1; auto k = std::make_tuple(seg, keyOf(s), b); // a replayed run counts the same iterations
                if (!concrete) { if (loc) locIters.insert(k); else if (l.sym) symIters.insert(k); } else if (replayStops) { loc = locIters.count(k); l.sym = loc || symIters.count(k); }
            }
            l.iter++; if (loc) l.locIter++; else if (l.sym) l.symIter++; l.sym = false; l.wrote = LF; l.preempted = LF; l.vis = false; l.snap = nv;
            if (l.symIter > cfg.unwind || l.locIter > 200 || l.iter > cfg.hardLoop) {
                cut = G.Or(cut, s.g); cutLocs.insert(fi->name + "/" + B.name);
                if (cfg.cutViol && phase == 1) addViol(s.g, "operation does not finish within the step bound (loop in " + fi->name + ")", "wait");
                return;
            }
        } else if (B.isHdr) { LoopAct l; l.hdr = b; l.snap = nv; f.loops.push_back(l); if (f.loops.size() != B.loops.size()) throw Unsupported("loop nest in " + fi->name); }
        for (size_t i = 0; i < nv.size(); i++) f.regs[B.phis[i].dst] = nv[i];
        f.blk = b; f.idx = 0; push(work, std::move(s));
    }
    static bool contains(const Blk &b, int h) { for (int x : b.loops) if (x == h) return true; return false; }
    bool sharedAddr(State &s, ValId av, int n) { for (uint32_t i = 0; i < V.size(av); i++) { Entry e = V.begin(av)[i]; if (!T.isC(e.t)) return true; uint64_t a = T.cv(e.t); for (uint64_t x = a >> 3; x <= (a + n - 1) >> 3; x++) if (shared.count(x)) { if (V.size(av) == 1 || G.feasible(s.g, e.g)) return true; } } return false; }
    const std::set<std::pair<int, Key>> *replayStops = nullptr;
    bool visible(State &s, const Ins &in) {
        if (phase != 1 || s.atomic) return false;
        if (in.op == I_CALL && in.callee && in.name == "vf_op_begin") return true;
        if (!in.mem() && in.op != I_CAS128) return false;
        if (sharedAddr(s, val(s.fr.back(), in.o[0]), in.size)) return true;
        return concrete && replayStops && replayStops->count({seg, keyOf(s)}); // the symbolic state was merged with one that could stop here
    }
    std::string cstr(uint64_t a) { auto it = gstr.find(a); if (it == gstr.end()) return "?"; return std::string(it->second.c_str()); }

    void ret(State &s, std::vector<ValId> rv) {
        int d = s.fr.back().callDst, n = s.fr.back().callN; s.fr.pop_back();
        if (s.fr.empty()) { if (phase == 1) done[tid] = G.Or(done[tid], s.g); else if (phase == 0) setupG = G.Or(setupG, s.g); return; }
        Frame &f = s.fr.back(); if (d >= 0) for (int i = 0; i < n; i++) f.regs[d + i] = rv[i];
        f.idx++; push(work, std::move(s));
    }
    uint64_t alloc(State &s, uint64_t size, uint64_t align, const std::string &name, bool undef) {
        Key k = keyOf(s); auto mk = std::make_pair(phase == 1 ? tid : 100 + phase, k); auto it = allocMemo.find(mk); uint64_t a;
        if (it != allocMemo.end() && it->second.second >= size) a = it->second.first;
        else { if (align < 64) align = 64; heapNext = (heapNext + align - 1) / align * align; a = heapNext; heapNext += (size + 63) / 64 * 64 + 256; allocMemo[mk] = {a, size}; }
        if (!allocs.count(a)) addAlloc(a, size, name, undef);
        return a;
    }
    uint64_t cval(State &s, const Opnd &o, const char *what) { ValId v = V.filter(s.g, val(s.fr.back(), o)); uint64_t c; if (!V.isConst(v, c)) throw Unsupported(std::string("symbolic ") + what + " in " + s.fr.back().f->name); return c; }
    bool builtin(State &s, const Ins &in, bool &dead) { // true if handled
        const std::string &n = in.name; Frame &f = s.fr.back(); size_t a0 = 0;
        auto setR = [&](ValId v) { if (in.dst >= 0) f.regs[in.dst] = v; };
        auto zero = [&]() { if (in.dst >= 0) f.regs[in.dst] = V.cst(in.width, 0); };
        if (n == "vf_nondet") {
            int id = cval(s, in.o[a0], "nondet id"); if (!nondet.count(id)) { if (concrete) nondet[id] = V.cst(64, ndModel.count(id) ? ndModel[id] : 0); else { TermId t = T.var(64, "nd" + std::to_string(id)); ndTerm[id] = t; nondet[id] = V.one(t); } }
            setR(nondet[id]); return true; }
        if (n == "vf_choose") {
            int id = cval(s, in.o[0], "choose id"); int m = cval(s, in.o[1], "choose bound");
            if (!chooseVal.count(id)) {
                if (concrete) chooseVal[id] = {m, V.cst(32, chModel.count(id) ? chModel[id] : 0)};
                else { std::vector<Entry> e; Lit rest = LT; std::vector<Lit> sel; for (int i = 0; i < m; i++) { Lit c = i + 1 == m ? rest : G.And(rest, i == m - 2 ? G.newInput(0) : G.newInput(0)); e.push_back({T.cst(32, i), c}); sel.push_back(c); rest = G.And(rest, lnot(c)); } chooseBits[id] = sel; chooseVal[id] = {m, V.make(e)}; }
            }
            setR(chooseVal[id].second); return true; }
        if (n == "vf_assume") { Lit c = cond(s, in.o[0]); s.g = G.And(s.g, c); if (s.g == LF || !G.feasible(s.g, LT)) dead = true; return true; }
        if (n == "vf_assert") { Lit c = cond(s, in.o[0]); Lit b = G.And(s.g, lnot(c)); std::string m = cstr(cval(s, in.o[1], "assert message")); addViol(b, m, "assert"); if (b != LF) { s.g = G.And(s.g, c); if (s.g == LF) dead = true; } asserts++; return true; }
        if (n == "vf_atomic") { s.atomic = (int)cval(s, in.o[0], "atomic flag"); return true; }
        if (n == "vf_cover") { Lit c = cond(s, in.o[0]); std::string m = cstr(cval(s, in.o[1], "cover message")); Lit &x = cover[m]; x = G.Or(x, G.And(s.g, c)); return true; }
        if (n == "vf_now" || n == "vf_op_begin") { setR(V.cst(in.width, seg)); if (n == "vf_op_begin") steps++; return true; }
        if (n == "vf_tid") { setR(V.cst(in.width, tid)); return true; }
        if (n == "vf_done") { int t = cval(s, in.o[0], "tid"); setR(V.unop(T_ZEXT, in.width, V.fromLit(done[t]))); return true; }
        if (n == "malloc" || n == "numa_alloc_local" || n == "numa_alloc" || n == "numa_alloc_onnode" || n == "numa_alloc_interleaved" || n == "valloc" || n == "vf_alloc") { uint64_t sz = cval(s, in.o[0], "allocation size"); setR(V.cst(64, alloc(s, sz, n == "malloc" || n == "vf_alloc" ? 16 : 4096, n, n == "malloc" && cfg.undefMalloc))); return true; }
        if (n == "calloc") { uint64_t sz = cval(s, in.o[0], "allocation size") * cval(s, in.o[1], "allocation size"); setR(V.cst(64, alloc(s, sz, 16, n, false))); return true; }
        if (n == "memalign" || n == "aligned_alloc") { uint64_t al = cval(s, in.o[0], "alignment"), sz = cval(s, in.o[1], "allocation size"); setR(V.cst(64, alloc(s, sz, al, n, cfg.undefMalloc))); return true; }
        if (n == "_setjmp" || n == "setjmp" || n == "__sigsetjmp" || n == "getcontext") { saveCtx(s, cval(s, in.o[0], "context")); zero(); return true; }
        if (n == "_longjmp" || n == "longjmp" || n == "siglongjmp") { int v = cval(s, in.o[1], "longjmp value"); jumpCtx(s, cval(s, in.o[0], "context"), v ? v : 1, in); dead = true; return true; }
        if (n == "setcontext") { jumpCtx(s, cval(s, in.o[0], "context"), 0, in); dead = true; return true; }
        if (n == "swapcontext") { uint64_t o = cval(s, in.o[0], "context"), q = cval(s, in.o[1], "context"); saveCtx(s, o); jumpCtx(s, q, 0, in); dead = true; return true; }
        if (n == "makecontext") {
            uint64_t at = cval(s, in.o[0], "context"), fa = cval(s, in.o[1], "context function"), sp = 0, sz = 0; auto it = P.byAddr.find(fa); if (it == P.byAddr.end()) throw Unsupported("makecontext");
            if (!V.isConst(V.filter(s.g, cell(at + 16, 8)), sp) || !V.isConst(V.filter(s.g, cell(at + 32, 8)), sz)) throw Unsupported("symbolic context stack");
            auto al = allocs.find(sp); if (al == allocs.end() || al->second.size < sz || sz < 4096) addViol(s.g, "a context's stack is not inside an allocated block at " + in.loc, "memory");
            Ctx c; c.fresh = true; c.stack = sp; P.get(it->second); Frame nf; nf.f = it->second; nf.regs.assign(it->second->nregs, 0);
            for (size_t i = 0; i < it->second->argRegs.size(); i++) nf.regs[it->second->argRegs[i]] = i + 3 < in.o.size() ? val(f, in.o[i + 3]) : V.cst(64, 0);
            if (it->second->blks[0].isHdr) { LoopAct l; l.hdr = 0; nf.loops.push_back(l); }
            c.fr.push_back(std::move(nf)); s.ctx[at] = std::move(c); return true; }
        if (n == "free" || n == "numa_free") {
            uint64_t fsz = 0; if (n == "numa_free") fsz = cval(s, in.o[1], "size of a release");
            ValId av = V.filter(s.g, val(f, in.o[0]));
            for (uint32_t i = 0; i < V.size(av); i++) { Entry e = V.begin(av)[i]; if (T.isC(e.t) && T.cv(e.t) == 0) continue; auto it = T.isC(e.t) ? allocs.find(T.cv(e.t)) : allocs.end(); Lit c = G.And(s.g, e.g);
                if (it == allocs.end()) { addViol(c, "free of a pointer that is not the start of an allocation at " + in.loc, "memory"); continue; }
                if (n == "numa_free" && (fsz + 4095) / 4096 != (it->second.size + 4095) / 4096 && c != LF && G.feasible(c, LT)) addViol(c, "a block is released with another size than it was allocated with at " + in.loc, "memory");
                if (s.stack && it->first == s.stack && c != LF && G.feasible(c, LT)) addViol(c, "a stack is released by the fiber running on it at " + in.loc, "memory");
                Lit dbl = G.And(c, it->second.freed); if (dbl != LF && G.feasible(dbl, LT)) addViol(dbl, "double free at " + in.loc, "memory"); it->second.freed = G.Or(it->second.freed, c); wrote(s, c); }
            return true; }
        if (n == "abort" || n == "__assert_fail") { addViol(s.g, "abort or failed assertion reached at " + in.loc, "memory"); dead = true; return true; }
        if (n == "exit" || n == "_exit") { addViol(s.g, "the library terminated the program at " + in.loc, "memory"); dead = true; return true; }
        if (n == "printf" || n == "fprintf" || n == "puts" || n == "perror" || n == "fflush" || n == "sched_yield" || n == "usleep" || n == "putchar" || n == "fputs" || n == "fwrite" || n == "nanosleep" || n == "pthread_yield") { zero(); return true; }
        if (n.compare(0, 5, "llvm.") == 0 && (n == "llvm.umin" || n == "llvm.umax" || n == "llvm.smin" || n == "llvm.smax")) {
            ValId a = val(f, in.o[0]), b = val(f, in.o[1]); int o = n == "llvm.umin" ? T_ULT : n == "llvm.umax" ? T_UGT : n == "llvm.smin" ? T_SLT : T_SGT;
            Lit c = V.lit(V.binop(s.g, o, 1, a, b)); setR(V.merge(c, a, lnot(c), b)); return true; }
        return false;
    }
    uint64_t asserts = 0;
    Lit cond(State &s, const Opnd &o) { ValId v = val(s.fr.back(), o); int w = V.width(v); if (w == 1) return V.lit(v); return V.lit(V.binop(s.g, T_NE, 1, v, V.cst(w, 0))); }
    void enter(State &s, FnInfo *fi, const std::vector<ValId> &args, int dst, int n) {
        P.get(fi); if (fi->blks.empty()) throw Unsupported("call to external function " + fi->name);
        if (s.fr.size() > 40) throw Unsupported("recursion depth");
        fnsSeen[fi->name]++;
        Frame nf; nf.f = fi; nf.regs.assign(fi->nregs, 0); for (size_t i = 0; i < fi->argRegs.size(); i++) nf.regs[fi->argRegs[i]] = i < args.size() ? args[i] : V.cst(64, 0); nf.callDst = dst; nf.callN = n;
        if (fi->blks[0].isHdr) { LoopAct l; l.hdr = 0; nf.loops.push_back(l); }
        s.fr.push_back(std::move(nf)); push(work, std::move(s));
    }
    void markVis(State &s) { for (auto &f : s.fr) for (auto &l : f.loops) l.vis = true; }
    void markSym(State &s, int b1, int b2) { // a two-way branch: the loops left by one of the two sides become "symbolic"
        Frame &f = s.fr.back(); for (auto &l : f.loops) { if (contains(f.f->blks[b1], l.hdr) != contains(f.f->blks[b2], l.hdr)) l.sym = true; }
    }
    void run(State s) {
        nStates++;
        // stop choice
        {
            Frame &f = s.fr.back(); Ins &in = f.f->blks[f.blk].ins[f.idx];
            if (visible(s, in)) {
                if (stopAllowed) {
                    Key k = keyOf(s); Lit c; nStopPts++;
                    if (concrete) c = stopOracle(seg, k) ? LT : LF;
                    else { auto kk = std::make_pair(seg, k); auto it = stopVar.find(kk); if (it == stopVar.end()) { c = G.newInput(1); stopVar[kk] = c; stopList.push_back({kk, c}); } else c = it->second; }
                    if (c != LF) {
                        State q = s; q.g = G.And(s.g, c); q.resumed = true;
                        for (auto &qf : q.fr) for (auto &l : qf.loops) if (l.vis) l.preempted = LT;
                        push(stopped[tid], std::move(q));
                    }
                    s.g = G.And(s.g, lnot(c)); if (s.g == LF) return;
                }
                markVis(s);
            }
        }
        bool first = true;
        for (;;) {
            Frame &f = s.fr.back(); Ins &in = f.f->blks[f.blk].ins[f.idx];
            if (!first && visible(s, in)) { push(work, std::move(s)); return; }
            first = false; nInstr++;
            if ((nInstr & 1023) == 0) { if (secs() > cfg.timeLimit) throw std::runtime_error("time limit"); if (G.nodes.size() > cfg.maxNodes) throw std::runtime_error("formula size limit"); }
            if (in.mem()) steps++;
            if (wantTrace && concrete && in.mem()) { uint64_t a = 0; V.isConst(val(f, in.o[0]), a); char b[200]; snprintf(b, 200, "seg %d t%d %s %s @%llx", seg, tid, in.loc.c_str(), in.name.c_str(), (unsigned long long)a); trace.push_back(b); }
            switch (in.op) {
            case I_BIN: case I_CMP: {
                ValId a = val(f, in.o[0]), b = val(f, in.o[1]);
                if (in.op == I_BIN && (in.sub == T_UDIV || in.sub == T_SDIV || in.sub == T_UREM || in.sub == T_SREM)) {
                    Lit z = V.lit(V.binop(s.g, T_EQ, 1, b, V.cst(V.width(b), 0))); Lit bad = G.And(s.g, z);
                    if (bad != LF && G.feasible(bad, LT)) { addViol(bad, "division by zero at " + in.loc, "memory"); s.g = G.And(s.g, lnot(z)); if (s.g == LF || !G.feasible(s.g, LT)) return; a = V.filter(s.g, a); b = V.filter(s.g, b); }
                }
                f.regs[in.dst] = V.binop(s.g, in.sub, in.op == I_CMP ? 1 : in.width, a, b); break; }
            case I_CAST: { ValId a = val(f, in.o[0]); f.regs[in.dst] = V.unop(in.sub, in.width, a); break; }
            case I_COPY: f.regs[in.dst] = val(f, in.o[0]); break;
            case I_SELECT: { Lit c = cond(s, in.o[0]); ValId a = val(f, in.o[1]), b = val(f, in.o[2]); f.regs[in.dst] = c == LT ? a : c == LF ? b : V.merge(c, a, lnot(c), b); break; }
            case I_GEP: {
                ValId p = val(f, in.o[0]);
                for (size_t i = 1; i < in.o.size(); i++) { ValId x = val(f, in.o[i]); if (V.width(x) < 64) x = V.unop(T_SEXT, 64, x); x = V.binop(s.g, T_MUL, 64, x, V.cst(64, in.sc[i - 1])); p = V.binop(s.g, T_ADD, 64, p, x); }
                if (in.k) p = V.binop(s.g, T_ADD, 64, p, V.cst(64, in.k));
                f.regs[in.dst] = p; break; }
            case I_ALLOCA: f.regs[in.dst] = V.cst(64, alloc(s, in.k, in.size, "local", !concrete)); break;
            case I_TLS: f.regs[in.dst] = V.cst(64, tlsAddr(tid, in.k)); break;
            case I_LOAD: { auto as = addrs(s, val(f, in.o[0]), in.size, in, false); ValId v = load(s, as, in.size); if (in.width < 8 * in.size) v = V.unop(T_TRUNC, in.width, v); s.fr.back().regs[in.dst] = v; break; }
            case I_STORE: { auto as = addrs(s, val(f, in.o[0]), in.size, in, true); ValId v = V.filter(s.g, val(s.fr.back(), in.o[1])); if (in.width < 8 * in.size) v = V.unop(T_ZEXT, 8 * in.size, v); wrote(s, store(s, as, in.size, v, LT)); break; }
            case I_RMW: {
                auto as = addrs(s, val(f, in.o[0]), in.size, in, true); for (auto &a : as) note(a.first, in.size, false);
                ValId old = load(s, as, in.size), x = V.filter(s.g, val(s.fr.back(), in.o[1])); ValId nv = in.sub == 255 ? x : V.binop(s.g, in.sub, 8 * in.size, old, x);
                wrote(s, store(s, as, in.size, nv, LT)); s.fr.back().regs[in.dst] = old; break; }
            case I_CMPXCHG: {
                auto as = addrs(s, val(f, in.o[0]), in.size, in, true); ValId old = load(s, as, in.size), ex = val(s.fr.back(), in.o[1]), nw = V.filter(s.g, val(s.fr.back(), in.o[2]));
                Lit eq = V.lit(V.binop(s.g, T_EQ, 1, old, ex)); wrote(s, store(s, as, in.size, nw, eq));
                s.fr.back().regs[in.dst] = old; s.fr.back().regs[in.dst + 1] = V.fromLit(eq); break; }
            case I_CAS128: {
                auto as = addrs(s, val(f, in.o[0]), 16, in, true); auto as2 = as; for (auto &a : as2) a.first += 8;
                for (auto &a : as) if (a.first & 15) { addViol(G.And(s.g, a.second), "misaligned 16-byte compare-and-swap at " + in.loc, "memory"); }
                ValId lo = load(s, as, 8), hi = load(s, as2, 8); Frame &g = s.fr.back();
                Lit eq = G.And(V.lit(V.binop(s.g, T_EQ, 1, lo, val(g, in.o[1]))), V.lit(V.binop(s.g, T_EQ, 1, hi, val(g, in.o[2]))));
                ValId n0 = V.filter(s.g, val(g, in.o[3])), n1 = V.filter(s.g, val(g, in.o[4]));
                Lit w = store(s, as, 8, n0, eq); w = G.Or(w, store(s, as2, 8, n1, eq)); wrote(s, w);
                for (int k = 0; k < in.b2; k++) g.regs[in.k + k] = V.cst(64, 0);
                g.regs[in.dst] = V.unop(T_ZEXT, in.width, V.fromLit(eq)); break; }
            case I_NOP: break;
            case I_UNREACH: return;
            case I_BR: edge(std::move(s), in.b1); return;
            case I_CBR: {
                Lit c = cond(s, in.o[0]); Lit g1 = G.And(s.g, c), g2 = G.And(s.g, lnot(c)); nBranches++;
                bool f1 = c != LF && G.feasible(s.g, c), f2 = c != LT && G.feasible(s.g, lnot(c));
                if (f1 && f2) { markSym(s, in.b1, in.b2); State q = s; q.g = g2; s.g = g1; edge(std::move(s), in.b1); edge(std::move(q), in.b2); }
                else if (f1) edge(std::move(s), in.b1); else if (f2) edge(std::move(s), in.b2);
                return; }
            case I_SWITCH: {
                ValId v = val(f, in.o[0]); Lit rest = s.g; std::vector<std::pair<int, Lit>> out;
                for (auto &c : in.cases) { Lit e = V.lit(V.binop(s.g, T_EQ, 1, v, V.cst(in.width, c.first))); Lit g = G.And(rest, e); if (g != LF && G.feasible(g, LT)) out.push_back({c.second, g}); rest = G.And(rest, lnot(e)); }
                if (rest != LF && G.feasible(rest, LT)) out.push_back({in.b1, rest});
                for (size_t i = 1; i < out.size(); i++) markSym(s, out[0].first, out[i].first);
                for (auto &o : out) { State q = s; q.g = o.second; edge(std::move(q), o.first); }
                return; }
            case I_RET: { std::vector<ValId> rv; for (auto &o : in.o) rv.push_back(val(f, o)); ret(s, rv); return; }
            case I_CALL: {
                bool dead = false;
                if (!in.indirect) {
                    if (in.name == "vf_split") { // one path per value
                        ValId v = V.filter(s.g, val(f, in.o[0]));
                        for (uint32_t i = 0; i < V.size(v); i++) { Entry e = V.begin(v)[i]; if (!T.isC(e.t)) throw Unsupported("vf_split of an unbounded value"); State q = s; q.g = G.And(s.g, e.g); if (V.size(v) > 1) q.tok.push_back((int)T.cv(e.t) & 0xfffffff); if (in.dst >= 0) q.fr.back().regs[in.dst] = V.cst(in.width, T.cv(e.t)); q.fr.back().idx++; push(work, std::move(q)); }
                        return; }
                    if (builtin(s, in, dead)) { if (dead) return; break; }
                    if (!in.callee) throw Unsupported("call " + in.name);
                    std::vector<ValId> args; for (auto &o : in.o) args.push_back(val(f, o));
                    enter(s, in.callee, args, in.dst, in.size); return;
                }
                ValId fp = V.filter(s.g, val(f, in.o[0])); std::vector<ValId> args; for (size_t i = 1; i < in.o.size(); i++) args.push_back(val(f, in.o[i]));
                for (uint32_t i = 0; i < V.size(fp); i++) { Entry e = V.begin(fp)[i]; Lit g = G.And(s.g, e.g); auto it = T.isC(e.t) ? P.byAddr.find(T.cv(e.t)) : P.byAddr.end();
                    if (it == P.byAddr.end()) { addViol(g, "call through an invalid function pointer at " + in.loc, "memory"); continue; }
                    State q = s; q.g = g; enter(q, it->second, args, in.dst, in.size); }
                return; }
            default: throw Unsupported(in.name + " at " + in.loc);
            }
            s.fr.back().idx++;
        }
    }
    void drain() { while (!work.empty()) { auto it = work.begin(); State s = std::move(it->second); work.erase(it); try { run(std::move(s)); } catch (Infeasible &) { } } }
    void startFn(const char *name, Lit g, const std::vector<ValId> &args) { auto it = P.fns.find(name); if (it == P.fns.end() || it->second->F->isDeclaration()) throw Unsupported(std::string("harness function missing: ") + name); State s; s.g = g; enter(s, it->second, args, -1, 0); }
    bool hasFn(const char *n) { auto it = P.fns.find(n); return it != P.fns.end() && !it->second->F->isDeclaration(); }
    Lit allDone = LT; bool progress = true;
    void pass() {
        resetPass(); int NT = cfg.threads; stopped.assign(NT, {}); done.assign(NT, LF);
        phase = 0; tid = 0; seg = 0; stopAllowed = false; trackAcc = false; if (hasFn("vf_setup")) { startFn("vf_setup", LT, {}); drain(); }
        Lit setupCut = cut; (void)setupCut;
        phase = 1; trackAcc = true;
        Lit g0 = LT; // setup assumption is carried by assumeSetup
        g0 = setupGuard();
        for (int t = 0; t < NT; t++) { tid = t; work.clear(); startFn("vf_thread", g0, {V.cst(32, t)}); stopped[t].swap(work); }
        int total = (cfg.rounds + cfg.closing) * NT; Lit lastW = LF;
        for (seg = 0; seg < total; seg++) {
            tid = seg % NT; stopAllowed = seg < cfg.rounds * NT; work.swap(stopped[tid]); stopped[tid].clear(); steps = 0;
            if (seg == (cfg.rounds + cfg.closing - 1) * NT) segWrote = LF;
            drain(); segSteps.push_back({tid, steps}); if (cfg.verbose && !concrete) fprintf(stderr, "  seg %d t%d nodes %zu states %llu vals %zu sat %llu/%llu/%llu %.1fs (solver %.1fs)\n", seg, tid, G.nodes.size(), (unsigned long long)nStates, V.recs.size(), (unsigned long long)G.q_sat, (unsigned long long)G.q_unsat, (unsigned long long)G.q_unknown, secs(), G.sat_time);
        }
        lastW = segWrote; allDone = LT; Lit unfinished = LF, acct = LT;
        for (int t = 0; t < NT; t++) { allDone = G.And(allDone, done[t]); Lit u = LF; for (auto &kv : stopped[t]) u = G.Or(u, kv.second.g); unfinished = G.Or(unfinished, u); acct = G.And(acct, G.Or(u, done[t])); }
        stuckProgress = G.And(unfinished, lastW);
        if (!cfg.noDeadlock) addViol(G.And(G.And(unfinished, acct), lnot(lastW)), "threads wait for each other for ever", "deadlock");
        if (cfg.cutViol) addViol(LF, "an operation exceeds its step bound", "wait");
        if (cfg.spinViol) addViol(LF, "an operation waits for another thread", "wait");
        phase = 2; tid = 0; trackAcc = false; stopAllowed = false;
        if (hasFn("vf_final") && G.feasible(allDone, LT)) { startFn("vf_final", allDone, {}); drain(); }
        if (hasFn("vf_always")) { startFn("vf_always", g0, {}); drain(); }
    }
    Lit stuckProgress = LF; std::set<std::tuple<int, Key, int>> symIters, locIters;
    Lit setupG = LF; Lit setupGuard() { return hasFn("vf_setup") ? setupG : LT; }
    std::vector<uint64_t> newShared() { std::vector<uint64_t> r; for (auto &kv : acc) { uint32_t all = kv.second.first | kv.second.second; if (kv.second.second && (all & (all - 1)) && !shared.count(kv.first)) r.push_back(kv.first); } return r; }
};
