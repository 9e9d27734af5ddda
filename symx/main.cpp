// symx: bounded symbolic execution of multi-threaded LLVM IR with symbolic scheduling.
//   symx prep in.bc out.bc          apply overrides (vf_ov_X replaces X), expand memcpy/memset
//   symx instrument in.bc out.bc    insert vf_yield() before every memory instruction (native replay)
//   symx check in.bc [options]      decide all assertions within the bounds; JSON on stdout
#include "exec.h"
#include <llvm/IR/IRBuilder.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/IR/Verifier.h>
#include <fstream>
#include <iostream>
using namespace llvm;
static std::unique_ptr<Module> loadM(LLVMContext &c, const char *p) { SMDiagnostic e; auto m = parseIRFile(p, e, c); if (!m) { e.print("symx", errs()); exit(3); } return m; }
static void saveM(Module &m, const char *p) { std::error_code ec; raw_fd_ostream os(p, ec); WriteBitcodeToFile(m, os); }

static int prep(const char *in, const char *out) {
    LLVMContext c; auto m = loadM(c, in); std::vector<Function *> ov;
    for (auto &f : *m) if (f.getName().starts_with("vf_ov_") && !f.isDeclaration()) ov.push_back(&f);
    for (auto *f : ov) { auto n = f->getName().substr(6).str(); if (auto *g = m->getFunction(n)) { g->replaceUsesWithIf(f, [&](Use &u) { if (auto *i = dyn_cast<Instruction>(u.getUser())) return i->getFunction() != f; return true; }); } }
    auto *mc = m->getFunction("vf_memcpy"), *ms = m->getFunction("vf_memset"), *mm = m->getFunction("vf_memmove");
    std::vector<CallInst *> rep;
    for (auto &f : *m) for (auto &b : f) for (auto &i : b) if (auto *ci = dyn_cast<CallInst>(&i)) if (auto *cf = ci->getCalledFunction()) { auto n = cf->getName(); if (n.starts_with("llvm.memcpy") || n.starts_with("llvm.memset") || n.starts_with("llvm.memmove") || n == "memcpy" || n == "memset" || n == "memmove") rep.push_back(ci); }
    for (auto *ci : rep) {
        auto n = ci->getCalledFunction()->getName(); auto *t = n.contains("memcpy") ? mc : n.contains("memset") ? ms : mm; if (!t) { errs() << "vf_rt not linked\n"; return 3; }
        IRBuilder<> B(ci); std::vector<Value *> a; auto *ft = t->getFunctionType();
        for (int k = 0; k < 3; k++) { Value *v = ci->getArgOperand(k); if (v->getType() != ft->getParamType(k)) v = B.CreateZExtOrTrunc(v, ft->getParamType(k)); a.push_back(v); }
        auto *nc = B.CreateCall(t, a); nc->setDebugLoc(ci->getDebugLoc()); if (!ci->getType()->isVoidTy()) ci->replaceAllUsesWith(ci->getArgOperand(0)); ci->eraseFromParent();
    }
    { // a 16-byte compare-exchange without the lock prefix is a plain read followed by a plain write
        std::vector<CallInst *> nl;
        for (auto &f : *m) for (auto &b : f) for (auto &i : b) if (auto *ci = dyn_cast<CallInst>(&i)) if (auto *ia = dyn_cast<InlineAsm>(ci->getCalledOperand())) if (ia->getAsmString().find("cmpxchg16b") != std::string::npos && ia->getAsmString().find("lock") == std::string::npos) nl.push_back(ci);
        for (auto *ci : nl) {
            auto *ia = cast<InlineAsm>(ci->getCalledOperand()); auto cons = ia->ParseConstraints(); Value *A = nullptr, *B0 = nullptr, *B1 = nullptr, *C0 = nullptr, *C1 = nullptr; int arg = 0, outIdx = 0, oRes = -1;
            for (auto &k : cons) {
                std::string code = k.Codes.empty() ? "" : k.Codes[0]; if (k.Type == InlineAsm::isClobber) continue;
                if (k.Type == InlineAsm::isOutput && !k.isIndirect) { if (code != "{dx}") oRes = outIdx; outIdx++; continue; }
                Value *v = ci->getArgOperand(arg++); if (k.isIndirect || k.Type == InlineAsm::isOutput) { if (!A) A = v; continue; }
                if (isdigit(code[0])) code = cons[atoi(code.c_str())].Codes[0];
                if (code == "{bx}") C0 = v; else if (code == "{cx}") C1 = v; else if (code == "{ax}") B0 = v; else if (code == "{dx}") B1 = v;
            }
            if (!A || !B0 || !B1 || !C0 || !C1 || oRes < 0) continue;
            IRBuilder<> B(ci); auto *t = B.getInt64Ty(); auto *A1 = B.CreateGEP(t, A, B.getInt32(1)); auto *x = B.CreateAlignedLoad(t, A, Align(8), true), *y = B.CreateAlignedLoad(t, A1, Align(8), true);
            auto *eq = B.CreateAnd(B.CreateICmpEQ(x, B0), B.CreateICmpEQ(y, B1));
            B.CreateAlignedStore(B.CreateSelect(eq, C0, x), A, Align(8), true); B.CreateAlignedStore(B.CreateSelect(eq, C1, y), A1, Align(8), true);
            Value *r; if (auto *st = dyn_cast<StructType>(ci->getType())) { r = PoisonValue::get(st); for (unsigned k = 0; k < st->getNumElements(); k++) r = B.CreateInsertValue(r, (int)k == oRes ? B.CreateZExt(eq, st->getElementType(k)) : (Value *)Constant::getNullValue(st->getElementType(k)), {k}); } else r = B.CreateZExt(eq, ci->getType());
            ci->replaceAllUsesWith(r); ci->eraseFromParent();
        }
    }
    saveM(*m, out); return 0;
}
static int instrument(const char *in, const char *out) {
    LLVMContext c; auto m = loadM(c, in); for (auto &f : *m) if (!f.isDeclaration()) f.addFnAttr(Attribute::SanitizeAddress); auto y = m->getOrInsertFunction("vf_yield", FunctionType::get(Type::getVoidTy(c), false));
    std::vector<Instruction *> at;
    for (auto &f : *m) for (auto &b : f) for (auto &i : b) {
        bool mem = isa<LoadInst>(i) || isa<StoreInst>(i) || isa<AtomicRMWInst>(i) || isa<AtomicCmpXchgInst>(i);
        if (auto *ci = dyn_cast<CallInst>(&i)) if (auto *ia = dyn_cast<InlineAsm>(ci->getCalledOperand())) if (ia->getAsmString().find("cmpxchg16b") != std::string::npos) mem = true;
        if (mem) at.push_back(&i);
    }
    for (auto *i : at) { auto *ci = CallInst::Create(y, "", i); ci->setDebugLoc(i->getDebugLoc()); if (!i->getDebugLoc() && i->getFunction()->getSubprogram()) ci->setDebugLoc(DILocation::get(c, 0, 0, i->getFunction()->getSubprogram())); }
    saveM(*m, out); return 0;
}
static std::string esc(const std::string &s) { std::string r; for (char ch : s) { if (ch == '"' || ch == '\\') r += '\\'; if (ch == '\n') { r += "\\n"; continue; } r += ch; } return r; }
static void dumpSmt(Engine &E, Lit goal, const std::string &path) {
    std::ofstream o(path); o << "(set-logic QF_BV)\n"; std::vector<char> seen(E.G.nodes.size()); std::vector<uint32_t> st{goal >> 1}, order;
    auto nm = [](Lit l) { std::string s = "n" + std::to_string(l >> 1); return (l & 1) ? "(not " + s + ")" : s; };
    while (!st.empty()) { uint32_t n = st.back(); if (seen[n] == 2) { st.pop_back(); continue; } auto &nd = E.G.nodes[n]; if (n == 0 || nd.a == ~0u) { seen[n] = 2; order.push_back(n); st.pop_back(); continue; }
        if (seen[n] == 0) { seen[n] = 1; if (seen[nd.a >> 1] != 2) st.push_back(nd.a >> 1); if (seen[nd.b >> 1] != 2) st.push_back(nd.b >> 1); } else { seen[n] = 2; order.push_back(n); st.pop_back(); } }
    for (auto n : order) { auto &nd = E.G.nodes[n]; if (n == 0) o << "(define-fun n0 () Bool false)\n"; else if (nd.a == ~0u) o << "(declare-const n" << n << " Bool)\n"; else o << "(define-fun n" << n << " () Bool (and " << nm(nd.a) << " " << nm(nd.b) << "))\n"; }
    o << "(assert " << nm(goal) << ")\n(check-sat)\n";
}
int main(int argc, char **argv) {
    std::string mode = argc > 1 ? argv[1] : "";
    if (mode == "prep") return prep(argv[2], argv[3]);
    if (mode == "instrument") return instrument(argv[2], argv[3]);
    if (mode != "check") { fprintf(stderr, "usage\n"); return 3; }
    Engine E; Config &cfg = E.cfg; std::string smt, sched, only, witness, lastSched; int witnessOk = -1; int randomRuns = 40, maxPass = 12; bool trace = false; uint64_t seed = 1;
    for (int i = 3; i < argc; i++) {
        std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
        if (a == "--threads") cfg.threads = stoi(nx()); else if (a == "--rounds") cfg.rounds = stoi(nx()); else if (a == "--closing") cfg.closing = stoi(nx()); else if (a == "--unwind") cfg.unwind = stoi(nx());
        else if (a == "--cut-violation") cfg.cutViol = true; else if (a == "--spin-violation") cfg.spinViol = true; else if (a == "--no-deadlock") cfg.noDeadlock = true; else if (a == "--undef-malloc") cfg.undefMalloc = true;
        else if (a == "--time") cfg.timeLimit = stod(nx()); else if (a == "--smt") smt = nx(); else if (a == "--schedule") sched = nx(); else if (a == "--random") randomRuns = stoi(nx()); else if (a == "--verbose") cfg.verbose = true; else if (a == "--trace") trace = true; else if (a == "--seed") seed = stoull(nx());
        else if (a == "--only") only = nx(); else if (a == "--witness") witness = nx(); else if (a == "--max-addr") cfg.maxAddr = stoi(nx()); else if (a == "--conf") E.G.conf_budget = stoi(nx());
        else { fprintf(stderr, "bad option %s\n", a.c_str()); return 3; }
    }
    std::string status = "ok", err; int passes = 0; std::vector<int> verdict; std::map<std::string, int> cov; size_t nodesLast = 0; double tSym = 0, tSolve = 0; int cutSat = -2, stuckSat = -2, doneSat = -2; int queries = 0;
    int hit = -1; std::string schedOut; bool confirmed = false;
    try {
        E.P.load(argv[2]);
        if (!cfg.threads) { auto *g = E.P.M->getGlobalVariable("vf_nthreads", true); if (!g) throw Unsupported("vf_nthreads missing"); cfg.threads = cast<ConstantInt>(g->getInitializer())->getZExtValue(); }
        std::mt19937_64 rng(seed);
        for (int r = 0; r < randomRuns; r++) { // concrete runs only to discover which words are shared
            E.concrete = true; E.ndModel.clear(); E.chModel.clear(); for (int k = 0; k < 64; k++) { E.ndModel[k] = rng() % 5 == 0 ? rng() : 1 + rng() % 7; E.chModel[k] = 0; }
            int p = 2 + r % 40; uint64_t sd = rng(); std::mt19937_64 r2(sd); for (int k = 0; k < 64; k++) E.chModel[k] = r2() % 2;
            E.stopOracle = [&r2, p](int, const Key &) { return r2() % p == 0; }; E.pass(); for (auto w : E.newShared()) E.shared.insert(w);
        }
        E.concrete = false;
        for (;;) {
            E.pass(); passes++; auto ns = E.newShared(); nodesLast = E.G.nodes.size();
            if (cfg.verbose) fprintf(stderr, "pass %d: %zu new shared words, total %zu, %.1fs\n", passes, ns.size(), E.shared.size(), E.secs());
            if (ns.empty()) break; for (auto w : ns) E.shared.insert(w); if (passes >= maxPass) throw std::runtime_error("shared-word discovery did not converge");
        }
        tSym = E.secs();
        if (!only.empty()) { auto keep = E.viol; E.viol.clear(); for (auto &v : keep) if (("," + only + ",").find("," + v.kind + ",") != std::string::npos) E.viol.push_back(v); }
        for (auto &c : E.cover) { cov[c.first] = E.G.solve({c.second}, 200000); queries++; }
        doneSat = E.G.solve({E.allDone}, 200000); cutSat = E.cut == LF ? 0 : E.G.solve({E.cut}, 200000); stuckSat = E.stuckProgress == LF ? 0 : E.G.solve({E.stuckProgress}, 200000); queries += 3;
        Lit all = LF; for (auto &v : E.viol) all = E.G.Or(all, v.g); if (!smt.empty() && all != LF) dumpSmt(E, all, smt);
        // turns the solver's model into a schedule and runs the engine concretely along it
        auto follow = [&](const std::string &file, std::function<bool()> good) -> bool {
            bool okc = false; std::set<std::pair<int, Key>> stops; std::map<int, uint64_t> nd, ch;
                for (auto &s : E.stopList) if (E.G.modelOf(s.second >> 1)) stops.insert(s.first);
                for (auto &n : E.ndTerm) { uint64_t v = 0; if (!E.T.bits[n.second].empty()) for (int b = 0; b < 64; b++) if (E.G.modelOf(E.T.bits[n.second][b] >> 1)) v |= 1ull << b; nd[n.first] = v; }
                { uint64_t z = 1000; for (auto &n : E.ndTerm) { bool any = !E.T.bits[n.second].empty(); if (!any) nd[n.first] = z++; } }
                for (auto &c : E.chooseBits) { for (size_t k = 0; k < c.second.size(); k++) { // evaluate selector
                        std::function<bool(Lit)> ev = [&](Lit l) -> bool { uint32_t n = l >> 1; bool v; if (n == 0) v = false; else if (E.G.nodes[n].a == ~0u) v = E.G.modelOf(n); else v = ev(E.G.nodes[n].a) && ev(E.G.nodes[n].b); return v ^ (l & 1); };
                        if (ev(c.second[k])) ch[c.first] = k; } }
                auto keepViol = E.viol; auto keepCov = E.cover; auto st0 = E.nInstr, st1 = E.nStates, st2 = E.nMerges, st3 = E.nStopPts, st4 = E.nBranches; auto kc = E.cutLocs; auto kcut = E.cut;
                E.concrete = true; E.ndModel = nd; E.chModel = ch; E.stopOracle = [&](int s, const Key &k) { return stops.count({s, k}) > 0; }; E.wantTrace = trace; E.replayStops = &stops;
                E.pass();
                okc = good();
                std::string o = "threads " + std::to_string(cfg.threads) + "\n"; for (auto &n : nd) o += "nd " + std::to_string(n.first) + " " + std::to_string(n.second) + "\n"; for (auto &n : ch) o += "choose " + std::to_string(n.first) + " " + std::to_string(n.second) + "\n";
                for (auto &s : E.segSteps) o += "seg " + std::to_string(s.first) + " " + std::to_string(s.second) + "\n"; lastSched = o;
                if (!file.empty()) { std::ofstream f(file); f << o; if (trace) { std::ofstream tf(file + ".trace"); for (auto &l : E.trace) tf << l << "\n"; } }
                E.concrete = false; E.replayStops = nullptr; E.viol = keepViol; E.cover = keepCov; E.nInstr = st0; E.nStates = st1; E.nMerges = st2; E.nStopPts = st3; E.nBranches = st4; E.cutLocs = kc; E.cut = kcut;
            return okc;
        };
        for (size_t i = 0; i < E.viol.size(); i++) {
            int r = E.viol[i].g == LF ? 0 : E.viol[i].g == LT ? 1 : E.G.solve({E.viol[i].g}, -1); queries += E.viol[i].g != LF; verdict.push_back(r);
            if (E.viol[i].g == LT) { E.G.solve({LT}, -1); }
            if (r == 1 && hit < 0) {
hit = i; std::string want = E.viol[i].msg; confirmed = follow(sched, [&]() { for (auto &v : E.viol) if (v.msg == want && v.g == LT) return true; return false; }); schedOut = lastSched;
            }
        }
        if (!witness.empty() && hit < 0 && doneSat == 1) { // one complete execution with as many preemptions as can be had cheaply, for a native cross-check
            Lit goal = E.allDone; std::vector<Lit> pick; for (auto &c : E.cover) if (cov[c.first] == 1) goal = E.G.solve({E.G.And(goal, c.second)}, 20000) == 1 ? E.G.And(goal, c.second) : goal;
            std::vector<Lit> cand; for (auto &s : E.stopList) cand.push_back(s.second); std::shuffle(cand.begin(), cand.end(), rng); if (cand.size() > 12) cand.resize(12);
            for (auto l : cand) { auto q = pick; q.push_back(l); q.push_back(goal); if (E.G.solve(q, 5000) == 1) pick.push_back(l); }
            pick.push_back(goal);
            if (E.G.solve(pick, -1) == 1) { witnessOk = follow(witness, [&]() { for (auto &v : E.viol) if (v.g == LT) return false; return E.allDone == LT; }) ? 1 : 0; }
        }
        tSolve = E.secs() - tSym;
    } catch (Unsupported &u) { status = "unsupported"; err = u.what(); }
    catch (std::exception &x) { status = "error"; err = x.what(); }
    printf("{\"status\":\"%s\",\"error\":\"%s\",\"threads\":%d,\"rounds\":%d,\"closing\":%d,\"unwind\":%d,\"passes\":%d,\"shared_words\":%zu,\n", status.c_str(), esc(err).c_str(), cfg.threads, cfg.rounds, cfg.closing, cfg.unwind, passes, E.shared.size());
    printf("\"instructions\":%llu,\"symbolic_states\":%llu,\"merges\":%llu,\"preemption_points\":%llu,\"branches\":%llu,\"formula_nodes\":%zu,\"value_sets\":%zu,\"max_set\":%llu,\"asserts\":%llu,\n", (unsigned long long)E.nInstr, (unsigned long long)E.nStates, (unsigned long long)E.nMerges, (unsigned long long)E.nStopPts, (unsigned long long)E.nBranches, nodesLast, E.V.recs.size(), (unsigned long long)E.V.maxEntries, (unsigned long long)E.asserts);
    printf("\"prune_queries\":%llu,\"prune_by_simulation\":%llu,\"prune_sat\":%llu,\"prune_unsat\":%llu,\"prune_unknown\":%llu,\"verdict_queries\":%d,\"sat_time\":%.3f,\"sym_time\":%.3f,\"total_time\":%.3f,\n", (unsigned long long)E.G.q_total, (unsigned long long)E.G.q_sim, (unsigned long long)E.G.q_sat, (unsigned long long)E.G.q_unsat, (unsigned long long)E.G.q_unknown, queries, E.G.sat_time, tSym, E.secs());
    printf("\"complete_runs_feasible\":%d,\"loop_cut_feasible\":%d,\"unfinished_progress_feasible\":%d,\"cut_loops\":[", doneSat, cutSat, stuckSat); { bool f = true; for (auto &c : E.cutLocs) { printf("%s\"%s\"", f ? "" : ",", esc(c).c_str()); f = false; } } printf("],\n\"covers\":{"); { bool f = true; for (auto &c : cov) { printf("%s\"%s\":%d", f ? "" : ",", esc(c.first).c_str(), c.second); f = false; } } printf("},\n\"functions\":{");
    { bool f = true; for (auto &c : E.fnsSeen) { printf("%s\"%s\":%llu", f ? "" : ",", c.first.c_str(), (unsigned long long)c.second); f = false; } } printf("},\n\"obligations\":[");
    for (size_t i = 0; i < verdict.size(); i++) printf("%s{\"msg\":\"%s\",\"kind\":\"%s\",\"sat\":%d,\"by\":\"%s\"}", i ? "," : "", esc(E.viol[i].msg).c_str(), E.viol[i].kind.c_str(), verdict[i], E.viol[i].g == LF ? "path pruning" : "final query");
    printf("],\n\"witness_in_engine\":%d,\n\"violation\":", witnessOk); if (hit >= 0) printf("{\"msg\":\"%s\",\"kind\":\"%s\",\"confirmed_in_engine\":%s,\"schedule\":\"%s\"}", esc(E.viol[hit].msg).c_str(), E.viol[hit].kind.c_str(), confirmed ? "true" : "false", esc(schedOut).c_str()); else printf("null"); printf("}\n");
    return status == "ok" ? 0 : 2;
}
