// Loading and pre-decoding of LLVM IR.
#pragma once
#include "terms.h"
#include <map>
#include <set>
#include <memory>
#include <llvm/IR/Module.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/IntrinsicsX86.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/ADT/PostOrderIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/ADT/APInt.h>

enum Opc : uint8_t { I_BIN, I_CMP, I_CAST, I_COPY, I_SELECT, I_GEP, I_ALLOCA, I_LOAD, I_STORE, I_RMW, I_CMPXCHG, I_BR, I_CBR, I_SWITCH, I_RET, I_CALL, I_NOP, I_UNREACH, I_CAS128, I_TLS, I_UNDEF, I_UNSUP };
struct Opnd { int reg = -1; ValId c = 0; uint64_t tls = ~0ull; };
struct FnInfo;
struct Ins {
    Opc op; uint8_t sub = 0; int width = 0; int dst = -1; int size = 0;
    std::vector<Opnd> o; std::vector<uint64_t> sc; uint64_t k = 0;
    int b1 = -1, b2 = -1; std::vector<std::pair<uint64_t, int>> cases;
    FnInfo *callee = nullptr; std::string name; bool indirect = false; std::string loc;
    bool mem() const { return op == I_LOAD || op == I_STORE || op == I_RMW || op == I_CMPXCHG || op == I_CAS128; }
};
struct Phi { int dst; std::vector<std::pair<int, Opnd>> in; int width; };
struct Blk { std::vector<Phi> phis; std::vector<Ins> ins; int rpo = 0; std::vector<int> loops; /* headers outermost..innermost */ bool isHdr = false; std::vector<std::vector<int>> live; std::string name; };
struct FnInfo { llvm::Function *F = nullptr; std::string name; std::vector<Blk> blks; int nregs = 0; std::vector<int> argRegs; uint64_t addr = 0; bool decoded = false; int id = 0; };

struct Prog {
    Terms &T; Vals &V;
    llvm::LLVMContext ctx; std::unique_ptr<llvm::Module> M;
    std::map<std::string, FnInfo *> fns; std::vector<FnInfo *> list; std::map<uint64_t, FnInfo *> byAddr;
    std::map<const llvm::GlobalVariable *, uint64_t> gaddr;
    uint64_t gnext = 0x10000, tlsSize = 0;
    std::map<const llvm::GlobalVariable *, uint64_t> tlsOff;
    const llvm::DataLayout *DL = nullptr;
    Prog(Terms &t, Vals &v) : T(t), V(v) { }
    void load(const std::string &path) {
        llvm::SMDiagnostic err; M = llvm::parseIRFile(path, err, ctx);
        if (!M) { err.print("symx", llvm::errs()); exit(3); }
        DL = &M->getDataLayout();
        for (auto &g : M->globals()) {
            uint64_t sz = DL->getTypeAllocSize(g.getValueType()), al = std::max<uint64_t>(16, g.getAlign().valueOrOne().value());
            if (g.isThreadLocal()) { tlsSize = (tlsSize + al - 1) / al * al; tlsOff[&g] = tlsSize; tlsSize += sz; }
            else { gnext = (gnext + al - 1) / al * al; gaddr[&g] = gnext; gnext += sz + 64; }
        }
        uint64_t fa = 0x1000; 
        for (auto &f : *M) { auto *fi = new FnInfo; fi->F = &f; fi->name = f.getName().str(); fi->addr = fa; fi->id = list.size(); fa += 16; fns[fi->name] = fi; byAddr[fi->addr] = fi; list.push_back(fi); }
    }
    // constant initialiser -> bytes
    void initBytes(const llvm::Constant *c, std::vector<uint8_t> &out, uint64_t off) {
        using namespace llvm;
        if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c) || isa<ConstantPointerNull>(c)) return;
        auto *ty = c->getType();
        if (auto *ci = dyn_cast<ConstantInt>(c)) { uint64_t n = DL->getTypeStoreSize(ty); for (uint64_t i = 0; i < n; i++) out[off + i] = ci->getValue().extractBitsAsZExtValue(std::min<unsigned>(8, ci->getBitWidth() - i * 8), i * 8); return; }
        if (auto *cf = dyn_cast<ConstantFP>(c)) { uint64_t b = cf->getValueAPF().bitcastToAPInt().getZExtValue(); uint64_t n = DL->getTypeStoreSize(ty); for (uint64_t i = 0; i < n && i < 8; i++) out[off + i] = b >> (8 * i); return; }
        if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { uint64_t es = cd->getElementByteSize(); for (unsigned i = 0; i < cd->getNumElements(); i++) initBytes(cd->getElementAsConstant(i), out, off + i * es); return; }
        if (auto *ca = dyn_cast<ConstantArray>(c)) { uint64_t es = DL->getTypeAllocSize(ca->getType()->getElementType()); for (unsigned i = 0; i < ca->getNumOperands(); i++) initBytes(ca->getOperand(i), out, off + i * es); return; }
        if (auto *cs = dyn_cast<ConstantStruct>(c)) { auto *sl = DL->getStructLayout(cs->getType()); for (unsigned i = 0; i < cs->getNumOperands(); i++) initBytes(cs->getOperand(i), out, off + sl->getElementOffset(i)); return; }
        uint64_t v = constVal(c); uint64_t n = DL->getTypeStoreSize(ty); for (uint64_t i = 0; i < n; i++) out[off + i] = v >> (8 * i);
    }
    uint64_t constVal(const llvm::Constant *c) {
        using namespace llvm;
        if (auto *ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() > 64) throw Unsupported("wide integer constant"); return ci->getZExtValue(); }
        if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c)) return 0;
        if (auto *cf = dyn_cast<ConstantFP>(c)) return cf->getValueAPF().bitcastToAPInt().getZExtValue();
        if (auto *f = dyn_cast<Function>(c)) return fns[f->getName().str()]->addr;
        if (auto *g = dyn_cast<GlobalVariable>(c)) { if (g->isThreadLocal()) throw Unsupported("tls constant"); return gaddr[g]; }
        if (auto *ga = dyn_cast<GlobalAlias>(c)) return constVal(ga->getAliasee());
        if (auto *ce = dyn_cast<ConstantExpr>(c)) {
            switch (ce->getOpcode()) {
            case Instruction::GetElementPtr: { APInt off(64, 0); cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off); return constVal(ce->getOperand(0)) + off.getSExtValue(); }
            case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: return constVal(ce->getOperand(0)) & maskw(wid(ce->getType()));
            case Instruction::Trunc: return constVal(ce->getOperand(0)) & maskw(wid(ce->getType()));
            case Instruction::Add: return constVal(ce->getOperand(0)) + constVal(ce->getOperand(1));
            case Instruction::Sub: return constVal(ce->getOperand(0)) - constVal(ce->getOperand(1));
            }
        }
        throw Unsupported("constant expression");
    }
    int wid(llvm::Type *t) {
        if (t->isPointerTy()) return 64;
        if (t->isIntegerTy()) { int w = t->getIntegerBitWidth(); if (w > 64) return -1; return w; }
        if (t->isDoubleTy()) return 64; if (t->isFloatTy()) return 32;
        return -1;
    }
    FnInfo *get(FnInfo *fi) { if (!fi->decoded) decode(*fi); return fi; }
    void decode(FnInfo &fi) {
        using namespace llvm; Function &F = *fi.F; fi.decoded = true;
        if (F.isDeclaration()) return;
        DominatorTree DT(F); LoopInfo LI(DT);
        std::map<BasicBlock *, int> bi; std::map<const Value *, int> reg; int n = 0;
        ReversePostOrderTraversal<Function *> R(&F); int r = 0;
        std::vector<BasicBlock *> order;
        for (auto *b : R) { bi[b] = r++; order.push_back(b); }
        for (auto &a : F.args()) { reg[&a] = n; fi.argRegs.push_back(n++); }
        for (auto *b : order) for (auto &I : *b) { if (I.getType()->isVoidTy()) continue; reg[&I] = n; if (auto *st = dyn_cast<StructType>(I.getType())) n += st->getNumElements(); else n++; }
        fi.nregs = n; fi.blks.resize(order.size());
        auto opnd = [&](Value *v) {
            Opnd o;
            if (auto *g = dyn_cast<GlobalVariable>(v)) if (g->isThreadLocal()) { o.tls = tlsOff[g]; return o; }
            if (isa<UndefValue>(v) && wid(v->getType()) > 0) { o.c = V.cst(wid(v->getType()), 0); return o; }
            if (auto *c = dyn_cast<Constant>(v)) {
                if (auto *ce = dyn_cast<ConstantExpr>(c)) if (ce->getOpcode() == Instruction::GetElementPtr) if (auto *g = dyn_cast<GlobalVariable>(ce->getOperand(0))) if (g->isThreadLocal()) {
                    APInt off(64, 0); cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off); o.tls = tlsOff[g] + off.getSExtValue(); return o; }
                int w = wid(c->getType()); if (w < 0) throw Unsupported("constant type"); o.c = V.cst(w, constVal(c)); return o; }
            o.reg = reg.at(v); return o;
        };
        for (size_t k = 0; k < order.size(); k++) {
            BasicBlock *b = order[k]; Blk &B = fi.blks[k]; B.rpo = k; B.name = b->getName().str();
            for (Loop *L = LI.getLoopFor(b); L; L = L->getParentLoop()) B.loops.insert(B.loops.begin(), bi[L->getHeader()]);
            B.isHdr = LI.isLoopHeader(b);
            for (auto *s : successors(b)) if (bi[s] <= (int)k) { Loop *L = LI.getLoopFor(s); bool ok = LI.isLoopHeader(s) && L->contains(b); if (!ok) throw Unsupported("irreducible control flow in " + fi.name); }
            for (auto &I : *b) {
                Ins x; x.op = I_UNSUP; x.name = I.getOpcodeName();
                if (auto &dl = I.getDebugLoc()) { x.loc = fi.name + ":" + std::to_string(dl.getLine()); } else x.loc = fi.name;
                if (!I.getType()->isVoidTy()) { x.dst = reg[&I]; x.width = wid(I.getType()); }
                try {
                if (auto *p = dyn_cast<PHINode>(&I)) {
                    Phi ph; ph.dst = x.dst; ph.width = x.width;
                    for (unsigned i = 0; i < p->getNumIncomingValues(); i++) if (bi.count(p->getIncomingBlock(i))) ph.in.push_back({bi[p->getIncomingBlock(i)], opnd(p->getIncomingValue(i))});
                    B.phis.push_back(ph); continue;
                } else if (auto *bo = dyn_cast<BinaryOperator>(&I)) {
                    x.op = I_BIN; x.o = {opnd(bo->getOperand(0)), opnd(bo->getOperand(1))};
                    switch (bo->getOpcode()) {
                    case Instruction::Add: x.sub = T_ADD; break; case Instruction::Sub: x.sub = T_SUB; break; case Instruction::Mul: x.sub = T_MUL; break;
                    case Instruction::UDiv: x.sub = T_UDIV; break; case Instruction::SDiv: x.sub = T_SDIV; break; case Instruction::URem: x.sub = T_UREM; break; case Instruction::SRem: x.sub = T_SREM; break;
                    case Instruction::Shl: x.sub = T_SHL; break; case Instruction::LShr: x.sub = T_LSHR; break; case Instruction::AShr: x.sub = T_ASHR; break;
                    case Instruction::And: x.sub = T_AND; break; case Instruction::Or: x.sub = T_OR; break; case Instruction::Xor: x.sub = T_XOR; break;
                    default: x.op = I_UNSUP; }
                    if (x.width < 0) x.op = I_UNSUP;
                } else if (auto *ic = dyn_cast<ICmpInst>(&I)) {
                    x.op = I_CMP; x.o = {opnd(ic->getOperand(0)), opnd(ic->getOperand(1))};
                    switch (ic->getPredicate()) {
                    case CmpInst::ICMP_EQ: x.sub = T_EQ; break; case CmpInst::ICMP_NE: x.sub = T_NE; break; case CmpInst::ICMP_ULT: x.sub = T_ULT; break; case CmpInst::ICMP_ULE: x.sub = T_ULE; break;
                    case CmpInst::ICMP_UGT: x.sub = T_UGT; break; case CmpInst::ICMP_UGE: x.sub = T_UGE; break; case CmpInst::ICMP_SLT: x.sub = T_SLT; break; case CmpInst::ICMP_SLE: x.sub = T_SLE; break;
                    case CmpInst::ICMP_SGT: x.sub = T_SGT; break; case CmpInst::ICMP_SGE: x.sub = T_SGE; break; default: x.op = I_UNSUP; }
                } else if (auto *ca = dyn_cast<CastInst>(&I)) {
                    x.op = I_CAST; x.o = {opnd(ca->getOperand(0))};
                    switch (ca->getOpcode()) {
                    case Instruction::ZExt: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: x.sub = T_ZEXT; break;
                    case Instruction::SExt: x.sub = T_SEXT; break; case Instruction::Trunc: x.sub = T_TRUNC; break; default: x.op = I_UNSUP; }
                    if (x.op == I_CAST && x.width <= wid(ca->getSrcTy()) && x.sub == T_ZEXT) x.sub = T_TRUNC;
                    if (x.width < 0) x.op = I_UNSUP;
                } else if (auto *fr = dyn_cast<FreezeInst>(&I)) { x.op = I_COPY; x.o = {opnd(fr->getOperand(0))}; }
                else if (auto *se = dyn_cast<SelectInst>(&I)) { x.op = I_SELECT; x.o = {opnd(se->getCondition()), opnd(se->getTrueValue()), opnd(se->getFalseValue())}; }
                else if (auto *ge = dyn_cast<GetElementPtrInst>(&I)) {
                    x.op = I_GEP; x.o = {opnd(ge->getPointerOperand())}; x.k = 0;
                    for (auto it = gep_type_begin(ge); it != gep_type_end(ge); ++it) {
                        Value *ix = it.getOperand();
                        if (auto *st = it.getStructTypeOrNull()) { x.k += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
                        uint64_t es = DL->getTypeAllocSize(it.getIndexedType());
                        if (auto *ci = dyn_cast<ConstantInt>(ix)) x.k += es * ci->getSExtValue(); else { x.o.push_back(opnd(ix)); x.sc.push_back(es); }
                    }
                } else if (auto *al = dyn_cast<AllocaInst>(&I)) {
                    x.op = I_ALLOCA; uint64_t cnt = 1; if (auto *ci = dyn_cast<ConstantInt>(al->getArraySize())) cnt = ci->getZExtValue(); else throw Unsupported("dynamic alloca");
                    x.k = DL->getTypeAllocSize(al->getAllocatedType()) * cnt; x.size = al->getAlign().value();
                } else if (auto *ld = dyn_cast<LoadInst>(&I)) { x.op = I_LOAD; x.o = {opnd(ld->getPointerOperand())}; x.size = DL->getTypeStoreSize(ld->getType()); if (x.width < 0) x.op = I_UNSUP; }
                else if (auto *st = dyn_cast<StoreInst>(&I)) {
                    x.op = I_STORE; x.size = DL->getTypeStoreSize(st->getValueOperand()->getType()); x.width = wid(st->getValueOperand()->getType());
                    if (x.width < 0) x.op = I_UNSUP; else x.o = {opnd(st->getPointerOperand()), opnd(st->getValueOperand())};
                } else if (auto *rm = dyn_cast<AtomicRMWInst>(&I)) {
                    x.op = I_RMW; x.o = {opnd(rm->getPointerOperand()), opnd(rm->getValOperand())}; x.size = DL->getTypeStoreSize(rm->getType());
                    switch (rm->getOperation()) { case AtomicRMWInst::Xchg: x.sub = 255; break; case AtomicRMWInst::Add: x.sub = T_ADD; break; case AtomicRMWInst::Sub: x.sub = T_SUB; break;
                    case AtomicRMWInst::And: x.sub = T_AND; break; case AtomicRMWInst::Or: x.sub = T_OR; break; case AtomicRMWInst::Xor: x.sub = T_XOR; break; default: x.op = I_UNSUP; }
                } else if (auto *cx = dyn_cast<AtomicCmpXchgInst>(&I)) { x.op = I_CMPXCHG; x.o = {opnd(cx->getPointerOperand()), opnd(cx->getCompareOperand()), opnd(cx->getNewValOperand())}; x.size = DL->getTypeStoreSize(cx->getNewValOperand()->getType()); x.width = wid(cx->getNewValOperand()->getType()); if (x.width < 0) x.op = I_UNSUP; }
                else if (isa<FenceInst>(&I)) x.op = I_NOP;
                else if (isa<UnreachableInst>(&I)) x.op = I_UNREACH;
                else if (auto *br = dyn_cast<BranchInst>(&I)) { if (br->isConditional()) { x.op = I_CBR; x.o = {opnd(br->getCondition())}; x.b1 = bi[br->getSuccessor(0)]; x.b2 = bi[br->getSuccessor(1)]; } else { x.op = I_BR; x.b1 = bi[br->getSuccessor(0)]; } }
                else if (auto *sw = dyn_cast<SwitchInst>(&I)) { x.op = I_SWITCH; x.o = {opnd(sw->getCondition())}; x.width = wid(sw->getCondition()->getType()); x.b1 = bi[sw->getDefaultDest()]; for (auto &c : sw->cases()) x.cases.push_back({c.getCaseValue()->getZExtValue(), bi[c.getCaseSuccessor()]}); }
                else if (auto *rt = dyn_cast<ReturnInst>(&I)) {
                    x.op = I_RET;
                    if (rt->getReturnValue()) {
                        if (auto *st = dyn_cast<StructType>(rt->getReturnValue()->getType())) { int base = reg.at(rt->getReturnValue()); for (unsigned i = 0; i < st->getNumElements(); i++) { Opnd o; o.reg = base + i; x.o.push_back(o); } }
                        else x.o = {opnd(rt->getReturnValue())};
                    }
                }
                else if (auto *ev = dyn_cast<ExtractValueInst>(&I)) { if (ev->getNumIndices() != 1) throw Unsupported("extractvalue"); x.op = I_COPY; Opnd o; o.reg = reg.at(ev->getAggregateOperand()) + ev->getIndices()[0]; x.o = {o}; }
                else if (auto *iv = dyn_cast<InsertValueInst>(&I)) {
                    if (iv->getNumIndices() != 1) throw Unsupported("insertvalue");
                    auto *st = cast<StructType>(iv->getType()); int ix = iv->getIndices()[0];
                    for (unsigned i = 0; i < st->getNumElements(); i++) {
                        Ins y; y.loc = x.loc; y.op = I_COPY; y.dst = reg[&I] + i; y.width = wid(st->getElementType(i));
                        if ((int)i == ix) y.o = {opnd(iv->getInsertedValueOperand())};
                        else if (isa<UndefValue>(iv->getAggregateOperand())) { Opnd o; o.c = V.cst(y.width, 0); y.o = {o}; }
                        else { Opnd o; o.reg = reg.at(iv->getAggregateOperand()) + i; y.o = {o}; }
                        if (i + 1 < st->getNumElements()) B.ins.push_back(y); else x = y;
                    }
                }
                else if (auto *cb = dyn_cast<CallInst>(&I)) decodeCall(fi, cb, x, opnd);
                } catch (std::out_of_range &) { x.op = I_UNSUP; } catch (Unsupported &u) { x.op = I_UNSUP; x.name += std::string(": ") + u.what(); }
                B.ins.push_back(x);
            }
        }
        liveness(fi);
    }
    template <class O> void decodeCall(FnInfo &fi, llvm::CallInst *cb, Ins &x, O opnd) {
        using namespace llvm;
        if (auto *ia = dyn_cast<InlineAsm>(cb->getCalledOperand())) {
            std::string s = ia->getAsmString();
            if (s.find("cmpxchg16b") != std::string::npos) {
                // map constraints: outputs then inputs; indirect outputs/inputs are pointer arguments
                if (s.find("lock") == std::string::npos || (s.find("setz") == std::string::npos && s.find("sete") == std::string::npos)) throw Unsupported("inline asm: " + s);
                auto cons = ia->ParseConstraints(); int arg = 0, outIdx = 0; int pA = -1, rb = -1, rc = -1, ra = -1, rd = -1, oRes = -1;
                for (auto &c : cons) {
                    std::string code = c.Codes.empty() ? "" : c.Codes[0];
                    if (c.Type == InlineAsm::isClobber) continue;
                    if (c.Type == InlineAsm::isOutput && !c.isIndirect) { if (code == "{ax}" || code == "{al}" || code == "{eax}" || code == "{rax}" || code == "r" || code == "q" || code == "{si}" || code == "{di}") { if (code != "{dx}") oRes = outIdx; } outIdx++; continue; }
                    if (c.Type == InlineAsm::isOutput) { pA = arg++; continue; }
                    if (c.isIndirect) { if (pA < 0) pA = arg; arg++; continue; }
                    if (code == "{bx}") rb = arg; else if (code == "{cx}") rc = arg; else if (code == "{ax}") ra = arg; else if (code == "{dx}") rd = arg;
                    else if (isdigit(code[0])) { auto &t = cons[atoi(code.c_str())]; std::string tc = t.Codes[0]; if (tc == "{ax}") ra = arg; else if (tc == "{dx}") rd = arg; }
                    arg++;
                }
                if (pA < 0 || rb < 0 || rc < 0 || ra < 0 || rd < 0 || oRes < 0) throw Unsupported("cmpxchg16b constraints " + ia->getConstraintString());
                x.op = I_CAS128; x.size = 16; for (int k : {pA, ra, rd, rb, rc}) x.o.push_back(opnd(cb->getArgOperand(k)));
                int w = 8; if (auto *st = dyn_cast<StructType>(cb->getType())) { w = wid(st->getElementType(oRes)); x.k = x.dst; x.b2 = st->getNumElements(); x.dst += oRes; } else { w = wid(cb->getType()); x.b2 = 0; }
                x.width = w; return;
            }
            bool ok = true; std::string tok; // fences and hints only
            for (const char *p : {"mfence", "lfence", "sfence", "pause", "prefetch", "nop", "rep; nop"}) if (s.find(p) != std::string::npos) { x.op = I_NOP; return; }
            if (s.empty()) { x.op = I_NOP; return; }
            (void)ok; throw Unsupported("inline asm: " + s);
        }
        if (auto *ii = dyn_cast<IntrinsicInst>(cb)) {
            std::string n = ii->getCalledFunction()->getName().str();
            switch (ii->getIntrinsicID()) {
            case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::prefetch: case Intrinsic::assume: case Intrinsic::donothing: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::x86_sse2_pause:
            case Intrinsic::x86_sse2_lfence: case Intrinsic::x86_sse2_mfence: case Intrinsic::x86_sse_sfence: x.op = I_NOP; return;
            case Intrinsic::expect: x.op = I_COPY; x.o = {opnd(cb->getArgOperand(0))}; return;
            case Intrinsic::threadlocal_address: { auto *g = cast<GlobalVariable>(cb->getArgOperand(0)); x.op = I_TLS; x.k = tlsOff[g]; return; }
            case Intrinsic::ctpop: x.op = I_CAST; x.sub = T_CTPOP; x.o = {opnd(cb->getArgOperand(0))}; return;
            case Intrinsic::cttz: x.op = I_CAST; x.sub = T_CTTZ; x.o = {opnd(cb->getArgOperand(0))}; return;
            case Intrinsic::ctlz: x.op = I_CAST; x.sub = T_CTLZ; x.o = {opnd(cb->getArgOperand(0))}; return;
            case Intrinsic::trap: x.op = I_CALL; x.name = "abort"; return;
            case Intrinsic::objectsize: x.op = I_COPY; { Opnd o; o.c = V.cst(64, ~0ull); x.o = {o}; } return;
            case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax:
                x.op = I_CALL; x.name = n.substr(0, 9); x.o = {opnd(cb->getArgOperand(0)), opnd(cb->getArgOperand(1))}; return;
            default: throw Unsupported("intrinsic " + n);
            }
        }
        x.op = I_CALL; x.callee = nullptr;
        for (auto &a : cb->args()) { if (wid(a->getType()) < 0) throw Unsupported("call argument type"); x.o.push_back(opnd(a)); }
        Value *cv = cb->getCalledOperand()->stripPointerCasts();
        if (auto *ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliaseeObject();
        if (auto *f = dyn_cast<Function>(cv)) { x.callee = fns[f->getName().str()]; x.name = f->getName().str(); }
        else { x.indirect = true; x.name = "<indirect>"; x.o.insert(x.o.begin(), opnd(cv)); }
        if (auto *st = dyn_cast<StructType>(cb->getType())) x.size = st->getNumElements(); else x.size = cb->getType()->isVoidTy() ? 0 : 1;
    }
    void liveness(FnInfo &fi) {
        int nb = fi.blks.size(), nr = fi.nregs;
        auto &bl = fi.blks; std::vector<std::vector<bool>> in(nb, std::vector<bool>(nr)), out(nb, std::vector<bool>(nr));
        auto succ = [&](int b) { std::vector<int> s; auto &i = bl[b].ins.back(); if (i.b1 >= 0) s.push_back(i.b1); if (i.b2 >= 0) s.push_back(i.b2); for (auto &c : i.cases) s.push_back(c.second); return s; };
        auto defs = [&](const Ins &i, auto f) { if (i.dst >= 0) { f(i.dst); if (i.op == I_CMPXCHG) f(i.dst + 1); if (i.op == I_CAS128) for (int k = 0; k < i.b2; k++) f(i.k + k); if (i.op == I_CALL) for (int k = 1; k < i.size; k++) f(i.dst + k); } };
        bool ch = true;
        while (ch) { ch = false;
            for (int b = nb - 1; b >= 0; b--) {
                std::vector<bool> L(nr);
                for (int s : succ(b)) { std::vector<bool> x = in[s]; for (auto &p : bl[s].phis) x[p.dst] = false; for (auto &p : bl[s].phis) for (auto &e : p.in) if (e.first == b && e.second.reg >= 0) x[e.second.reg] = true; for (int i = 0; i < nr; i++) if (x[i]) L[i] = true; }
                out[b] = L;
                for (int k = bl[b].ins.size() - 1; k >= 0; k--) { auto &i = bl[b].ins[k]; defs(i, [&](int r) { L[r] = false; }); for (auto &o : i.o) if (o.reg >= 0) L[o.reg] = true; }
                // live-in *after* phis (phi results are defined at entry)
                if (L != in[b]) { in[b] = L; ch = true; }
            }
        }
        for (int b = 0; b < nb; b++) {
            std::vector<bool> L = out[b]; bl[b].live.resize(bl[b].ins.size() + 1);
            auto pack = [&](const std::vector<bool> &L) { std::vector<int> v; for (int i = 0; i < nr; i++) if (L[i]) v.push_back(i); return v; };
            bl[b].live[bl[b].ins.size()] = pack(L);
            for (int k = bl[b].ins.size() - 1; k >= 0; k--) { auto &i = bl[b].ins[k]; defs(i, [&](int r) { L[r] = false; }); for (auto &o : i.o) if (o.reg >= 0) L[o.reg] = true; bl[b].live[k] = pack(L); }
        }
    }
};
