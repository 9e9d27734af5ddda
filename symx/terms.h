// Hash-consed bit-vector terms, their bit-blasting into the AIG, and guarded value sets.
#pragma once
#include "aig.h"
#include <algorithm>
#include <stdexcept>
typedef uint32_t TermId; typedef uint32_t ValId;
enum TOp : uint8_t { T_CONST, T_VAR, T_ADD, T_SUB, T_MUL, T_UDIV, T_SDIV, T_UREM, T_SREM, T_SHL, T_LSHR, T_ASHR, T_AND, T_OR, T_XOR, T_ZEXT, T_SEXT, T_TRUNC,
    T_EQ, T_NE, T_ULT, T_ULE, T_UGT, T_UGE, T_SLT, T_SLE, T_SGT, T_SGE, T_CTPOP, T_CTTZ, T_CTLZ };
struct Unsupported : std::runtime_error { using std::runtime_error::runtime_error; };
struct Term { uint8_t op, width; TermId a, b; uint64_t val; };
static inline uint64_t maskw(int w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline int64_t sx(uint64_t v, int w) { if (w >= 64) return (int64_t)v; uint64_t m = 1ull << (w - 1); v &= maskw(w); return (int64_t)((v ^ m) - m); }

struct Terms {
    Aig &G;
    std::vector<Term> t;
    std::unordered_map<std::string, TermId> tab;
    std::vector<std::string> varName; // by val of VAR
    std::vector<std::vector<Lit>> bits; // per term
    Terms(Aig &g) : G(g) { }
    TermId mk(uint8_t op, int w, TermId a, TermId b, uint64_t v) {
        char k[24]; memset(k, 0, 24); k[0] = op; k[1] = w; memcpy(k + 4, &a, 4); memcpy(k + 8, &b, 4); memcpy(k + 12, &v, 8);
        std::string key(k, 20);
        auto it = tab.find(key); if (it != tab.end()) return it->second;
        TermId id = t.size(); t.push_back({op, (uint8_t)w, a, b, v}); bits.emplace_back(); tab[key] = id; return id;
    }
    TermId cst(int w, uint64_t v) { return mk(T_CONST, w, 0, 0, v & maskw(w)); }
    TermId var(int w, const std::string &name) { varName.push_back(name); return mk(T_VAR, w, 0, 0, varName.size() - 1); }
    bool isC(TermId x) const { return t[x].op == T_CONST; }
    uint64_t cv(TermId x) const { return t[x].val; }
    static bool fold(int op, int w, uint64_t a, uint64_t b, int aw, uint64_t &r) {
        switch (op) {
        case T_ADD: r = a + b; break; case T_SUB: r = a - b; break; case T_MUL: r = a * b; break;
        case T_UDIV: if (!b) return false; r = a / b; break; case T_UREM: if (!b) return false; r = a % b; break;
        case T_SDIV: if (!b || (sx(b, w) == -1)) { if (!b) return false; r = -a; break; } r = (uint64_t)(sx(a, w) / sx(b, w)); break;
        case T_SREM: if (!b) return false; if (sx(b, w) == -1) { r = 0; break; } r = (uint64_t)(sx(a, w) % sx(b, w)); break;
        case T_SHL: r = b >= (uint64_t)w ? 0 : a << b; break; case T_LSHR: r = b >= (uint64_t)w ? 0 : a >> b; break;
        case T_ASHR: r = (uint64_t)(sx(a, w) >> (b >= (uint64_t)w ? 63 : b)); break;
        case T_AND: r = a & b; break; case T_OR: r = a | b; break; case T_XOR: r = a ^ b; break;
        case T_ZEXT: r = a; break; case T_SEXT: r = (uint64_t)sx(a, aw); break; case T_TRUNC: r = a; break;
        case T_EQ: r = a == b; break; case T_NE: r = a != b; break; case T_ULT: r = a < b; break; case T_ULE: r = a <= b; break;
        case T_UGT: r = a > b; break; case T_UGE: r = a >= b; break;
        case T_SLT: r = sx(a, aw) < sx(b, aw); break; case T_SLE: r = sx(a, aw) <= sx(b, aw); break;
        case T_SGT: r = sx(a, aw) > sx(b, aw); break; case T_SGE: r = sx(a, aw) >= sx(b, aw); break;
        case T_CTPOP: r = __builtin_popcountll(a); break;
        case T_CTTZ: r = a ? __builtin_ctzll(a) : w; break;
        case T_CTLZ: r = a ? __builtin_clzll(a) - (64 - w) : w; break;
        default: return false;
        }
        r &= maskw(w); return true;
    }
    TermId op(int o, int w, TermId a, TermId b = 0) {
        bool un = o == T_ZEXT || o == T_SEXT || o == T_TRUNC || o == T_CTPOP || o == T_CTTZ || o == T_CTLZ;
        int aw = t[a].width;
        if (isC(a) && (un || isC(b))) { uint64_t r; if (fold(o, w, cv(a), un ? 0 : cv(b), aw, r)) return cst(w, r); throw Unsupported("division by zero"); }
        if (un && aw == w && o <= T_TRUNC) return a;
        if (!un) {
            if (a == b) switch (o) { case T_EQ: case T_ULE: case T_UGE: case T_SLE: case T_SGE: return cst(1, 1);
                case T_NE: case T_ULT: case T_UGT: case T_SLT: case T_SGT: return cst(1, 0); case T_SUB: case T_XOR: return cst(w, 0); case T_AND: case T_OR: return a; }
            if (isC(b)) {
                uint64_t v = cv(b);
                if (v == 0 && (o == T_ADD || o == T_SUB || o == T_OR || o == T_XOR || o == T_SHL || o == T_LSHR || o == T_ASHR)) return a;
                if (v == 0 && (o == T_AND || o == T_MUL)) return b;
                if (v == 1 && o == T_MUL) return a;
                if (v == maskw(w) && o == T_AND) return a;
            }
            if (isC(a) && (o == T_ADD || o == T_OR || o == T_XOR || o == T_AND || o == T_MUL || o == T_EQ || o == T_NE)) return op(o, w, b, a);
        }
        TermId r = mk(o, w, a, un ? 0 : b, 0);
        if (o == T_TRUNC || (!un && isC(b) && (o == T_AND || o == T_OR || o == T_LSHR || o == T_SHL))) { // bit fields assembled over unknown bits may be fully known
            const std::vector<Lit> &bits = blast(r); uint64_t v = 0; bool known = true;
            for (size_t i = 0; i < bits.size() && known; i++) { if (bits[i] == LT) v |= 1ull << i; else if (bits[i] != LF) known = false; }
            if (known) return cst(w, v);
        }
        return r;
    }
    // bit-blast
    std::vector<Lit> addv(const std::vector<Lit> &x, const std::vector<Lit> &y, Lit c) {
        std::vector<Lit> r(x.size());
        for (size_t i = 0; i < x.size(); i++) { Lit s = G.Xor(x[i], y[i]); r[i] = G.Xor(s, c); c = G.Or(G.And(x[i], y[i]), G.And(s, c)); }
        return r;
    }
    Lit ultv(const std::vector<Lit> &x, const std::vector<Lit> &y, bool orEq) { Lit r = orEq ? LT : LF; for (size_t i = 0; i < x.size(); i++) r = G.Or(G.And(lnot(x[i]), y[i]), G.And(lnot(G.Xor(x[i], y[i])), r)); return r; }
    const std::vector<Lit> &blast(TermId id) {
        if (!bits[id].empty()) return bits[id];
        Term x = t[id]; std::vector<Lit> r(x.width);
        auto neg = [](std::vector<Lit> v) { for (auto &l : v) l = lnot(l); return v; };
        switch (x.op) {
        case T_CONST: for (int i = 0; i < x.width; i++) r[i] = (x.val >> i) & 1 ? LT : LF; break;
        case T_VAR: for (int i = 0; i < x.width; i++) r[i] = G.newInput(0); break;
        default: {
            std::vector<Lit> A = blast(x.a), B;
            bool un = x.op == T_ZEXT || x.op == T_SEXT || x.op == T_TRUNC || x.op == T_CTPOP || x.op == T_CTTZ || x.op == T_CTLZ;
            if (!un) B = blast(x.b);
            switch (x.op) {
            case T_ADD: r = addv(A, B, LF); break; case T_SUB: r = addv(A, neg(B), LT); break;
            case T_AND: for (int i = 0; i < x.width; i++) r[i] = G.And(A[i], B[i]); break;
            case T_OR: for (int i = 0; i < x.width; i++) r[i] = G.Or(A[i], B[i]); break;
            case T_XOR: for (int i = 0; i < x.width; i++) r[i] = G.Xor(A[i], B[i]); break;
            case T_ZEXT: for (int i = 0; i < x.width; i++) r[i] = i < (int)A.size() ? A[i] : LF; break;
            case T_SEXT: for (int i = 0; i < x.width; i++) r[i] = i < (int)A.size() ? A[i] : A.back(); break;
            case T_TRUNC: for (int i = 0; i < x.width; i++) r[i] = A[i]; break;
            case T_EQ: case T_NE: { Lit e = LT; for (size_t i = 0; i < A.size(); i++) e = G.And(e, lnot(G.Xor(A[i], B[i]))); r[0] = x.op == T_EQ ? e : lnot(e); break; }
            case T_ULT: r[0] = ultv(A, B, false); break; case T_ULE: r[0] = ultv(A, B, true); break;
            case T_UGT: r[0] = ultv(B, A, false); break; case T_UGE: r[0] = ultv(B, A, true); break;
            case T_SLT: case T_SLE: case T_SGT: case T_SGE: {
                A.back() = lnot(A.back()); B.back() = lnot(B.back());
                r[0] = x.op == T_SLT ? ultv(A, B, false) : x.op == T_SLE ? ultv(A, B, true) : x.op == T_SGT ? ultv(B, A, false) : ultv(B, A, true); break; }
            case T_SHL: case T_LSHR: case T_ASHR: {
                r = A; Lit fill = x.op == T_ASHR ? A.back() : LF;
                for (size_t k = 0; k < B.size(); k++) {
                    std::vector<Lit> n(r.size());
                    for (size_t i = 0; i < r.size(); i++) {
                        Lit s = fill;
                        if (k < 7) { uint64_t d = 1ull << k; if (x.op == T_SHL) s = i >= d ? r[i - d] : LF; else s = i + d < r.size() ? r[i + d] : fill; }
                        n[i] = G.Ite(B[k], s, r[i]);
                    }
                    r = n;
                }
                break; }
            case T_MUL: {
                std::vector<Lit> acc(x.width, LF);
                for (int i = 0; i < x.width; i++) { if (B[i] == LF) continue; std::vector<Lit> s(x.width, LF); for (int j = i; j < x.width; j++) s[j] = G.And(A[j - i], B[i]); acc = addv(acc, s, LF); }
                r = acc; break; }
            case T_UDIV: case T_UREM: {
                int w = x.width; std::vector<Lit> q(w, LF), rem(w + 1, LF), D = B; D.push_back(LF);
                for (int i = w - 1; i >= 0; i--) {
                    for (int j = w; j > 0; j--) rem[j] = rem[j - 1]; rem[0] = A[i];
                    Lit ge = lnot(ultv(rem, D, false)); q[i] = ge;
                    auto sub = addv(rem, neg(D), LT); for (int j = 0; j <= w; j++) rem[j] = G.Ite(ge, sub[j], rem[j]);
                }
                if (x.op == T_UDIV) r = q; else for (int i = 0; i < w; i++) r[i] = rem[i];
                break; }
            case T_SDIV: case T_SREM: {
                Lit sa = A.back(), sb = B.back(); int w = x.width;
                std::vector<Lit> z(w, LF); auto na = addv(z, neg(A), LT), nb = addv(z, neg(B), LT);
                for (int i = 0; i < w; i++) { A[i] = G.Ite(sa, na[i], A[i]); B[i] = G.Ite(sb, nb[i], B[i]); }
                std::vector<Lit> q(w, LF), rem(w + 1, LF), D = B; D.push_back(LF);
                for (int i = w - 1; i >= 0; i--) {
                    for (int j = w; j > 0; j--) rem[j] = rem[j - 1]; rem[0] = A[i];
                    Lit ge = lnot(ultv(rem, D, false)); q[i] = ge;
                    auto sub = addv(rem, neg(D), LT); for (int j = 0; j <= w; j++) rem[j] = G.Ite(ge, sub[j], rem[j]);
                }
                rem.resize(w); auto nq = addv(z, neg(q), LT), nr = addv(z, neg(rem), LT); Lit sq = G.Xor(sa, sb);
                for (int i = 0; i < w; i++) r[i] = x.op == T_SDIV ? G.Ite(sq, nq[i], q[i]) : G.Ite(sa, nr[i], rem[i]);
                break; }
            case T_CTPOP: { std::vector<Lit> acc(x.width, LF); for (auto b : A) { std::vector<Lit> o(x.width, LF); o[0] = b; acc = addv(acc, o, LF); } r = acc; break; }
            case T_CTTZ: case T_CTLZ: {
                std::vector<Lit> acc(x.width, LF); int n = A.size(); for (int i = 0; i < x.width; i++) acc[i] = ((uint64_t)n >> i) & 1 ? LT : LF;
                for (int k = n - 1; k >= 0; k--) { Lit b = x.op == T_CTTZ ? A[k] : A[n - 1 - k]; for (int i = 0; i < x.width; i++) acc[i] = G.Ite(b, ((uint64_t)k >> i) & 1 ? LT : LF, acc[i]); }
                r = acc; break; }
            default: throw Unsupported("bit-blasting of operation");
            }
        } }
        bits[id] = r; return bits[id];
    }
    Lit lit(TermId id) { if (isC(id)) return cv(id) ? LT : LF; return blast(id)[0]; }
};

struct Infeasible { };
struct Entry { TermId t; Lit g; };
struct Vals {
    Aig &G; Terms &T;
    struct Rec { uint32_t off, n; };
    std::vector<Rec> recs; std::vector<Entry> arena;
    std::unordered_map<uint64_t, std::vector<ValId>> tab; std::vector<ValId> single;
    uint64_t maxEntries = 0;
    Vals(Aig &g, Terms &t) : G(g), T(t) { recs.push_back({0, 0}); }
    const Entry *begin(ValId v) const { return &arena[recs[v].off]; }
    uint32_t size(ValId v) const { return recs[v].n; }
    ValId one(TermId t) {
        if (single.size() <= t) single.resize(t + 64, 0);
        if (single[t]) return single[t];
        ValId id = recs.size(); recs.push_back({(uint32_t)arena.size(), 1}); arena.push_back({t, LT}); return single[t] = id;
    }
    ValId cst(int w, uint64_t v) { return one(T.cst(w, v)); }
    ValId make(std::vector<Entry> &e) { // sorts, merges
        size_t n = 0;
        std::sort(e.begin(), e.end(), [](const Entry &a, const Entry &b) { return a.t < b.t; });
        for (size_t i = 0; i < e.size(); i++) {
            if (e[i].g == LF) continue;
            if (n && e[n - 1].t == e[i].t) e[n - 1].g = G.Or(e[n - 1].g, e[i].g); else e[n++] = e[i];
        }
        e.resize(n);
        if (n == 0) throw Infeasible();
        if (n == 1) return one(e[0].t);
        if (n > maxEntries) maxEntries = n;
        uint64_t h = n; for (auto &x : e) h = (h ^ x.t ^ ((uint64_t)x.g << 32)) * 0x9E3779B97F4A7C15ull, h ^= h >> 31;
        auto &bk = tab[h];
        for (auto id : bk) if (recs[id].n == n && !memcmp(begin(id), e.data(), n * sizeof(Entry))) return id;
        ValId id = recs.size(); recs.push_back({(uint32_t)arena.size(), (uint32_t)n}); arena.insert(arena.end(), e.begin(), e.end());
        bk.push_back(id); return id;
    }
    bool isConst(ValId v, uint64_t &c) const { if (recs[v].n != 1) return false; TermId t = begin(v)->t; if (!T.isC(t)) return false; c = T.cv(t); return true; }
    int width(ValId v) const { return T.t[begin(v)->t].width; }
    Lit lit(ValId v) { Lit r = LF; for (uint32_t i = 0; i < recs[v].n; i++) { Entry e = arena[recs[v].off + i]; r = G.Or(r, G.And(e.g, T.lit(e.t))); } return r; }
    ValId fromLit(Lit c) { if (c == LT) return cst(1, 1); if (c == LF) return cst(1, 0); std::vector<Entry> e{{T.cst(1, 1), c}, {T.cst(1, 0), lnot(c)}}; return make(e); }
    // value a under ga, b under gb
    ValId merge(Lit ga, ValId a, Lit gb, ValId b) {
        if (a == b) return a; if (!a) return b; if (!b) return a;
        std::vector<Entry> e; uint32_t i = 0, j = 0, na = size(a), nb = size(b);
        while (i < na || j < nb) {
            if (j >= nb || (i < na && begin(a)[i].t < begin(b)[j].t)) { Entry x = begin(a)[i++]; x.g = G.And(ga, x.g); e.push_back(x); }
            else if (i >= na || begin(b)[j].t < begin(a)[i].t) { Entry x = begin(b)[j++]; x.g = G.And(gb, x.g); e.push_back(x); }
            else { Entry x = begin(a)[i++], y = begin(b)[j++]; if (x.g != y.g) x.g = G.Or(G.And(ga, x.g), G.And(gb, y.g)); e.push_back(x); }
        }
        return make(e);
    }
    ValId filter(Lit g, ValId v) {
        if (size(v) == 1) return v;
        std::vector<Entry> e; bool ch = false;
        for (uint32_t i = 0; i < recs[v].n; i++) { Entry x = arena[recs[v].off + i]; if (G.feasible(g, x.g)) e.push_back(x); else ch = true; }
        return ch ? make(e) : v;
    }
    ValId binop(Lit g, int o, int w, ValId a, ValId b) {
        if (size(a) == 1 && size(b) == 1) return one(T.op(o, w, begin(a)->t, begin(b)->t));
        if (w == 1 && width(a) == 1 && (o == T_AND || o == T_OR || o == T_XOR)) { Lit x = lit(a), y = lit(b); return fromLit(o == T_AND ? G.And(x, y) : o == T_OR ? G.Or(x, y) : G.Xor(x, y)); }
        std::vector<Entry> e; bool big = (uint64_t)size(a) * size(b) > 8;
        std::unordered_map<TermId, size_t> idx;
        uint32_t na = size(a), nb = size(b);
        for (uint32_t i = 0; i < na; i++) for (uint32_t j = 0; j < nb; j++) {
            Entry x = begin(a)[i], y = begin(b)[j]; Lit c = G.And(x.g, y.g);
            if (c == LF) continue;
            if (na > 1 && nb > 1 && !G.feasible(g, c)) continue;
            (void)big;
            if ((o == T_UDIV || o == T_SDIV || o == T_UREM || o == T_SREM) && T.isC(y.t) && T.cv(y.t) == 0) continue; // undefined: caller checks
            e.push_back({T.op(o, w, x.t, y.t), c});
        }
        return make(e);
    }
    ValId unop(int o, int w, ValId a) {
        if (size(a) == 1) return one(T.op(o, w, begin(a)->t));
        std::vector<Entry> e; for (uint32_t i = 0; i < recs[a].n; i++) { Entry x = arena[recs[a].off + i]; e.push_back({T.op(o, w, x.t), x.g}); }
        return make(e);
    }
};
