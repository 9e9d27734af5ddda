// And-inverter graph with simulation signatures and a SAT back end (MiniSat) used for pruning and for verdicts.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <vector>
#include <unordered_map>
#include <string>
#include <chrono>
#include <random>
#include "minisat/core/Solver.h"

typedef uint32_t Lit; // node*2 + neg; 0 = false, 1 = true
static const Lit LF = 0, LT = 1;
static inline Lit lnot(Lit a) { return a ^ 1; }

static const int SIMW = 16;

struct Aig {
    struct Node { Lit a, b; }; // inputs: a==b==~0
    std::vector<Node> nodes;
    std::vector<uint64_t> sims; // SIMW per node
    std::vector<uint64_t> table; // open addressing: node index + 1
    uint64_t mask = 0, used = 0;
    std::mt19937_64 rng;
    // statistics
    uint64_t q_total = 0, q_sim = 0, q_sat = 0, q_unsat = 0, q_unknown = 0, q_cache = 0;
    double sat_time = 0;
    int conf_budget = 2000;

    Aig() : rng(12345) {
        nodes.push_back({~0u, ~0u});
        sims.resize(SIMW, 0);
        table.assign(1 << 16, 0); mask = (1 << 16) - 1;
    }
    bool isInput(uint32_t n) const { return n && nodes[n].a == ~0u; }
    uint64_t simw(Lit l, int w) const { uint64_t s = sims[(size_t)(l >> 1) * SIMW + w]; return (l & 1) ? ~s : s; }
    Lit newInput(int biasMode) { // biasMode 0: p=1/2; 1: sparse (stop bits)
        uint32_t n = nodes.size(); nodes.push_back({~0u, ~0u});
        sims.resize(sims.size() + SIMW);
        for (int w = 0; w < SIMW; w++) {
            uint64_t r = rng();
            if (biasMode == 1) { int k = 1 + w % 8; for (int i = 0; i < k; i++) r &= rng(); if (w == SIMW - 1) r = 0; }
            sims[(size_t)n * SIMW + w] = r;
        }
        return n * 2;
    }
    static uint64_t hsh(Lit a, Lit b) { uint64_t x = ((uint64_t)a << 32) | b; x *= 0x9E3779B97F4A7C15ull; x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 32; return x; }
    void grow() {
        std::vector<uint64_t> old; old.swap(table);
        table.assign(old.size() * 2, 0); mask = table.size() - 1;
        for (auto e : old) if (e) { auto &nd = nodes[e - 1]; uint64_t i = hsh(nd.a, nd.b) & mask; while (table[i]) i = (i + 1) & mask; table[i] = e; }
    }
    Lit rawAnd(Lit a, Lit b) {
        if (a > b) std::swap(a, b);
        uint64_t i = hsh(a, b) & mask;
        while (table[i]) { auto &nd = nodes[table[i] - 1]; if (nd.a == a && nd.b == b) return (Lit)((table[i] - 1) * 2); i = (i + 1) & mask; }
        uint32_t n = nodes.size(); nodes.push_back({a, b});
        table[i] = n + 1; if (++used * 2 > table.size()) grow();
        sims.resize(sims.size() + SIMW);
        for (int w = 0; w < SIMW; w++) sims[(size_t)n * SIMW + w] = simw(a, w) & simw(b, w);
        return n * 2;
    }
    Lit And(Lit a, Lit b) {
        if (a == LF || b == LF || a == lnot(b)) return LF;
        if (a == LT || a == b) return b;
        if (b == LT) return a;
        for (int k = 0; k < 2; k++) { // two-level rules on operand a
            uint32_t n = a >> 1;
            if (nodes[n].a != ~0u) {
                Lit x = nodes[n].a, y = nodes[n].b;
                if (!(a & 1)) {
                    if (b == x || b == y) return a;
                    if (b == lnot(x) || b == lnot(y)) return LF;
                    uint32_t m = b >> 1;
                    if (nodes[m].a != ~0u && !(b & 1)) {
                        Lit u = nodes[m].a, v = nodes[m].b;
                        if (x == lnot(u) || x == lnot(v) || y == lnot(u) || y == lnot(v)) return LF;
                        if (k == 0) { // share a common factor
                            if (x == u || y == u) return And(a, v);
                            if (x == v || y == v) return And(a, u);
                        }
                    }
                } else {
                    if (b == lnot(x) || b == lnot(y)) return b;
                    if (b == x) return And(b, lnot(y));
                    if (b == y) return And(b, lnot(x));
                    uint32_t m = b >> 1;
                    if (nodes[m].a != ~0u && !(b & 1)) {
                        Lit u = nodes[m].a, v = nodes[m].b; // b = u&v
                        if (u == lnot(x) || u == lnot(y) || v == lnot(x) || v == lnot(y)) return b;
                        if (u == x || v == x) return And(b, lnot(y));
                        if (u == y || v == y) return And(b, lnot(x));
                    } else if (nodes[m].a != ~0u && (b & 1)) {
                        Lit u = nodes[m].a, v = nodes[m].b; // !(xy) & !(uv): if x==u and y==!v -> !x
                        if ((x == u && y == lnot(v))) return lnot(x);
                        if ((x == v && y == lnot(u))) return lnot(x);
                        if ((y == u && x == lnot(v))) return lnot(y);
                        if ((y == v && x == lnot(u))) return lnot(y);
                    }
                }
            }
            std::swap(a, b);
        }
        return rawAnd(a, b);
    }
    Lit Or(Lit a, Lit b) { return lnot(And(lnot(a), lnot(b))); }
    Lit Xor(Lit a, Lit b) {
        if (a == LF) return b; if (b == LF) return a; if (a == LT) return lnot(b); if (b == LT) return lnot(a);
        if (a == b) return LF; if (a == lnot(b)) return LT;
        return Or(And(a, lnot(b)), And(lnot(a), b));
    }
    Lit Ite(Lit c, Lit t, Lit e) {
        if (c == LT) return t; if (c == LF) return e; if (t == e) return t;
        return Or(And(c, t), And(lnot(c), e));
    }

    // ---- SAT ----
    Minisat::Solver *S = nullptr;
    std::vector<int> satvar;            // node -> minisat var or -1
    std::vector<uint32_t> inSat;        // inputs that were given to the solver
    int patCount = 0; // learned patterns, pending resimulation
    int patWord = SIMW / 2;
    bool dirty = false;
    std::vector<std::pair<uint32_t, uint64_t>> pend;

    int var(uint32_t root) {
        if (!S) S = new Minisat::Solver();
        if (satvar.size() < nodes.size()) satvar.resize(nodes.size(), -1);
        if (satvar[root] >= 0) return satvar[root];
        std::vector<uint32_t> st{root};
        while (!st.empty()) {
            uint32_t n = st.back();
            if (satvar[n] >= 0) { st.pop_back(); continue; }
            if (n == 0 || nodes[n].a == ~0u) {
                int v = S->newVar(); satvar[n] = v; st.pop_back();
                if (n == 0) S->addClause(Minisat::mkLit(v, true)); else inSat.push_back(n);
                continue;
            }
            uint32_t x = nodes[n].a >> 1, y = nodes[n].b >> 1;
            if (satvar[x] < 0) { st.push_back(x); continue; }
            if (satvar[y] < 0) { st.push_back(y); continue; }
            int v = S->newVar(); satvar[n] = v; st.pop_back();
            Minisat::Lit A = Minisat::mkLit(satvar[x], nodes[n].a & 1), B = Minisat::mkLit(satvar[y], nodes[n].b & 1), N = Minisat::mkLit(v);
            S->addClause(~N, A); S->addClause(~N, B); S->addClause(N, ~A, ~B);
        }
        return satvar[root];
    }
    Minisat::Lit mlit(Lit l) { return Minisat::mkLit(var(l >> 1), l & 1); }

    // 1 sat, 0 unsat, -1 unknown
    int solve(const std::vector<Lit> &ls, int64_t budget) {
        auto t0 = std::chrono::steady_clock::now();
        Minisat::vec<Minisat::Lit> as;
        for (auto l : ls) as.push(mlit(l));
        if (budget < 0) S->budgetOff(); else S->setConfBudget(budget);
        Minisat::lbool r = S->solveLimited(as);
        sat_time += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
        if (r == Minisat::lbool((uint8_t)0)) { learnPattern(); return 1; }
        if (r == Minisat::lbool((uint8_t)1)) return 0;
        return -1;
    }
    bool modelOf(uint32_t n) { // value of input node in last model
        if (n >= satvar.size() || satvar[n] < 0) return false;
        return S->model[satvar[n]] == Minisat::lbool((uint8_t)0);
    }
    void learnPattern() {
        int bit = patCount % 64;
        uint64_t m = 1ull << bit;
        for (auto n : inSat) { uint64_t &s = sims[(size_t)n * SIMW + patWord]; if (modelOf(n)) s |= m; else s &= ~m; }
        // resimulate this one word (cheap linear pass)
        for (size_t n = 1; n < nodes.size(); n++) if (nodes[n].a != ~0u) sims[n * SIMW + patWord] = simw(nodes[n].a, patWord) & simw(nodes[n].b, patWord);
        if (++patCount % 64 == 0) { patWord++; if (patWord == SIMW) patWord = 4; }
    }
    std::unordered_map<uint64_t, char> cache;
    // may the conjunction of a and b be satisfiable?
    bool feasible(Lit a, Lit b) {
        if (a == LF || b == LF) return false;
        if (a == lnot(b)) return false;
        if (a == LT && b == LT) return true;
        q_total++;
        for (int w = 0; w < SIMW; w++) if (simw(a, w) & simw(b, w)) { q_sim++; return true; }
        Lit c = And(a, b);
        if (c == LF) return false; if (c == LT) return true;
        auto it = cache.find(c);
        if (it != cache.end()) { q_cache++; return it->second; }
        int r = solve({c}, conf_budget);
        if (r == 1) q_sat++; else if (r == 0) q_unsat++; else q_unknown++;
        cache[c] = r != 0;
        if (r == 0) { S->addClause(~mlit(c)); }
        return r != 0;
    }
};
