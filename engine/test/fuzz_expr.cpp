// Checks the term simplifier: random integer terms are built through the simplifying constructors and compared,
// for random values of the variables, with plain machine arithmetic.   g++ -O2 -std=c++17 fuzz_expr.cpp ../expr.cpp
#include "../expr.h"
#include <cstdio>
#include <cstdlib>
#include <random>
extern u128 foldOp(Op op, unsigned w, u32 aux, u128 a, u128 b, unsigned wa);
struct T { Expr* e; std::vector<u128> v; };
int main(int argc, char** argv) {
    std::mt19937_64 g(argc > 1 ? atoi(argv[1]) : 1); long rounds = argc > 2 ? atol(argv[2]) : 20000; auto R = [&](u64 n) { return g() % n; }; u64 gen = 1; const int S = 12; long cmp = 0, folded = 0;
    for (long it = 0; it < rounds; it++) {
         std::vector<T> t; std::vector<Model> ms(S);
        int nv = 2 + R(5);
        for (int i = 0; i < nv; i++) { bool bit = R(4) == 0; i64 lo = bit ? 0 : (i64)R(20) - 10, hi = bit ? 1 : lo + 1 + R(40); unsigned w = R(2) ? 64 : 32; T x; x.e = mkVar("v" + std::to_string(i), w, true, lo, hi);
            for (int s = 0; s < S; s++) { i64 v = lo + R(hi - lo + 1); if (ms[s].size() <= x.e->aux) ms[s].resize(x.e->aux + 1); ms[s][x.e->aux] = (u64)v & mask64(w); x.v.push_back((u64)v & mask64(w)); } t.push_back(x); }
        int n = 5 + R(30);
        for (int k = 0; k < n; k++) {
            T& a = t[R(t.size())]; T r; unsigned w = a.e->w;
            std::vector<int> same; for (int i = 0; i < (int)t.size(); i++) if (t[i].e->w == w) same.push_back(i);
            T& b = t[same[R(same.size())]];
            switch (R(11)) {
            case 0: case 1: case 2: case 3: { Op ops[] = {ADD, SUB, ADD, MUL, SHL, AND, OR, XOR}; Op o = ops[R(w == 1 ? 3 : 8)]; if (w == 1) { Op bo[] = {AND, OR, XOR}; o = bo[R(3)]; } Expr* rb = b.e; std::vector<u128> bv = b.v; if (o == SHL || R(3) == 0) { u128 c = o == SHL ? R(4) : ((u64)((i64)R(9) - 4) & mask64(w)); c &= maskW(w); rb = mkC(w, c); bv.assign(S, c); } r.e = mkBin(o, a.e, rb); for (int s = 0; s < S; s++) r.v.push_back(foldOp(o, w, 0, a.v[s], bv[s], w)); break; }
            case 4: case 5: case 6: { if (w == 1) continue; Op ops[] = {EQ, SLT, SLE, ULT, ULE}; Op o = ops[R(5)]; r.e = mkBin(o, a.e, b.e); cmp++; folded += r.e->isConst(); for (int s = 0; s < S; s++) r.v.push_back(foldOp(o, 1, 0, a.v[s], b.v[s], w)); break; }
            case 7: { unsigned nw = w == 1 ? (R(2) ? 32 : 64) : 64; if (nw <= w) continue; bool sg = R(2); r.e = sg ? mkSExt(a.e, nw) : mkZExt(a.e, nw); for (int s = 0; s < S; s++) r.v.push_back(sg ? (u128)sext128(a.v[s], w) & maskW(nw) : a.v[s]); break; }
            case 8: { if (w != 64) continue; r.e = mkExtract(a.e, 0, 32); for (int s = 0; s < S; s++) r.v.push_back(a.v[s] & maskW(32)); break; }
            default: { std::vector<int> bits; for (int i = 0; i < (int)t.size(); i++) if (t[i].e->w == 1) bits.push_back(i); if (bits.empty()) continue; T& c = t[bits[R(bits.size())]]; r.e = mkIte(c.e, a.e, b.e); for (int s = 0; s < S; s++) r.v.push_back(c.v[s] ? a.v[s] : b.v[s]); break; }
            }
            for (int s = 0; s < S; s++) { u128 v = evalExpr(r.e, ms[s], ++gen); if (v != r.v[s]) { printf("MISMATCH seed round %ld: %s gives %llx, expected %llx\n", it, exprStr(r.e, 6).c_str(), (unsigned long long)v, (unsigned long long)r.v[s]); return 1; } 
                if (r.e->w <= 64 && ((u64)v < r.e->umin || (u64)v > r.e->umax || sext64((u64)v, r.e->w) < r.e->smin || sext64((u64)v, r.e->w) > r.e->smax)) { printf("RANGE round %ld: %s\n", it, exprStr(r.e, 6).c_str()); return 1; } }
            t.push_back(r);
        }
    }
    printf("%ld rounds, %ld comparisons, %ld folded\n", rounds, cmp, folded); return 0;
}
