// C17: incremental evaluation of a neighbour equals the full evaluation after the move.
//@ bounds bit strings of 1..n bits, permutations of 2..n elements, every neighbour; instances: NK tables of multiples of 1/8 with N a power of two and any links, UBQP coefficients -q..q, QAP matrices with entries 0..a and 0..b, MaxSAT with 1..m clauses of 1..2 distinct variables, royal road with any block size, arbitrary fitness tables for the generic evaluations; 1..2 successive moves for the doubly incremental one
//@ outside instances read from text beyond their numbers (the numbers read are arbitrary, the parsing is not executed); larger instances; rounding of NK averages for other sizes
//@ stub std::istream::operator>>(int&)=vf_in_int
//@ stub std::istream::operator>>(unsigned int&)=vf_in_uint
//@ stub std::istream::operator>>(long&)=vf_in_long
//@ entry oneMax covers=done quick="n=6" thorough="n=10"
//@ entry oneMaxBits covers=done quick="n=4" thorough="n=5"
//@ entry oneMaxBitsNh covers=done quick="n=3" thorough="n=4"
//@ entry royal covers=done quick="n=6" thorough="n=9"
//@ entry nk covers=done quick="n=4" thorough="n=4" opts="-enum 2000"
//@ entry nkBits covers=done quick="n=4" thorough="n=4" opts="-enum 2000"
//@ entry nkRandom covers=done quick="n=2" thorough="n=4" jobs=4 opts="-enum 2000"
//@ entry ubqp covers=done quick="n=4 q=100" thorough="n=6 q=1000"
//@ entry ubqpBits covers=done quick="n=4 q=100" thorough="n=5 q=1000"
//@ entry ubqpDouble covers=done quick="n=3 q=100" thorough="n=4 q=100"
//@ entry qap covers=done quick="n=4 a=100 b=100" thorough="n=5 a=1000 b=1000"
//@ entry sat covers=done quick="n=3 m=2" thorough="n=3 m=3"
//@ entry byCopyBit covers=done quick="n=3" thorough="n=4"
//@ entry byModifBit covers=done quick="n=3" thorough="n=4"
//@ entry byCopyPerm covers=done quick="n=3" thorough="n=4"
//@ entry byModifPerm covers=done quick="n=3" thorough="n=4"
#include "chrom.h"
#include <mo>
#include <eval/oneMaxEval.h>
#include <eval/royalRoadEval.h>
#include <eval/nkLandscapesEval.h>
#include <eval/ubqpEval.h>
#include <eval/qapEval.h>
#include <eval/maxSATeval.h>
#include <problems/eval/moOneMaxIncrEval.h>
#include <problems/eval/moOneMaxBitsIncrEval.h>
#include <problems/eval/moRoyalRoadIncrEval.h>
#include <problems/eval/moNKlandscapesIncrEval.h>
#include <problems/eval/moNKlandscapesBitsIncrEval.h>
#include <problems/eval/moUBQPSimpleIncrEval.h>
#include <problems/eval/moUBQPBitsIncrEval.h>
#include <problems/eval/moUBQPdoubleIncrEvaluation.h>
#include <problems/eval/moQAPIncrEval.h>
#include <problems/eval/moMaxSATincrEval.h>
#include <problems/bitString/moBitsNeighbor.h>
#include <problems/bitString/moBitsWithoutReplNeighborhood.h>
#include <problems/permutation/moIndexedSwapNeighbor.h>
#include <problems/permutation/moSwapNeighbor.h>
#include <problems/permutation/moShiftNeighbor.h>
#include <problems/permutation/moTwoOptExNeighbor.h>
typedef moBitNeighbor<double> BN; typedef moBitsNeighbor<Bits> MB;
// numbers "read" from the instance file
static std::vector<long> vf_file; static unsigned vf_pos = 0;
static long vf_next() { vf_assert(vf_pos < vf_file.size(), "harness: enough numbers in the instance"); return vf_file[vf_pos++]; }
extern "C" __attribute__((used)) std::istream& vf_in_int(std::istream& s, int& v) { v = (int)vf_next(); return s; }
extern "C" __attribute__((used)) std::istream& vf_in_uint(std::istream& s, unsigned& v) { v = (unsigned)vf_next(); return s; }
extern "C" __attribute__((used)) std::istream& vf_in_long(std::istream& s, long& v) { v = vf_next(); return s; }
#define N(lo) vfPick("n", lo, P("n", 4))
// the neighbour's fitness by the incremental evaluation against the full evaluation of a moved copy
template <class S, class NB> static void compare(eoEvalFunc<S>& full, moEval<NB>& incr, S& s, NB& nb) {
    full(s); S s0(s); incr(s, nb);
    vf_assert(same(s, s0), "the content of the solution is left as it was"); vf_assert(!s.invalid() && s.fitness() == s0.fitness(), "the fitness of the solution is left as it was");
    S t = s0; nb.move(t); t.invalidate(); full(t);
    vf_assert(!nb.invalid(), "the neighbour is evaluated"); vf_assert(nb.fitness() == t.fitness(), "incremental fitness equals full fitness"); vf_cover("done");
}
static MB symMask(int n) { MB nb; nb.nBits = 0; int m = vfPick("mask", 0, (1 << n) - 1); for (int i = 0; i < n; i++) if (m >> i & 1) { nb.bits.push_back(i); nb.nBits++; } return nb; }
static Bits pickBits(int n) { Bits s(n, false); int m = vfPick("bits", 0, (1 << n) - 1); for (int i = 0; i < n; i++) s[i] = m >> i & 1; return s; }
static BN bitAt(Bits& s, int k) { BN nb; nb.index(s, k); return nb; }
ENTRY(oneMax) { int n = N(1); Bits s = symBits(n); BN nb = bitAt(s, vfPick("k", 0, n - 1)); oneMaxEval<Bits> f; moOneMaxIncrEval<BN> e; compare(f, e, s, nb); }
ENTRY(oneMaxBits) { int n = N(1); Bits s = symBits(n); MB nb = symMask(n); oneMaxEval<Bits> f; moOneMaxBitsIncrEval<MB> e; compare(f, e, s, nb); }
ENTRY(oneMaxBitsNh) {
    int n = N(1), d = vfPick("d", 1, n); Bits s = symBits(n); MB nb; moBitsWithoutReplNeighborhood<MB> nh(n, d, 2); oneMaxEval<Bits> f; moOneMaxBitsIncrEval<MB> e; vf_split_random = 1;
    nh.init(s, nb); compare(f, e, s, nb); if (nh.cont(s)) { nh.next(s, nb); compare(f, e, s, nb); }
}
ENTRY(royal) { int n = N(1); Bits s(n, (bool)vfPick("ones", 0, 1)); for (int i = 0; i < n; i++) s[i] = vfInt("bit", 0, 1); BN nb = bitAt(s, vfPick("k", 0, n - 1)); RoyalRoadEval<Bits> f(vfPick("block", 1, n + 1)); moRoyalRoadIncrEval<BN> e(f); compare(f, e, s, nb); }
// NK instance with arbitrary tables on a grid and arbitrary (distinct) links
struct NK : public nkLandscapesEval<Bits> {
    NK(int n, int k, bool any) { N = n; K = k; buildTables();
        for (int i = 0; i < n; i++) { for (int j = 0; j <= k; j++) { links[i][j] = any ? vfPick("link", 0, n - 1) : (i + j) % n; for (int l = 0; l < j; l++) vf_assume(links[i][l] != links[i][j]); } for (int j = 0; j < 1 << (k + 1); j++) tables[i][j] = vfInt("table", 0, 8) / 8.0; } }
};
static int pow2(int hi) { int n = 1 << vfPick("logN", 0, 2); vf_assume(n <= hi); return n; }
ENTRY(nk) { int n = pow2(P("n", 4)), k = vfPick("K", 0, std::min(n - 1, 2)); NK f(n, k, n <= 2); Bits s = symBits(n); BN nb = bitAt(s, vfPick("k", 0, n - 1)); moNKlandscapesIncrEval<BN> e(f); compare(f, e, s, nb); }
ENTRY(nkBits) { int n = pow2(P("n", 4)), k = vfPick("K", 0, std::min(n - 1, 1)); NK f(n, k, n <= 2); Bits s = symBits(n); MB nb = symMask(n); moNKlandscapesBitsIncrEval<MB> e(f); compare(f, e, s, nb); }
ENTRY(nkRandom) {
    int n = pow2(P("n", 2)), k = vfPick("K", 0, n - 1); vf_rbits = 3; vf_max_draws = 40; nkLandscapesEval<Bits> f(n, k, vfPick("consecutive", 0, 1)); Bits s = symBits(n); BN nb = bitAt(s, vfPick("k", 0, n - 1));
    for (int i = 0; i < n; i++) { vf_assert((int)f.links[i][0] == i, "a bit contributes to its own term"); for (int j = 0; j <= k; j++) for (int l = 0; l < j; l++) vf_assert(f.links[i][j] != f.links[i][l], "links are distinct"); }
    moNKlandscapesIncrEval<BN> e(f); compare(f, e, s, nb);
}
static std::string devnull() { return "/dev/null"; }
// UBQP instance: format 0 lists the non zero entries, format 1 the whole matrix; the chosen instance is the second one
static void ubqpFile(int n, int fmt, int inst) {
    int q = P("q", 20); vf_file.clear(); vf_pos = 0; vf_file.push_back(2);
    for (int k = 0; k <= inst; k++) { vf_file.push_back(n); if (fmt == 0) vf_file.push_back(n * n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { if (fmt == 0) { vf_file.push_back(i + 1); vf_file.push_back(j + 1); } vf_file.push_back(vfInt("q", -q, q)); } }
}
ENTRY(ubqp) { int n = N(1), fmt = vfPick("format", 0, 1), inst = vfPick("inst", 0, 1); ubqpFile(n, fmt, inst); std::string d = devnull(); UbqpEval<Bits> f(d, fmt, inst); Bits s = pickBits(n); BN nb = bitAt(s, vfPick("k", 0, n - 1)); moUBQPSimpleIncrEval<BN> e(f); compare(f, e, s, nb); }
ENTRY(ubqpBits) { int n = N(1); ubqpFile(n, 1, 0); std::string d = devnull(); UbqpEval<Bits> f(d, 1, 0); Bits s = pickBits(n); MB nb = symMask(n); moUBQPBitsIncrEval<MB> e(f); compare(f, e, s, nb); }
struct Explorer : public moNeighborhoodExplorer<BN> { void initParam(Bits&) {} void updateParam(Bits&) {} bool isContinue(Bits&) { return true; } bool accept(Bits&) { return true; } void terminate(Bits&) {} void operator()(Bits&) {} };
ENTRY(ubqpDouble) {
    int n = N(1); ubqpFile(n, 1, 0); std::string d = devnull(); UbqpEval<Bits> f(d, 1, 0); Bits s = pickBits(n); f(s); moUBQPSimpleIncrEval<BN> simple(f); moUBQPdoubleIncrEvaluation<BN> dbl(n, simple); Explorer x; dbl.neighborhoodExplorer(x); moDoubleIncrNeighborhoodEval<BN> e(dbl);
    dbl.init(); dbl(s);
    for (int step = 0; step < 2; step++) {
        BN nb = bitAt(s, vfPick("probe", 0, n - 1)); compare(f, e, s, nb);
        bool mv = vfPick("moved", 0, 1); x.getSelectedNeighbor() = bitAt(s, vfPick("k", 0, n - 1)); if (mv) { e(s, x.getSelectedNeighbor()); x.move(s); } x.moveApplied(mv);
        if (vfPick("restart", 0, 1)) dbl.init();
        dbl(s);
    }
    BN nb = bitAt(s, vfPick("probe", 0, n - 1)); compare(f, e, s, nb);
}
ENTRY(qap) {
    int n = N(2); vf_file.clear(); vf_pos = 0; vf_file.push_back(n); for (int i = 0; i < n * n; i++) vf_file.push_back(vfInt("a", 0, P("a", 7))); for (int i = 0; i < n * n; i++) vf_file.push_back(vfInt("b", 0, P("b", 1)));
    QAPeval<Ints> f(devnull()); Ints s(n, 0); std::vector<unsigned> p = symPerm(n); for (int i = 0; i < n; i++) s[i] = p[i];
    moIndexedSwapNeighbor<Ints> nb; nb.index(s, vfPick("k", 0, n * (n - 1) / 2 - 1)); moQAPIncrEval<moIndexedSwapNeighbor<Ints>> e(f); compare(f, e, s, nb);
}
ENTRY(sat) { int n = N(1), m = vfPick("m", 1, P("m", 2)), k = vfPick("lits", 1, std::min(n, 2)); vf_split_random = 1; vf_max_draws = 16; vf_rbits = 1; MaxSATeval<Bits> f(n, m, k); Bits s = symBits(n); BN nb = bitAt(s, vfPick("k", 0, n - 1)); moMaxSATincrEval<BN> e(f); compare(f, e, s, nb); }
// any function of the content: a table of symbolic values
struct Table : public eoEvalFunc<Bits> { std::vector<double> t; Table(int n) { for (int i = 0; i < 1 << n; i++) t.push_back(vfInt("f", 0, 100)); } void operator()(Bits& s) { int k = 0; for (unsigned i = 0; i < s.size(); i++) k = 2 * k + s[i]; s.fitness(t[k]); } };
struct Hash : public eoEvalFunc<Ints> { std::vector<double> w; int n; Hash(int _n) : n(_n) { for (int i = 0; i < n * n; i++) w.push_back(vfInt("f", 0, 100)); } void operator()(Ints& s) { double v = 0; for (int i = 0; i < n; i++) v += w[i * n + s[i]]; s.fitness(v); } };
template <template <class> class E> static void genericBit() { int n = N(1); Table f(n); Bits s = symBits(n); if (vfPick("multi", 0, 1)) { MB nb = symMask(n); E<MB> e(f); compare(f, e, s, nb); } else { BN nb = bitAt(s, vfPick("k", 0, n - 1)); E<BN> e(f); compare(f, e, s, nb); } }
template <template <class> class E> static void genericPerm() {
    int n = N(2); Hash f(n); std::vector<unsigned> p = symPerm(n); Ints s(n, 0); for (int i = 0; i < n; i++) s[i] = p[i];
    int i = vfPick("i", 0, n - 2), j = vfPick("j", i + 1, n - 1);
    switch (vfPick("kind", 0, 3)) {
    case 0: { typedef moSwapNeighbor<Ints> NB; NB nb; nb.setIndices(i, j); E<NB> e(f); compare(f, e, s, nb); break; }
    case 1: { typedef moIndexedSwapNeighbor<Ints> NB; NB nb; nb.set(s, i, j); E<NB> e(f); compare(f, e, s, nb); break; }
    case 2: { typedef moShiftNeighbor<Ints> NB; NB nb; nb.index(s, vfPick("key", 0, n * (n - 1) - 1)); E<NB> e(f); compare(f, e, s, nb); break; }
    case 3: { typedef moTwoOptExNeighbor<Ints> NB; NB nb; nb.setIndices(i, j); E<NB> e(f); compare(f, e, s, nb); break; }
    }
}
ENTRY(byCopyBit) { genericBit<moFullEvalByCopy>(); }
ENTRY(byModifBit) { genericBit<moFullEvalByModif>(); }
ENTRY(byCopyPerm) { genericPerm<moFullEvalByCopy>(); }
ENTRY(byModifPerm) { genericPerm<moFullEvalByModif>(); }
