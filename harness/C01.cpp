// C01: variation reports its changes; the pipelines mark what changed as not evaluated and never touch the source population.
//@ bounds one or two evaluated parents of 1..n genes with arbitrary content (bits; integers 0..5; reals -3..3; permutations), every draw; pipelines fed by 2..3 parents with operators that change either, both or none of their operands and may also announce a change that did not happen
//@ outside longer chromosomes, deeper nesting of containers; operators written by users that do not announce their changes; eoFlOrBinOp and eoFlOrQuadOp, which do not compile; expression trees (C34)
//@ stub exp=vf_exp_stub
//@ stub log=vf_log_stub
//@ stub sqrt=vf_sqrt_stub
//@ entry bitMonos covers=done,kept,changed quick="n=3" thorough="n=4" opts="-enum 2000"
//@ entry bitCross covers=done,kept,changed quick="n=3" thorough="n=4"
//@ entry realMonos covers=done,kept,changed quick="n=2" thorough="n=3" opts="-enum 2000"
//@ entry realCross covers=done,kept,changed quick="n=2" thorough="n=2" opts="-enum 2000"
//@ entry oneFifth covers=done,kept,evaluated quick="n=2" thorough="n=3" opts="-enum 2000"
//@ entry evolutionStrategies covers=done,kept,changed quick="n=1" thorough="n=2" opts="-enum 2000"
//@ entry permutations covers=done,changed quick="n=3" thorough="n=4" opts="-enum 2000"
//@ entry varMonos covers=done,kept,changed quick="n=2" thorough="n=3"
//@ entry varCross covers=done,kept,changed quick="n=2" thorough="n=3"
//@ entry rounded covers=done,kept,changed quick="n=2" thorough="n=2" opts="-enum 2000"
//@ entry pipelines covers=done,kept,changed quick="n=2 t=2" thorough="n=2 t=3" jobs=4
//@ entry transforms covers=done,kept,changed quick="n=3" thorough="n=4" jobs=2
//@ entry batch covers=done,short quick="n=3" thorough="n=4"
#include "chrom.h"
#include <ga/eoStandardBitMutation.h>
#include <eoSwapMutation.h>
#include <eoShiftMutation.h>
#include <eoTwoOptMutation.h>
#include <eoOrderXover.h>
#include <eoPartiallyMappedXover.h>
#include <eoVariableLengthCrossover.h>
#include <eoVariableLengthMutation.h>
#include <eoFlOrMonOp.h>
#include <eoRealToIntMonOp.h>
#include <eoRealToIntQuadOp.h>
#include <es/eoRealAtomXover.h>
#include <es/eoEsStandardXover.h>
#include <es/eoEsGlobalXover.h>
// transcendental functions: one of a few exactly represented values
extern "C" __attribute__((used)) double vf_exp_stub(double) { static const double v[3] = {0.5, 1.0, 2.0}; return v[vfPick("exp", 0, 2)]; }
extern "C" __attribute__((used)) double vf_log_stub(double) { return (double)vfPick("log", -1, 1); }
extern "C" __attribute__((used)) double vf_sqrt_stub(double) { return 1.0; }
static int N(int lo) { return vfPick("n", lo, P("n", 3)); }
template <class C> static bool extra(const C&, const C&) { return true; }
static bool extra(const eoEsSimple<double>& a, const eoEsSimple<double>& b) { return a.stdev == b.stdev; }
static bool extra(const eoEsStdev<double>& a, const eoEsStdev<double>& b) { bool r = a.stdevs.size() == b.stdevs.size(); for (unsigned i = 0; r && i < a.stdevs.size(); i++) r = a.stdevs[i] == b.stdevs[i]; return r; }
static bool extra(const eoEsFull<double>& a, const eoEsFull<double>& b) {
    bool r = a.stdevs.size() == b.stdevs.size() && a.correlations.size() == b.correlations.size();
    for (unsigned i = 0; r && i < a.stdevs.size(); i++) r = a.stdevs[i] == b.stdevs[i];
    for (unsigned i = 0; r && i < a.correlations.size(); i++) r = a.correlations[i] == b.correlations[i];
    return r;
}
template <class C> static bool equal(const C& a, const C& b) { return same(a, b) && extra(a, b); }
// applies one operator to evaluated parents through a container, and checks parents and offspring
template <class C> static void apply(eoOp<C>& op, eoPop<C>& src) {
    for (unsigned i = 0; i < src.size(); i++) src[i].fitness(100.0 + i);
    const eoPop<C> src0 = src;
    eoPop<C> dst; eoSeqPopulator<C> it(src, dst);
    eoSequentialOp<C> pipe; pipe.add(op, 1.0); pipe(it);
    vf_assert(src.size() == src0.size(), "the source population keeps its size");
    for (unsigned i = 0; i < src.size(); i++) vf_assert(equal(src[i], src0[i]) && !src[i].invalid() && src[i].fitness() == 100.0 + i, "the source population is unchanged");
    vf_assert(dst.size() >= 1 && dst.size() <= src.size(), "offspring are produced");
    for (unsigned i = 0; i < dst.size(); i++) {
        if (dst[i].invalid()) vf_cover("changed");
        else {
            vf_cover("kept");
            vf_assert(equal(dst[i], src0[i]), "an individual still marked as evaluated has the content it was evaluated with");
            vf_assert(dst[i].fitness() == 100.0 + i, "an individual still marked as evaluated has the fitness of its content");
        }
        vf_note("inv", dst[i].invalid());
    }
    vf_cover("done");
}
template <class C> static void mono(eoOp<C>& op, const C& a) { eoPop<C> p; p.push_back(a); apply<C>(op, p); }
template <class C> static void duo(eoOp<C>& op, const C& a, const C& b) { eoPop<C> p; p.push_back(a); p.push_back(b); apply<C>(op, p); }

ENTRY(bitMonos) {
    vf_split_random = 1; int k = vfPick("op", 0, 10); Bits b = symBits(N(1));
    switch (k) {
    case 0: { eoOneBitFlip<Bits> o; mono<Bits>(o, b); break; }
    case 1: { eoDetBitFlip<Bits> o(vfPick("k", 0, 2)); mono<Bits>(o, b); break; }
    case 2: { eoBitMutation<Bits> o(0.5); mono<Bits>(o, b); break; }
    case 3: { eoBitInversion<Bits> o; mono<Bits>(o, b); break; }
    case 4: { eoBitNext<Bits> o; mono<Bits>(o, b); break; }
    case 5: { eoBitPrev<Bits> o; mono<Bits>(o, b); break; }
    case 6: { eoDetSingleBitFlip<Bits> o(1); mono<Bits>(o, b); break; }
    case 7: { eoUniformBitMutation<Bits> o; mono<Bits>(o, b); break; }
    case 8: { eoStandardBitMutation<Bits> o(0.5); mono<Bits>(o, b); break; }
    case 9: { eoConditionalBitMutation<Bits> o(0.5); mono<Bits>(o, b); break; }
    default: { eoBitMutation<Bits> o(1.0, true); mono<Bits>(o, b); }
    }
}
ENTRY(bitCross) {
    vf_split_random = 1; vf_max_draws = 6; int k = vfPick("op", 0, 5), n = N(1); Bits a = symBits(n), b = symBits(n);
    switch (k) {
    case 0: { eo1PtBitXover<Bits> o; duo<Bits>(o, a, b); break; }
    case 1: { eoUBitXover<Bits> o(0.5); duo<Bits>(o, a, b); break; }
    case 2: { eoNPtsBitXover<Bits> o(2); duo<Bits>(o, a, b); break; }
    case 3: { eoBitGxOver<Bits> o(1, 2); duo<Bits>(o, a, b); break; }
    case 4: { eo1PtBitXover<Bits> q; eoQuad2BinOp<Bits> o(q); duo<Bits>(o, a, b); break; }
    default: { eoUBitXover<Bits> q(0.5); eoQuad2BinOp<Bits> o(q); duo<Bits>(o, a, b); }
    }
}
struct AtomMut : eoMonOp<double> { bool operator()(double& d) { int k = vfPick("atom", 0, 2); if (k == 0) { d += 1; return true; } return k == 1; } };
ENTRY(realMonos) {
    int k = P("op", -1) >= 0 ? P("op", -1) : vfPick("op", 0, 9), n = N(1); Reals a = symOf<Reals>(n); eoRealVectorBounds b(n, -4, 4); double sigma = 0.5;
    if (k == 1 || k == 3) for (int i = 0; i < n; i++) a[i] = vfPick("a", -3, 4);
    switch (k) {
    case 0: { eoUniformMutation<Reals> o(0.5, 0.5); mono<Reals>(o, a); break; }
    case 1: { eoUniformMutation<Reals> o(b, 0.5, 0.5); mono<Reals>(o, a); break; }
    case 2: { eoDetUniformMutation<Reals> o(0.5, vfPick("k", 0, 2)); mono<Reals>(o, a); break; }
    case 3: { vf_split_random = 1; eoDetUniformMutation<Reals> o(b, 0.5, vfPick("k", 0, 1)); mono<Reals>(o, a); break; }
    case 4: { eoRealVectorBounds w(n, -1024, 1024); eoNormalVecMutation<Reals> o(w, 1.0 / 64, 0.5); mono<Reals>(o, a); break; }
    case 5: { eoRealVectorBounds w(n, -1024, 1024); eoNormalMutation<Reals> o(w, sigma, 0.5); mono<Reals>(o, a); break; }
    case 6: { eoNormalMutation<Reals> o(sigma, 0.5); mono<Reals>(o, a); break; }
    case 7: { AtomMut m; eoFlOrAllMutation<Reals> o(m, 0.5); mono<Reals>(o, a); break; }
    case 8: { AtomMut m; eoFlOrKMutation<Reals> o(m, vfPick("k", 0, 2)); mono<Reals>(o, a); break; }
    default: { eoNormalVecMutation<Reals> o(1.0, 0.5); mono<Reals>(o, a); }
    }
}
ENTRY(realCross) {
    int k = vfPick("op", 0, 6), n = N(1); Reals a = symOf<Reals>(n), c = symOf<Reals>(n); eoRealVectorBounds b(n, -4, 4);
    if (k == 1 || k >= 5) for (int i = 0; i < n; i++) { a[i] = vfPick("a", -1, 2); c[i] = vfPick("c", -1, 2); }
    switch (k) {
    case 0: { eoSegmentCrossover<Reals> o; duo<Reals>(o, a, c); break; }
    case 1: { eoSegmentCrossover<Reals> o(b, 0.5); duo<Reals>(o, a, c); break; }
    case 2: { eoHypercubeCrossover<Reals> o; duo<Reals>(o, a, c); break; }
    case 3: { eoHypercubeCrossover<Reals> o(b, 0.5); duo<Reals>(o, a, c); break; }
    case 4: { eoRealUXover<Reals> o(0.5); duo<Reals>(o, a, c); break; }
    case 5: { vf_rbits = 2; eoSBXCrossover<Reals> o(1.0); duo<Reals>(o, a, c); break; }
    default: { vf_rbits = 2; eoSBXCrossover<Reals> o(b, 1.0); duo<Reals>(o, a, c); }
    }
}
struct SumEval : eoEvalFunc<Reals> { int calls = 0; void operator()(Reals& r) { calls++; double s = 0; for (unsigned i = 0; i < r.size(); i++) s += r[i]; r.fitness(s); } };
ENTRY(oneFifth) {
    int n = N(1); Reals a = symOf<Reals>(n); SumEval ev; bool was = vfPick("evaluated", 0, 1); if (was) ev(a); else a.invalidate(); Reals a0 = a;
    double sigma = 0.5; eoOneFifthMutation<Reals> op(ev, sigma); eoMonGenOp<Reals> g(op);
    eoPop<Reals> src, dst; src.push_back(a); eoSeqPopulator<Reals> it(src, dst); g(it);
    vf_assert(same(src[0], a0) && src[0].invalid() == !was, "the source population is unchanged");
    if (!dst[0].invalid()) {
        double s = 0; for (int i = 0; i < n; i++) s += dst[0][i];
        vf_assert(dst[0].fitness() == s, "an individual still marked as evaluated has the fitness of its content");
        if (same(dst[0], a0)) vf_cover("kept"); else vf_cover("evaluated");
    }
    vf_cover("done");
}
template <class E> static void fillEs(E&, int) {}
static void fillEs(eoEsSimple<double>& e, int) { e.stdev = vfPick("sd", 1, 2); }
static void fillEs(eoEsStdev<double>& e, int n) { e.stdevs.resize(n); for (int i = 0; i < n; i++) e.stdevs[i] = vfPick("sd", 1, 2); }
static void fillEs(eoEsFull<double>& e, int n) { e.stdevs.resize(n); for (int i = 0; i < n; i++) e.stdevs[i] = vfPick("sd", 1, 2); e.correlations.resize(n * (n - 1) / 2); for (unsigned i = 0; i < e.correlations.size(); i++) e.correlations[i] = vfPick("co", 0, 1); }
template <class E> static E symEs(int n) { E e; e.resize(n); for (int i = 0; i < n; i++) e[i] = vfInt("x", -2, 2); fillEs(e, n); return e; }
template <class E> static void es(int k, int n) {
    E a = symEs<E>(n), b = symEs<E>(n); eoDoubleExchange ex; eoDoubleIntermediate mid;
    if (k == 0) { eoEsStandardXover<E> o(ex, ex); duo<E>(o, a, b); }
    else if (k == 1) { eoEsStandardXover<E> o(mid, ex); duo<E>(o, a, b); }
    else { eoEsGlobalXover<E> o(ex, mid); duo<E>(o, a, b); }
}
ENTRY(evolutionStrategies) {
    vf_split_random = 1; int k = vfPick("op", 0, 2), n = N(1);
    switch (vfPick("type", 0, 2)) {
    case 0: es<eoEsSimple<double> >(k, n); break;
    case 1: es<eoEsStdev<double> >(k, n); break;
    default: es<eoEsFull<double> >(k, n);
    }
}
typedef eoInt<double> Perm;
static Perm perm(int n) { std::vector<unsigned> p = symPerm(n); Perm r(n, 0); for (int i = 0; i < n; i++) r[i] = p[i]; return r; }
ENTRY(permutations) {
    vf_split_random = 1; int k = vfPick("op", 0, 4), n = P("n", 3);
    switch (k) {
    case 0: { eoSwapMutation<Perm> o(vfPick("k", 1, 2)); mono<Perm>(o, perm(n)); break; }
    case 1: { eoShiftMutation<Perm> o; mono<Perm>(o, perm(n)); break; }
    case 2: { eoTwoOptMutation<Perm> o; mono<Perm>(o, perm(n)); break; }
    case 3: { eoOrderXover<Perm> o; duo<Perm>(o, perm(n), perm(n)); break; }
    default: { eoPartiallyMappedXover<Perm> o; duo<Perm>(o, perm(n), perm(n)); }
    }
}
struct IntInit : eoInit<Ints::AtomType> { void operator()(Ints::AtomType& i) { i = vfInt("new", 0, 5); } };
struct IntMut : eoMonOp<Ints::AtomType> { bool operator()(Ints::AtomType& d) { int k = vfPick("atom", 0, 2); if (k == 0) { d = 6; return true; } return k == 1; } };
struct IntQuad : eoQuadOp<Ints::AtomType> { bool operator()(Ints::AtomType& a, Ints::AtomType& b) { int k = vfPick("atom", 0, 2); if (k == 0 && a != b) { std::swap(a, b); return true; } return k == 1; } };
ENTRY(varMonos) {
    vf_split_random = 1; int k = vfPick("op", 0, 4); Ints a = symInts(vfPick("n", k == 3 ? 1 : 0, P("n", 3)), 0, 5);
    switch (k) {
    case 0: { IntInit in; eoVlAddMutation<Ints> o(vfPick("max", 1, P("n", 3)), in); mono<Ints>(o, a); break; }
    case 1: { eoVlDelMutation<Ints> o(vfPick("min", 0, P("n", 3))); mono<Ints>(o, a); break; }
    case 2: { IntMut m; eoFlOrAllMutation<Ints> o(m, 0.5); mono<Ints>(o, a); break; }
    case 3: { IntMut m; eoFlOrKMutation<Ints> o(m, 2); mono<Ints>(o, a); break; }
    default: { eoUniformGeneChooser<Ints> ch; eoVlDelMutation<Ints> o(1, ch); mono<Ints>(o, a); }
    }
}
ENTRY(varCross) {
    int k = vfPick("op", 0, 3); Ints a = symInts(vfPick("n1", 0, P("n", 3)), 0, 5), b = symInts(vfPick("n2", 0, P("n", 3)), 0, 5); unsigned lo = vfPick("min", 0, 1), hi = 2 * P("n", 3) - vfPick("less", 0, 1);
    vf_max_draws = 9;
    switch (k) {
    case 0: { eoUniformAtomExchange<Ints::AtomType> ex; eoVlAtomExchangeQuadOp<Ints> o(lo, hi, ex); duo<Ints>(o, a, b); break; }
    case 1: { IntQuad q; eoInnerExchangeQuadOp<Ints> o(q, 0.5); duo<Ints>(o, a, b); break; }
    case 2: { eoVlUniformQuadOp<Ints> o(lo, hi); duo<Ints>(o, a, b); break; }
    default: { eoVlUniformBinOp<Ints> o(lo, hi); duo<Ints>(o, a, b); }
    }
}
ENTRY(rounded) {
    vf_split_random = 1; int k = vfPick("op", 0, 3), n = N(1); Ints a = symInts(n, 1, 5), b = symInts(n, 1, 5); eoIntInterval ib(0, 6);
    switch (k) {
    case 0: { AtomMut m; eoFlOrAllMutation<Reals> r(m, 0.5); eoRealToIntMonOp<Ints> o(r, ib); mono<Ints>(o, a); break; }
    case 1: { eoUniformMutation<Reals> r(1.0, 0.5); for (int i = 0; i < n; i++) a[i] = vfPick("v", 1, 5); vf_rbits = 2; eoRealToIntMonOp<Ints> o(r); mono<Ints>(o, a); break; }
    case 2: { eoRealUXover<Reals> r(0.5); eoRealToIntQuadOp<Ints> o(r, ib); duo<Ints>(o, a, b); break; }
    default: { eoRealUXover<Reals> r(0.5); eoRealToIntQuadOp<Ints> o(r); duo<Ints>(o, a, b); }
    }
}

// ---- pipelines: operators that change what they like and announce every change
struct Gene : EO<double> { int v = 0; std::string className() const { return "Gene"; } };
static int fresh = 1000;
static bool choice(Gene* a, Gene* b) {   // 0 nothing, 1 announced without a change, 2 first, 3 second, 4 both
    int c = vfPick("does", 0, b ? 4 : 2);
    if (c == 2 || c == 4) a->v = ++fresh;
    if (b && c >= 3) b->v = ++fresh;
    return c > 0;
}
struct AnyMon : eoMonOp<Gene> { bool operator()(Gene& a) { return choice(&a, 0); } };
struct AnyBin : eoBinOp<Gene> { bool operator()(Gene& a, const Gene&) { return choice(&a, 0); } };
struct AnyQuad : eoQuadOp<Gene> { bool operator()(Gene& a, Gene& b) { return choice(&a, &b); } };
struct AnySelect : eoSelectOne<Gene> { const Gene& operator()(const eoPop<Gene>& p) { return p[vfPick("sel", 0, (int)p.size() - 1)]; } };
static eoPop<Gene> genes(int n) { eoPop<Gene> p; for (int i = 0; i < n; i++) { Gene g; g.v = i; g.fitness(i); p.push_back(g); } return p; }
static void checkGenes(const eoPop<Gene>& p) {
    for (unsigned i = 0; i < p.size(); i++) {
        if (p[i].invalid()) vf_cover("changed"); else { vf_cover("kept"); vf_assert(p[i].fitness() == p[i].v, "an individual still marked as evaluated has the content it was evaluated with"); }
        vf_note("v", p[i].v); vf_note("inv", p[i].invalid());
    }
}
ENTRY(pipelines) {
    int k = vfPick("pipe", 0, 14); eoPop<Gene> src = genes(P("n", 2)), src0 = src, dst; AnySelect sel; AnyMon mon, mon2; AnyBin bin; AnyQuad quad, quad2; unsigned target = P("t", 2); if (k >= 8) target = std::min(target, 2u);
    vf_max_draws = 10;
    eoSequentialOp<Gene> seq, seq2; eoProportionalOp<Gene> prop, prop2; eoMonCloneOp<Gene> mclone; eoQuadCloneOp<Gene> qclone; eoBinCloneOp<Gene> bclone;
    eoMonGenOp<Gene> mg(mon); eoBinGenOp<Gene> bg(bin); eoQuadGenOp<Gene> qg(quad); eoSelBinGenOp<Gene> sbg(bin, sel); eoSGAGenOp<Gene> sga(quad, 0.5, mon, 0.5); eoPropGAGenOp<Gene> pga(1, quad, 1, mon, 2);
    eoPropCombinedMonOp<Gene> cm(mon, 1); cm.add(mon2, 1); eoPropCombinedQuadOp<Gene> cq(quad, 1); cq.add(quad2, 1); eoPropCombinedBinOp<Gene> cb(bin, 1); eoInvalidateMonOp<Gene> im(mon); eoInvalidateBinOp<Gene> ib(bin); eoInvalidateQuadOp<Gene> iq(quad); eoQuad2BinOp<Gene> q2b(quad);
    eoMon2QuadOp1<Gene> m1(mon); eoMon2QuadOp2<Gene> m2(mon);
    eoGenOp<Gene>* op = &seq;
    switch (k) {
    case 0: op = &mg; break;
    case 1: op = &bg; break;
    case 2: op = &qg; break;
    case 3: op = &sbg; break;
    case 4: seq.add(cm, 1.0); break;
    case 5: seq.add(cq, 1.0); break;
    case 6: seq.add(cb, 1.0); break;
    case 7: prop.add(quad, 1); prop.add(mon, 1); prop.add(bclone, 1); op = &prop; break;
    case 8: seq.add(quad, 0.5); seq.add(mon, 0.5); break;
    case 9: op = &sga; break;
    case 10: op = &pga; break;
    case 11: seq.add(bin, 1.0); seq.add(mon, 1.0); break;
    case 12: prop.add(q2b, 1); prop.add(qclone, 1); seq.add(prop, 1.0); seq.add(im, 1.0); break;
    case 13: seq2.add(iq, 1.0); prop2.add(seq2, 1); prop2.add(ib, 1); op = &prop2; break;
    default: prop.add(m1, 1); prop.add(m2, 1); prop.add(mclone, 1); op = &prop;
    }
    eoGeneralBreeder<Gene> breed(sel, *op, target, false); breed(src, dst);
    vf_assert(src.size() == src0.size(), "the source population keeps its size");
    for (unsigned i = 0; i < src.size(); i++) vf_assert(src[i].v == src0[i].v && !src[i].invalid() && src[i].fitness() == src0[i].fitness(), "the source population is unchanged");
    vf_assert(dst.size() == target, "the breeder delivers the number of offspring asked for");
    checkGenes(dst); vf_cover("done");
}
ENTRY(transforms) {
    int k = vfPick("transform", 0, 3), n = vfPick("n", 1, P("n", 3)); eoPop<Gene> src = genes(n), src0 = src, dst; AnyMon mon; AnyQuad quad; AnySelect sel; double pc = 0.5, pm = 0.5;
    eoSGATransform<Gene> t1(quad, 0.5, mon, 0.5); eoDynSGATransform<Gene> t2(quad, 0.5, mon, 0.5), t3(quad, &pc, mon, &pm);
    if (k == 3) {
        eoSelectNumber<Gene> many(sel, (unsigned)n); eoSelectTransform<Gene> breed(many, t1); breed(src, dst);
        for (int i = 0; i < n; i++) vf_assert(src[i].v == src0[i].v && !src[i].invalid(), "the source population is unchanged");
        vf_assert((int)dst.size() == n, "as many offspring as selected"); checkGenes(dst);
    } else { if (k == 0) t1(src); else if (k == 1) t2(src); else t3(src); vf_assert((int)src.size() == n, "the population keeps its size"); checkGenes(src); }
    vf_cover("done");
}
// a fixed batch of parents may run out in the middle of an operator
ENTRY(batch) {
    int n = vfPick("n", 0, P("n", 3)); eoPop<Gene> src = genes(n), dst; AnyMon mon; AnyQuad quad; eoProportionalOp<Gene> prop; prop.add(quad, 1); prop.add(mon, 1);
    eoSeqPopulator<Gene> it(src, dst); bool thrown = false;
    try { for (int i = 0; i < P("n", 3); i++) prop(it); } catch (...) { thrown = true; }
    vf_assert(!thrown, "running out of parents ends the batch quietly");
    vf_assert((int)dst.size() <= n, "no more offspring than parents"); if ((int)dst.size() < P("n", 3)) vf_cover("short");
    for (unsigned i = 0; i < dst.size(); i++) if (!dst[i].invalid()) vf_assert(dst[i].fitness() == dst[i].v, "an individual still marked as evaluated has the content it was evaluated with");
    vf_cover("done");
}
