// C10: elitist replacements never lose the best individual; elitist merging copies exactly the elite.
//@ bounds up to n parents and m offspring (per entry), every fitness in 0..f (ties included), every random draw, every elite count up to n
//@ outside larger populations; elite rates other than 0, 1/4, 1/2, 3/4, 1
//@ entry plusMax covers=replaced quick="n=3 m=3" thorough="n=4 m=4"
//@ entry plusMin covers=replaced quick="n=3 m=3" thorough="n=4 m=4"
//@ entry weakGen covers=replaced quick="n=4 f=3" thorough="n=5 f=3"
//@ entry weakGenMin covers=replaced quick="n=4 f=3" thorough="n=5 f=3"
//@ entry weakComma covers=replaced quick="n=3 f=2" thorough="n=4 f=2"
//@ entry weakSSGA covers=replaced quick="n=3 f=2 draws=7" thorough="n=4 f=2 draws=8"
//@ entry mergeElite covers=replaced,refused quick="n=3 m=3" thorough="n=4 m=4"
//@ entry elitism covers=merged,refused quick="n=4 f=3" thorough="n=5 f=3"
//@ entry elitismMin covers=merged,refused quick="n=4 f=3" thorough="n=5 f=3"
//@ entry rmrStrong covers=replaced quick="n=3 m=3" thorough="n=4 m=3"
//@ entry rmrWeak covers=replaced quick="n=3 m=3" thorough="n=4 m=4 f=2" jobs=2
//@ entry rmrWeakMin covers=replaced quick="n=2 m=3" thorough="n=3 m=4 f=2" jobs=2
#include "repl.h"
#define R(I) Repl<I> t(P("lo", 1), P("n", 3), P("mlo", 1), P("m", 3)); vf_max_draws = P("draws", 12);
template <class I> static void kept(Repl<I>& t) { vf_assert(!t.threw, "no refusal"); t.conserve(t.n); vf_assert(t.hasBestParent(), "best parent fitness is not lost"); }
ENTRY(plusMax) { R(MaxInd) eoPlusReplacement<MaxInd> r; t.run(r); kept(t); }
ENTRY(plusMin) { R(MinInd) eoPlusReplacement<MinInd> r; t.run(r); kept(t); }
template <class I> static void weak(eoReplacement<I>& in, int mlo, int mhi, int n) { vf_max_draws = P("draws", 12); Repl<I> t(n, n, mlo, mhi); eoWeakElitistReplacement<I> r(in); t.run(r); kept(t); }
ENTRY(weakGen) { int n = vfPick("n", 1, P("n", 3)); eoGenerationalReplacement<MaxInd> g; weak<MaxInd>(g, n, n, n); }
ENTRY(weakGenMin) { int n = vfPick("n", 1, P("n", 3)); eoGenerationalReplacement<MinInd> g; weak<MinInd>(g, n, n, n); }
ENTRY(weakComma) { int n = vfPick("n", 1, P("n", 3)); eoCommaReplacement<MaxInd> g; weak<MaxInd>(g, n, n + 1, n); }
ENTRY(weakSSGA) { int n = vfPick("n", 2, P("n", 3)); eoSSGADetTournamentReplacement<MaxInd> g(2); weak<MaxInd>(g, 1, n, n); }
ENTRY(mergeElite) { R(MaxInd) int k = vfPick("elite", 1, t.n); eoElitism<MaxInd> e(k, false); eoTruncate<MaxInd> tr; eoMergeReduce<MaxInd> r(e, tr);
    t.run(r); vf_assert(t.threw == (t.m + k < t.n), "refuses exactly too few individuals"); if (!t.threw) kept(t); }
template <class I> static void elite() {
    int n = vfPick("parents", 1, P("n", 4)), m = vfPick("offspring", 0, 2); bool rate = vfPick("rate", 0, 1);
    eoPop<I> p = symPop<I>(n, 0, 0, P("f", 3)), o = symPop<I>(m, 100, 0, 1), p0 = p;
    int q = rate ? vfPick("quarters", 0, 4) : vfPick("count", 0, n + 1);
    unsigned k = rate ? (unsigned)(q * n / 4) : q;
    eoElitism<I> e(rate ? q * 0.25 : (double)q, rate);
    bool threw = false; try { e(p, o); } catch (std::exception&) { threw = true; }
    vf_assert(threw == ((int)k > n), "refuses exactly elites larger than the population"); if (threw) { vf_cover("refused"); return; }
    vf_assert(o.size() == m + k, "exactly the announced number is added");
    for (int i = 0; i < m; i++) vf_assert(o[i].id == 100 + i, "offspring stay");
    std::vector<int> in(n, 0);
    for (unsigned i = m; i < o.size(); i++) { int id = vf_concretize(o[i].id); vf_assert(id >= 0 && id < n && !in[id], "elites are distinct parents"); in[id] = 1; vf_assert(!o[i].invalid() && o[i].fitness() == p0[id].fitness(), "elites unchanged"); vf_note("elite", id); }
    for (int i = 0; i < n; i++) { vf_assert(p[i].id == i && !p[i].invalid() && p[i].fitness() == p0[i].fitness(), "parents untouched"); for (int j = 0; j < n; j++) if (in[i] && !in[j]) vf_assert(!(p0[i] < p0[j]), "elites are the best parents"); }
    vf_cover("merged");
}
ENTRY(elitism) { elite<MaxInd>(); }
ENTRY(elitismMin) { elite<MinInd>(); }
template <class I> static void rmr(bool strong) {
    R(I) int e = vfPick("elite", 1, t.n);
    int rp = vfPick("keepParents", 0, t.n - e), ro = vfPick("keepOffspring", 1, t.m);
    if (rp + ro < (strong ? t.n - e : t.n)) vf_prune();
    eoTruncate<I> a; eoLinearTruncate<I> b; eoTruncate<I> c;
    eoReduceMergeReduce<I> r(eoHowMany(e), strong, eoHowMany(rp), a, eoHowMany(ro), b, c);
    t.run(r); kept(t);
    if (strong) { // the e best parents all survive: no lost parent may be better than e surviving parents
        for (int i = 0; i < t.n; i++) if (!t.sp[i]) { int c = 0; for (int j = 0; j < t.n; j++) if (t.sp[j] && !(t.par[j] < t.par[i])) c++; vf_assert(c >= e, "strong elitism keeps the elite"); }
    }
}
ENTRY(rmrStrong) { rmr<MaxInd>(true); }
ENTRY(rmrWeak) { rmr<MaxInd>(false); }
ENTRY(rmrWeakMin) { rmr<MinInd>(false); }
