// C09: replacement strategies preserve population size and membership.
//@ bounds up to n parents and m offspring (per entry), every fitness in 0..f (ties included), every random draw; every admissible survivor/elite/elimination count in the stated ranges
//@ outside larger populations; rates other than 0, 0.5 and 1 for survive-and-die; elite counts above the population size
//@ entry generational covers=replaced quick="n=3 m=3" thorough="n=4 m=4"
//@ entry plusMax covers=replaced quick="n=3 m=3 f=1;n=4 m=1 f=1" thorough="n=4 m=4 f=1"
//@ entry plusMin covers=replaced quick="n=3 m=2 f=1" thorough="n=3 m=3"
//@ entry comma covers=replaced,refused quick="n=3 m=4 f=1" thorough="n=3 m=5 f=2"
//@ entry ep covers=replaced quick="n=2 m=1 f=1" thorough="n=2 m=2 f=1" jobs=4
//@ entry ssgaWorse covers=replaced,refused quick="n=4 m=3 f=2" thorough="n=4 m=4 f=3"
//@ entry ssgaWorseMin covers=replaced,refused quick="n=3 m=3 f=2" thorough="n=4 m=4 f=3"
//@ entry ssgaDet covers=replaced,refused quick="n=3 m=3 f=1 draws=6" thorough="n=4 m=3 f=1 draws=7" jobs=2
//@ entry ssgaStoch covers=replaced,refused quick="n=3 m=3 f=1" thorough="n=4 m=3 f=1" jobs=2
//@ entry mergeElite covers=replaced,refused quick="n=3 m=3 f=1" thorough="n=4 m=3 f=1"
//@ entry weakElite covers=replaced quick="n=3 f=2" thorough="n=4 f=3"
//@ entry rmr covers=replaced,refused quick="n=2 m=2 f=1;n=3 m=2 f=1 lo=3 rp=1 ro=1;n=3 m=3 f=1 lo=3 mlo=3 rp=2 ro=2" thorough="n=3 m=3 f=1" jobs=2
//@ entry mgg covers=replaced,refused quick="n=3 m=3 f=1 draws=8" thorough="n=4 m=3 f=1 draws=9" jobs=2
//@ entry g3 covers=replaced,refused quick="n=3 m=3 f=1" thorough="n=4 m=3 f=1"
//@ entry sad covers=replaced,refused quick="n=2 m=2 f=1;n=3 m=3 f=1 lo=3 mlo=3 cmax=1" thorough="n=3 m=3 f=1" jobs=2
#include "repl.h"
#define R(I) Repl<I> t(P("lo", 1), P("n", 3), P("mlo", 1), P("m", 3)); vf_max_draws = P("draws", 12);
ENTRY(generational) { Repl<MaxInd> t(1, P("n", 3), 1, P("m", 3)); eoGenerationalReplacement<MaxInd> r; t.run(r);
    vf_assert(!t.threw, "no refusal"); t.conserve(t.m); for (int i = 0; i < t.n; i++) vf_assert(!t.sp[i], "offspring only"); }
ENTRY(plusMax) { R(MaxInd) eoPlusReplacement<MaxInd> r; t.run(r); vf_assert(!t.threw, "no refusal"); t.conserve(t.n); }
ENTRY(plusMin) { R(MinInd) eoPlusReplacement<MinInd> r; t.run(r); vf_assert(!t.threw, "no refusal"); t.conserve(t.n); }
ENTRY(comma) { R(MaxInd) eoCommaReplacement<MaxInd> r; t.run(r); vf_assert(t.threw == (t.m < t.n), "refuses exactly too few offspring"); if (t.threw) return;
    t.conserve(t.n); for (int i = 0; i < t.n; i++) vf_assert(!t.sp[i], "offspring only"); }
ENTRY(ep) { R(MaxInd) eoEPReplacement<MaxInd> r(2); t.run(r); vf_assert(!t.threw, "no refusal"); t.conserve(t.n); }
template <class I> static void ssga(eoReplacement<I>& r, bool worse) {
    R(I) t.run(r); vf_assert(t.threw == (t.m > t.n), "refuses exactly too many offspring"); if (t.threw) return;
    t.conserve(t.n); for (int i = 0; i < t.m; i++) vf_assert(t.so[i], "every offspring enters");
    if (worse) for (int i = 0; i < t.n; i++) for (int j = 0; j < t.n; j++) if (t.sp[i] && !t.sp[j]) vf_assert(!(t.par[i] < t.par[j]), "removed parent better than a kept one");
}
ENTRY(ssgaWorse) { eoSSGAWorseReplacement<MaxInd> r; ssga<MaxInd>(r, true); }
ENTRY(ssgaWorseMin) { eoSSGAWorseReplacement<MinInd> r; ssga<MinInd>(r, true); }
ENTRY(ssgaDet) { eoSSGADetTournamentReplacement<MaxInd> r(2); ssga<MaxInd>(r, false); }
ENTRY(ssgaStoch) { eoSSGAStochTournamentReplacement<MaxInd> r(0.75); ssga<MaxInd>(r, false); }
ENTRY(mergeElite) { R(MaxInd) int k = vfPick("elite", 0, t.n); eoElitism<MaxInd> e(k, false); eoTruncate<MaxInd> tr; eoMergeReduce<MaxInd> r(e, tr);
    t.run(r); vf_assert(t.threw == (t.m + k < t.n), "refuses exactly too few individuals"); if (t.threw) return; t.conserve(t.n); }
ENTRY(weakElite) {
    int n = P("n", 3); int kind = vfPick("kind", 0, 2);
    eoGenerationalReplacement<MaxInd> g; eoCommaReplacement<MaxInd> c; eoSSGAWorseReplacement<MaxInd> s;
    eoReplacement<MaxInd>* in[] = {&g, &c, &s}; eoWeakElitistReplacement<MaxInd> r(*in[kind]);
    Repl<MaxInd> t(n, n, kind == 1 ? n : kind == 0 ? n : 1, kind == 1 ? n + 1 : n); t.run(r); vf_assert(!t.threw, "no refusal"); t.conserve(n);
}
ENTRY(rmr) {
    R(MaxInd) int e = vfPick("elite", 0, t.n); bool strong = vfPick("strong", 0, 1);
    int rp = vfPick("keepParents", 0, std::min(P("rp", 9), t.n - e)), ro = vfPick("keepOffspring", 0, std::min(P("ro", 9), t.m));
    eoTruncate<MaxInd> a; eoLinearTruncate<MaxInd> b; eoTruncate<MaxInd> c;
    eoReduceMergeReduce<MaxInd> r(eoHowMany(e), strong, eoHowMany(rp), a, eoHowMany(ro), b, c);
    t.run(r); bool bad = !ro || rp + ro < (e && strong ? t.n - e : t.n); vf_assert(t.threw == bad, "refuses exactly impossible sizes"); if (t.threw) return;
    t.conserve(t.n);
}
ENTRY(mgg) { R(MaxInd) int k = vfPick("killed", 1, t.n); eoMGGReplacement<MaxInd> r(eoHowMany(k), 2); t.run(r); vf_assert(t.threw == (k < 2), "refuses exactly fewer than two"); if (t.threw) return; t.conserve(t.n); }
ENTRY(g3) { R(MaxInd) int k = vfPick("killed", 1, t.n + 1); eoG3Replacement<MaxInd> r{eoHowMany(k)}; t.run(r); vf_assert(t.threw == (k > t.n), "refuses exactly too many"); if (t.threw) return; t.conserve(t.n); }
ENTRY(sad) {
    R(MaxInd) bool rate = vfPick("rate", 0, 1); int x[4];
    for (int i = 0; i < 4; i++) x[i] = vfPick("q", 0, rate ? 2 : std::min(P("cmax", 9), i < 2 ? t.n : t.m));
    auto how = [&](int q, int size) { return rate ? (q * size + 1) / 2 : q; };
    double d = rate ? 0.5 : 1.0;
    eoDeterministicSaDReplacement<MaxInd> r(x[0] * d, x[1] * d, x[2] * d, x[3] * d, rate);
    int sp = how(x[0], t.n), dp = std::min(how(x[1], t.n), t.n - sp), so = how(x[2], t.m), dof = std::min(how(x[3], t.m), t.m - so);
    int left = t.n - sp - dp + t.m - so - dof;
    bool bad = sp + so > t.n || left < t.n - sp - so;
    t.run(r); vf_assert(t.threw == bad, "refuses exactly impossible sizes"); if (t.threw) return; t.conserve(t.n);
}
