// C22: neighbourhood and best-so-far statistics describe what they claim.
//@ bounds bit strings of 1..n bits with every fitness -v..v of the solution and each neighbour (wide range for up to 2 neighbours, v for more), both directions, ordered and random-order neighbourhoods; runs of l solutions, two runs; samples of 1..4 values
//@ outside larger neighbourhoods; the last digits of mean and deviation of 3 neighbours (compared to 1e-9)
//@ stub sqrt=vf_sqrt
//@ entry exact covers=better,equal,worse quick="n=2 v=1000" thorough="n=2 v=100000"
//@ entry larger covers=better,equal,worse quick="n=4 v=1" thorough="n=5 v=1;n=4 v=2" jobs=8
//@ entry best covers=done quick="n=3 v=5" thorough="n=4 v=5"
//@ entry bestSoFar covers=improved,kept,second quick="l=3 v=4" thorough="l=5 v=4"
//@ entry perSolution covers=done quick="l=2 v=5" thorough="l=3 v=5"
//@ entry sample covers=done quick="m=4 v=2" thorough="m=5 v=2"
//@ entry distances covers=done quick="m=3 n=3" thorough="m=4 n=3"
#include "ls.h"
#include <continuator/moAverageFitnessNeighborStat.h>
#include <continuator/moStdFitnessNeighborStat.h>
#include <continuator/moMinNeighborStat.h>
#include <continuator/moMaxNeighborStat.h>
#include <continuator/moMedianNeighborStat.h>
#include <continuator/moQ1NeighborStat.h>
#include <continuator/moQ3NeighborStat.h>
#include <continuator/moQuartilesNeighborStat.h>
#include <continuator/moSecondMomentNeighborStat.h>
#include <continuator/moNbInfNeighborStat.h>
#include <continuator/moNbSupNeighborStat.h>
#include <continuator/moNeutralDegreeNeighborStat.h>
#include <continuator/moSizeNeighborStat.h>
#include <continuator/moNeighborBestStat.h>
#include <continuator/moNeighborFitnessStat.h>
#include <continuator/moMinusOneCounterStat.h>
#include <continuator/moCounterStat.h>
#include <continuator/moSolutionStat.h>
#include <continuator/moDistanceStat.h>
#include <sampling/moStatistics.h>
#include <utils/eoDistance.h>
#include <cmath>
// the square root is any function of its argument here: the statistics must apply it to the right value
extern "C" __attribute__((used)) double vf_sqrt(double x) { return x + 1; }
static bool near(double a, double b) { return std::fabs(a - b) <= 1e-9; }
// fitness of the all-zero solution and of its neighbours only
static std::vector<double> around(int n, int v, bool pick) { std::vector<double> r; vf_land[0] = pick ? vfPick("own", -v, v) : vfInt("own", -v, v); for (int k = 0; k < n; k++) { vf_land[1 << k] = pick ? vfPick("fit", -v, v) : vfInt("fit", -v, v); r.push_back(vf_land[1 << k]); } return r; }
template <class F> static void whole(bool pick) {
    typedef eoBit<F> S; typedef moBitNeighbor<F> NB; typedef Dir<F> D; int n = pick ? vfPick("n", 3, P("n", 4)) : vfPick("n", 1, P("n", 2)); std::vector<double> f = around(n, P("v", 2), pick); S s(n, false); Table<S> full; full(s); AnyEval<NB> eval; vf_max_draws = 40; vf_split_random = 1;
    int setup = pick ? 0 : vfPick("setup", 0, 3); eval.how = setup & 1; moOrderNeighborhood<NB> on(n); moRndWithoutReplNeighborhood<NB> rn(n); moNeighborhood<NB>& nh = setup < 2 ? (moNeighborhood<NB>&)on : rn; moNeighborComparator<NB> cn; moSolNeighborComparator<NB> cs; moNeighborhoodStat<NB> a(nh, eval), b(nh, eval, cn, cs); moNeighborhoodStat<NB>& st = setup == 1 || setup == 2 ? b : a;
    moAverageFitnessNeighborStat<NB> avg(st); moStdFitnessNeighborStat<NB> sd(st); moMinNeighborStat<NB> mi(st); moMaxNeighborStat<NB> ma(st); moMedianNeighborStat<NB> me(st); moQ1NeighborStat<NB> q1(st); moQ3NeighborStat<NB> q3(st); moQuartilesNeighborStat<NB> qq(st); moSecondMomentNeighborStat<NB> sm(st); moNbInfNeighborStat<NB> inf(st); moNbSupNeighborStat<NB> sup(st); moNeutralDegreeNeighborStat<NB> nd(st); moSizeNeighborStat<NB> sz(st);
    moStatBase<S>* all[] = {&st, &avg, &sd, &mi, &ma, &me, &q1, &q3, &qq, &sm, &inf, &sup, &nd, &sz}; bool again = vfPick("again", 0, 1); for (int i = 0; i < 14; i++) if (again) (*all[i])(s); else all[i]->init(s);
    unsigned better = 0, equal = 0, worse = 0; double sum = 0, lo = f[0], hi = f[0];
    for (int k = 0; k < n; k++) { int v = vf_land[1 << k]; if (D::better(v, vf_land[0])) { better++; vf_cover("better"); } else if (v == vf_land[0]) { equal++; vf_cover("equal"); } else { worse++; vf_cover("worse"); } sum += f[k]; if (D::better(v, (int)hi)) hi = v; if (D::better((int)lo, v)) lo = v; }
    double mean = sum / n, dev = 0; if (n > 1) { double q = 0; for (int k = 0; k < n; k++) q += (f[k] - mean) * (f[k] - mean); dev = vf_sqrt(q / (n - 1.0)); }
    std::vector<double> o = f; for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (o[j] < o[i]) std::swap(o[i], o[j]);
    vf_assert(st.value(), "there are neighbours"); vf_assert((int)sz.value() == n, "size"); vf_assert(sup.value() == better, "number of better neighbours"); vf_assert(nd.value() == equal, "number of equal neighbours"); vf_assert(inf.value() == worse, "number of worse neighbours");
    vf_assert((double)ma.value() == hi, "best fitness"); vf_assert((double)mi.value() == lo, "lowest fitness"); vf_assert((double)q1.value() == o[n / 4] && qq.value().first == o[n / 4], "first quartile"); vf_assert((double)me.value() == o[n / 2], "median"); vf_assert((double)q3.value() == o[3 * n / 4] && qq.value().second == o[3 * n / 4], "third quartile");
    if (pick) { vf_assert(near(avg.value(), mean) && near(sm.value().first, mean), "mean"); vf_assert(near(sd.value(), dev) && near(sm.value().second, dev), "standard deviation"); }
    else { vf_assert(avg.value() == mean && sm.value().first == mean, "mean"); vf_assert(sd.value() == dev && sm.value().second == dev, "standard deviation"); }
    vf_assert(codeOf(s) == 0 && consistent(s), "the solution is left as it was");
}
ENTRY(exact) { if (vfPick("minimise", 0, 1)) whole<MinF>(false); else whole<double>(false); }
ENTRY(larger) { if (vfPick("minimise", 0, 1)) whole<MinF>(true); else whole<double>(true); }
template <class F> static void bestOf() {
    typedef eoBit<F> S; typedef moBitNeighbor<F> NB; typedef Dir<F> D; int n = vfPick("n", 1, P("n", 3)), k = vfPick("k", 0, n + 1); std::vector<double> f = around(n, P("v", 5), false); S s(n, false); Table<S> full; full(s); AnyEval<NB> eval; moOrderNeighborhood<NB> nh(n); moNeighborBestStat<NB> st(nh, eval, k); if (vfPick("again", 0, 1)) st(s); else st.init(s);
    int m = k == 0 || k > n ? n : k; bool found = false, beaten = false; for (int i = 0; i < m; i++) { found |= f[i] == (double)st.value(); beaten |= D::better((int)f[i], (int)(double)st.value()); } vf_assert(found && !beaten, "best of the neighbours asked for");
    moRndWithReplNeighborhood<NB> rn(n); moNeighborFitnessStat<NB> nf(rn, eval); vf_split_random = 1; if (vfPick("again", 0, 1)) nf(s); else nf.init(s); vf_assert((double)nf.value() == f[vf_log[vf_nlog - 1]], "fitness of the neighbour drawn"); vf_cover("done");
}
ENTRY(best) { if (vfPick("minimise", 0, 1)) bestOf<MinF>(); else bestOf<double>(); }
template <class F> static void bestSoFar() {
    typedef eoBit<F> S; typedef Dir<F> D; int L = P("l", 3); bool again = vfPick("reinit", 0, 1); moBestSoFarStat<S> sol(again); moBestFitnessStat<S> fit(again); int best = 0, code = 0; bool any = false;
    for (int r = 0; r < 2; r++) for (int i = 0; i < (r ? 2 : L); i++) {
        int f = vfInt("fit", 0, P("v", 4)); S s(3, false); int id = r * L + i; for (int b = 0; b < 3; b++) s[b] = id >> b & 1; s.fitness(f); bool first = i == 0 && (again || r == 0); if (i == 0) { sol.init(s); fit.init(s); } else { sol(s); fit(s); }
        if (first || D::better(f, best)) { best = f; code = id & 7; vf_cover("improved"); } else vf_cover("kept"); if (r) vf_cover("second");
        vf_assert((double)fit.value() == best, "the best fitness seen"); vf_assert((double)sol.value().fitness() == best && codeOf(sol.value()) == code, "the best solution seen, the first of equals");
    }
}
ENTRY(bestSoFar) { if (vfPick("minimise", 0, 1)) bestSoFar<MinF>(); else bestSoFar<double>(); }
ENTRY(perSolution) {
    Bits ref = symBits(2); eoHammingDistance<Bits> dist; moFitnessStat<Bits> fit; moSolutionStat<Bits> sol; moCounterStat<Bits> cnt; moMinusOneCounterStat<Bits> m1; moDistanceStat<Bits> d(dist, ref);
    for (int r = 0; r < 2; r++) for (int i = 0; i < P("l", 3); i++) {
        Bits s = symBits(2); int f = vfInt("fit", 0, P("v", 5)); s.fitness(f); moStatBase<Bits>* all[] = {&fit, &sol, &cnt, &m1, &d}; for (int j = 0; j < 5; j++) if (i == 0) all[j]->init(s); else (*all[j])(s);
        vf_assert(fit.value() == f, "fitness of the solution"); vf_assert(same(sol.value(), s) && sol.value().fitness() == f, "the solution"); vf_assert((int)cnt.value() == i, "number of calls since the start"); vf_assert((int)m1.value() == (i ? i - 1 : 0), "number of calls minus one"); vf_assert(d.value() == differ(s, ref), "distance to the reference");
    }
    vf_cover("done");
}
ENTRY(sample) {
    int m = vfPick("m", 0, P("m", 4)), V = P("v", 2); std::vector<double> x; double s = 0, q = 0, lo, hi, avg, sd; for (int i = 0; i < m; i++) { x.push_back(vfPick("x", -V, V)); s += x[i]; q += x[i] * x[i]; } moStatistics st; st.basic(x, lo, hi, avg, sd);
    if (m == 0) { vf_assert(lo == 0 && hi == 0 && avg == 0 && sd == 0, "an empty sample"); vf_cover("done"); return; }
    bool fl = false, fh = false; for (int i = 0; i < m; i++) { vf_assert(lo <= x[i] && x[i] <= hi, "within minimum and maximum"); fl |= lo == x[i]; fh |= hi == x[i]; } vf_assert(fl && fh, "minimum and maximum belong to the sample");
    vf_assert(near(avg, s / m), "mean"); double var = q / m - (s / m) * (s / m); vf_assert(var > 1e-9 ? near(sd, vf_sqrt(var)) : std::fabs(sd) < 1e-4, "standard deviation"); vf_cover("done");
}
ENTRY(distances) {
    int m = vfPick("m", 0, P("m", 3)), n = P("n", 3); std::vector<Bits> x; for (int i = 0; i < m; i++) x.push_back(symBits(n)); eoHammingDistance<Bits> d; std::vector<std::vector<double> > t; moStatistics st; st.distances(x, d, t); vf_assert((int)t.size() == m, "one row per solution");
    for (int i = 0; i < m; i++) { vf_assert((int)t[i].size() == m, "one column per solution"); for (int j = 0; j < m; j++) vf_assert(t[i][j] == differ(x[i], x[j]), "distance of each pair"); } vf_cover("done");
}
