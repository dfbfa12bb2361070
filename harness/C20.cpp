// C20: annealing accepts improvements always, worse neighbours by the Boltzmann rule, and cools as announced.
//@ bounds searches of s steps over bit strings of 1..n bits, every landscape with fitnesses 0..v (unit 1 or 8), both directions, every start and draw, initial temperatures 1/2, 1 and 4, factors 1/4, 1/2, 3/4 and 1; schedules: any initial and final temperature 0..1000, spans 0..h, l updates with every accept/refuse pattern
//@ outside other temperatures and factors (rounding of the products); the value of exp() itself (both sides call the same function); longer runs
//@ entry accept covers=better,worseTaken,worseRefused,equal quick="n=1 v=2 s=3;n=2 v=1 s=2" thorough="n=2 v=2 s=2;n=1 v=3 s=4" jobs=4
//@ entry metropolis covers=better,worseTaken,worseRefused quick="n=1 v=3 s=2" thorough="n=2 v=2 s=2" jobs=2
//@ entry simpleSchedule covers=held,cooled,ended quick="h=3 l=8" thorough="h=5 l=20"
//@ entry dynSchedule covers=held,cooled,ended quick="h=3 l=6" thorough="h=4 l=8"
//@ entry runLength covers=done quick="h=2" thorough="h=3"
//@ entry defaults covers=done quick="s=3" thorough="s=5"
#include "ls.h"
#include <cmath>
#include <algo/moSA.h>
#include <algo/moMetropolisHasting.h>
static const double temps[3] = {0.5, 1, 4}, alphas[4] = {0.25, 0.5, 0.75, 1};
// follows the search: the draw decides against the probability computed here
template <class F> struct Anneal : moContinuator<moBitNeighbor<F> > {
    typedef moBitNeighbor<F> NB; typedef eoBit<F> S; typedef Dir<F> D; moNeighborhoodExplorer<NB>* ex = 0; bool ratio = false; double T = 1, alpha = 1; int span = 0, held = 0, limit = 1, steps = 0; S prev; unsigned drawn = 0;
    void init(S& s) { vf_assert(consistent(s), "the fitness at the start is that of the content"); prev = s; steps = 0; vf_last_rand = 0; drawn = vf_draws; }
    bool operator()(S& s) {
        vf_assert(consistent(s), "the fitness is that of the content"); steps++;
        NB nb = ex->getSelectedNeighbor(); S cand = prev; nb.move(cand); int pv = valueOf(prev), cv = valueOf(cand); bool taken = !same(prev, s); vf_assert(!taken || same(cand, s), "the move made is the one drawn");
        if (D::better(cv, pv)) { vf_assert(taken, "a strictly better neighbour is always accepted"); vf_cover("better"); }
        else if (ratio) { double u = (double)vf_last_rand / 4294967296.0, p = cv < pv ? (double)cv / (double)pv : (double)pv / (double)cv; vf_assert(taken == (u < p), "accepted exactly when the draw is below the ratio"); vf_cover(taken ? "worseTaken" : "worseRefused"); }
        else { double u = (double)vf_last_rand / 4294967296.0, p = std::exp((double)(cv < pv ? cv - pv : pv - cv) / T); vf_assert(taken == (u < p), "accepted exactly when the draw is below the Boltzmann probability"); if (cv == pv) vf_cover("equal"); else vf_cover(taken ? "worseTaken" : "worseRefused"); }
        if (!ratio) { if (held >= span) { T *= alpha; held = 0; } else held++; vf_assert(static_cast<moSAexplorer<NB>*>(ex)->getTemperature() == T, "the temperature follows the schedule"); }
        prev = s; return steps < limit;
    }
};
static void pickLandscape(int size, int lo, int hi, int unit) { for (int i = 0; i < size; i++) vf_land[i] = unit * vfPick("fit", lo, hi); }
template <class F> static void anneal() {
    typedef moBitNeighbor<F> NB; typedef eoBit<F> S; int n = vfPick("n", 1, P("n", 1)); pickLandscape(1 << n, 0, P("v", 2), vfPick("unit", 0, 1) ? 8 : 1); S s = pickStart<F>(n); vf_split_random = 1;
    Anneal<F> w; w.T = temps[vfPick("T", 0, 2)]; w.alpha = 0.5; w.span = vfPick("span", 0, 1); w.limit = P("s", 3);
    Table<S> full; AnyEval<NB> eval; moRndWithReplNeighborhood<NB> nh(n); moSimpleCoolingSchedule<S> cool(w.T, w.alpha, w.span, 0.0); moSolNeighborComparator<NB> cs;
    moSA<NB> sa(nh, full, eval, cool, cs, w); w.ex = &sa.getNeighborhoodExplorer(); sa(s); vf_assert(consistent(s), "the fitness of the result is that of its content"); vf_assert(w.steps == w.limit, "the run goes on until stopped");
}
ENTRY(accept) { if (vfPick("minimise", 0, 1)) anneal<MinF>(); else anneal<double>(); }
template <class F> static void metropolis() {
    typedef moBitNeighbor<F> NB; typedef eoBit<F> S; int n = vfPick("n", 1, P("n", 1)); pickLandscape(1 << n, 1, P("v", 2), 1); S s = pickStart<F>(n); vf_split_random = 1;
    Anneal<F> w; w.ratio = true; w.limit = 99; Table<S> full; AnyEval<NB> eval; moRndWithReplNeighborhood<NB> nh(n); moNeighborComparator<NB> cn; moSolNeighborComparator<NB> cs; moMetropolisHasting<NB> mh(nh, full, eval, P("s", 2), w, cn, cs); w.ex = &mh.getNeighborhoodExplorer(); mh(s);
    vf_assert(consistent(s), "the fitness of the result is that of its content"); vf_assert(w.steps == P("s", 2), "as many steps as announced");
}
ENTRY(metropolis) { if (vfPick("minimise", 0, 1)) metropolis<MinF>(); else metropolis<double>(); }
ENTRY(simpleSchedule) {
    Bits s(1, false); double T0 = vfInt("T", 0, 1000), F = vfInt("floor", 0, 1000), a = alphas[vfPick("alpha", 0, 3)]; int span = vfPick("span", 0, P("h", 3)), L = P("l", 8), held = 0; moSimpleCoolingSchedule<Bits> c(T0, a, span, F);
    if (vfPick("used", 0, 1)) { double t = c.init(s); c.update(t, true); }
    double t = c.init(s), expect = T0; vf_assert(t == T0, "starts at the initial temperature");
    for (int i = 0; i < L; i++) {
        bool go = c(t); vf_assert(go == (expect > F), "ends exactly when the floor is reached"); if (!go) vf_cover("ended"); double before = t;
        c.update(t, vfInt("accepted", 0, 1)); if (held == span) { expect *= a; held = 0; vf_cover("cooled"); } else { held++; vf_cover("held"); }
        vf_assert(t == expect, "held for the announced number of updates, then cooled by the factor"); vf_assert(t <= before, "never raised");
    }
}
ENTRY(dynSchedule) {
    Bits s(1, false); double T0 = vfInt("T", 0, 1000), a = alphas[vfPick("alpha", 1, 3)]; int tries = vfPick("tries", 1, P("h", 3)), moves = vfPick("moves", 1, P("h", 3)), spans = vfPick("spans", 0, 2), L = P("l", 6), nt = 0, nm = 0, idle = 0; moDynSpanCoolingSchedule<Bits> c(T0, a, tries, moves, spans);
    if (vfPick("used", 0, 1)) { double t = c.init(s); c.update(t, true); }
    double t = c.init(s), expect = T0; vf_assert(t == T0, "starts at the initial temperature");
    for (int i = 0; i < L; i++) {
        bool go = c(t); vf_assert(go == (idle <= spans), "ends exactly after the announced number of spans without a move"); if (!go) vf_cover("ended"); double before = t; bool acc = vfPick("accepted", 0, 1);
        c.update(t, acc); nt++; nm += acc; if (nt == tries || nm == moves) { expect *= a; idle = nm ? 0 : idle + 1; nt = nm = 0; vf_cover("cooled"); } else vf_cover("held");
        vf_assert(t == expect, "held until the announced number of tries or moves, then cooled by the factor"); vf_assert(t <= before, "never raised");
    }
}
struct Count : moContinuator<moBitNeighbor<double> > { int steps = 0, limit = 1000; bool operator()(Bits&) { return ++steps < limit; } };
// a run with a halving schedule makes exactly the steps its parameters announce
ENTRY(runLength) {
    typedef moBitNeighbor<double> NB; vf_land[0] = vf_land[1] = 5; Bits s(1, false); int span = vfPick("span", 0, P("h", 2)), halvings = vfPick("halvings", 1, 3); double F = 1, T0 = F; for (int i = 0; i < halvings; i++) T0 *= 2; bool above = vfPick("above", 0, 1); if (above) T0 += 0.5;
    vf_max_draws = 200; vf_rbits = 0; Table<Bits> full; AnyEval<NB> eval; moRndWithReplNeighborhood<NB> nh(1); Count w; moSimpleCoolingSchedule<Bits> cool(T0, 0.5, span, F);
    if (vfPick("ctor", 0, 1)) { moSA<NB> sa(nh, full, eval, T0, 0.5, span, F); sa.setContinuator(w); sa(s); } else { moSA<NB> sa(nh, full, eval, cool); sa.setContinuator(w); sa(s); }
    vf_assert(w.steps == (halvings + above) * (span + 1), "as many steps as the schedule announces"); vf_cover("done");
}
// without a schedule of its own an annealing started with a continuator runs until that continuator stops it
ENTRY(defaults) {
    typedef moBitNeighbor<double> NB; int n = 2; pickLandscape(1 << n, 0, 1, 1); Bits s = pickStart<double>(n); Table<Bits> full; AnyEval<NB> eval; moRndWithReplNeighborhood<NB> nh(n); Count w; w.limit = P("s", 3); vf_rbits = 2;
    moSA<NB> sa(nh, full, eval, w); sa(s); vf_assert(consistent(s), "the fitness of the result is that of its content"); vf_assert(w.steps == w.limit, "runs until stopped"); vf_cover("done");
}
