// C12: stopping criteria fire exactly when their condition is met; checkpoints run their parts once per call.
//@ bounds every limit 0..g and histories of t calls, before and after a restart; any fitness history of a population of m individuals; any evaluation counts between calls; every subset of stopping parts at every call; a clock that advances by any amount; checkpoints with two of each part and interval 1..i
//@ outside signal-driven criteria, reading and writing a criterion's state
//@ stub time=vf_time
//@ stub difftime=vf_difftime
//@ entry generations covers=stop,go,restarted quick="g=4 t=5" thorough="g=8 t=10"
//@ entry evaluations covers=stop,go quick="g=4 t=3" thorough="g=6 t=5"
//@ entry throwing covers=stop,go quick="g=3" thorough="g=6"
//@ entry target covers=stop,go quick="m=3 v=1000" thorough="m=5 v=1000000"
//@ entry steady covers=stop,improved,warm,restarted quick="g=2 s=2 t=6 v=3" thorough="g=3 s=3 t=8 v=4" jobs=4
//@ entry period covers=stop,go quick="g=4 t=6" thorough="g=8 t=12"
//@ entry timeLimit covers=stop,go quick="t=3" thorough="t=5"
//@ entry combined covers=stop,go quick="p=3 t=2" thorough="p=4 t=3"
//@ entry checkpoint covers=stop,go quick="p=2 t=3" thorough="p=3 t=4"
//@ entry edoPoint covers=stop,go quick="p=2 t=3" thorough="p=3 t=4"
//@ entry moLimits covers=stop,go,restarted quick="g=3 t=3" thorough="g=5 t=5"
//@ entry moFitness covers=stop,go,improved quick="g=2 t=3 v=3" thorough="g=3 t=5 v=4"
//@ entry moPoint covers=stop,go,skipped quick="p=2 t=3 i=3" thorough="p=3 t=4 i=4"
//@ entry saver covers=fired,quiet quick="i=3 t=4" thorough="i=4 t=8"
#include "ls.h"
#include "ind.h"
#include <eoGenContinue.h>
#include <eoSteadyFitContinue.h>
#include <eoFitContinue.h>
#include <eoEvalContinue.h>
#include <eoCombinedContinue.h>
#include <eoInvertedContinue.h>
#include <eoPeriodicContinue.h>
#include <eoTimeContinue.h>
#include <eoSecondsElapsedContinue.h>
#include <eoEvalCounterThrowException.h>
#include <utils/eoCheckPoint.h>
#include <utils/eoGenCounter.h>
#include <edo>
#include <utils/edoCheckPoint.h>
#include <edoCombinedContinue.h>
#include <continuator/moIterContinuator.h>
#include <continuator/moFullEvalContinuator.h>
#include <continuator/moNeighborEvalContinuator.h>
#include <continuator/moEvalsContinuator.h>
#include <continuator/moFitContinuator.h>
#include <continuator/moBestNoImproveContinuator.h>
#include <continuator/moValueParamContinuator.h>
#include <continuator/moTimeContinuator.h>
#include <continuator/moCombinedContinuator.h>
#include <continuator/moCheckpoint.h>
#include <continuator/moCounterMonitorSaver.h>
#include <eval/moEvalCounter.h>
static long vf_now = 1000;
extern "C" __attribute__((used)) long vf_time(long* p) { if (p) *p = vf_now; return vf_now; }
extern "C" __attribute__((used)) double vf_difftime(long a, long b) { return (double)(a - b); }
static void decision(bool go, bool expected, const char* what) { if (expected) vf_cover("go"); else vf_cover("stop"); vf_assert(go == expected, what); }

ENTRY(generations) {
    eoPop<MaxInd> pop; unsigned long limit = vfInt("limit", 0, P("g", 4)), ext = 0; int setup = vfPick("setup", 0, 3); eoGenContinue<MaxInd> a(limit), b(limit, ext); eoGenContinue<MaxInd>& c = setup & 1 ? b : a; bool viaReset = setup & 2;
    int first = vfPick("before", 0, P("t", 5));
    for (int k = 1; k <= first; k++) decision(c(pop), (unsigned long)k < limit, "generation limit");
    if (viaReset) c.reset(); else { limit = vfInt("limit", 0, P("g", 4)); c.totalGenerations(limit); } vf_cover("restarted");
    vf_assert(c.totalGenerations() == limit, "announced limit");
    for (int k = 1; k <= P("t", 5); k++) { decision(c(pop), (unsigned long)k < limit, "generation limit after a restart"); vf_assert((int)c.value() == k, "generation shown"); if (setup & 1) vf_assert((int)ext == k, "external generation counter"); }
}
struct Obj : public eoEvalFunc<MaxInd> { int calls = 0; void operator()(MaxInd& x) { calls++; x.fitness(x.id); } };
ENTRY(evaluations) {
    Obj f; eoEvalFuncCounter<MaxInd> c(f); unsigned long limit = vfInt("limit", 0, P("g", 4)); eoEvalContinue<MaxInd> stop(c, limit); vf_assert(stop.totalEvaluations() == limit, "announced limit"); eoPop<MaxInd> pop; int done = 0;
    for (int t = 0; t < P("t", 3); t++) {
        int fresh = vfPick("fresh", 0, 2), old = vfPick("old", 0, 1); for (int i = 0; i < fresh; i++) { MaxInd x(i); c(x); done++; vf_assert(!x.invalid() && x.fitness() == i, "evaluated"); } for (int i = 0; i < old; i++) { MaxInd x(7); x.fitness(3); c(x); vf_assert(x.fitness() == 3, "left alone"); }
        vf_assert((int)c.value() == done && f.calls == done, "evaluations counted are those performed"); decision(stop(pop), (unsigned long)done < limit, "evaluation limit");
    }
}
ENTRY(throwing) {
    Obj f; int limit = vfPick("limit", 1, P("g", 3)); eoEvalCounterThrowException<MaxInd> c(f, limit);
    for (int k = 1; k <= limit; k++) { if (vfPick("old", 0, 1)) { MaxInd y(1); y.fitness(2); c(y); } MaxInd x(k); bool stopped = false; try { c(x); } catch (eoMaxEvalException&) { stopped = true; } decision(!stopped, k < limit, "evaluation limit by exception"); vf_assert(!x.invalid() && x.fitness() == k && f.calls == k && (int)c.value() == k, "the individual is evaluated and counted"); }
}
template <class I, class F> static void target() {
    int v = P("v", 1000), m = vfPick("m", 1, P("m", 3)); double goal = (double)vfInt("target", -v, v); eoPop<I> pop = symPop<I>(m, 0, -v, v); eoFitContinue<I> c((typename I::Fitness)goal); bool reached = false; for (int i = 0; i < m; i++) if (!Dir<F>::better((int)goal, (int)(double)pop[i].fitness())) reached = true; decision(c(pop), !reached, "target fitness"); decision(c(pop), !reached, "target fitness, asked again");
}
ENTRY(target) { if (vfPick("minimise", 0, 1)) target<MinInd, MinF>(); else target<MaxInd, double>(); }
template <class I, class F> static void steady() {
    int mn = vfPick("min", 0, P("g", 2)), st = vfPick("steady", 0, P("s", 2)), setup = vfPick("setup", 0, 3), v = P("v", 3), restartAt = setup & 2 ? vfPick("restart", 1, 3) : -1; unsigned long ext = setup & 1 ? vfPick("start", 0, 3) : 0, start = ext; eoSteadyFitContinue<I> a(mn, st), b(mn, st, ext); eoSteadyFitContinue<I>& c = setup & 1 ? b : a;
    vf_assert((int)c.minGenerations() == mn && (int)c.steadyGenerations() == st, "announced limits");
    int gen = (int)start, best = 0, since = 0; bool on = false; if (start) vf_cover("warm");
    for (int t = 0; t < P("t", 6); t++) {
        if (t == restartAt) { if (vfPick("how", 0, 1)) c.reset(); else { mn = 1; st = 1; c.totalGenerations(1, 1); } gen = 0; on = false; vf_cover("restarted"); }
        eoPop<I> pop = symPop<I>(2, 0, 0, v); int f0 = (int)(double)pop[0].fitness(), f1 = (int)(double)pop[1].fitness(), f = Dir<F>::better(f1, f0) ? f1 : f0; gen++; bool go = true;
        if (!on) { if (gen > mn) { on = true; best = f; since = 0; } } else if (Dir<F>::better(f, best)) { best = f; since = 0; vf_cover("improved"); } else { since++; go = since <= st; }
        bool r = c(pop); if (!go) vf_cover("stop"); vf_assert(r == go, "steady fitness"); if (!go) break;
    }
}
ENTRY(steady) { if (vfPick("minimise", 0, 1)) steady<MinInd, MinF>(); else steady<MaxInd, double>(); }
ENTRY(period) { eoPop<MaxInd> pop; int p = vfPick("period", 1, P("g", 4)), from = vfPick("from", 0, 3); eoPeriodicContinue<MaxInd> c(p, from), d(p); eoInvertedContinue<MaxInd> inv(d); for (int k = 1; k <= P("t", 6); k++) { decision(c(pop), (from + k) % p != 0, "period"); vf_assert(inv(pop) == (k % p == 0), "inverted criterion"); } }
ENTRY(timeLimit) {
    eoPop<MaxInd> pop; int limit = vfInt("limit", 0, 5); vf_now = vfInt("now", 0, 1000); long start = vf_now; eoTimeContinue<MaxInd> a(limit); eoSecondsElapsedContinue<MaxInd> b(limit); typedef eoBit<double> S; typedef moBitNeighbor<double> NB; moTimeContinuator<NB> c(limit, false), d(limit, false); S s(1, false); s.fitness(0); long ext = start - vfInt("external", 0, 3); d.setStartingTime(ext); vf_now += vfInt("wait", 0, 3); c.init(s); d.init(s); long mstart = vf_now; vf_assert(c.getStartingTime() == mstart && d.getStartingTime() == ext, "starting time");
    for (int t = 0; t < P("t", 3); t++) { vf_now += vfInt("step", 0, 3); decision(a(pop), vf_now - start < limit, "time limit"); decision(b(pop), vf_now - start < limit, "elapsed seconds"); decision(c(s), vf_now - mstart < limit, "local search time limit"); decision(d(s), vf_now - ext < limit, "time limit from a given start"); }
    c.init(s); int l2 = vfInt("limit", 0, 5); c.maxTime(l2); decision(c(s), 0 < l2, "time limit after a restart");
}
// parts whose answer is free at every call
struct AnyCont : public eoContinue<MaxInd> { bool go = true; int calls = 0; bool operator()(const eoPop<MaxInd>&) { calls++; return go; } };
ENTRY(combined) {
    eoPop<MaxInd> pop; int p = vfPick("parts", 1, P("p", 3)); std::vector<AnyCont> c(p); std::vector<eoContinue<MaxInd>*> v; for (int i = 0; i < p; i++) v.push_back(&c[i]); eoCombinedContinue<MaxInd> one(c[0]), all(v); for (int i = 1; i < p; i++) one.add(c[i]); eoCombinedContinue<MaxInd>& comb = vfPick("how", 0, 1) ? all : one;
    for (int t = 0; t < P("t", 2); t++) { bool go = true; for (int i = 0; i < p; i++) { c[i].go = vfPick("go", 0, 1); go &= c[i].go; } int before = c[0].calls; decision(comb(pop), go, "combined criterion"); for (int i = 0; i < p; i++) vf_assert(c[i].calls <= t + 1 && (!go || c[i].calls - before <= 1), "no part asked twice"); }
}
struct Stat : public eoStatBase<MaxInd> { int calls = 0, last = 0; const eoPop<MaxInd>* seen = 0; void operator()(const eoPop<MaxInd>& p) { calls++; seen = &p; } void lastCall(const eoPop<MaxInd>& p) { last++; seen = &p; } };
struct Sorted : public eoSortedStatBase<MaxInd> { int calls = 0, last = 0; bool ok = true; int m = 0; void look(const std::vector<const MaxInd*>& p) { ok &= (int)p.size() == m; for (unsigned i = 1; i < p.size(); i++) ok &= !(p[i - 1]->fitness() < p[i]->fitness()); } void operator()(const std::vector<const MaxInd*>& p) { calls++; look(p); } void lastCall(const std::vector<const MaxInd*>& p) { last++; look(p); } };
struct Upd : public eoUpdater { int calls = 0, last = 0; void operator()() { calls++; } void lastCall() { last++; } };
struct MoUpd : public moUpdater { int calls = 0, last = 0, inits = 0; void init() { inits++; } void operator()() { calls++; } void lastCall() { last++; } };
struct Mon : public eoMonitor { int calls = 0, last = 0; eoMonitor& operator()() { calls++; return *this; } void lastCall() { last++; } };
ENTRY(checkpoint) {
    eoPop<MaxInd> pop = symPop<MaxInd>(2, 0, 0, 3); int p = vfPick("parts", 1, P("p", 2)), kinds = vfPick("kinds", 0, 2); std::vector<AnyCont> c(p); Stat st[2]; Sorted so[2]; Upd up[2]; Mon mo[2]; so[0].m = so[1].m = 2; eoGenCounter gen; unsigned inc = 0; eoIncrementor<unsigned> incr(inc, 2); eoIncrementorParam<unsigned> incp("x", 5, 3);
    eoCheckPoint<MaxInd> cp(c[0]); for (int i = 1; i < p; i++) cp.add(c[i]); for (int i = 0; i < kinds; i++) { cp.add(st[i]); cp.add(so[i]); cp.add(up[i]); cp.add(mo[i]); } cp.add(gen); cp.add(incr); cp.add(incp); int stops = 0;
    for (int t = 0; t < P("t", 3); t++) {
        bool go = true; for (int i = 0; i < p; i++) { c[i].go = vfPick("go", 0, 1); go &= c[i].go; } stops += !go; decision(cp(pop), go, "checkpoint stops if and only if a criterion does");
        for (int i = 0; i < kinds; i++) { vf_assert(st[i].calls == t + 1 && so[i].calls == t + 1 && up[i].calls == t + 1 && mo[i].calls == t + 1, "every part runs once per call"); vf_assert(st[i].last == stops && so[i].last == stops && up[i].last == stops && mo[i].last == stops, "final call exactly when stopping"); vf_assert(st[i].seen == &pop && so[i].ok, "statistics see the population, sorted ones best first"); }
        for (int i = 0; i < p; i++) vf_assert(c[i].calls == t + 1, "every criterion is asked once per call"); vf_assert((int)gen.value() == t && (int)inc == 2 * (t + 1) && (int)incp.value() == 5 + 3 * (t + 1), "counters");
    }
}
typedef edoUniform<eoReal<double> > D;
struct DCont : public edoContinue<D> { bool go = true; int calls = 0; bool operator()(const D&) { calls++; return go; } };
struct DStat : public edoStatBase<D> { int calls = 0, last = 0; void operator()(const D&) { calls++; } void lastCall(const D&) { last++; } };
ENTRY(edoPoint) {
    eoReal<double> lo(1, 0.0), hi(1, 1.0); D d(lo, hi); int p = vfPick("parts", 1, P("p", 2)), kinds = vfPick("kinds", 0, 2); std::vector<DCont> c(p); DStat st[2]; Upd up[2]; Mon mo[2]; edoCheckPoint<D> cp(c[0]); edoCombinedContinue<D> comb(c[0]); std::vector<edoContinue<D>*> v; for (int i = 0; i < p; i++) { v.push_back(&c[i]); if (i) { cp.add(c[i]); comb.add(c[i]); } } edoCombinedContinue<D> comb2(v); for (int i = 0; i < kinds; i++) { cp.add(st[i]); cp.add(up[i]); cp.add(mo[i]); } int stops = 0;
    for (int t = 0; t < P("t", 3); t++) { bool go = true; for (int i = 0; i < p; i++) { c[i].go = vfPick("go", 0, 1); go &= c[i].go; c[i].calls = t; } stops += !go; decision(cp(d), go, "distribution checkpoint"); for (int i = 0; i < p; i++) vf_assert(c[i].calls == t + 1, "every criterion is asked once per call"); for (int i = 0; i < kinds; i++) { vf_assert(st[i].calls == t + 1 && up[i].calls == t + 1 && mo[i].calls == t + 1, "every part runs once per call"); vf_assert(st[i].last == stops && up[i].last == stops && mo[i].last == stops, "final call exactly when stopping"); } vf_assert(comb(d) == go && comb2(d) == go, "combined criterion"); }
}
typedef eoBit<double> BS; typedef moBitNeighbor<double> BN;
struct FullE : public eoEvalFunc<BS> { void operator()(BS& s) { s.fitness(1); } };
struct NeighE : public moEval<BN> { void operator()(BS&, BN& n) { n.fitness(1); } };
ENTRY(moLimits) {
    BS s(2, false); s.fitness(0); FullE fe; NeighE ne; eoEvalFuncCounter<BS> fc(fe); moEvalCounter<BN> nc(ne); eoValueParam<unsigned> par(0u, "x"); unsigned before = vfPick("used", 0, 2); for (unsigned i = 0; i < before; i++) { BS x(2, false); fc(x); BN n; nc(s, n); nc(s, n); par.value()++; }
    unsigned limit = vfInt("limit", 0, P("g", 3)); bool again = vfPick("restart", 0, 1); moIterContinuator<BN> it(limit, false); moFullEvalContinuator<BN> a(fc, limit, again); moNeighborEvalContinuator<BN> b(nc, limit, again); moEvalsContinuator<BN> c(fc, nc, limit, again); moValueParamContinuator<BN, unsigned> d(par, limit, again);
    for (int r = 0; r < 2; r++) {
        it.init(s); a.init(s); b.init(s); c.init(s); d.init(s); unsigned f0 = again ? fc.value() : 0, n0 = again ? nc.value() : 0, p0 = again ? par.value() : 0; if (r) vf_cover("restarted");
        for (int t = 1; t <= P("t", 3); t++) {
            int todo = vfPick("work", 0, 2); if (todo & 1) { BS x(2, false); fc(x); } if (todo & 2) { BN n; nc(s, n); par.value()++; }
            decision(it(s), (unsigned)t < limit, "iteration limit"); vf_assert((int)it.value() == t, "iterations counted"); decision(a(s), fc.value() - f0 < limit, "full evaluation limit"); decision(b(s), nc.value() - n0 < limit, "neighbour evaluation limit"); decision(c(s), fc.value() - f0 + nc.value() - n0 < limit, "total evaluation limit"); decision(d(s), par.value() - p0 < limit, "parameter limit"); vf_assert(a.value() == fc.value() - f0 && b.value() == nc.value() - n0 && c.value() == a.value() + b.value() && d.value() == par.value() - p0, "values shown");
        }
    }
}
template <class F> static void moFitness() {
    typedef eoBit<F> S; typedef moBitNeighbor<F> NB; int v = P("v", 3); S s(1, false), best(1, false); double goal = (double)vfInt("target", 0, v); moFitContinuator<NB> fit((F)goal); unsigned limit = vfPick("limit", 1, P("g", 2)); moSolComparator<S> cmp; moBestNoImproveContinuator<NB> x(best, limit, false), y(best, limit, cmp, false); moBestNoImproveContinuator<NB>& c = vfPick("how", 0, 1) ? x : y;
    unsigned since = 0; s.fitness(0.0); best.fitness((double)vfInt("best", 0, v)); fit.init(s); c.init(s);
    for (int t = 0; t < P("t", 3); t++) { int f = vfInt("fit", 0, v); s.fitness((double)f); decision(fit(s), Dir<F>::better((int)goal, f), "target fitness"); if (Dir<F>::better(f, (int)(double)best.fitness())) { since = 0; vf_cover("improved"); } else since++; bool go = c(s); vf_assert(go == (since < limit), "no improvement of the best"); vf_assert(c.value() == since, "iterations without improvement"); if (Dir<F>::better(f, (int)(double)best.fitness())) best.fitness((double)f); if (vfPick("again", 0, 1)) { c.init(s); since = 0; } }
}
ENTRY(moFitness) { if (vfPick("minimise", 0, 1)) moFitness<MinF>(); else moFitness<double>(); }
struct MCont : public moContinuator<BN> { bool go = true; int calls = 0, inits = 0, last = 0; void init(BS&) { inits++; } bool operator()(BS&) { calls++; return go; } void lastCall(BS&) { last++; } };
struct MStat : public moStatBase<BS> { int calls = 0, inits = 0, last = 0; void init(BS&) { inits++; } void operator()(BS&) { calls++; } void lastCall(BS&) { last++; } };
ENTRY(moPoint) {
    BS s(1, false); s.fitness(0); int p = vfPick("parts", 1, P("p", 2)), kinds = vfPick("kinds", 0, 2), interval = vfPick("interval", 1, P("i", 3)); std::vector<MCont> c(p), e(p); MStat st[2]; Upd up[2]; MoUpd mu[2]; Mon mo[2]; moCheckpoint<BN> one(c[0]), many(c[0], interval); moCheckpoint<BN>& cp = interval == 1 ? one : many; moCombinedContinuator<BN> comb(e[0]); for (int i = 1; i < p; i++) { cp.add(c[i]); comb.add(e[i]); } for (int i = 0; i < kinds; i++) { cp.add(st[i]); cp.add(up[i]); cp.add(mu[i]); cp.add(mo[i]); }
    for (int r = 0; r < 2; r++) {
        cp.init(s); comb.init(s); for (int i = 0; i < kinds; i++) { vf_assert(st[i].inits == r + 1 && mu[i].inits == r + 1, "initialised once"); st[i].calls = up[i].calls = mu[i].calls = mo[i].calls = 0; } for (int i = 0; i < p; i++) { vf_assert(c[i].inits == r + 1 && e[i].inits == r + 1, "criteria initialised once"); c[i].calls = e[i].calls = 0; }
        int computed = 0;
        for (int t = 1; t <= (r ? 2 : P("t", 3)); t++) {
            bool go = true; for (int i = 0; i < p; i++) { c[i].go = e[i].go = vfPick("go", 0, 1); go &= c[i].go; } decision(cp(s), go, "checkpoint stops if and only if a criterion does"); decision(comb(s), go, "combined criterion"); if (t % interval == 0) computed++; else vf_cover("skipped");
            for (int i = 0; i < kinds; i++) { vf_assert(st[i].calls == computed, "every statistic is computed every interval-th call"); vf_assert(up[i].calls == t && mu[i].calls == t && mo[i].calls == t, "every part runs once per call"); } for (int i = 0; i < p; i++) vf_assert(c[i].calls == t && e[i].calls == t, "every criterion is asked once per call");
        }
        cp.lastCall(s); comb.lastCall(s); for (int i = 0; i < kinds; i++) vf_assert(st[i].last == r + 1 && up[i].last == r + 1 && mu[i].last == r + 1 && mo[i].last == r + 1, "final call"); for (int i = 0; i < p; i++) vf_assert(c[i].last == r + 1 && e[i].last == r + 1, "final call of the criteria");
    }
}
ENTRY(saver) { Mon m[2]; int interval = vfPick("interval", 1, P("i", 3)); moCounterMonitorSaver sv(interval, m[0]); sv.add(m[1]); int n = 0; for (int t = 0; t < P("t", 4); t++) { sv(); if (t % interval == 0) { n++; vf_cover("fired"); } else vf_cover("quiet"); vf_assert(m[0].calls == n && m[1].calls == n, "monitors run every interval-th call"); } sv.lastCall(); vf_assert(m[0].last == 1 && m[1].last == 1, "final call"); }
