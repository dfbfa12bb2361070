// C11: population order, best/worst, statistics and refusal of unevaluated individuals.
//@ bounds populations of 1..n individuals, fitness values 0..f (ties included) with both feasibility values for dual fitness, every queried position; comparison axioms over all non-NaN doubles
//@ outside larger populations; NaN fitness; standard deviation and interquartile statistics
//@ entry orderMax covers=done quick="n=4" thorough="n=5"
//@ entry orderMin covers=done quick="n=4" thorough="n=5"
//@ entry orderDualMax covers=done quick="n=3 f=1" thorough="n=4 f=1" jobs=2
//@ entry orderDualMin covers=done quick="n=3 f=1" thorough="n=4 f=1" jobs=2
//@ entry shuffleMax covers=done quick="n=4" thorough="n=5" 
//@ entry statMax covers=done,refusedNth quick="n=4" thorough="n=5"
//@ entry statMin covers=done,refusedNth quick="n=4" thorough="n=5"
//@ entry bestIndividual covers=done quick="g=4 n=2" thorough="g=5 n=3"
//@ entry bestIndividualMin covers=done quick="g=4 n=2" thorough="g=5 n=3"
//@ entry axiomsMax covers=done
//@ entry axiomsMin covers=done
//@ entry axiomsDualMax covers=done
//@ entry axiomsDualMin covers=done
//@ entry unevaluated covers=done quick="n=3" thorough="n=4"
//@ entry unevaluatedMin covers=done quick="n=3" thorough="n=4"
//@ entry split covers=done quick="n=4" thorough="n=6"
#include "ind.h"
#include <eoDualFitness.h>
typedef Ind<eoMaximizingDualFitness> DMax;
typedef Ind<eoMinimizingDualFitness> DMin;
// the announced order: raw value, feasibility, direction
template <class I> struct Dir;
template <> struct Dir<MaxInd> { enum { dual = 0, sign = 1 }; };
template <> struct Dir<MinInd> { enum { dual = 0, sign = -1 }; };
template <> struct Dir<DMax> { enum { dual = 1, sign = 1 }; };
template <> struct Dir<DMin> { enum { dual = 1, sign = -1 }; };
struct Raw { double v; int feas; };
template <class I> static void setFit(I& x, Raw r) { if constexpr (Dir<I>::dual) x.fitness(typename I::Fitness(r.v, (bool)r.feas)); else x.fitness(typename I::Fitness(r.v)); }
template <class I> static bool better(Raw a, Raw b) { if (Dir<I>::dual && a.feas != b.feas) return a.feas > b.feas; return Dir<I>::sign > 0 ? a.v > b.v : a.v < b.v; }
template <class I> static eoPop<I> mk(int n, std::vector<Raw>& raw, int f) {
    eoPop<I> p;
    for (int i = 0; i < n; i++) { Raw r{(double)vf_range("fit", 0, f), Dir<I>::dual ? vfInt("feasible", 0, 1) : 0}; raw.push_back(r); I x(i); setFit(x, r); p.push_back(x); }
    return p;
}
template <class I> static void isPerm(const eoPop<I>& p, const std::vector<Raw>& raw) {
    std::vector<int> seen(raw.size(), 0); vf_assert(p.size() == raw.size(), "size kept");
    for (auto& x : p) { int id = vf_concretize(x.id); vf_assert(id >= 0 && id < (int)raw.size() && !seen[id]++, "only rearranged"); vf_assert(!x.invalid() && (double)x.fitness() == raw[id].v, "fitness travels with its individual"); vf_note("id", id); }
}
template <class I> static void order() {
    int n = vfPick("n", 1, P("n", 4)); std::vector<Raw> raw; eoPop<I> p = mk<I>(n, raw, P("f", 3)); const eoPop<I> c = p;
    auto bt = [&](int a, int b) { return better<I>(raw[a], raw[b]); };
    switch (vfPick("op", 0, 7)) {
    case 0: p.sort(); isPerm(p, raw); for (int i = 0; i + 1 < n; i++) vf_assert(!bt(p[i + 1].id, p[i].id), "sorted from best to worst"); break;
    case 1: { std::vector<const I*> r; c.sort(r); vf_assert((int)r.size() == n, "size"); std::vector<int> seen(n, 0);
        for (int i = 0; i < n; i++) { long k = vf_concretize(r[i] - &c[0]); vf_assert(k >= 0 && k < n && !seen[k]++, "view holds each once"); }
        for (int i = 0; i + 1 < n; i++) vf_assert(!bt(r[i + 1]->id, r[i]->id), "view sorted from best to worst"); break; }
    case 2: { const I& b = c.best_element(); long k = vf_concretize(&b - &c[0]); vf_assert(k >= 0 && k < n, "best is a member"); for (int i = 0; i < n; i++) vf_assert(!bt(i, k), "best has nobody above"); break; }
    case 3: { auto it = p.it_best_element(); long k = vf_concretize(it - p.begin()); vf_assert(k >= 0 && k < n, "best is a member"); for (int i = 0; i < n; i++) vf_assert(!bt(i, k), "best has nobody above"); break; }
    case 4: { const I& b = c.worse_element(); long k = vf_concretize(&b - &c[0]); vf_assert(k >= 0 && k < n, "worst is a member"); for (int i = 0; i < n; i++) vf_assert(!bt(k, i), "worst has nobody below"); break; }
    case 5: { auto it = p.it_worse_element(); long k = vf_concretize(it - p.begin()); vf_assert(k >= 0 && k < n, "worst is a member"); for (int i = 0; i < n; i++) vf_assert(!bt(k, i), "worst has nobody below"); break; }
    case 6: { int k = vfPick("k", 0, n - 1); auto it = p.nth_element(k); vf_assert(it == p.begin() + k, "position"); isPerm(p, raw);
        for (int i = 0; i < k; i++) vf_assert(!bt(p[k].id, p[i].id), "nobody before the nth is worse"); for (int i = k + 1; i < n; i++) vf_assert(!bt(p[i].id, p[k].id), "nobody after the nth is better"); break; }
    case 7: { int k = vfPick("k", 0, n - 1); std::vector<const I*> r; c.nth_element(k, r); std::vector<int> seen(n, 0);
        for (int i = 0; i < n; i++) { long q = vf_concretize(r[i] - &c[0]); vf_assert(q >= 0 && q < n && !seen[q]++, "view holds each once"); }
        for (int i = 0; i < k; i++) vf_assert(!bt(r[k]->id, r[i]->id), "nobody before the nth is worse"); for (int i = k + 1; i < n; i++) vf_assert(!bt(r[i]->id, r[k]->id), "nobody after the nth is better"); break; }
    }
    vf_cover("done");
}
ENTRY(orderMax) { order<MaxInd>(); }
ENTRY(orderMin) { order<MinInd>(); }
ENTRY(orderDualMax) { order<DMax>(); }
ENTRY(orderDualMin) { order<DMin>(); }
ENTRY(shuffleMax) {
    int n = vfPick("n", 0, P("n", 4)); std::vector<Raw> raw; eoPop<MaxInd> p = mk<MaxInd>(n, raw, 3);
    if (vfPick("view", 0, 1)) { std::vector<const MaxInd*> r; const eoPop<MaxInd>& c = p; c.shuffle(r); std::vector<int> seen(n, 0); vf_assert((int)r.size() == n, "size"); for (int i = 0; i < n; i++) { long q = vf_concretize(r[i] - &c[0]); vf_assert(q >= 0 && q < n && !seen[q]++, "view holds each once"); } }
    else { p.shuffle(); isPerm(p, raw); }
    vf_cover("done");
}
template <class I> static void stats() {
    int n = vfPick("n", 1, P("n", 4)); std::vector<Raw> raw; const eoPop<I> p = mk<I>(n, raw, 3);
    auto bt = [&](int a, int b) { return better<I>(raw[a], raw[b]); };
    // the value with exactly k individuals before it in best-first order
    auto isNth = [&](double v, int k) { int above = 0, same = 0; for (int i = 0; i < n; i++) { if (Dir<I>::sign > 0 ? raw[i].v > v : raw[i].v < v) above++; if (raw[i].v == v) same++; } return above <= k && k < above + same; };
    switch (vfPick("stat", 0, 6)) {
    case 0: { eoBestFitnessStat<I> s; s(p); vf_assert(isNth((double)s.value(), 0), "best fitness statistic"); break; }
    case 1: { eoAverageStat<I> s; s(p); double t = 0; for (int i = 0; i < n; i++) t += raw[i].v; vf_assert((double)s.value() == t / n, "average statistic"); break; }
    case 2: { int k = vfPick("k", 0, n + 1); eoNthElementFitnessStat<I> s(k); std::vector<const I*> v; p.sort(v); bool threw = false; try { s(v); } catch (std::exception&) { threw = true; }
        vf_assert(threw == (k >= n), "refuses exactly positions outside"); if (threw) { vf_cover("refusedNth"); break; } vf_assert(isNth((double)s.value(), k), "nth fitness statistic"); break; }
    case 3: { int k = vfPick("k", 0, n - 1); eoNthElementStat<I> s(k); s(p); vf_assert(isNth((double)s.value(), n - 1 - k), "nth element statistic counts from the worst"); break; }
    case 4: { int q = vfPick("quarter", 0, 3); eoNthElementStat<I> s(q * 0.25); s(p); vf_assert(isNth((double)s.value(), n - 1 - (q * n) / 4), "quantile statistic"); break; }
    case 5: { int k = vfPick("k", 0, n - 1); vf_assert(isNth((double)p.nth_element_fitness(k), k), "nth element fitness"); break; }
    case 6: { if (n == 3 || n == 1) vf_prune(); eoSecondMomentStats<I> s; s(p); double t = 0; for (int i = 0; i < n; i++) t += raw[i].v; vf_assert(s.value().first == t / n, "average of the moments statistic"); break; }
    }
    vf_cover("done");
}
ENTRY(statMax) { stats<MaxInd>(); }
ENTRY(statMin) { stats<MinInd>(); }
template <class I> static void bestInd() { // best individual statistic keeps the best ever seen
    eoBestIndividualStat<I> s; double best = 0; bool any = false;
    for (int g = 0; g < P("g", 4); g++) {
        eoPop<I> p;
        for (int i = 0; i < P("n", 2); i++) { double v = (double)vf_range("fit", 0, 3); I x(g * 10 + i); x.fitness(typename I::Fitness(v)); p.push_back(x); if (!any || (Dir<I>::sign > 0 ? v > best : v < best)) { best = v; any = true; } }
        s(p); vf_assert(!s.value().invalid() && (double)s.value().fitness() == best, "best individual so far");
    }
    vf_cover("done");
}
ENTRY(bestIndividual) { bestInd<MaxInd>(); }
ENTRY(bestIndividualMin) { bestInd<MinInd>(); }
static double anyDouble(const char* n) { uint64_t b = vf_sym(n, 64); double d; __builtin_memcpy(&d, &b, 8); vf_assume(d == d); return d; }
template <class I> static void axioms() {
    Raw r[3]; I x[3];
    for (int i = 0; i < 3; i++) { r[i].v = anyDouble("v"); r[i].feas = Dir<I>::dual ? vfInt("feasible", 0, 1) : 0; setFit(x[i], r[i]); }
    vf_assert((x[0] < x[1]) == better<I>(r[1], r[0]), "less means strictly worse");
    vf_assert((x[0] > x[1]) == better<I>(r[0], r[1]), "greater means strictly better");
    vf_assert((x[0].fitness() < x[1].fitness()) == better<I>(r[1], r[0]), "fitness less");
    vf_assert((x[0].fitness() > x[1].fitness()) == better<I>(r[0], r[1]), "fitness greater");
    vf_assert((x[0].fitness() <= x[1].fitness()) == !better<I>(r[0], r[1]), "fitness less or equal");
    vf_assert((x[0].fitness() >= x[1].fitness()) == !better<I>(r[1], r[0]), "fitness greater or equal");
    vf_assert(!(x[0] < x[0]) && !((x[0] < x[1]) && (x[1] < x[0])), "irreflexive and asymmetric");
    vf_assert(!((x[0] < x[1]) && (x[1] < x[2])) || (x[0] < x[2]), "transitive");
    vf_assert(!(!(x[0] < x[1]) && !(x[1] < x[2])) || !(x[0] < x[2]), "total preorder");
    vf_cover("done");
}
ENTRY(axiomsMax) { axioms<MaxInd>(); }
ENTRY(axiomsMin) { axioms<MinInd>(); }
ENTRY(axiomsDualMax) { axioms<DMax>(); }
ENTRY(axiomsDualMin) { axioms<DMin>(); }
template <class I> static void uneval() {
    int n = vfPick("n", 2, P("n", 3)); eoPop<I> p = symPop<I>(n, 0, 0, 2); int bad = vfPick("bad", 0, n - 1); p[bad].invalidate();
    vf_assert(p[bad].invalid(), "marked as not evaluated");
    bool threw = false, answered = true; int other = (bad + 1) % n;
    try {
        switch (vfPick("op", 0, 9)) {
        case 0: (void)(double)p[bad].fitness(); break;
        case 1: (void)(double)p[bad].fitnessReference(); break;
        case 2: (void)(p[bad] < p[other]); break;
        case 3: (void)(p[other] < p[bad]); break;
        case 4: (void)(p[bad] > p[other]); break;
        case 5: (void)(p[other] > p[bad]); break;
        case 6: p.sort(); break;
        case 7: (void)p.best_element(); break;
        case 8: (void)p.worse_element(); break;
        case 9: (void)(double)p.nth_element_fitness(0); break;
        }
    } catch (std::exception&) { threw = true; }
    (void)answered; vf_assert(threw, "an unevaluated individual is refused");
    p[bad].fitness(typename I::Fitness(1.0)); vf_assert(!p[bad].invalid() && (double)p[bad].fitness() == 1.0, "setting a fitness evaluates");
    p.invalidate(); for (auto& x : p) vf_assert(x.invalid(), "invalidating a population invalidates everyone");
    vf_cover("done");
}
ENTRY(unevaluated) { uneval<MaxInd>(); }
ENTRY(unevaluatedMin) { uneval<MinInd>(); }
ENTRY(split) { // feasible / unfeasible partition
    int n = vfPick("n", 0, P("n", 4)); std::vector<Raw> raw; eoPop<DMax> p = mk<DMax>(n, raw, 1); eoDualPopSplit<DMax> s; s(p); s(p);
    size_t f = 0; for (int i = 0; i < n; i++) f += vf_concretize(raw[i].feas);
    vf_assert(s.feasible().size() == f && s.unfeasible().size() == n - f, "partition sizes");
    for (auto& x : s.feasible()) vf_assert(raw[vf_concretize(x.id)].feas == 1, "feasible part"); for (auto& x : s.unfeasible()) vf_assert(raw[vf_concretize(x.id)].feas == 0, "unfeasible part");
    eoPop<DMax> m = s.merge(); vf_assert((int)m.size() == n, "merge size"); std::vector<int> seen(n, 0); for (auto& x : m) { int id = vf_concretize(x.id); vf_assert(!seen[id]++, "merge holds each once"); }
    vf_cover("done");
}
