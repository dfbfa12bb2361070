// C23: comparisons of objective vectors are the textbook relations; single-criterion comparators are strict weak orders.
//@ bounds every pair (triple for transitivity) of objective vectors of 1..n objectives with every integer value of the grid, every mix of minimised and maximised objectives; fitness, diversity and weights on a grid of 1/4; reference points anywhere on the grid; dual vectors with every feasibility
//@ outside differences of the order of the tolerance (1e-10), infinities and NaN, fuzzy triangular objectives
//@ include moeo/src
//@ entry pareto covers=dominates,not quick="n=4 w=6" thorough="n=5 w=16"
//@ entry weak covers=dominates,not quick="n=4 w=6" thorough="n=5 w=16"
//@ entry strict covers=dominates,not quick="n=4 w=6" thorough="n=5 w=16"
//@ entry order covers=chain quick="n=3 w=4" thorough="n=4 w=6" jobs=2
//@ entry epsilonDominance covers=dominates,not quick="n=3 w=4" thorough="n=3 w=8"
//@ entry goal covers=inside,outside,dominates quick="n=2 w=3" thorough="n=3 w=3"
//@ entry lexical covers=less,not quick="n=4 w=6" thorough="n=5 w=16"
//@ entry dual covers=mixed,alike quick="n=2 w=3" thorough="n=3 w=4"
//@ entry dualDefault covers=default quick="" thorough=""
//@ entry solutions covers=fitness,diversity,both,reversed,aggregated,objective,pointer quick="w=4" thorough="w=16"
//@ entry solutionState covers=read,thrown quick="" thorough=""
#include "objv.h"
static int W() { return P("w", 4); }
static void setup() { directions(vfPick("n", 1, P("n", 3))); }
static Obj any() { return symObj(-W(), W()); }
#define DECIDE(v) do { if (v) vf_cover("dominates"); else vf_cover("not"); } while (0)
ENTRY(pareto) {
    setup(); Obj a = any(), b = any(); moeoParetoObjectiveVectorComparator<Obj> c; bool r = c(a, b);
    vf_assert(r == dom(b, a), "true exactly when the second is nowhere worse and somewhere better"); vf_assert(b.dominates(a) == r, "dominates() is the same relation"); DECIDE(r);
}
ENTRY(weak) { setup(); Obj a = any(), b = any(); moeoWeakObjectiveVectorComparator<Obj> c; bool r = c(a, b); vf_assert(r == weakly(b, a), "true exactly when the second is nowhere worse"); DECIDE(r); }
ENTRY(strict) { setup(); Obj a = any(), b = any(); moeoStrictObjectiveVectorComparator<Obj> c; bool r = c(a, b); vf_assert(r == strictly(b, a), "true exactly when the second is everywhere better"); DECIDE(r); }
ENTRY(order) {
    setup(); Obj a = any(), b = any(), c = any(); moeoParetoObjectiveVectorComparator<Obj> p; moeoStrictObjectiveVectorComparator<Obj> s; moeoObjectiveVectorComparator<Obj>& d = vfPick("strict", 0, 1) ? (moeoObjectiveVectorComparator<Obj>&)s : (moeoObjectiveVectorComparator<Obj>&)p;
    vf_assert(!d(a, a), "irreflexive"); bool ab = d(a, b), ba = d(b, a), bc = d(b, c);
    vf_assert(!(ab && ba), "antisymmetric"); if (ab && bc) { vf_assert(d(a, c), "transitive"); vf_cover("chain"); }
}
ENTRY(epsilonDominance) {
    setup(); static const double E[] = {0.5, 1, 2, 4}; double e = E[vfPick("eps", 0, 3)]; Obj a = any(), b = any(); moeoEpsilonObjectiveVectorComparator<Obj> c(e); bool r = c(a, b), o = true;
    for (unsigned i = 0; i < nobj; i++) { double x = a[i] / e; if (mini[i] ? b[i] > x : b[i] < x) o = false; }
    vf_assert(r == o, "true exactly when the second is nowhere worse than the first divided by epsilon"); DECIDE(r);
}
ENTRY(goal) {
    setup(); Obj ref = any(), a = any(), b = any(); moeoGDominanceObjectiveVectorComparator<Obj> c(ref); bool r = c(a, b);
    bool fa = weakly(a, ref) || weakly(ref, a), fb = weakly(b, ref) || weakly(ref, b);
    vf_assert(r == (fb && (!fa || dom(b, a))), "points that reach all goals or none are preferred to others and compared by dominance");
    if (fa) vf_cover("inside"); else vf_cover("outside"); if (r) vf_cover("dominates");
}
ENTRY(lexical) {
    setup(); Obj a = any(), b = any(); moeoObjectiveObjectiveVectorComparator<Obj> c; bool r = c(a, b), o = false;
    for (unsigned i = 0; i < nobj; i++) if (a[i] != b[i]) { o = a[i] < b[i]; break; }
    vf_assert(r == o, "the first differing objective decides"); bool e = equalObj(a, b);
    vf_assert((a < b) == o && (a == b) == e && (a != b) == !e && (a > b) == (!o && !e) && (a <= b) == (o || e) && (a >= b) == !o, "the comparison operators agree");
    Sol x, y; x.objectiveVector(a); y.objectiveVector(b); vf_assert((x < y) == o, "solutions compare by their objective vectors");
    if (r) vf_cover("less"); else vf_cover("not");
}
typedef moeoDualRealObjectiveVector<moeoObjectiveVectorTraits> Dual;
static Dual symDual(Obj& v, bool f) { Dual d(0.0, f); d.is_feasible(f); v = any(); for (unsigned i = 0; i < nobj; i++) d[i] = eoMaximizingDualFitness(v[i], f); return d; }
ENTRY(dual) {
    setup(); bool fa = vfPick("fa", 0, 1), fb = vfPick("fb", 0, 1); Obj x, y; Dual a = symDual(x, fa), b = symDual(y, fb); vf_assert(a.is_feasible() == fa, "the feasibility that was set is reported");
    moeoParetoDualObjectiveVectorComparator<Dual> c; bool r = c(a, b), o = false; for (unsigned i = 0; i < nobj; i++) if (x[i] != y[i]) { o = x[i] < y[i]; break; }
    vf_assert(r == (fa == fb ? dom(y, x) : fb), "feasible vectors dominate infeasible ones, vectors alike are compared by dominance");
    vf_assert(b.dominates(a) == r, "dominates() is the same relation");
    vf_assert((a < b) == (fa == fb ? o : fb), "an infeasible vector comes before a feasible one"); if (fa == fb) vf_cover("alike"); else vf_cover("mixed");
}
ENTRY(dualDefault) { directions(2, 3); bool f = vfPick("feasible", 0, 1); Dual a(1.0, f); vf_assert(a.is_feasible() == f, "the feasibility given to the constructor is the feasibility of the vector"); Dual b; vf_assert(!b.is_feasible(), "a vector is infeasible by default"); vf_cover("default"); }
static double quarter(const char* n) { return 0.25 * vfInt(n, -W(), W()); }
ENTRY(solutions) {
    directions(2); Sol s[3]; for (int i = 0; i < 3; i++) { s[i].objectiveVector(any()); s[i].fitness(quarter("fitness")); s[i].diversity(quarter("diversity")); }
    moeoFitnessComparator<Sol> f; moeoFitnessThenDiversityComparator<Sol> fd; moeoDiversityThenFitnessComparator<Sol> df; static const double WT[] = {1, 2, 0.5, 0}; double wf = WT[vfPick("wf", 0, 3)], wd = WT[vfPick("wd", 0, 3)]; moeoAggregativeComparator<Sol> ag(wf, wd); unsigned k = vfPick("obj", 0, 1); moeoOneObjectiveComparator<Sol> one(k); moeoPtrComparator<Sol> ptr(fd);
    moeoComparator<Sol>* c = 0; double key[3][2]; int q = vfPick("kind", 0, 5);
    for (int i = 0; i < 3; i++) { double a = s[i].fitness(), d = s[i].diversity(); key[i][1] = 0; switch (q) { case 0: key[i][0] = a; break; case 1: key[i][0] = a; key[i][1] = d; break; case 2: key[i][0] = d; key[i][1] = a; break; case 3: key[i][0] = wf * a + wd * d; break; case 4: key[i][0] = s[i].objectiveVector()[k]; break; default: key[i][0] = a; key[i][1] = d; } }
    switch (q) { case 0: c = &f; vf_cover("fitness"); break; case 1: c = &fd; vf_cover("both"); break; case 2: c = &df; vf_cover("diversity"); vf_cover("reversed"); break; case 3: c = &ag; vf_cover("aggregated"); break; case 4: c = &one; vf_cover("objective"); break; default: c = &fd; vf_cover("pointer"); }
    bool r = (*c)(s[0], s[1]), o = key[0][0] < key[1][0] || (key[0][0] == key[1][0] && key[0][1] < key[1][1]); vf_assert(r == o, "a solution precedes another exactly when its key is smaller");
    if (q == 5) { const Sol *a = &s[0], *b = &s[1]; vf_assert(ptr(a, b) == r && ptr(&s[1], &s[0]) == (*c)(s[1], s[0]), "pointers compare like the solutions they point to"); }
    vf_assert(!(*c)(s[2], s[2]), "irreflexive"); vf_assert(!(r && (*c)(s[1], s[0])), "asymmetric"); if (r && (*c)(s[1], s[2])) vf_assert((*c)(s[0], s[2]), "transitive");
}
ENTRY(solutionState) {
    directions(2, 3); Sol s; vf_assert(s.invalid() && s.invalidFitness() && s.invalidDiversity() && s.invalidObjectiveVector(), "a new solution has no values"); int t = 0;
    try { s.objectiveVector(); } catch (std::exception&) { t++; } try { s.fitness(); } catch (std::exception&) { t++; } try { s.diversity(); } catch (std::exception&) { t++; } vf_assert(t == 3, "values that were never set cannot be read");
    bool bad = false; try { moeoOneObjectiveComparator<Sol> c(2); } catch (std::exception&) { bad = true; } vf_assert(bad, "a comparator of an objective that does not exist is refused"); vf_cover("thrown");
    Obj a = any(); s.objectiveVector(a); vf_assert(!s.invalid() && s.invalidFitness() && s.invalidDiversity(), "each value has its own state"); vf_assert(equalObj(s.objectiveVector(), a) && static_cast<const Sol&>(s).objectiveVector(1u) == a[1], "the value set is the value read");
    double f = quarter("f"), d = quarter("d"); s.fitness(f); vf_assert(s.invalidDiversity() && s.fitness() == f, "each value has its own state"); s.diversity(d); vf_assert(s.diversity() == d && s.fitness() == f && equalObj(s.objectiveVector(), a), "the value set is the value read");
    int k = vfPick("k", 0, 3); if (k == 0) s.invalidate(); if (k == 1) s.invalidateObjectiveVector(); if (k == 2) s.invalidateFitness(); if (k == 3) s.invalidateDiversity();
    vf_assert(s.invalidObjectiveVector() == (k < 2) && s.invalidFitness() == (k == 0 || k == 2) && s.invalidDiversity() == (k == 0 || k == 3) && s.invalid() == (k < 2), "invalidation affects exactly the value it names"); vf_cover("read");
    if (k == 1) { s.objectiveVector(0, 7.0); vf_assert(!s.invalid() && s.objectiveVector()[0] == 7 && s.objectiveVector()[1] == a[1], "setting one objective keeps the others"); }
}
