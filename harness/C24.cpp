// C24: archives hold mutually non-dominated solutions that were offered, and cover everything that was offered.
//@ bounds every sequence of up to k offers with arbitrary integer objectives, 1..3 objectives, every mix of directions, one by one or as one population; capacities 1..3; both replacement policies; order by fitness and diversity arbitrary; epsilon 1/2 and 1 with objectives 0..2
//@ outside longer histories, objectives closer than the tolerance, quad-tree archive class (an unfinished shell), other epsilons, distances other than small integers for the fixed-size archive
//@ include moeo/src moeo/src/scalarStuffs/archive
//@ entry unbounded covers=taken,refused,removed quick="k=3 n=2;k=3 n=3 f=3;k=4 n=2 f=2 m=1" thorough="k=4 n=2;k=3 n=3" jobs=4
//@ entry unboundedPop covers=taken,refused quick="k=3 n=2" thorough="k=4 n=2" jobs=4
//@ entry strictly covers=taken quick="k=3 n=2" thorough="k=4 n=2" jobs=2
//@ entry queries covers=contains,dominates,equal,different quick="k=2 n=2" thorough="k=3 n=2" jobs=2
//@ entry improvement covers=full,taken quick="k=3 n=2" thorough="k=4 n=2" jobs=4
//@ entry fitdiv covers=full,population quick="k=3 n=2" thorough="k=4 n=2" jobs=4
//@ entry fixedSize covers=filled,displaced,population quick="k=3" thorough="k=4" jobs=4
//@ entry hypervolume covers=full,refused quick="k=4;k=5 f=5" thorough="k=5" jobs=4
//@ entry hyperbox covers=one,many quick="k=3" thorough="k=4" jobs=4
//@ entry quickIndex covers=taken,removed quick="k=4" thorough="k=5;k=4 g=3" jobs=4
//@ entry quadTree covers=taken,removed quick="k=4 n=2;k=3 n=3 f=3" thorough="k=4 n=2;k=3 n=3;k=4 n=3 f=4" jobs=8
#include "objv.h"
#include <archive/moeo2DMinHypervolumeArchive.h>
#include <moeoIndexedArchive.h>
#include <moeoQuickUnboundedArchiveIndex.h>
#include <moeoQuadTree.h>
struct Offers { std::vector<Sol> s; };
static Sol offer(std::vector<Sol>& all, const Obj& o) { Sol x((int)all.size()); x.objectiveVector(o); all.push_back(x); return x; }
static Obj sym() { return symObj(0, 9); }
template <class A> static bool holds(const A& a, int id) { for (typename A::const_iterator i = a.begin(); i != a.end(); ++i) if (i->id == id) return true; return false; }
// members were offered with those objectives, none twice; no member is dominated by (or equal to) another
template <class A> static void sound(const A& a, const std::vector<Sol>& all, bool (*d)(const Obj&, const Obj&) = dom) {
    for (typename A::const_iterator i = a.begin(); i != a.end(); ++i) {
        vf_assert(i->id >= 0 && i->id < (int)all.size(), "every member was offered"); vf_assert(equalObj(i->objectiveVector(), all[i->id].objectiveVector()), "members keep their objective vectors");
        for (typename A::const_iterator j = a.begin(); j != a.end(); ++j) if (i != j) { vf_assert(!d(i->objectiveVector(), j->objectiveVector()), "no member is dominated by another"); vf_assert(!equalObj(i->objectiveVector(), j->objectiveVector()), "no objective vector is held twice"); }
    }
}
template <class A> static void complete(const A& a, const std::vector<Sol>& all, bool (*d)(const Obj&, const Obj&) = dom) {
    for (unsigned k = 0; k < all.size(); k++) { bool c = false; for (typename A::const_iterator i = a.begin(); i != a.end() && !c; ++i) c = equalObj(i->objectiveVector(), all[k].objectiveVector()) || d(i->objectiveVector(), all[k].objectiveVector()); vf_assert(c, "everything offered is equalled or dominated by a member"); }
}
static int K() { return vfPick("k", P("f", 1), P("k", 3)); }
static void setup() { int n = vfPick("n", P("f", 1) > 1 ? P("n", 2) : 1, P("n", 2)); if (P("m", 0)) directions(n, vfPick("mix", 0, 1) ? 1 : 3); else directions(n); }
ENTRY(unbounded) {
    setup(); bool rep = vfPick("replace", 0, 1); moeoUnboundedArchive<Sol> a(rep); std::vector<Sol> all; int k = K();
    for (int i = 0; i < k; i++) {
        unsigned before = a.size(); bool had = false; Obj o = sym(); bool eq = a.contains(o); Sol s = offer(all, o); bool r = a(s); vf_assert(r == holds(a, i), "the answer says whether the solution was taken"); if (!rep && eq) vf_assert(!r, "an equal vector is refused when members are not to be replaced"); if (rep && eq) vf_assert(r, "an equal vector replaces the member"); (void)had;
        if (r) vf_cover("taken"); else vf_cover("refused"); if (a.size() < before) vf_cover("removed");
    }
    sound(a, all); complete(a, all);
}
ENTRY(unboundedPop) {
    setup(); moeoUnboundedArchive<Sol> a; std::vector<Sol> all; int k = K(), split = vfPick("split", 0, k); eoPop<Sol> p, q; for (int i = 0; i < k; i++) (i < split ? p : q).push_back(offer(all, sym()));
    bool r = a(p); vf_assert(r == (split > 0), "the answer says whether any was taken"); r = a(q); bool any = false; for (int i = split; i < k; i++) any = any || holds(a, i); vf_assert(r == any, "the answer says whether any was taken"); if (r) vf_cover("taken"); else vf_cover("refused"); sound(a, all); complete(a, all);
}
ENTRY(strictly) {
    setup(); moeoStrictObjectiveVectorComparator<Obj> c; moeoUnboundedArchive<Sol> a(c, true); std::vector<Sol> all; int k = K();
    for (int i = 0; i < k; i++) { Sol s = offer(all, sym()); bool r = a(s); vf_assert(r == holds(a, i), "the answer says whether the solution was taken"); if (r) vf_cover("taken"); } sound(a, all, ::strictly); complete(a, all, ::strictly);
}
ENTRY(queries) {
    setup(); moeoUnboundedArchive<Sol> a, b; std::vector<Sol> all; int k = K(); for (int i = 0; i < k; i++) a(offer(all, sym())); Obj o = sym(); bool c = false, d = false;
    for (unsigned i = 0; i < a.size(); i++) { c = c || equalObj(a[i].objectiveVector(), o); d = d || dom(a[i].objectiveVector(), o); }
    vf_assert(a.contains(o) == c && a.dominates(o) == d, "the archive contains, or dominates, a vector exactly when a member does"); if (c) vf_cover("contains"); if (d) vf_cover("dominates");
    b(offer(all, sym())); bool e = a.size() == b.size(); for (unsigned i = 0; e && i < a.size(); i++) e = b.contains(a[i].objectiveVector()); vf_assert(a.equals(b) == e && b.equals(a) == e, "archives are equal exactly when they hold the same vectors"); if (e) vf_cover("equal"); else vf_cover("different");
}
ENTRY(improvement) {
    setup(); bool rep = vfPick("replace", 0, 1); unsigned cap = vfPick("cap", 1, 3); moeoImprOnlyBoundedArchive<Sol> a(cap, rep); std::vector<Sol> all; int k = K(); bool pop = vfPick("pop", 0, 1); eoPop<Sol> p;
    for (int i = 0; i < k; i++) {
        Obj o = sym(); if (pop) { p.push_back(offer(all, o)); continue; }
        bool full = a.size() >= cap, d = a.dominates(o), eq = a.contains(o), gain = false; for (unsigned j = 0; j < a.size(); j++) gain = gain || dom(o, a[j].objectiveVector());
        Sol s = offer(all, o); bool r = a(s); vf_assert(r == holds(a, i), "the answer says whether the solution was taken"); vf_assert(a.size() <= cap, "never more members than the capacity");
        bool want = !d && !(eq && !rep) && (!full || gain || (eq && rep)); vf_assert(r == want, "a full archive takes a solution only in place of those it dominates or equals"); if (full) vf_cover("full"); if (r) vf_cover("taken");
    }
    if (pop) { bool r = a(p); vf_assert(r, "the answer says whether any was taken"); vf_assert(a.size() <= cap, "never more members than the capacity"); } sound(a, all);
}
static double FIT[8], DIV[8];
struct GiveFit : moeoFitnessAssignment<Sol> { void operator()(eoPop<Sol>& p) { for (unsigned i = 0; i < p.size(); i++) p[i].fitness(FIT[p[i].id]); } void updateByDeleting(eoPop<Sol>&, Obj&) {} };
struct GiveDiv : moeoDiversityAssignment<Sol> { void operator()(eoPop<Sol>& p) { for (unsigned i = 0; i < p.size(); i++) p[i].diversity(DIV[p[i].id]); } void updateByDeleting(eoPop<Sol>&, Obj&) {} };
ENTRY(fitdiv) {
    directions(2, 3); unsigned cap = vfPick("cap", 1, 2); GiveFit gf; GiveDiv gd; moeoFitnessThenDiversityComparator<Sol> cmp; moeoFitDivBoundedArchive<Sol> a(cmp, gf, gd, cap); std::vector<Sol> all; int k = K(); for (int i = 0; i < k; i++) { FIT[i] = vfInt("fit", 0, 3); DIV[i] = vfInt("div", 0, 3); }
    if (vfPick("pop", 0, 1)) {
        eoPop<Sol> p; for (int i = 0; i < k; i++) p.push_back(offer(all, sym())); a(p); vf_cover("population");
        // the reference: the non-dominated ones (last of equals), of which the best by fitness then diversity are kept
        for (int i = 0; i < k; i++) { bool nd = true; for (int j = 0; j < k; j++) if (dom(all[j].objectiveVector(), all[i].objectiveVector()) || (j > i && equalObj(all[j].objectiveVector(), all[i].objectiveVector()))) nd = false; if (nd && !holds(a, i)) { vf_cover("full"); vf_assert(a.size() == cap, "a non-dominated solution is dropped only by a full archive"); for (unsigned j = 0; j < a.size(); j++) { int m = a[j].id; vf_assert(!(FIT[i] > FIT[m] || (FIT[i] == FIT[m] && DIV[i] > DIV[m])), "nothing better than a member is dropped"); } } }
    } else for (int i = 0; i < k; i++) {
        std::vector<int> was; for (unsigned j = 0; j < a.size(); j++) was.push_back(a[j].id); Sol s = offer(all, sym()); bool d = a.dominates(s.objectiveVector()); bool r = a(s); vf_assert(r == !d, "the answer says whether the solution is not dominated"); vf_assert(a.size() <= cap, "never more members than the capacity"); if (!d) was.push_back(i);
        for (unsigned w = 0; w < was.size(); w++) { int x = was[w]; if (holds(a, x)) continue; if (x != i && (dom(s.objectiveVector(), all[x].objectiveVector()) || equalObj(s.objectiveVector(), all[x].objectiveVector()))) continue; vf_cover("full"); vf_assert(a.size() == cap, "a non-dominated solution is dropped only by a full archive"); for (unsigned j = 0; j < a.size(); j++) { int m = a[j].id; vf_assert(!(FIT[x] > FIT[m] || (FIT[x] == FIT[m] && DIV[x] > DIV[m])), "nothing better than a member is dropped"); } }
    }
    vf_assert(a.size() <= cap, "never more members than the capacity"); sound(a, all);
}
struct GiveDist : moeoDistance<Sol, double> { int d[8][8]; const double operator()(const Sol& x, const Sol& y) { return d[x.id][y.id]; } };
ENTRY(fixedSize) {
    directions(2, 3); unsigned cap = vfPick("cap", 1, 2); GiveDist dist; for (int i = 0; i < 5; i++) for (int j = i + 1; j < 5; j++) dist.d[i][j] = dist.d[j][i] = 1 + (i + j) % 3; moeoSPEA2Archive<Sol> a(dist, cap); std::vector<Sol> all; int k = K(), split = vfPick("split", 0, k); bool first = true;
    for (int i = 0; i < k;) {
        std::vector<int> was; for (unsigned j = 0; j < a.size(); j++) was.push_back(a[j].id); eoPop<Sol> p; int end = first && split ? split : k; if (vfPick("single", 0, 1)) end = i + 1; first = false;
        for (; i < end; i++) { Obj o; Sol s = offer(all, o); s.fitness(vfInt("fit", -2, 0)); s.diversity(-0.25 * vfInt("div", 1, 3)); all.back() = s; p.push_back(s); }
        if (p.size() == 1) a(p[0]); else { a(p); vf_cover("population"); }
        vf_assert(a.size() == std::min<size_t>(cap, all.size()), "the archive is filled up to its size and no further"); if (a.size() < cap || was.empty()) vf_cover("filled");
        for (unsigned j = 0; j < a.size(); j++) { vf_assert(a[j].id >= 0 && a[j].id < (int)all.size(), "every member was offered"); for (unsigned l = 0; l < j; l++) vf_assert(a[l].id != a[j].id, "nobody is held twice"); }
        for (unsigned w = 0; w < was.size(); w++) if (!holds(a, was[w])) { vf_cover("displaced"); if (all[was[w]].fitness() > -1) { bool ok = false; for (unsigned j = 0; j < p.size(); j++) ok = ok || (holds(a, p[j].id) && p[j].fitness() > -1); vf_assert(ok, "a non-dominated member is displaced by a non-dominated newcomer only"); } }
    }
}
ENTRY(hypervolume) {
    directions(2, 3); unsigned cap = vfPick("cap", 1, 3); moeo2DMinHypervolumeArchive<Sol> a(cap); if (cap < 2) cap = 2; std::vector<Sol> all; int k = vfPick("k", P("f", 1), P("k", 4));
    for (int i = 0; i < k; i++) {
        Obj o = pickObj(0, P("f", 1) > 1 ? 2 : 3); bool d = false; for (moeo2DMinHypervolumeArchive<Sol>::iterator j = a.begin(); j != a.end(); ++j) d = d || dom(j->objectiveVector(), o) || equalObj(j->objectiveVector(), o);
        bool full = a.size() >= cap; Sol s = offer(all, o); bool r = a(s); vf_assert(a.size() <= cap, "never more members than the capacity"); if (d) vf_assert(!r && !holds(a, i), "what a member dominates or equals is refused"); if (!d && !full) vf_assert(r && holds(a, i), "a non-dominated solution enters an archive that is not full"); if (!r) { vf_assert(!holds(a, i), "what is refused is not held"); vf_cover("refused"); } if (full) vf_cover("full");
    }
    sound(a, all);
}
ENTRY(hyperbox) {
    directions(2); double e = vfPick("eps", 1, 2) * 0.5; std::vector<double> eps(2, e); moeoEpsilonHyperboxArchive<Sol> a(eps); std::vector<Sol> all; int k = K(); for (int i = 0; i < k; i++) { Obj o = pickObj(0, 2); bool d = a.dominates(o); Sol s = offer(all, o); bool r = a(s); if (d) vf_assert(!holds(a, i), "what a member dominates is not taken"); if (holds(a, i)) vf_assert(r, "what is taken is not reported as dominated"); vf_assert(a.size() > 0, "the archive is never emptied"); }
    sound(a, all); if (a.size() > 1) vf_cover("many"); else vf_cover("one");
}
template <class Index> static void indexed(int grid) {
    Index x; moeoIndexedArchive<Sol> a(x); std::vector<Sol> all; int k = K(); for (int i = 0; i < k; i++) { unsigned before = a.size(); Sol s = offer(all, grid ? pickObj(0, grid) : sym()); bool r = a(s); vf_assert(r == holds(a, i), "the answer says whether the solution was taken"); if (r) vf_cover("taken"); if (a.size() <= before && r) vf_cover("removed"); } sound(a, all); complete(a, all);
}
ENTRY(quickIndex) { directions(2); indexed<moeoQuickUnboundedArchiveIndex<Sol> >(P("g", 2)); }
ENTRY(quadTree) { directions(P("n", 2)); indexed<moeoQuadTree<Sol> >(0); }
