// C36: neighbourhood explorers of dominance-based local search, selection of unvisited solutions, the search and its hybrids.
//@ bounds bit strings of n bits whose objective vectors (2 objectives) are arbitrary integers 0..9, in whole searches 0..pick; every mix of directions, or the mix given; populations of k solutions with every selection; searches of s steps from k solutions (zero=1: the first is the zero string, which stands for all by symmetry), with the four explorers, both selectors, ordered and random neighbourhoods; two consecutive uses of the hybrids
//@ outside neighbourhoods without any neighbour, longer searches, bounded archives (C24)
//@ include moeo/src
//@ entry explore covers=exhaustive,bounded,first,kept,visited,unvisited quick="n=2 k=1;n=3 k=1 mix=1 zero=1;n=2 k=2 mix=2 zero=1" thorough="n=3 k=1;n=2 k=2" jobs=8
//@ entry unvisited covers=all,fewer,none quick="k=4" thorough="k=6"
//@ entry search covers=natural,stopped,several quick="n=2 k=1 s=3 mix=1 zero=1 pick=1;n=2 k=2 s=2 mix=2 zero=1 pick=1" thorough="n=2 k=1 s=4 zero=1 pick=1;n=2 k=2 s=3 zero=1 pick=1" jobs=8
//@ entry hybrid covers=operator,updater,changed quick="n=1 g=2" thorough="n=2 g=3" jobs=8
#include "objv.h"
#include <mo>
#include <explorer/moeoExhaustiveNeighborhoodExplorer.h>
#include <explorer/moeoSimpleSubNeighborhoodExplorer.h>
#include <explorer/moeoFirstImprovingNeighborhoodExplorer.h>
#include <explorer/moeoNoDesimprovingNeighborhoodExplorer.h>
#include <selection/moeoExhaustiveUnvisitedSelect.h>
#include <selection/moeoNumberUnvisitedSelect.h>
#include <algo/moeoUnifiedDominanceBasedLS.h>
#include <algo/moeoPLS1.h>
#include <algo/moeoPLS2.h>
#include <hybridization/moeoDMLSMonOp.h>
#include <hybridization/moeoDMLSGenUpdater.h>
typedef moeoBitVector<Obj, double, double> BV;
struct Flip : public moIndexNeighbor<BV, Obj> { void move(BV& s) { s[key] = !s[key]; s.invalidateObjectiveVector(); } };
static int bits_, evals_; static std::vector<Obj> table_; static bool known_[8], seen_[8];
static int codeOf(const BV& s) { int c = 0; for (unsigned i = 0; i < s.size(); i++) if (s[i]) c |= 1 << i; return c; }
static const Obj& value(int c) { if (!known_[c]) { known_[c] = true; table_[c] = P("pick", 0) ? pickObj(0, P("pick", 0)) : symObj(0, 9); } return table_[c]; }
static BV sol(int c) { BV s(bits_, false); for (int i = 0; i < bits_; i++) s[i] = c >> i & 1; return s; }
static BV evaluated(int c) { BV s = sol(c); s.objectiveVector(value(c)); return s; }
static void space(int n) { bits_ = n; evals_ = 0; for (int i = 0; i < 8; i++) known_[i] = seen_[i] = false; if (P("mix", -1) >= 0) directions(2, P("mix", -1)); else directions(2); table_.assign(8, Obj()); }
struct Full : public eoEvalFunc<BV> { void operator()(BV& s) { if (s.invalidObjectiveVector()) { s.objectiveVector(value(codeOf(s))); evals_++; } seen_[codeOf(s)] = true; } };
struct Incr : public moEval<Flip> { void operator()(BV& s, Flip& n) { int c = codeOf(s) ^ (1 << n.index()); vf_assert(n.index() < (unsigned)bits_, "neighbours are those of the neighbourhood"); seen_[c] = true; n.fitness(value(c)); } };
static bool holdsItsValue(const BV& s) { return (int)s.size() == bits_ && !s.invalidObjectiveVector() && equalObj(s.objectiveVector(), value(codeOf(s))); }
typedef moeoPopNeighborhoodExplorer<Flip> Explorer;
static Explorer* make(int kind, moNeighborhood<Flip>& nh, moEval<Flip>& e, unsigned number) {
    if (kind == 0) return new moeoExhaustiveNeighborhoodExplorer<Flip>(nh, e); if (kind == 1) return new moeoSimpleSubNeighborhoodExplorer<Flip>(nh, number, e); if (kind == 2) return new moeoFirstImprovingNeighborhoodExplorer<Flip>(nh, e); return new moeoNoDesimprovingNeighborhoodExplorer<Flip>(nh, e);
}
// the solutions an ordered exploration of one solution announces, and whether all neighbours are explored
static bool expected(int kind, int number, int c, std::vector<int>& out) {
    for (int i = 0; i < bits_; i++) {
        int d = c ^ (1 << i); bool last = i + 1 == bits_;
        if (kind == 0) out.push_back(d); else if (kind == 1) { if (i >= number) return false; out.push_back(d); if (i + 1 == number) return last; }
        else { bool worse = dom(value(c), value(d)); if (!worse) out.push_back(d); if (kind == 2 ? dom(value(d), value(c)) : !worse) return last; }
    }
    return true;
}
ENTRY(explore) {
    space(P("n", 2)); int k = P("k", 2), kind = vfPick("explorer", 0, 3), number = kind == 1 ? vfPick("number", 0, bits_ + 1) : 0; moOrderNeighborhood<Flip> nh(bits_); Incr e; Explorer* x = make(kind, nh, e, number);
    eoPop<BV> p, d; std::vector<int> codes, marks; for (int i = 0; i < k; i++) { int c = i == 0 && P("zero", 0) ? 0 : vfPick("code", 0, (1 << bits_) - 1); codes.push_back(c); p.push_back(evaluated(c)); marks.push_back(vfInt("mark", 0, 1)); p.back().flag(marks[i]); }
    std::vector<unsigned> s; for (int i = 0; i < k; i++) if (vfPick("selected", 0, 1)) s.push_back(i); if (s.size() == 2 && vfPick("reverse", 0, 1)) std::swap(s[0], s[1]); bool before = k == 1 && vfPick("before", 0, 1); if (before) d.push_back(evaluated(0)); (*x)(p, s, d);
    std::vector<int> out; if (before) out.push_back(0); std::vector<int> visited(k, 0); for (unsigned i = 0; i < s.size(); i++) visited[s[i]] = expected(kind, number, codes[s[i]], out);
    vf_assert(d.size() == out.size(), "exactly the announced neighbours are added"); for (unsigned i = 0; i < out.size(); i++) { vf_assert(codeOf(d[i]) == out[i], "the announced neighbours are added in order"); vf_assert(holdsItsValue(d[i]), "new solutions hold the objective vector of their content"); vf_assert(d[i].flag() == 0, "new solutions are unvisited"); }
    for (int i = 0; i < k; i++) { vf_assert(codeOf(p[i]) == codes[i] && holdsItsValue(p[i]), "explored solutions are unchanged"); vf_assert((int)p[i].flag() == (visited[i] ? 1 : marks[i]), "a solution is visited when all its neighbours are explored"); if (visited[i]) vf_cover("visited"); else vf_cover("unvisited"); }
    if (kind == 0) vf_cover("exhaustive"); else if (kind == 1) vf_cover("bounded"); else if (kind == 2) vf_cover("first"); else vf_cover("kept"); delete x;
}
ENTRY(unvisited) {
    space(1); int k = vfPick("k", 0, P("k", 4)), number = vfPick("number", 0, k + 1); eoPop<BV> p; std::vector<int> f; int unvisited = 0; for (int i = 0; i < k; i++) { BV s = sol(0); int g = vfInt("flag", 0, 3); s.flag(g); f.push_back(g); p.push_back(s); if (g == 0) unvisited++; }
    bool all = vfPick("exhaustive", 0, 1); moeoExhaustiveUnvisitedSelect<BV> a; moeoNumberUnvisitedSelect<BV> b(number); moeoUnvisitedSelect<BV>& sel = all ? (moeoUnvisitedSelect<BV>&)a : b; std::vector<unsigned> r = sel(p);
    int want = all ? unvisited : std::min(number, unvisited); vf_assert((int)r.size() == want, "as many as announced are selected"); std::vector<int> times(k, 0);
    for (unsigned i = 0; i < r.size(); i++) { unsigned q = vf_concretize(r[i]); vf_assert(q < (unsigned)k, "selected solutions are members"); vf_assert(f[q] == 0, "only unvisited solutions are selected"); vf_assert(!times[q]++, "no solution is selected twice"); }
    for (int i = 0; i < k; i++) vf_assert((int)p[i].flag() == f[i], "selection changes no mark"); if (!unvisited) vf_cover("none"); else if (want < unvisited) vf_cover("fewer"); else vf_cover("all");
}
// members hold their values, do not dominate each other, cover everything evaluated; all neighbours of a visited one were evaluated
static void sound(const eoPop<BV>& a) {
    for (unsigned i = 0; i < a.size(); i++) {
        vf_assert(holdsItsValue(a[i]) && seen_[codeOf(a[i])], "members are evaluated solutions with the objective vector of their content"); for (unsigned j = 0; j < a.size(); j++) if (i != j) vf_assert(!weakly(a[j].objectiveVector(), a[i].objectiveVector()), "no member is dominated by or equal to another");
        if (a[i].flag() == 1) for (int b = 0; b < bits_; b++) vf_assert(seen_[codeOf(a[i]) ^ (1 << b)], "all neighbours of a visited solution were evaluated");
    }
    for (int c = 0; c < (1 << bits_); c++) if (seen_[c]) { bool covered = false; for (unsigned i = 0; i < a.size(); i++) if (weakly(a[i].objectiveVector(), value(c))) covered = true; vf_assert(covered, "every evaluated solution is dominated by or equal to a member"); }
}
struct Watch : public eoContinue<BV> { int left, calls; Watch(int n) : left(n), calls(0) {} bool operator()(const eoPop<BV>& a) { sound(a); calls++; return --left > 0; } };
ENTRY(search) {
    space(P("n", 2)); int k = P("k", 1), s = P("s", 2), how = vfPick("how", 0, 5); Watch w(s); Full full; Incr e; moOrderNeighborhood<Flip> o(bits_); moRndWithoutReplNeighborhood<Flip> r(bits_); bool order = how >= 4 || vfPick("order", 0, 1); moNeighborhood<Flip>& nh = order ? (moNeighborhood<Flip>&)o : r; moeoUnboundedArchive<BV> a(vfPick("replace", 0, 1));
    eoPop<BV> p; for (int i = 0; i < k; i++) { int c = i == 0 && P("zero", 0) ? 0 : vfPick("code", 0, (1 << bits_) - 1); p.push_back(i % 2 ? evaluated(c) : sol(c)); }
    if (how == 4) { moeoPLS1<Flip> ls(w, full, a, nh, e); ls(p); } else if (how == 5) { moeoPLS2<Flip> ls(w, full, a, nh, e); ls(p); }
    else { moeoExhaustiveUnvisitedSelect<BV> x; moeoNumberUnvisitedSelect<BV> y(1); moeoUnvisitedSelect<BV>& sel = vfPick("one", 0, 1) ? (moeoUnvisitedSelect<BV>&)y : x; Explorer* ex = make(how, nh, e, 1); moeoUnifiedDominanceBasedLS<Flip> ls(w, full, a, *ex, sel); ls(p); delete ex; }
    vf_assert(a.size() > 0, "the archive is not empty"); sound(a); if (a.size() > 1) vf_cover("several"); bool all = true; for (unsigned i = 0; i < a.size(); i++) if (a[i].flag() != 1) all = false;
    vf_assert(w.calls == s || all, "the search goes on until it is told to stop or every member is visited"); if (w.calls < s) vf_cover("natural"); else vf_cover("stopped"); for (int i = 0; i < k; i++) vf_assert(holdsItsValue(p[i]), "the initial solutions are evaluated");
}
struct Counted : public Explorer { Explorer& x; int calls; Counted(Explorer& e) : x(e), calls(0) {} void operator()(eoPop<BV>& s, std::vector<unsigned> v, eoPop<BV>& d) { calls++; for (unsigned i = 0; i < v.size(); i++) vf_assert(v[i] < s.size() && s[v[i]].flag() == 0, "only unvisited members are explored"); x(s, v, d); } };
ENTRY(hybrid) {
    space(P("n", 2)); int kind = vfPick("explorer", 0, 3); Full full; Incr e; moOrderNeighborhood<Flip> nh(bits_); Explorer* x = make(kind, nh, e, 1); Counted ex(*x); moeoExhaustiveUnvisitedSelect<BV> sel; int g = P("g", 2), step = vfPick("step", 1, 2);
    if (vfPick("operator", 0, 1)) {
        moeoUnboundedArchive<BV> mine; bool own = vfPick("own", 0, 1); moeoDMLSMonOp<Flip> a(full, ex, sel, step, false), b(full, mine, ex, sel, step, false); eoMonOp<BV>& op = own ? (eoMonOp<BV>&)b : a; vf_cover("operator");
        for (int i = 0; i < 2; i++) { BV s = evaluated(vfPick("code", 0, (1 << bits_) - 1)), was = s; int calls = ex.calls; op(s); vf_assert(holdsItsValue(s), "the result holds the objective vector of its content"); vf_assert(!dom(value(codeOf(was)), value(codeOf(s))), "the result is not dominated by the solution given"); int done = ex.calls - calls; vf_assert(done >= 1 && done <= step, "each use explores as often as announced"); if (own) { sound(mine); bool all = true; for (unsigned j = 0; j < mine.size(); j++) if (mine[j].flag() != 1) all = false; vf_assert(done == step || all, "each use goes on until the announced step or until every member is visited"); } if (codeOf(s) != codeOf(was)) vf_cover("changed"); }
    } else {
        moeoUnboundedArchive<BV> global; BV s = evaluated(vfPick("code", 0, (1 << bits_) - 1)); seen_[codeOf(s)] = true; global(s); int every = vfPick("every", 1, 2); eoGenContinue<BV> c(every); moeoDMLSGenUpdater<Flip> u(full, ex, sel, global, c, step, false); vf_cover("updater");
        for (int i = 1; i <= g; i++) { u(); sound(global); vf_assert(step == 1 ? ex.calls == i / every : (ex.calls >= i / every && ex.calls <= 2 * (i / every)), "the search runs once every announced number of generations"); }
    }
    delete x;
}
