// C28: multi-objective replacements keep the preferred individuals, selections return members and prefer the better ones.
//@ bounds populations of 1..n parents and 0..k offspring with arbitrary fitness and diversity 0..3 (0..1 after a removal or when two are removed), ordered by fitness then diversity or the reverse; fitness and diversity change arbitrarily after each removal; every draw of the generators; tournaments of 1..3, archives of up to 3
//@ outside larger populations, comparators that are no strict weak order, fitness assignments of the library (C25) behind the replacements, weights of roulette selection
//@ include moeo/src
//@ entry elitist covers=kept,dropped,tie quick="n=2 k=2" thorough="n=3 k=2;n=2 k=3" jobs=8
//@ entry environmental covers=removed,tie,again quick="n=2 k=1;n=2 k=2 pick=1" thorough="n=2 k=2;n=3 k=2 pick=1" jobs=8
//@ entry generational covers=done quick="n=3" thorough="n=4"
//@ entry detTournament covers=several,best quick="n=3 t=3" thorough="n=4 t=3" jobs=4
//@ entry stochTournament covers=better,worse quick="n=3" thorough="n=4" jobs=4
//@ entry anyone covers=roulette,random,population,archive quick="n=3" thorough="n=4" jobs=4
//@ entry archiveSelect covers=all,some,repeated,nothing quick="n=3" thorough="n=4" jobs=4
//@ entry unvisited covers=none,some,limited quick="n=3" thorough="n=4" jobs=2
#include "objv.h"
#include <selection/moeoDetArchiveSelect.h>
#include <selection/moeoExhaustiveUnvisitedSelect.h>
#include <selection/moeoNumberUnvisitedSelect.h>
static double fit[8], dvs[8]; static int total; static bool byDiv;
static bool below(int a, int b) { if (byDiv) return dvs[a] != dvs[b] ? dvs[a] < dvs[b] : fit[a] < fit[b]; return fit[a] != fit[b] ? fit[a] < fit[b] : dvs[a] < dvs[b]; }
static int val(const char* n, int hi) { return P("pick", 0) ? vfPick(n, 0, 1) : vfInt(n, 0, hi); }
static void draw() { for (int i = 0; i < total; i++) { fit[i] = val("fit", 3); dvs[i] = val("div", 3); } }
static Sol make(int i) { Sol s(i); Obj o; o[0] = 10 + i; s.objectiveVector(o); return s; }
static eoPop<Sol> some(int n, int first) { eoPop<Sol> p; for (int i = 0; i < n; i++) p.push_back(make(first + i)); return p; }
static void distinct(const eoPop<Sol>& p) { for (unsigned i = 0; i < p.size(); i++) { vf_assert(p[i].id >= 0 && p[i].id < total && p[i].objectiveVector()[0] == 10 + p[i].id, "members are parents or offspring"); for (unsigned j = 0; j < i; j++) vf_assert(p[i].id != p[j].id, "no individual appears twice"); } }
static bool has(const eoPop<Sol>& p, int id) { for (unsigned i = 0; i < p.size(); i++) if (p[i].id == id) return true; return false; }
struct Fit : public moeoFitnessAssignment<Sol> {
    int calls, deleted; bool in[8]; unsigned size; Fit() : calls(0), deleted(0), size(0) {}
    void operator()(eoPop<Sol>& p) { calls++; size = p.size(); vf_assert((int)size == total, "fitness is assigned to parents and offspring together"); distinct(p); for (int i = 0; i < total; i++) in[i] = true; for (unsigned i = 0; i < p.size(); i++) p[i].fitness(fit[p[i].id]); }
    // a member was removed: it must have been the last in the order, then all values change
    void updateByDeleting(eoPop<Sol>& p, Obj& o) {
        deleted++; vf_assert(p.size() + 1 == size, "one individual is removed at a time"); size--; distinct(p); int gone = -1; for (int i = 0; i < total; i++) if (in[i] && !has(p, i)) gone = i; for (unsigned i = 0; i < p.size(); i++) vf_assert(in[p[i].id], "removed individuals do not come back"); vf_assert(gone >= 0 && o[0] == 10 + gone, "the removed vector is announced"); in[gone] = false;
        for (unsigned i = 0; i < p.size(); i++) { vf_assert(!below(p[i].id, gone), "the removed one ranks before no one kept"); if (!below(gone, p[i].id)) vf_cover("tie"); } vf_cover("removed"); if (deleted > 1) vf_cover("again"); for (unsigned i = 0; i < p.size(); i++) { fit[p[i].id] = val("fit", 1); p[i].fitness(fit[p[i].id]); }
    }
};
struct Div : public moeoDiversityAssignment<Sol> {
    void operator()(eoPop<Sol>& p) { vf_assert((int)p.size() == total, "diversity is assigned to parents and offspring together"); for (unsigned i = 0; i < p.size(); i++) p[i].diversity(dvs[p[i].id]); }
    void updateByDeleting(eoPop<Sol>& p, Obj&) { for (unsigned i = 0; i < p.size(); i++) { dvs[p[i].id] = val("div", 1); p[i].diversity(dvs[p[i].id]); } }
};
static void setup() { directions(1, 1); }
ENTRY(elitist) {
    setup(); int n = vfPick("n", 1, P("n", 2)), k = vfPick("k", 0, P("k", 2)); total = n + k; int kind = vfPick("kind", 0, 3); byDiv = kind == 1; draw(); if (kind >= 2) for (int i = 0; i < total; i++) dvs[i] = 0; Fit f; Div d; moeoDiversityThenFitnessComparator<Sol> c; moeoFitnessThenDiversityComparator<Sol> e; moeoElitistReplacement<Sol> r0(f, d), r1(f, d, c), r2(f), r3(f, e); moeoElitistReplacement<Sol>& r = kind == 0 ? r0 : kind == 1 ? r1 : kind == 2 ? r2 : r3;
    eoPop<Sol> p = some(n, 0), q = some(k, n); r(p, q); vf_assert((int)p.size() == n, "the population keeps its size"); distinct(p); vf_assert(q.empty(), "the offspring are consumed"); vf_assert(f.calls == 1, "fitness is assigned once");
    for (int i = 0; i < total; i++) if (!has(p, i)) { vf_cover("dropped"); for (unsigned j = 0; j < p.size(); j++) { vf_assert(!below(p[j].id, i), "no one dropped ranks before someone kept"); if (!below(i, p[j].id)) vf_cover("tie"); } } else if (i >= n) vf_cover("kept");
    for (unsigned j = 0; j < p.size(); j++) vf_assert(p[j].fitness() == fit[p[j].id] && p[j].diversity() == dvs[p[j].id], "members keep their values");
}
ENTRY(environmental) {
    setup(); int n = vfPick("n", 1, P("n", 2)), k = vfPick("k", 0, P("k", 2)); total = n + k; int kind = vfPick("kind", 0, 2); byDiv = kind == 1; draw(); if (kind == 2) for (int i = 0; i < total; i++) dvs[i] = 0; Fit f; Div d; moeoDiversityThenFitnessComparator<Sol> c; moeoEnvironmentalReplacement<Sol> r0(f, d), r1(f, d, c), r2(f); moeoEnvironmentalReplacement<Sol>& r = kind == 0 ? r0 : kind == 1 ? r1 : r2;
    eoPop<Sol> p = some(n, 0), q = some(k, n); r(p, q); vf_assert((int)p.size() == n, "the population keeps its size"); distinct(p); vf_assert(q.empty(), "the offspring are consumed"); vf_assert(f.calls == 1 && f.deleted == k, "every removal is announced"); for (int i = 0; i < total; i++) vf_assert(has(p, i) == f.in[i], "those not removed are kept");
}
ENTRY(generational) { setup(); int n = vfPick("n", 1, P("n", 3)); total = 2 * n; eoPop<Sol> p = some(n, 0), q = some(n, n); moeoGenerationalReplacement<Sol> r; r(p, q); vf_assert((int)p.size() == n, "the population keeps its size"); for (int i = 0; i < n; i++) vf_assert(p[i].id == n + i, "the offspring replace their parents"); vf_cover("done"); }
static eoPop<Sol> ranked(int n) { total = n; draw(); eoPop<Sol> p = some(n, 0); for (int i = 0; i < n; i++) { p[i].fitness(fit[i]); p[i].diversity(dvs[i]); } return p; }
static int index(const eoPop<Sol>& p, const Sol& s) { for (unsigned i = 0; i < p.size(); i++) if (&p[i] == &s) return i; return -1; }
ENTRY(detTournament) {
    setup(); int n = vfPick("n", 1, P("n", 3)), t = vfPick("t", 1, P("t", 3)); byDiv = vfPick("byDiv", 0, 1); eoPop<Sol> p = ranked(n); moeoDiversityThenFitnessComparator<Sol> c; moeoDetTournamentSelect<Sol> a(t), b(c, t); vf_nlog = 0; const Sol& s = byDiv ? b(p) : a(p); int w = index(p, s); vf_assert(w >= 0, "a member is returned"); int contestants = t < 2 ? 2 : t;
    vf_assert((int)vf_nlog == contestants, "the tournament has the asked number of contestants"); bool in = false; for (int i = 0; i < contestants; i++) { int k = (int)vf_log[i]; if (k == w) in = true; vf_assert(!below(w, k), "no contestant ranks before the winner"); if (below(k, w)) vf_cover("best"); } vf_assert(in, "the winner took part"); if (contestants > 2) vf_cover("several");
}
ENTRY(stochTournament) {
    setup(); int n = vfPick("n", 1, P("n", 3)), rate = vfPick("rate", 0, 2); byDiv = vfPick("byDiv", 0, 1); eoPop<Sol> p = ranked(n); double r = rate == 0 ? 1.0 : rate == 1 ? 0.75 : 1.5; moeoDiversityThenFitnessComparator<Sol> c; moeoStochTournamentSelect<Sol> a(r), b(c, r); vf_nlog = 0; vf_rbits = 3; const Sol& s = byDiv ? b(p) : a(p); int w = index(p, s); vf_assert(w >= 0, "a member is returned");
    int x = (int)vf_log[0], y = (int)vf_log[1]; vf_assert(w == x || w == y, "the winner took part"); int o = w == x ? y : x; if (rate != 1) vf_assert(!below(w, o), "rate one always returns the better"); if (below(w, o)) vf_cover("worse"); if (below(o, w)) vf_cover("better");
    if (rate == 1) { double u = (double)vf_last_rand / 4294967296.0; if (below(w, o)) vf_assert(u >= 0.75, "the worse wins no more often than the rate allows"); if (below(o, w)) vf_assert(u < 0.75, "the better wins as often as the rate says"); }
}
ENTRY(anyone) {
    setup(); int n = vfPick("n", 1, P("n", 3)), kind = vfPick("kind", 0, 3); byDiv = false; eoPop<Sol> p = ranked(n); vf_rbits = 3; moeoRouletteSelect<Sol> ro; moeoRandomSelect<Sol> ra; moeoUnboundedArchive<Sol> arc; int m = kind >= 2 ? vfPick("arc", 0, 2) : 0; for (int i = 0; i < m; i++) { Sol s = make(50 + i); s.fitness(1); s.diversity(1); arc.push_back(s); }
    moeoDetTournamentSelect<Sol> det; moeoSelectFromPopAndArch<Sol> f(det, arc, kind == 2 ? 0.5 : 1.0); moeoSelectOne<Sol>& sel = kind == 0 ? (moeoSelectOne<Sol>&)ro : kind == 1 ? (moeoSelectOne<Sol>&)ra : (moeoSelectOne<Sol>&)f; const Sol& s = sel(p); int w = index(p, s);
    if (kind == 0) vf_cover("roulette"); if (kind == 1) vf_cover("random"); if (w >= 0) { if (kind > 1) vf_cover("population"); return; } vf_assert(kind == 2, "a member of the population is returned"); vf_assert(index(arc, s) >= 0, "a member of the population or of the archive is returned"); vf_cover("archive");
}
ENTRY(archiveSelect) {
    setup(); int n = vfPick("n", 0, P("n", 3)), mn = vfPick("min", 0, 4), mx = vfPick("max", 0, 4); total = n; moeoUnboundedArchive<Sol> arc; for (int i = 0; i < n; i++) arc.push_back(make(i)); eoPop<Sol> p, d = some(1, 9); moeoDetArchiveSelect<Sol> s(arc, mx, mn); s(p, d); vf_assert((int)arc.size() == n, "the archive is unchanged"); for (int i = 0; i < n; i++) vf_assert(arc[i].id == i, "the archive is unchanged");
    if (mx < mn) { vf_assert(d.size() == 1 && d[0].id == 9, "nothing is done for an empty range"); vf_cover("nothing"); return; }
    int want = n == 0 ? 0 : n > mx ? mx : n < mn ? mn : n; vf_assert((int)d.size() == want, "as many as the bounds ask for"); int c[8] = {0}; for (unsigned i = 0; i < d.size(); i++) { vf_assert(d[i].id >= 0 && d[i].id < n, "members of the archive are selected"); c[d[i].id]++; } for (int i = 0; i < n; i++) { vf_assert(c[i] <= (want + n - 1) / n, "no one is taken more often than needed"); if (want >= n) vf_assert(c[i] >= want / n, "no one is left out when all can be taken"); } if (want == n) vf_cover("all"); else if (want < n) vf_cover("some"); else vf_cover("repeated");
}
ENTRY(unvisited) {
    setup(); int n = vfPick("n", 0, P("n", 3)), k = vfPick("k", 0, 3); total = n; eoPop<Sol> p = some(n, 0); int free = 0; bool z[8]; for (int i = 0; i < n; i++) { int f = vfPick("flag", -1, 1); p[i].flag(f); z[i] = f == 0; if (z[i]) free++; } moeoExhaustiveUnvisitedSelect<Sol> a; moeoNumberUnvisitedSelect<Sol> b(k); std::vector<unsigned> x = a(p), y = b(p);
    vf_assert((int)x.size() == free, "all unvisited are selected"); for (unsigned i = 0; i < x.size(); i++) { vf_assert(x[i] < (unsigned)n && z[x[i]], "only unvisited are selected"); if (i) vf_assert(x[i] != x[i - 1], "no one is selected twice"); }
    vf_assert((int)y.size() == std::min(free, k), "as many unvisited as asked for"); for (unsigned i = 0; i < y.size(); i++) { vf_assert(y[i] < (unsigned)n && z[y[i]], "only unvisited are selected"); for (unsigned j = 0; j < i; j++) vf_assert(y[i] != y[j], "no one is selected twice"); } if (free == 0) vf_cover("none"); else vf_cover("some"); if (free > k) vf_cover("limited");
}
