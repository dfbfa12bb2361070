// C25: dominance-based fitness puts every solution after those that dominate it, exactly as its definition says.
//@ bounds every population of up to n individuals with arbitrary integer objectives in 1..9 (and every vector over -1..1 for smaller populations), 1 to 3 objectives, every mix of directions; with and without an archive, with copies counted or set aside, after an earlier assignment to another population
//@ outside larger populations, objectives closer than the tolerance, custom dominance relations, updates after a deletion
//@ include moeo/src
//@ entry depth1 covers=tie,front quick="n=4" thorough="n=5" jobs=2
//@ entry depth2 covers=tie,front,incomparable quick="n=3;n=4 neg=1" thorough="n=3;n=4 f=4 min1=1;n=4 neg=1" jobs=8
//@ entry depth3 covers=tie,front quick="n=3" thorough="n=4" jobs=8
//@ entry rank covers=dominated,copy,archive,again quick="n=3" thorough="n=3 all=1" jobs=8
//@ entry count covers=dominated,copy,archive,again quick="n=3" thorough="n=3 all=1" jobs=8
//@ entry countRanking covers=dominated,copy,archive,again quick="n=3" thorough="n=3 all=1" jobs=8
//@ entry ndSorting covers=tie,front quick="n=3" thorough="n=4" jobs=8
//@ entry ndNiche covers=front,single quick="n=3" thorough="n=4" jobs=8
#include "objv.h"
#include <eoNDSorting.h>
static std::vector<Obj> objs; static std::vector<int> ids;
static int lo = 1; // above zero unless an entry asks for both signs
static Obj sym() { return lo < 0 ? pickObj(-1, 1) : symObj(lo, 9); }
static eoPop<Sol> population(int n, int first = 0) { eoPop<Sol> p; for (int i = 0; i < n; i++) { Sol s(first + i); s.objectiveVector(sym()); p.push_back(s); } return p; }
static void remember(const eoPop<Sol>& p) { objs.clear(); for (unsigned i = 0; i < p.size(); i++) objs.push_back(p[i].objectiveVector()); }
// the population holds the same individuals with the same vectors; returns the fitness of each by identity
static std::vector<double> values(eoPop<Sol>& p) {
    vf_assert(p.size() == objs.size(), "no individual is added or lost"); std::vector<double> f(p.size()); std::vector<bool> seen(p.size());
    for (unsigned i = 0; i < p.size(); i++) { int k = p[i].id; vf_assert(k >= 0 && k < (int)p.size() && !seen[k], "no individual is replaced"); seen[k] = true; vf_assert(equalObj(p[i].objectiveVector(), objs[k]), "objective vectors are unchanged"); vf_assert(!p[i].invalidFitness(), "everyone gets a fitness"); f[k] = p[i].fitness(); }
    return f;
}
static bool isCopy(unsigned k) { for (unsigned i = 0; i < k; i++) if (equalObj(objs[i], objs[k])) return true; return false; }
static unsigned copies(unsigned k) { unsigned c = 0; for (unsigned i = 0; i < objs.size(); i++) if (i != k && equalObj(objs[i], objs[k])) c++; return c; }
// front of each vector: one more than the last front of its dominators
static std::vector<int> fronts() {
    std::vector<int> f(objs.size(), 0); for (unsigned r = 0; r < objs.size(); r++) for (unsigned i = 0; i < objs.size(); i++) for (unsigned j = 0; j < objs.size(); j++) if (i != j && dom(objs[j], objs[i]) && f[i] < f[j] + 1) f[i] = f[j] + 1; return f;
}
static void depth(unsigned m) {
    if (P("neg", 0)) lo = -1; if (P("min1", 0)) directions(m, 2 + vfPick("mix", 0, 1)); else directions(m); int n = vfPick("n", P("f", 1), P("n", 3)); bool rm = m == 2 && vfPick("rm", 0, 1); eoPop<Sol> p = population(n); remember(p);
    moeoDominanceDepthFitnessAssignment<Sol> a(rm); moeoParetoObjectiveVectorComparator<Obj> c; moeoDominanceDepthFitnessAssignment<Sol> b(c, rm); if (m == 3 && vfPick("own", 0, 1)) b(p); else a(p);
    std::vector<double> v = values(p); std::vector<int> f = fronts(); double best = v[0]; for (int i = 1; i < n; i++) best = std::max(best, v[i]);
    for (int i = 0; i < n; i++) {
        bool alone = !rm || !copies(i); if (f[i] == 0 && alone) vf_assert(v[i] == best, "non-dominated solutions have the best value");
        if (f[i]) vf_cover("front");
        for (int j = 0; j < n; j++) if (i != j) {
            if (dom(objs[i], objs[j]) && alone) vf_assert(v[i] > v[j], "a dominator is strictly better");
            if (alone && (!rm || !copies(j))) { vf_assert(v[i] - v[j] == f[j] - f[i], "values count the fronts"); if (f[i] == f[j]) { vf_cover("incomparable"); } if (equalObj(objs[i], objs[j])) vf_cover("tie"); }
        }
        // of several equal vectors one keeps its front and the others are in none that is better
        if (!alone) { int kept = 0; vf_cover("tie"); for (int j = 0; j < n; j++) if (equalObj(objs[i], objs[j])) { vf_assert(v[j] <= best - f[i], "a copy is never better than its front"); if (v[j] == best - f[i]) kept++; } vf_assert(kept >= 1, "one of the copies keeps the value of its front"); }
    }
}
ENTRY(depth1) { depth(1); }
ENTRY(depth2) { depth(2); }
ENTRY(depth3) { depth(3); }
// the three matrix-based assignments: solutions counted are those of archive and population together
template <class F> static void matrix(F& a, F& nc, moeoUnboundedArchive<Sol>* arc, double (*def)(unsigned, bool)) {
    bool nocopy = vfPick("nocopy", 0, 1); F& f = nocopy ? nc : a; int again = nocopy ? vfPick("again", 0, 2) : 0;
    int n = vfPick("n", 1, P("n", 3) - (again || arc ? 1 : 0)); if (again) { eoPop<Sol> q; for (int i = 0; i < again + 1; i++) { Sol s(100 + i); Obj o; for (unsigned k = 0; k < nobj; k++) o[k] = 3; s.objectiveVector(o); q.push_back(s); } f(q); vf_cover("again"); }
    eoPop<Sol> p = population(n); std::vector<Obj> arcobj; if (arc) for (unsigned i = 0; i < arc->size(); i++) arcobj.push_back((*arc)[i].objectiveVector());
    f(p); remember(p); std::vector<double> v = values(p);
    // archive first, as the assignments order them
    if (arc) { vf_cover("archive"); vf_assert(arc->size() == arcobj.size(), "the archive keeps its members"); objs.insert(objs.begin(), arcobj.begin(), arcobj.end()); std::vector<double> w; for (unsigned i = 0; i < arc->size(); i++) { vf_assert(equalObj((*arc)[i].objectiveVector(), arcobj[i]), "the archive keeps its vectors"); w.push_back((*arc)[i].fitness()); } v.insert(v.begin(), w.begin(), w.end()); }
    for (unsigned i = 0; i < objs.size(); i++) {
        bool cp = nocopy && isCopy(i); if (cp) { vf_cover("copy"); for (unsigned j = 0; j < objs.size(); j++) vf_assert(v[i] <= v[j], "a copy set aside is no better than anyone"); continue; }
        vf_assert(v[i] == def(i, nocopy), "the value is the one of the definition");
        for (unsigned j = 0; j < objs.size(); j++) if (j != i && dom(objs[i], objs[j])) { vf_cover("dominated"); vf_assert(v[i] > v[j], "a dominator is strictly better"); }
    }
}
static double defRank(unsigned i, bool nc) { int c = 0; for (unsigned j = 0; j < objs.size(); j++) if (j != i && !(nc && isCopy(j)) && dom(objs[j], objs[i])) c++; return -(c + 1.0); }
// copies set aside count as dominated by everyone
static double defCount(unsigned i, bool nc) { int c = 0; for (unsigned j = 0; j < objs.size(); j++) if (j != i && ((nc && isCopy(j)) || dom(objs[i], objs[j]))) c++; return c; }
static double defCountRanking(unsigned i, bool nc) { double c = 0; for (unsigned j = 0; j < objs.size(); j++) if (j != i && !(nc && isCopy(j)) && dom(objs[j], objs[i])) c += defCount(j, nc); return c ? -c : 0; }
static void objectives() { int m = vfPick("m", 1, 2); if (P("all", 0)) directions(m); else directions(m, m == 1 ? 1 : 1 + 2 * vfPick("mix", 0, 1)); }
ENTRY(rank) {
    objectives(); if (vfPick("arc", 0, 1)) { moeoUnboundedArchive<Sol> arc; Sol s(50); s.objectiveVector(sym()); arc.push_back(s); moeoDominanceRankFitnessAssignment<Sol> a(arc, 1.0, false), b(arc, 1.0, true); matrix(a, b, &arc, defRank); }
    else { moeoDominanceRankFitnessAssignment<Sol> a(1.0, false), b; matrix(a, b, (moeoUnboundedArchive<Sol>*)0, defRank); }
}
ENTRY(count) {
    objectives(); if (vfPick("arc", 0, 1)) { moeoUnboundedArchive<Sol> arc; Sol s(50); s.objectiveVector(sym()); arc.push_back(s); moeoDominanceCountFitnessAssignment<Sol> a(arc), b(arc, true); matrix(a, b, &arc, defCount); }
    else { moeoDominanceCountFitnessAssignment<Sol> a, b(true); matrix(a, b, (moeoUnboundedArchive<Sol>*)0, defCount); }
}
ENTRY(countRanking) {
    objectives(); if (vfPick("arc", 0, 1)) { moeoUnboundedArchive<Sol> arc; Sol s(50); s.objectiveVector(sym()); arc.push_back(s); moeoDominanceCountRankingFitnessAssignment<Sol> a(arc, false), b(arc); matrix(a, b, &arc, defCountRanking); }
    else { moeoDominanceCountRankingFitnessAssignment<Sol> a(false), b; matrix(a, b, (moeoUnboundedArchive<Sol>*)0, defCountRanking); }
}
// eo's own sorting into fronts works on any vector fitness that knows its objectives
struct Multi {
    struct fitness_traits { static unsigned nObjectives() { return nobj; } static bool maximizing(unsigned i) { return !mini[i]; } static double tol() { return 1e-6; } };
    double v[3]; Multi() { v[0] = v[1] = v[2] = 0; }
    double operator[](unsigned i) const { return v[i]; } unsigned size() const { return nobj; }
    Obj obj() const { Obj o; for (unsigned i = 0; i < nobj; i++) o[i] = v[i]; return o; }
    bool dominates(const Multi& o) const { bool s = false; for (unsigned i = 0; i < nobj; i++) { double d = mini[i] ? o.v[i] - v[i] : v[i] - o.v[i]; if (d < 0) return false; if (d > 0) s = true; } return s; }
    bool operator==(const Multi& o) const { for (unsigned i = 0; i < nobj; i++) if (v[i] != o.v[i]) return false; return true; }
    bool operator!=(const Multi& o) const { return !(*this == o); }
    bool operator<(const Multi& o) const { return mini[0] ? v[0] > o.v[0] : v[0] < o.v[0]; }
    bool operator>(const Multi& o) const { return o < *this; }
    bool operator<=(const Multi& o) const { return !(o < *this); }
};
static std::ostream& operator<<(std::ostream& o, const Multi& m) { return o << m.v[0]; }
static std::istream& operator>>(std::istream& i, Multi& m) { return i >> m.v[0]; }
struct Par : public EO<Multi> { };
struct Plain : public eoNDSorting<Par> { Plain(bool f) : eoNDSorting<Par>(f) {} std::vector<double> niche_penalty(const std::vector<unsigned>& f, const eoPop<Par>&) { return std::vector<double>(f.size(), 0.0); } };
static eoPop<Par> parents(int n, bool pick) { eoPop<Par> p; objs.clear(); for (int i = 0; i < n; i++) { Par x; Multi m; Obj o = pick ? pickObj(0, 2) : sym(); for (unsigned k = 0; k < nobj; k++) m.v[k] = o[k]; x.fitness(m); p.push_back(x); objs.push_back(o); } return p; }
static void kept(const eoPop<Par>& p) { vf_assert(p.size() == objs.size(), "no individual is added or lost"); for (unsigned i = 0; i < p.size(); i++) vf_assert(equalObj(p[i].fitness().obj(), objs[i]), "fitnesses are unchanged"); }
ENTRY(ndSorting) {
    unsigned m = vfPick("m", 1, 3); directions(m); int n = vfPick("n", 1, P("n", 3)); bool nasty = m == 2 && vfPick("nasty", 0, 1); Plain s(nasty); eoPop<Par> p = parents(n, false); s.calculate_worths(p); kept(p);
    std::vector<double>& v = s.value(); vf_assert(v.size() == (unsigned)n, "one worth per individual"); std::vector<int> f = fronts(); double best = v[0]; for (int i = 1; i < n; i++) best = std::max(best, v[i]);
    for (int i = 0; i < n; i++) {
        bool alone = !nasty || !copies(i); if (alone && f[i] == 0) vf_assert(v[i] == best, "non-dominated solutions have the best value"); if (f[i]) vf_cover("front");
        for (int j = 0; j < n; j++) if (i != j) { if (alone && dom(objs[i], objs[j])) vf_assert(v[i] > v[j], "a dominator is strictly better"); if (alone && f[i] == f[j] && (!nasty || !copies(j))) { if (m > 1) vf_cover("tie"); vf_assert(v[i] == v[j], "solutions of one front share their value"); } }
    }
}
ENTRY(ndNiche) {
    unsigned m = vfPick("m", 2, 3); directions(m, vfPick("mix", 0, 1) ? 1 : 7); int n = vfPick("n", 1, m == 3 ? 3 : P("n", 3)); eoNDSorting_I<Par> one(2.5); eoNDSorting_II<Par> two; bool w = vfPick("two", 0, 1); eoNDSorting<Par>& s = w ? (eoNDSorting<Par>&)two : one; eoPop<Par> p = parents(n, true); s.calculate_worths(p); kept(p);
    std::vector<double>& v = s.value(); for (int i = 0; i < n; i++) { vf_assert(std::isfinite(v[i]), "worths are finite"); for (int j = 0; j < n; j++) if (i != j && dom(objs[i], objs[j])) { vf_cover("front"); vf_assert(v[i] > v[j], "a dominator is strictly better"); } }
    if (n == 1) vf_cover("single");
}
