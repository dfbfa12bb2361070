// C07: selectors of one individual, and deterministic selections of many.
//@ bounds populations of 1..n individuals with fitness 0..f (ties included), tournament sizes 2..3, up to c consecutive calls after one setup, every integer draw; real draws of roulette-type selections have 6 free leading bits (any 32-bit word for proportional and universal selection)
//@ outside larger populations; calls on a population other than the one given to setup; negative fitness for proportional selections
//@ entry tournMax covers=done quick="n=3 f=2 c=2;n=4 f=3 c=1" thorough="n=4 f=3 c=2"
//@ entry tournMin covers=done quick="n=3 f=2 c=2;n=4 f=3 c=1" thorough="n=4 f=3 c=2"
//@ entry stoch covers=done quick="n=4 f=2" thorough="n=5 f=3"
//@ entry worthTourn covers=done quick="n=3 f=2" thorough="n=4 f=2"
//@ entry prop covers=done quick="n=4 f=3" thorough="n=5 f=3"
//@ entry sus covers=done,allzero quick="n=3 f=2;n=4 f=1" thorough="n=4 f=2" jobs=4
//@ entry rank covers=done quick="n=3 f=2" thorough="n=4 f=2"
//@ entry rankMin covers=done quick="n=3 f=2" thorough="n=4 f=2"
//@ entry scaling covers=done quick="n=3 f=2" thorough="n=4 f=2" opts="-enum 2000"
//@ entry worths covers=done quick="n=4 f=3" thorough="n=5 f=3"
//@ entry sharing covers=done quick="n=3 f=2" opts="-enum 2000"
//@ entry seqMax covers=done quick="n=4 f=3" thorough="n=5 f=3"
//@ entry seqMin covers=done quick="n=4 f=3" thorough="n=5 f=3"
//@ entry simpleMax covers=done quick="n=4 f=3" thorough="n=5 f=3"
//@ entry simpleMin covers=done quick="n=4 f=3" thorough="n=5 f=3"
//@ entry truncatedMax covers=done quick="n=4 f=3" thorough="n=5 f=3"
//@ entry truncatedMin covers=done quick="n=4 f=3" thorough="n=5 f=3"
//@ entry many covers=done quick="n=4 f=3" thorough="n=5 f=3"
//@ entry refusals covers=done
#include "ind.h"
#include <eoDetTournamentSelect.h>
#include <eoStochTournamentSelect.h>
#include <eoProportionalSelect.h>
#include <eoStochasticUniversalSelect.h>
#include <eoRankingSelect.h>
#include <eoRankingCached.h>
#include <eoFitnessScalingSelect.h>
#include <eoSequentialSelect.h>
#include <eoRandomSelect.h>
#include <eoTruncatedSelectOne.h>
#include <eoTruncatedSelectMany.h>
#include <eoSelectFromWorth.h>
#include <eoSharingSelect.h>
#include <eoRankMuSelect.h>
#include <eoDetSelect.h>
template <class I> struct Sel {
    eoPop<I> p; eoPop<I> copy; int n;
    Sel(int lo) { n = vfPick("n", lo, P("n", 4)); p = symPop<I>(n, 0, 0, P("f", 3)); copy = p; }
    // index of the returned individual, which must be a member (address in the population)
    int at(const I& x) { long k = vf_concretize(&x - &p[0]); vf_note("at", k); vf_assert(k >= 0 && k < n, "the selected individual is a member of the population"); return (int)k; }
    void intact() { vf_assert((int)p.size() == n, "population size untouched"); for (int i = 0; i < n; i++) vf_assert(p[i].id == copy[i].id && !p[i].invalid() && (double)p[i].fitness() == (double)copy[i].fitness(), "population untouched"); vf_cover("done"); }
    bool worse(int a, int b) { return p[a] < p[b]; }
};
template <class I> static void tourn() {
    Sel<I> s(1); int t = vfPick("tsize", 0, 3); eoDetTournamentSelect<I> sel(t); sel.setup(s.p); vf_split_random = 1;
    for (int c = 0; c < P("c", 1); c++) { vf_nlog = 0; int k = s.at(sel(s.p)); bool drawn = false;
        vf_assert(vf_nlog >= 2, "at least two contestants");
        for (unsigned j = 0; j < vf_nlog; j++) { int d = vf_log[j]; vf_assert(!s.worse(k, d), "no contestant is better than the winner"); drawn |= d == k; }
        vf_assert(drawn, "the winner is a contestant"); }
    s.intact();
}
ENTRY(tournMax) { tourn<MaxInd>(); }
ENTRY(tournMin) { tourn<MinInd>(); }
ENTRY(stoch) {
    Sel<MaxInd> s(1); int q = vfInt("rate8", 4, 8); eoStochTournamentSelect<MaxInd> sel(q / 8.0); vf_split_random = 1; vf_nlog = 0;
    int k = s.at(sel(s.p)); bool drawn = false; for (unsigned j = 0; j < vf_nlog; j++) { int d = vf_log[j]; drawn |= d == k; if (q == 8) vf_assert(!s.worse(k, d), "at rate one the better contestant wins"); }
    vf_assert(drawn, "the winner is a contestant"); s.intact();
}
// a worth that is an arbitrary number per individual
struct Worth : public eoPerf2Worth<MaxInd> { std::vector<double> w; void operator()(const eoPop<MaxInd>& p) { value() = w; } };
ENTRY(worthTourn) {
    Sel<MaxInd> s(1); Worth w; for (int i = 0; i < s.n; i++) w.w.push_back((double)vf_range("worth", 0, P("f", 2))); vf_split_random = 1; 
    if (vfPick("kind", 0, 1)) { eoDetTournamentWorthSelect<MaxInd> sel(w, 2); sel.setup(s.p); vf_nlog = 0; int k = s.at(sel(s.p)); for (unsigned j = 0; j < vf_nlog; j++) vf_assert(w.w[vf_log[j]] <= w.w[k], "no contestant has a larger worth"); }
    else { eoStochTournamentWorthSelect<MaxInd> sel(w, 1.0); sel.setup(s.p); vf_nlog = 0; int k = s.at(sel(s.p)); for (unsigned j = 0; j < vf_nlog; j++) vf_assert(w.w[vf_log[j]] <= w.w[k], "no contestant has a larger worth"); }
    s.intact();
}
ENTRY(prop) {
    Sel<MaxInd> s(1); eoProportionalSelect<MaxInd> sel; if (vfPick("setup", 0, 1)) sel.setup(s.p); double tot = 0; for (auto& x : s.p) tot += x.fitness();
    for (int c = 0; c < 2; c++) { int k = s.at(sel(s.p)); if (tot > 0) vf_assert(s.p[k].fitness() > 0, "no null share is drawn"); }
    s.intact();
}
ENTRY(sus) {
    Sel<MaxInd> s(1); int n = s.n; eoStochasticUniversalSelect<MaxInd> sel; int tot = 0; std::vector<int> f, cnt(n, 0); for (int i = 0; i < n; i++) { int v = vfPick("v", 0, P("f", 2)); s.p[i].fitness(v); s.copy[i].fitness(v); f.push_back(v); tot += v; }
    if (n == 3) vf_rbits = 6; vf_max_draws = 24; vf_split_random = 1; if (tot == 0) vf_cover("allzero"); sel.setup(s.p);
    for (int c = 0; c < n; c++) { long k = &sel(s.p) - &s.p[0]; vf_assert(k >= 0 && k < n, "the selected individual is a member of the population"); for (int i = 0; i < n; i++) cnt[i] += k == i; }
    // expected number n*f/tot, rounded down or up
    if (n != 3) for (int i = 0; i < n; i++) { int e = tot ? n * f[i] : 1, d = tot ? tot : 1; vf_assert(cnt[i] >= e / d && cnt[i] <= (e + d - 1) / d, "each individual its expected number of times, rounded down or up"); }
    s.intact();
}
template <class I> static void rank() {
    Sel<I> s(2); eoRankingSelect<I> sel(1.0 + vfPick("p2", 1, 2) / 2.0); vf_rbits = 6; sel.setup(s.p);
    s.at(sel(s.p)); s.intact();
}
ENTRY(rank) { rank<MaxInd>(); }
ENTRY(rankMin) { rank<MinInd>(); }
ENTRY(scaling) {
    Sel<MaxInd> s(1); eoFitnessScalingSelect<MaxInd> sel(2.0); vf_rbits = 5; for (auto& x : s.p) vf_concretize((int)(double)x.fitness()); sel.setup(s.p); s.at(sel(s.p)); s.intact();
}
template <class I, class R> static void ranked(R& r) {
    Sel<I> s(2); r(s.p); r(s.p); std::vector<double>& w = r.value(); vf_assert((int)w.size() == s.n, "one worth per individual");
    for (int i = 0; i < s.n; i++) { vf_assert(w[i] > 0, "worth is positive"); for (int j = 0; j < s.n; j++) if (s.worse(i, j)) vf_assert(w[i] < w[j], "a strictly better individual has a larger worth"); }
    s.intact();
}
ENTRY(worths) {
    double pr = 1.0 + vfPick("p2", 1, 2) / 2.0; double ex = vfPick("e", 1, 2);
    switch (vfPick("which", 0, 3)) {
    case 0: { eoRanking<MaxInd> r(pr, ex); ranked<MaxInd>(r); break; }
    case 1: { eoRanking<MinInd> r(pr, ex); ranked<MinInd>(r); break; }
    case 2: { eoRankingCached<MaxInd> r(pr, ex); if (vfPick("before", 0, 1)) { eoPop<MaxInd> q = symPop<MaxInd>(P("n", 4) - 1, 50, 0, 0); r(q); } ranked<MaxInd>(r); break; }
    case 3: { eoRankingCached<MinInd> r(pr, ex); ranked<MinInd>(r); break; }
    }
}
struct Dist : public eoDistance<MaxInd> { double operator()(const MaxInd& a, const MaxInd& b) { return std::abs(a.id - b.id) / 2.0; } };
ENTRY(sharing) {
    Sel<MaxInd> s(2); for (auto& x : s.p) { vf_concretize((int)(double)x.fitness()); } Dist d; eoSharingSelect<MaxInd> sel(1.0, d); vf_rbits = 5; sel.setup(s.p); s.at(sel(s.p)); s.intact();
}
template <class I> static void seq() {
    Sel<I> s(1); int kind = vfPick("kind", 0, 3); int n = s.n; eoSequentialSelect<I> a(true), b(false); eoEliteSequentialSelect<I> e; eoNoSelect<I> no; eoSelectOne<I>* sel = kind == 0 ? (eoSelectOne<I>*)&a : kind == 1 ? (eoSelectOne<I>*)&b : kind == 2 ? (eoSelectOne<I>*)&e : (eoSelectOne<I>*)&no;
    if (kind == 2) vf_assume(n > 1); vf_split_random = 1; vf_max_draws = 24;
    int used = vfPick("used", 0, n - 1); bool setup = vfPick("setup", 0, 1);
    for (int c = 0; c < used; c++) s.at((*sel)(s.p));
    if (setup && kind != 3) sel->setup(s.p); else for (int c = used; c < n && used; c++) s.at((*sel)(s.p)); // complete the pass
    for (int pass = 0; pass < (kind == 0 || kind == 3 ? 2 : 1); pass++) { if (kind == 3 && (setup && used)) break;
        std::vector<int> seen(n, 0); int last = -1;
        for (int c = 0; c < n; c++) { int k = s.at((*sel)(s.p)); vf_assert(!seen[k]++, "each individual once per pass");
            if (kind == 0 && last >= 0) vf_assert(!s.worse(last, k), "ordered selection goes from best to worst");
            if (kind == 2 && c == 0) for (int i = 0; i < n; i++) vf_assert(!s.worse(k, i), "elite sequence starts with the best");
            if (kind == 3) vf_assert(k == c, "in the order of the population"); last = k; } }
    s.intact();
}
ENTRY(seqMax) { seq<MaxInd>(); }
ENTRY(seqMin) { seq<MinInd>(); }
template <class I> static void simple() {
    Sel<I> s(1); int n = s.n; eoRandomSelect<I> r; eoBestSelect<I> b; eoEliteSelect<I> e;
    switch (vfPick("kind", 0, 2)) {
    case 0: r.setup(s.p); s.at(r(s.p)); break;
    case 1: { b.setup(s.p); int k = s.at(b(s.p)); for (int i = 0; i < n; i++) vf_assert(!s.worse(k, i), "best selection returns a best individual"); break; }
    case 2: e.setup(s.p); for (int c = 0; c < 2; c++) { int k = s.at(e(s.p)); for (int i = 0; i < n; i++) vf_assert(!s.worse(k, i), "elite selection returns a best individual"); } break;
    }
    s.intact();
}
ENTRY(simpleMax) { simple<MaxInd>(); }
ENTRY(simpleMin) { simple<MinInd>(); }
// the individual selected has fewer than `fertile` individuals strictly better than itself
template <class I> static void top(Sel<I>& s, const I& x, int fertile) { int id = vf_concretize(x.id); vf_note("id", id); vf_assert(id >= 0 && id < s.n && !x.invalid() && (double)x.fitness() == (double)s.p[id].fitness(), "a member of the population, unchanged"); int b = 0; for (int i = 0; i < s.n; i++) b += s.worse(id, i); vf_assert(b < fertile, "among the fertile best"); }
template <class I> static void truncated() {
    Sel<I> s(1); int fert = vfPick("fertile", 1, s.n); eoRandomSelect<I> r; eoSequentialSelect<I> q; vf_split_random = 1; vf_max_draws = 24;
    eoSelectOne<I>& inner = vfPick("inner", 0, 1) ? (eoSelectOne<I>&)r : (eoSelectOne<I>&)q;
    if (vfPick("many", 0, 1)) { eoTruncatedSelectMany<I> m(inner, eoHowMany(2), eoHowMany(fert)); eoPop<I> d; m(s.p, d); vf_assert(d.size() == 2, "as many as announced"); for (auto& x : d) top(s, x, fert); }
    else { eoTruncatedSelectOne<I> t(inner, eoHowMany(fert)); t.setup(s.p); top(s, t(s.p), fert); top(s, t(s.p), fert); if (vfPick("again", 0, 1)) { t.setup(s.p); top(s, t(s.p), fert); } }
    s.intact();
}
ENTRY(truncatedMax) { truncated<MaxInd>(); }
ENTRY(truncatedMin) { truncated<MinInd>(); }
ENTRY(many) {
    Sel<MaxInd> s(1); int n = s.n, mu = vfPick("mu", 1, n + 2); eoPop<MaxInd> d;
    if (vfPick("kind", 0, 1)) { eoRankMuSelect<MaxInd> m(mu); m(s.p, d); std::vector<int> cnt(n, 0); vf_assert((int)d.size() == mu, "mu individuals");
        for (auto& x : d) { int id = vf_concretize(x.id); vf_assert(id >= 0 && id < n, "member"); cnt[id]++; }
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (s.worse(i, j)) vf_assert(cnt[i] <= cnt[j], "a better individual is not selected less often"); for (int i = 0; i < n; i++) vf_assert(cnt[i] >= mu / n && cnt[i] <= (mu + n - 1) / n, "cycling through the ranking"); }
    else { eoDetSelect<MaxInd> m(mu, false); m(s.p, d); vf_assert((int)d.size() == mu, "that many individuals"); for (int i = 0; i < mu; i++) vf_assert(d[i].id == i % n, "cycles through the population in order"); }
    s.intact();
}
ENTRY(refusals) {
    bool t1 = false, t2 = false, t3 = false; try { eoProportionalSelect<MinInd> p; } catch (std::exception&) { t1 = true; } try { eoStochasticUniversalSelect<MinInd> p; } catch (std::exception&) { t2 = true; }
    try { eoRankingSelect<MaxInd> r; eoPop<MaxInd> p = symPop<MaxInd>(vfPick("n", 0, 1), 0, 0, 1); r.setup(p); } catch (std::exception&) { t3 = true; }
    vf_assert(t1 && t2, "proportional selections refuse a minimised fitness"); vf_assert(t3, "ranking refuses fewer than two individuals"); vf_cover("done");
}
