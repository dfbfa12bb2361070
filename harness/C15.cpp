// C15: hill climbers keep solution and fitness consistent, never worsen, and stop at local optima.
//@ bounds search spaces of all bit strings of 1..n bits (and permutations of 2..3 elements), every landscape with integer fitnesses 0..v, both directions, every start (evaluated or not), ordered and random-order neighbourhoods, neighbour evaluation by copy and by modification (four set-ups covering each choice), every draw; neutral walks of up to s steps; two runs of the same algorithm object
//@ outside larger search spaces; neighbourhoods sampled with replacement (no local optimum can be promised)
//@ entry simple covers=optimum,moved quick="n=2 v=3;n=3 v=2 r=0" thorough="n=3 v=1;n=3 v=7 r=0" jobs=4
//@ entry first covers=optimum,moved quick="n=2 v=3;n=3 v=2 r=0" thorough="n=3 v=3" jobs=4
//@ entry best covers=optimum,moved,tie quick="n=2 v=3;n=3 v=1 r=0" thorough="n=3 v=3 r=0" jobs=4
//@ entry neutral covers=moved,tie,level quick="n=2 v=3 s=3" thorough="n=2 v=3 s=4;n=3 v=1 s=2 r=0" jobs=4
//@ entry neutralWalk covers=level,stuck quick="n=2 v=3 s=3" thorough="n=3 v=3 s=4"
//@ entry again covers=second quick="n=2 v=1" thorough="n=2 v=3" jobs=4
//@ entry perm covers=optimum,moved quick="n=3 v=2" thorough="n=3 v=5"
//@ entry walk covers=done quick="n=3 v=3 s=3" thorough="n=4 v=3 s=4"
//@ entry randomSearch covers=done quick="n=2 v=3 s=3" thorough="n=3 v=3 s=4"
#include "ls.h"
#include <problems/permutation/moSwapNeighbor.h>
#include <problems/permutation/moSwapNeighborhood.h>
enum Kind { SIMPLE, FIRST, BEST, NEUTRAL, NEUTRALWALK, WALK };
template <class NB> struct Watch : moContinuator<NB> {
    typedef typename NB::EOT S; typedef typename S::Fitness F; typedef Dir<F> D;
    Kind kind; bool ordered; S prev; int steps = 0; bool stuck = false;
    std::vector<S> (*around)(const S&);
    Watch(Kind k, bool o, std::vector<S> (*a)(const S&)) : kind(k), ordered(o), around(a) {}
    void init(S& s) { vf_assert(consistent(s), "the fitness at the start is that of the content"); prev = s; steps = 0; stuck = false; }
    bool operator()(S& s) {
        vf_assert(consistent(s), "the fitness is that of the content"); vf_assert(!stuck, "the search stops once no move is left"); steps++;
        int pv = valueOf(prev), sv = valueOf(s); std::vector<S> ns = around(prev);
        bool isNeighbour = false; int ties = 0; for (unsigned i = 0; i < ns.size(); i++) isNeighbour |= same(ns[i], s);
        bool moved = !same(prev, s); vf_assert(!moved || isNeighbour, "one move at most");
        if (kind != WALK) vf_assert(!D::better(pv, sv), "never worse");
        bool anyBetter = false, anyEqual = false, beaten = false; int first = -1;
        for (unsigned i = 0; i < ns.size(); i++) { int v = valueOf(ns[i]); if (D::better(v, pv)) { anyBetter = true; if (first < 0) first = i; } anyEqual |= v == pv; beaten |= D::better(v, sv); ties += v == sv; }
        if (moved) {
            vf_cover("moved");
            if (kind == SIMPLE || kind == BEST || kind == NEUTRAL) { vf_assert(!beaten, "no other neighbour is strictly better"); if (ties > 1) vf_cover("tie"); }
            if (kind == SIMPLE || kind == FIRST || kind == BEST) vf_assert(D::better(sv, pv), "strict improvement");
            if (kind == FIRST && ordered) vf_assert(first >= 0 && same(ns[first], s), "the first improving neighbour");
            if (kind == NEUTRALWALK) vf_assert(sv == pv, "a neutral walk keeps the fitness");
            if (sv == pv) vf_cover("level");
        } else {
            stuck = kind != WALK;
            if (kind != NEUTRALWALK && kind != WALK) vf_assert(!anyBetter, "stays only where no neighbour is strictly better");
            if (kind == NEUTRAL || kind == NEUTRALWALK) vf_assert(!anyEqual, "stays only where no neighbour is equal"); vf_cover("stuck");
        }
        prev = s; return true;
    }
    void lastCall(S& s) { vf_assert(consistent(s), "the fitness at the end is that of the content"); vf_assert(same(prev, s), "the last solution"); }
};
template <class F> static std::vector<eoBit<F> > bitsAround(const eoBit<F>& s) { std::vector<eoBit<F> > r; for (unsigned k = 0; k < s.size(); k++) r.push_back(flipped(s, k)); return r; }
template <class S> static void atOptimum(const S& s, std::vector<S> (*around)(const S&)) { std::vector<S> ns = around(s); for (unsigned i = 0; i < ns.size(); i++) vf_assert(!Dir<typename S::Fitness>::better(valueOf(ns[i]), valueOf(s)), "no neighbour of the result is strictly better"); vf_cover("optimum"); }
template <class F> static void climb(Kind kind, int runs = 1) {
    typedef eoBit<F> S; typedef moBitNeighbor<F> NB;
    int n = vfPick("n", 1, P("n", 2)); landscape(1 << n, P("v", 3)); S s = pickStart<F>(n); vf_max_draws = 40; vf_split_random = 1;
    int setup = P("r", 1) ? vfPick("setup", 0, 3) : 1 + 2 * vfPick("setup", 0, 1); bool ordered = setup & 1, own = setup < 2, evaluated = setup == 1 || setup == 2; unsigned steps = 0; if (kind >= NEUTRAL) steps = vfPick("steps", 1, P("s", 3));
    Table<S> full; AnyEval<NB> eval; eval.how = setup == 0 || setup == 3; moOrderNeighborhood<NB> on(n); moRndWithoutReplNeighborhood<NB> rn(n); moNeighborhood<NB>& nh = ordered ? (moNeighborhood<NB>&)on : rn;
    Watch<NB> w(kind, ordered, bitsAround<F>); moNeighborComparator<NB> cn; moSolNeighborComparator<NB> cs;
    moLocalSearch<NB>* ls = 0;
    if (kind == SIMPLE) ls = own ? new moSimpleHC<NB>(nh, full, eval, w, cn, cs) : new moSimpleHC<NB>(nh, full, eval);
    if (kind == FIRST) ls = own ? new moFirstImprHC<NB>(nh, full, eval, w, cn, cs) : new moFirstImprHC<NB>(nh, full, eval);
    if (kind == BEST) ls = own ? new moRandomBestHC<NB>(nh, full, eval, w, cn, cs) : new moRandomBestHC<NB>(nh, full, eval);
    if (kind == NEUTRAL) ls = own ? new moNeutralHC<NB>(nh, full, eval, steps, w, cn, cs) : new moNeutralHC<NB>(nh, full, eval, steps);
    if (kind == NEUTRALWALK) ls = own ? new moRandomNeutralWalk<NB>(nh, full, eval, steps, w, cs) : new moRandomNeutralWalk<NB>(nh, full, eval, steps);
    if (!own) ls->setContinuator(w);
    for (int r = 0; r < runs; r++) {
        if (r) { s = pickStart<F>(n); vf_cover("second"); }
        if (evaluated) full(s); else s.invalidate();
        vf_assert((*ls)(s), "the search reports a change"); vf_assert(consistent(s), "the fitness of the result is that of its content");
        if (kind == NEUTRAL || kind == NEUTRALWALK) vf_assert(w.stuck || w.steps == (int)steps, "as many steps as announced"); else atOptimum(s, bitsAround<F>);
    }
    delete ls;
}
#define BOTH(k, ...) if (vfPick("minimise", 0, 1)) climb<MinF>(k, ##__VA_ARGS__); else climb<double>(k, ##__VA_ARGS__)
ENTRY(simple) { BOTH(SIMPLE); }
ENTRY(first) { BOTH(FIRST); }
ENTRY(best) { BOTH(BEST); }
ENTRY(neutral) { BOTH(NEUTRAL); }
ENTRY(neutralWalk) { BOTH(NEUTRALWALK); }
ENTRY(again) { int k = vfPick("kind", 0, 3); if (k < 3) { BOTH((Kind)k, 2); } else { BOTH(NEUTRALWALK, 2); } }
static std::vector<Ints> swapsAround(const Ints& s) { std::vector<Ints> r; for (unsigned i = 0; i < s.size(); i++) for (unsigned j = i + 1; j < s.size(); j++) { Ints t = s; std::swap(t[i], t[j]); r.push_back(t); } return r; }
ENTRY(perm) {
    typedef moSwapNeighbor<Ints> NB; int n = vfPick("n", 2, P("n", 3)), size = 1; for (int i = 2; i <= n; i++) size *= i; landscape(size, P("v", 2));
    std::vector<unsigned> p = symPerm(n); Ints s(n, 0); for (int i = 0; i < n; i++) s[i] = p[i]; vf_split_random = 1; vf_max_draws = 40;
    Table<Ints> full; AnyEval<NB> eval; eval.how = vfPick("eval", 0, 1); moSwapNeighborhood<Ints> nh; Kind k = (Kind)vfPick("kind", 0, 2); Watch<NB> w(k, true, swapsAround);
    moSimpleHC<NB> a(nh, full, eval, w); moFirstImprHC<NB> b(nh, full, eval, w); moRandomBestHC<NB> c(nh, full, eval, w); moLocalSearch<NB>& ls = k == SIMPLE ? (moLocalSearch<NB>&)a : k == FIRST ? (moLocalSearch<NB>&)b : c;
    ls(s); vf_assert(isPerm(s, n, 0), "still a permutation"); atOptimum(s, swapsAround);
}
ENTRY(walk) {
    typedef moBitNeighbor<double> NB; int n = vfPick("n", 1, P("n", 2)), steps = vfPick("steps", 1, P("s", 3)); landscape(1 << n, P("v", 3)); Bits s = pickStart<double>(n); vf_split_random = 1;
    Table<Bits> full; AnyEval<NB> eval; eval.how = vfPick("eval", 0, 1); moRndWithReplNeighborhood<NB> nh(n); Watch<NB> w(WALK, false, bitsAround<double>);
    moIterContinuator<NB> it(steps, false); moCombinedContinuator<NB> both(w); both.add(it); moRandomWalk<NB> ls(nh, full, eval, both);
    ls(s); vf_assert(w.steps == steps, "as many steps as announced"); vf_assert(consistent(s), "the fitness of the result is that of its content"); vf_cover("done");
}
struct BitInit : eoInit<Bits> { int n; int made; BitInit(int _n) : n(_n), made(0) {} void operator()(Bits& s) { s = pickStart<double>(n); made++; } };
struct See : moContinuator<moBitNeighbor<double> > { int steps = 0; void init(Bits& s) { vf_assert(consistent(s), "the fitness at the start is that of the content"); } bool operator()(Bits& s) { steps++; vf_assert(consistent(s), "the fitness is that of the content"); return true; } };
ENTRY(randomSearch) {
    typedef moBitNeighbor<double> NB; int n = vfPick("n", 1, P("n", 2)), m = vfPick("solutions", 2, P("s", 3)); landscape(1 << n, P("v", 3)); Bits s = pickStart<double>(n);
    Table<Bits> full; BitInit init(n); See see; moRandomSearch<NB> ls(init, full, m, see); ls(s);
    vf_assert(consistent(s), "the fitness of the result is that of its content"); vf_assert(init.made == m - 1 && see.steps == m - 1, "as many solutions as announced, the start included"); vf_cover("done");
}
