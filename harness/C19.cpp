// C19: tabu search moves to the best admissible neighbour only; tabu lists forbid for exactly the announced duration.
//@ bounds lists of 1..m entries (indexed: moves 0..m-1 of m+1) with durations 0..h, every sequence of l additions and updates; searches of s steps over all bit strings of 1..n bits, every landscape with integer fitnesses 0..v, every start, both directions, ordered neighbourhood, three list kinds, with and without diversification
//@ outside longer runs and larger search spaces; the clock-limited default continuator
//@ entry neighbourList covers=tabu,expired,evicted quick="m=2 h=3 l=5" thorough="m=3 h=3 l=7"
//@ entry solutionList covers=tabu,expired,evicted quick="m=2 h=3 l=4" thorough="m=3 h=3 l=5"
//@ entry indexedList covers=tabu,expired,beyond quick="m=2 h=3 l=5" thorough="m=3 h=4 l=7"
//@ entry randomDuration covers=tabu,expired quick="h=3 l=5" thorough="h=5 l=8"
//@ entry search covers=moved,stuck,worse quick="n=2 v=3 s=3 h=2" thorough="n=2 v=3 s=5 h=3" jobs=4
//@ entry aspire covers=moved,aspired,worse quick="n=3 v=5 s=4 h=4" thorough="n=3 v=7 s=4 h=4" jobs=4
//@ entry again covers=lower,moved quick="n=2 v=2 s=1 h=2" thorough="n=2 v=3 s=1 h=3" jobs=4
//@ entry diversified covers=done quick="n=2 v=3 s=2" thorough="n=2 v=3 s=3"
#include "ls.h"
struct Added { int what; int updates; };
// the list forbids what was added last in place of an older entry and at most the announced number of updates ago
static bool forbids(const std::vector<Added>& log, int what, int updates, int size, int howlong) {
    bool f = false; for (unsigned i = 0; i < log.size(); i++) if (log[i].what == what) {
        bool evicted = (int)(log.size() - 1 - i) >= size, over = howlong > 0 && updates - log[i].updates >= howlong;
        if (evicted) vf_cover("evicted"); else if (over) vf_cover("expired"); else { f = true; vf_cover("tabu"); } }
    return f;
}
typedef moBitNeighbor<double> BN;
static BN bitMove(Bits& s, int k) { BN nb; nb.index(s, k); return nb; }
ENTRY(neighbourList) {
    int m = vfPick("size", 1, P("m", 2)), h = vfPick("howlong", 0, P("h", 3)), n = 3, L = P("l", 4), up = 0; Bits s(n, false); moNeighborVectorTabuList<BN> list(m, h);
    list.init(s); std::vector<Added> log;
    if (vfPick("used", 0, 1)) { BN a = bitMove(s, 0); list.add(s, a); list.update(s, a); list.add(s, a); if (vfPick("cleared", 0, 1)) list.clearMemory(); else list.init(s); }
    for (int i = 0; i < L; i++) {
        int k = vfPick("op", 0, n - 1); if (k < n - 1) { BN nb = bitMove(s, k); list.add(s, nb); log.push_back(Added{k, up}); } else { BN nb = bitMove(s, 0); list.update(s, nb); up++; }
        for (int q = 0; q < n; q++) { BN nb = bitMove(s, q); vf_assert(list.check(s, nb) == forbids(log, q, up, m, h), "forbidden for exactly the announced duration"); }
    }
}
ENTRY(solutionList) {
    int m = vfPick("size", 1, P("m", 2)), h = vfPick("howlong", 0, P("h", 3)), n = 2, L = P("l", 4), up = 0; Bits s(n, false); moSolVectorTabuList<BN> list(m, h); list.init(s); std::vector<Added> log;
    if (vfPick("used", 0, 1)) { BN a = bitMove(s, 0); list.add(s, a); list.update(s, a); list.add(s, a); if (vfPick("cleared", 0, 1)) list.clearMemory(); else list.init(s); }
    for (int i = 0; i < L; i++) {
        int k = vfPick("op", 0, 3); BN a = bitMove(s, 0); for (int b = 0; b < n; b++) s[b] = k >> b & 1;
        if (k < 3) { list.add(s, a); log.push_back(Added{k, up}); } else { list.update(s, a); up++; }
        for (int at = 0; at < 4; at++) for (int q = 0; q < n; q++) { Bits t(n, false); for (int b = 0; b < n; b++) t[b] = at >> b & 1; BN nb = bitMove(t, q); Bits u = flipped(t, q); vf_assert(list.check(t, nb) == forbids(log, codeOf(u), up, m, h), "forbidden for exactly the announced duration"); vf_assert(codeOf(t) == at, "asking leaves the solution as it was"); }
    }
}
// lists indexed by the move: each move has its own duration
template <class L_> static void indexed(L_& list, int m, int lo, int hi, bool given) {
    int n = m + 1, L = P("l", 4), up = 0; Bits s(n, false); list.init(s); std::vector<Added> log;
    if (vfPick("used", 0, 1)) { BN a = bitMove(s, 0); list.add(s, a); if (vfPick("cleared", 0, 1)) list.clearMemory(); else list.init(s); }
    for (int i = 0; i < L; i++) {
        int k = vfPick("op", 0, n); if (k < n) { BN nb = bitMove(s, k); list.add(s, nb); if (k < m) log.push_back(Added{k, up}); } else { BN nb = bitMove(s, 0); list.update(s, nb); up++; }
        for (int q = 0; q < n; q++) {
            BN nb = bitMove(s, q); bool c = list.check(s, nb); int last = -1; for (unsigned j = 0; j < log.size(); j++) if (log[j].what == q) last = log[j].updates;
            if (q >= m) { vf_cover("beyond"); vf_assert(!c, "a move outside the list is never forbidden"); } else if (last < 0) vf_assert(!c, "a move never taken is not forbidden");
            else { if (up - last < lo) { vf_cover("tabu"); vf_assert(c, "forbidden for at least the announced duration"); } if (up - last >= hi) { vf_cover("expired"); vf_assert(!c, "forbidden for at most the announced duration"); } }
        }
    }
}
ENTRY(indexedList) { int m = vfPick("size", 1, P("m", 2)), h = vfPick("howlong", 0, P("h", 3)); moIndexedVectorTabuList<BN> list(m, h); indexed(list, m, h, h, true); }
ENTRY(randomDuration) {
    int lo = vfPick("min", 0, P("h", 3)), hi = lo + vfPick("spread", 1, 2); vf_max_draws = 40;
    if (vfPick("robust", 0, 1)) { moIndexedVectorTabuList<BN> list(1, lo, hi); indexed(list, 1, lo, hi, false); } else { moRndIndexedVectorTabuList<BN> list(1, lo, hi - lo); indexed(list, 1, lo, hi, false); }
}
// follows a search step by step with its own idea of the list
template <class F> struct Follow : moContinuator<moBitNeighbor<F> > {
    typedef moBitNeighbor<F> NB; typedef eoBit<F> S; typedef Dir<F> D; int kind, size, howlong, limit, steps, up, best; std::vector<Added> log; S prev;
    Follow(int k, int m, int h, int l) : kind(k), size(m), howlong(h), limit(l) {}
    bool tabu(const S& s, int k) { if (kind == 2) { int last = -1; for (unsigned j = 0; j < log.size(); j++) if (log[j].what == k) last = log[j].updates; return last >= 0 && up - last < howlong; } return forbids(log, kind == 0 ? k : codeOf(flipped(s, k)), up, size, howlong); }
    void init(S& s) { vf_assert(consistent(s), "the fitness at the start is that of the content"); prev = s; steps = up = 0; log.clear(); best = valueOf(s); }
    bool operator()(S& s) {
        vf_assert(consistent(s), "the fitness is that of the content"); steps++; int n = s.size(), moved = -1; vf_assert(differ(prev, s) <= 1, "one move at most"); for (int k = 0; k < n; k++) if (s[k] != prev[k]) moved = k;
        for (int k = 0; k < n; k++) {
            int v = valueOf(flipped(prev, k)); bool t = tabu(prev, k), asp = D::better(v, best);
            if (k == moved) { if (t) { vf_assert(asp, "a forbidden neighbour is taken only when the aspiration criterion admits it"); vf_cover("aspired"); } }
            else if (!t) vf_assert(moved >= 0 && !D::better(v, valueOf(s)), "no admissible neighbour is strictly better, and one is taken if there is any");
            else vf_assert(!(asp && (moved < 0 || D::better(v, valueOf(s)))), "no aspired neighbour is strictly better, and one is taken if there is any");
        }
        if (moved >= 0) { vf_cover("moved"); if (D::better(valueOf(prev), valueOf(s))) vf_cover("worse"); log.push_back(Added{kind == 1 ? codeOf(s) : moved, up}); } else vf_cover("stuck");
        up++; if (D::better(valueOf(s), best)) best = valueOf(s); prev = s; return steps < limit;
    }
};
template <class F> static void search(int start = -1) {
    typedef eoBit<F> S; typedef moBitNeighbor<F> NB; int n = start < 0 ? vfPick("n", 1, P("n", 2)) : P("n", 3), kind = vfPick("list", 0, 2), m = kind == 2 ? n : start < 0 ? vfPick("size", 1, 2) : 3, h = start < 0 ? vfPick("howlong", kind == 2 ? 1 : 0, P("h", 2)) : P("h", 3); landscape(1 << n, P("v", 3)); S s(n, false); if (start < 0) s = pickStart<F>(n);
    moNeighborVectorTabuList<NB> a(m, h); moSolVectorTabuList<NB> b(m, h); moIndexedVectorTabuList<NB> c(m, h); moTabuList<NB>& list = kind == 0 ? (moTabuList<NB>&)a : kind == 1 ? (moTabuList<NB>&)b : c;
    Table<S> full; AnyEval<NB> eval; moOrderNeighborhood<NB> nh(n); moBestImprAspiration<NB> asp; Follow<F> w(kind, m, h, P("s", 3)); moTS<NB> ts(nh, full, eval, w, list, asp);
    ts(s); vf_assert(consistent(s), "the fitness of the result is that of its content"); vf_assert(valueOf(s) == w.best, "the best solution moved to is reported");
    vf_assert(valueOf(ts.getExplorer().getBest()) == w.best && valueOf(asp.getBest()) == w.best, "the best solution is remembered");
}
ENTRY(search) { if (vfPick("minimise", 0, 1)) search<MinF>(); else search<double>(); }
ENTRY(aspire) { if (vfPick("minimise", 0, 1)) search<MinF>(0); else search<double>(0); }
// the same search object used for two runs
ENTRY(again) {
    typedef moBitNeighbor<double> NB; int n = P("n", 2), kind = vfPick("list", 0, 2), m = kind == 2 ? n : vfPick("size", 1, 2), h = vfPick("howlong", 1, P("h", 2)); landscape(1 << n, P("v", 3)); moNeighborVectorTabuList<NB> a(m, h); moSolVectorTabuList<NB> b(m, h); moIndexedVectorTabuList<NB> c(m, h); moTabuList<NB>& list = kind == 0 ? (moTabuList<NB>&)a : kind == 1 ? (moTabuList<NB>&)b : c;
    Table<Bits> full; AnyEval<NB> eval; moOrderNeighborhood<NB> nh(n); moBestImprAspiration<NB> asp; Follow<double> w(kind, m, h, P("s", 2)); moTS<NB> ts(nh, full, eval, w, list, asp); int best = 0;
    for (int run = 0; run < 2; run++) { Bits s = pickStart<double>(n); ts(s); vf_assert(consistent(s), "the fitness of the result is that of its content"); vf_assert(valueOf(s) == w.best && valueOf(ts.getExplorer().getBest()) == w.best && valueOf(asp.getBest()) == w.best, "each run reports the best solution it moved to"); if (run && w.best < best) vf_cover("lower"); best = w.best; }
}
struct AnyFlip : eoMonOp<Bits> { bool operator()(Bits& s) { int k = vfPick("flip", 0, s.size()); if (k == (int)s.size()) return false; s[k] = !s[k]; return true; } };
struct Consistent : moContinuator<BN> { int left; Consistent(int n) : left(n) {} void init(Bits& s) { vf_assert(consistent(s), "the fitness at the start is that of the content"); } bool operator()(Bits& s) { vf_assert(consistent(s), "the fitness is that of the content"); return --left > 0; } };
ENTRY(diversified) {
    int n = vfPick("n", 1, P("n", 2)); landscape(1 << n, P("v", 3)); Bits s = pickStart<double>(n); Table<Bits> table; eoEvalFuncCounter<Bits> full(table); AnyEval<BN> eval; moOrderNeighborhood<BN> nh(n); moNeighborVectorTabuList<BN> list(1, 0);
    moNeighborComparator<BN> cn; moSolNeighborComparator<BN> cs; moDummyIntensification<BN> in; AnyFlip flip; moMonOpDiversification<BN> div(flip, full); moBestImprAspiration<BN> asp; Consistent w(P("s", 2));
    moTS<BN> ts(nh, full, eval, cn, cs, w, list, in, div, asp); ts(s); vf_assert(consistent(s), "the fitness of the result is that of its content"); vf_cover("done");
}
