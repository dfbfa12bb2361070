// C21: iterated and variable neighbourhood searches return the accepted solution consistently.
//@ bounds bit strings of 1..n bits, every landscape with fitnesses 0..v, every start, s outer iterations; the inner search of the step-by-step entries returns any solution; perturbations flip any bit, restart at any solution or take any neighbour of another neighbourhood; acceptance always, better-only and arbitrary; 1..k neighbourhoods with every order, cycling or not
//@ outside longer runs; inner searches over larger spaces
//@ entry ils covers=kept,taken,perturbed quick="n=2 v=3 s=2" thorough="n=2 v=3 s=3" jobs=4
//@ entry ilsReal covers=done quick="n=2 v=2 s=2" thorough="n=2 v=3 s=3" jobs=4
//@ entry ilsDefault covers=done quick="n=2 v=2 s=2" thorough="n=2 v=3 s=3"
//@ entry restart covers=restarted,kept quick="l=4 h=2" thorough="l=7 h=3"
//@ entry monOpPerturb covers=done quick="n=2 v=3 h=3" thorough="n=3 v=3 h=3"
//@ entry neighbourPerturb covers=done quick="n=2 v=3 s=3" thorough="n=3 v=3 s=4"
//@ entry selection covers=ended,cycled quick="k=3 l=4" thorough="k=4 l=6"
//@ entry vns covers=restarted,next,exhausted,kept quick="n=1 v=3 k=2 s=3" thorough="n=1 v=5 k=3 s=4" jobs=4
//@ entry vnsTwice covers=again quick="n=1 v=1 k=2" thorough="n=1 v=2 k=2" jobs=2
//@ entry vnsShake covers=done quick="n=2 v=2 s=2" thorough="n=2 v=3 s=3" jobs=2
#include "ls.h"
#include <algo/moDummyLS.h>
#include <algo/moVNS.h>
#include <neighborhood/moForwardVectorVNSelection.h>
#include <neighborhood/moBackwardVectorVNSelection.h>
#include <neighborhood/moRndVectorVNSelection.h>
#include <acceptCrit/moBetterAcceptCrit.h>
#include <perturb/moNeighborhoodPerturb.h>
#include <perturb/moRestartPerturb.h>
typedef moBitNeighbor<double> BN; typedef moDummyNeighbor<Bits> DN;
static Bits anySol(const char* name, int n) { Bits s(n, false); int m = vfPick(name, 0, (1 << n) - 1); for (int i = 0; i < n; i++) s[i] = m >> i & 1; return s; }
struct AnyFlip : eoMonOp<Bits> { bool operator()(Bits& s) { int k = vfPick("flip", 0, s.size()); if (k == (int)s.size()) return false; s[k] = !s[k]; return true; } };
// the candidate handed to the inner search must carry its own fitness; the result is any evaluated solution
static Bits lastIn, lastOut; static int inner = 0;
struct AnySearch : moDummyLS<BN> { Table<Bits> t; AnySearch(eoEvalFunc<Bits>& f) : moDummyLS<BN>(f) {} bool operator()(Bits& s) { inner++; if (!s.invalid()) vf_assert(consistent(s), "the candidate's fitness is that of its content"); lastIn = s; s = anySol("found", s.size()); t(s); lastOut = s; return true; } };
struct AnyCrit : moAcceptanceCriterion<BN>, moDummyMemory<BN> { bool last; bool operator()(Bits&, Bits&) { return last = vfPick("accept", 0, 1); } };
struct Outer : moContinuator<DN> {
    int crit, limit, steps = 0; AnyCrit* any; Bits prev; Outer(int c, int l, AnyCrit* a) : crit(c), limit(l), any(a) {}
    void init(Bits& s) { vf_assert(consistent(s), "the fitness at the start is that of the content"); prev = s; }
    bool operator()(Bits& s) {
        steps++; vf_assert(consistent(s), "the fitness is that of the content"); vf_assert(inner == steps, "one inner search per iteration");
        if (steps == 1) vf_assert(same(lastIn, prev), "no perturbation before the first inner search"); else if (!same(lastIn, prev)) vf_cover("perturbed");
        bool acc = crit == 0 || (crit == 1 ? valueOf(lastOut) > valueOf(prev) : any->last); vf_assert(same(s, acc ? lastOut : prev), "accepted: the new solution; refused: the previous one"); vf_cover(acc ? "taken" : "kept"); if (crit == 1) vf_assert(valueOf(s) >= valueOf(prev), "never worse with a better-only criterion");
        prev = s; return steps < limit;
    }
};
ENTRY(ils) {
    int n = vfPick("n", 1, P("n", 2)), crit = vfPick("crit", 0, 2); landscape(1 << n, P("v", 3)); Bits s = pickStart<double>(n); Table<Bits> table; eoEvalFuncCounter<Bits> full(table); inner = 0; if (vfPick("evaluated", 0, 1)) full(s);
    AnySearch ls(full); AnyFlip flip; moMonOpPerturb<BN> perturb(flip, full); moAlwaysAcceptCrit<BN> always; moBetterAcceptCrit<BN> better; AnyCrit any; moAcceptanceCriterion<BN>& c = crit == 0 ? (moAcceptanceCriterion<BN>&)always : crit == 1 ? (moAcceptanceCriterion<BN>&)better : any;
    Outer w(crit, P("s", 2), &any); moILS<BN> ils(ls, full, w, perturb, c); ils(s); vf_assert(consistent(s) && same(s, w.prev), "the last accepted solution is returned"); vf_assert(w.steps == w.limit, "runs until stopped");
}
struct Worse : moContinuator<DN> { int limit, steps = 0; bool monotone; int prev; Worse(int l, bool m) : limit(l), monotone(m) {} void init(Bits& s) { prev = valueOf(s); vf_assert(consistent(s), "the fitness at the start is that of the content"); } bool operator()(Bits& s) { vf_assert(consistent(s), "the fitness is that of the content"); if (monotone) vf_assert(valueOf(s) >= prev, "never worse"); prev = valueOf(s); return ++steps < limit; } };
ENTRY(ilsReal) {
    int n = vfPick("n", 1, P("n", 2)); landscape(1 << n, P("v", 2)); Bits s = pickStart<double>(n); Table<Bits> table; eoEvalFuncCounter<Bits> full(table); AnyEval<BN> eval; moOrderNeighborhood<BN> nh(n); moFirstImprHC<BN> ls(nh, full, eval); AnyFlip flip; int crit = vfPick("crit", 0, 1);
    moMonOpPerturb<BN> perturb(flip, full); moBetterAcceptCrit<BN> better; moAlwaysAcceptCrit<BN> always; Worse w(P("s", 2), crit); moILS<BN> ils(ls, full, w, perturb, crit ? (moAcceptanceCriterion<BN>&)better : always); ils(s);
    vf_assert(consistent(s), "the fitness of the result is that of its content"); for (int k = 0; k < n; k++) vf_assert(!(valueOf(flipped(s, k)) > valueOf(s)) || (crit && w.steps == 0), "the result is a local optimum"); vf_cover("done");
}
ENTRY(ilsDefault) {
    int n = vfPick("n", 1, P("n", 2)), m = P("s", 2); landscape(1 << n, P("v", 2)); Bits s = pickStart<double>(n); Table<Bits> table; eoEvalFuncCounter<Bits> full(table); AnyFlip flip; AnySearch ls(full); inner = 0; Worse w(m, false);
    if (vfPick("ctor", 0, 1)) { moILS<BN> ils(ls, full, flip, m); ils(s); } else { moILS<BN> ils(ls, full, flip, w); ils(s); }
    vf_assert(inner == m, "as many iterations as announced"); vf_assert(same(s, lastOut) && consistent(s), "every new solution is accepted by default"); vf_cover("done");
}
struct MarkInit : eoInit<Bits> { int made = 0; void operator()(Bits& s) { made++; s[0] = !s[0]; s.invalidate(); } };
ENTRY(restart) {
    landscape(2, 3); Bits s(1, false); Table<Bits> table; eoEvalFuncCounter<Bits> full(table); full(s); MarkInit init; int h = vfPick("threshold", 0, P("h", 2)), since = 0, made = 0; moRestartPerturb<BN> p(init, full, h); p.init(s); BN nb;
    for (int i = 0; i < P("l", 4); i++) {
        int op = vfPick("op", 0, 3); if (op == 0) { p.add(s, nb); since = 0; } else if (op == 1) { p.update(s, nb); since++; } else if (op == 2) { p.clearMemory(); since = 0; }
        else { p(s); if (since >= h) { made++; since = 0; vf_cover("restarted"); } else vf_cover("kept"); vf_assert(consistent(s), "the fitness is that of the content"); vf_assert(init.made == made, "restarts exactly after the announced number of refused iterations"); }
    }
}
ENTRY(monOpPerturb) {
    int n = vfPick("n", 1, P("n", 2)), lo = vfPick("min", 0, P("h", 3) - 1), hi = lo + vfPick("more", 1, 2); landscape(1 << n, P("v", 3)); Bits s = pickStart<double>(n); Table<Bits> table; eoEvalFuncCounter<Bits> full(table); full(s); vf_split_random = 1;
    struct Op : eoMonOp<Bits> { int calls = 0; bool any = false; bool operator()(Bits& s) { calls++; bool c = vfPick("changes", 0, 1); if (c) s[vfPick("bit", 0, s.size() - 1)].flip(); any |= c; return c; } } op;
    bool rnd = vfPick("random", 0, 1); moMonOpPerturb<BN> a(op, full, lo), b(op, full, lo, hi); bool r = rnd ? b(s) : a(s); vf_assert(consistent(s), "the fitness is that of the content"); vf_assert(r == op.any, "reports a change if and only if the operator does"); vf_assert(op.calls >= lo && op.calls <= (rnd ? hi : lo), "the announced number of applications"); vf_cover("done");
}
ENTRY(neighbourPerturb) {
    int n = vfPick("n", 1, P("n", 2)); landscape(1 << n, P("v", 3)); Bits s = pickStart<double>(n); Table<Bits> full; full(s); AnyEval<BN> eval; moOrderNeighborhood<BN> nh(n); moNeighborhoodPerturb<BN, BN> p(nh, eval); p.init(s); BN nb; int at = 0;
    for (int i = 0; i < P("s", 3); i++) { Bits before = s; p(s); vf_assert(consistent(s), "the fitness is that of the content"); vf_assert(same(s, flipped(before, at)), "the next neighbour of the other neighbourhood"); if (vfPick("accepted", 0, 1)) { p.add(s, nb); p.update(s, nb); at = n > 1 ? 1 : 0; } else { p.update(s, nb); at = (at + 1) % n; } }
    vf_cover("done");
}
struct Named : eoMonOp<Bits> { int id; bool operator()(Bits&) { return false; } };
// which = 0 forward, 1 backward, 2 random order
struct Selection { moForwardVectorVNSelection<Bits> f; moBackwardVectorVNSelection<Bits> b; moRndVectorVNSelection<Bits> r; int which; Selection(int w, eoMonOp<Bits>& ls, eoMonOp<Bits>& sh, bool cycle) : f(ls, sh, cycle), b(ls, sh, cycle), r(ls, sh, cycle), which(w) {} moVectorVNSelection<Bits>& sel() { return which == 0 ? (moVectorVNSelection<Bits>&)f : which == 1 ? (moVectorVNSelection<Bits>&)b : r; } };
ENTRY(selection) {
    int k = vfPick("k", 1, P("k", 3)), which = vfPick("which", 0, 2), cycle = vfPick("cycle", 0, 1); Named ls[4], sh[4]; for (int i = 0; i < 4; i++) ls[i].id = sh[i].id = i; Selection S(which, ls[0], sh[0], cycle); moVectorVNSelection<Bits>& sel = S.sel(); Bits s(1, false); vf_max_draws = 40;
    bool late = k > 1 && vfPick("late", 0, 1); for (int i = 1; i < k - late; i++) sel.add(ls[i], sh[i]); if (late) { sel.init(s); sel.next(s); sel.add(ls[k - 1], sh[k - 1]); }
    for (int round = 0; round < 2; round++) {
        sel.init(s); bool seen[4] = {false, false, false, false}; int order[4];
        for (int i = 0; i < P("l", 4); i++) {
            int a = static_cast<Named&>(sel.getLocalSearch()).id, b = static_cast<Named&>(sel.getShake()).id; vf_assert(a == b, "the shake belongs to the local search");
            if (i < k) { vf_assert(which == 0 ? a == i : which == 1 ? a == k - 1 - i : !seen[a], "the declared order"); seen[a] = true; order[i] = a; } else { vf_assert(a == order[i % k], "the first follow the last"); vf_cover("cycled"); }
            bool c = sel.cont(s); vf_assert(c == (cycle || i + 1 < k), "goes on exactly while there is a neighbourhood left"); if (!c) { vf_cover("ended"); break; } sel.next(s);
        }
    }
}
// variable neighbourhood search: shakes and local searches record their rank and return any solution
static int shakeAt, searchAt; static Bits vnsOut;
struct Shake : eoMonOp<Bits> { int id; bool operator()(Bits& s) { shakeAt = id; return false; } };
struct Search : eoMonOp<Bits> { int id; Table<Bits> t; bool operator()(Bits& s) { searchAt = id; s = anySol("found", s.size()); t(s); vnsOut = s; return true; } };
struct VnsWatch : moContinuator<BN> {
    int k, which, cycle, crit, limit, steps, at, best; AnyCrit* any; Bits prev; bool over, first;
    int rank(int i) { return which == 0 ? i : k - 1 - i; }
    void init(Bits& s) { vf_assert(consistent(s), "the fitness at the start is that of the content"); prev = s; steps = 0; at = 0; best = valueOf(s); over = false; first = true; }
    bool operator()(Bits& s) {
        steps++; vf_assert(!over, "stops when the neighbourhoods are exhausted"); vf_assert(consistent(s), "the fitness is that of the content"); vf_assert(shakeAt == rank(at) && searchAt == rank(at), "the neighbourhood due in the declared order");
        bool acc = crit == 0 || (crit == 1 ? valueOf(vnsOut) > valueOf(prev) : any->last); vf_assert(same(s, acc ? vnsOut : prev), "accepted: the new solution; refused: the previous one"); if (!acc) vf_cover("kept"); if (valueOf(vnsOut) > best) best = valueOf(vnsOut);
        if (!first && acc) { at = 0; vf_cover("restarted"); } else if (cycle || at + 1 < k) { at = (at + 1) % k; vf_cover("next"); } else { over = true; vf_cover("exhausted"); }
        first = false; prev = s; return steps < limit;
    }
};
static void vnsRun(int runs, int kmax, int limit) {
    int n = vfPick("n", 1, P("n", 1)); landscape(1 << n, P("v", 3)); VnsWatch w; w.k = vfPick("k", 1, kmax); w.which = vfPick("which", 0, 1); w.cycle = vfPick("cycle", 0, 1); w.crit = vfPick("crit", 0, 2); w.limit = limit; AnyCrit any; w.any = &any; Shake sh[4]; Search se[4]; for (int i = 0; i < 4; i++) sh[i].id = se[i].id = i;
    Selection S(w.which, se[0], sh[0], w.cycle); for (int i = 1; i < w.k; i++) S.sel().add(se[i], sh[i]); Table<Bits> full; moAlwaysAcceptCrit<BN> always; moBetterAcceptCrit<BN> better; moAcceptanceCriterion<BN>& c = w.crit == 0 ? (moAcceptanceCriterion<BN>&)always : w.crit == 1 ? (moAcceptanceCriterion<BN>&)better : any;
    moVNS<BN> vns(S.sel(), c, full, w);
    for (int r = 0; r < runs; r++) { Bits s = pickStart<double>(n); vns(s); vf_assert(consistent(s), "the fitness of the result is that of its content"); vf_assert(valueOf(s) == w.best, "the best solution found is returned"); vf_assert(w.over || w.steps == w.limit, "runs until stopped or exhausted"); if (r) vf_cover("again"); }
}
ENTRY(vns) { vnsRun(1, P("k", 2), P("s", 3)); }
ENTRY(vnsTwice) { vnsRun(2, P("k", 2), 2); }
// the shake is an ordinary operator: it reports a change and leaves the fitness to others
ENTRY(vnsShake) {
    int n = vfPick("n", 1, P("n", 2)); landscape(1 << n, P("v", 2)); Bits s = pickStart<double>(n); Table<Bits> table; eoEvalFuncCounter<Bits> full(table); AnyEval<BN> eval; moOrderNeighborhood<BN> nh(n); moFirstImprHC<BN> ls(nh, full, eval); AnyFlip flip; eoDummyMonOp<Bits> none; int how = vfPick("how", 0, 2);
    struct W : moContinuator<BN> { int left; void init(Bits& s) { vf_assert(consistent(s), "the fitness at the start is that of the content"); } bool operator()(Bits& s) { vf_assert(consistent(s), "the fitness is that of the content"); return --left > 0; } } w; w.left = P("s", 2);
    moMonOpPerturb<BN> perturb(flip, full); moForwardVectorVNSelection<Bits> sel(how == 2 ? (eoMonOp<Bits>&)none : ls, how == 1 ? (eoMonOp<Bits>&)flip : perturb, true); moBetterAcceptCrit<BN> better; moAlwaysAcceptCrit<BN> always; moVNS<BN> vns(sel, vfPick("crit", 0, 1) ? (moAcceptanceCriterion<BN>&)better : always, full, w); vns(s); vf_assert(consistent(s), "the fitness of the result is that of its content"); vf_cover("done");
}
