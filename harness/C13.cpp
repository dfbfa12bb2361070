// C13: evolution loops evaluate each unevaluated individual once and keep populations evaluated.
//@ bounds populations of n individuals, some of them already evaluated, g generations; an arbitrary objective table over 4 contents; operators that change any content or nothing and report it, every outcome of selection and of the rates; all stock ways to build the loop
//@ outside larger populations and longer runs; evaluation through files, pipes and external commands; OpenMP and MPI evaluation
//@ stub time=vf_time
//@ stub difftime=vf_difftime
//@ stub getrusage=vf_rusage
//@ entry easy covers=again,kept,stop quick="n=2 g=1 s=1;n=1 g=3 s=1" thorough="n=2 g=1 s=0;n=3 g=1 s=1;n=1 g=4 s=0" jobs=8
//@ entry breeders covers=again,kept,stop quick="n=2 g=1;n=3 g=1 b=1" thorough="n=2 g=1;n=3 g=1 b=1;n=2 g=2 b=1" jobs=8
//@ entry sga covers=again,kept,stop quick="n=2 g=1" thorough="n=2 g=2;n=3 g=1" jobs=8
//@ entry fast covers=again,kept,stop quick="n=2 g=1" thorough="n=2 g=1" jobs=8
//@ entry cellular covers=again,stop quick="n=2 g=1" thorough="n=3 g=1" jobs=4
//@ entry oneToOne covers=again,kept,stop quick="n=2 g=1" thorough="n=2 g=2" jobs=8
//@ entry restart covers=again,stop quick="n=2 g=1" thorough="n=2 g=1" jobs=4
//@ entry distribution covers=stop quick="n=2 g=2" thorough="n=3 g=3"
//@ entry wrappers covers=best,kept,failed,late quick="l=4" thorough="l=6"
#include "common.h"
#include <eo>
#include <eoFastGA.h>
#include <eoAlgoRestart.h>
#include <eoCellularEasyEA.h>
#include <eoOneToOneBreeder.h>
#include <eoSimpleEDA.h>
#include <cmath>
#include <sys/resource.h>
static long vf_now = 1000;
extern "C" __attribute__((used)) long vf_time(long* p) { if (p) *p = vf_now; return vf_now; }
extern "C" __attribute__((used)) double vf_difftime(long a, long b) { return (double)(a - b); }
extern "C" __attribute__((used)) int vf_rusage(int, struct rusage* r) { r->ru_utime.tv_sec = vf_now; return 0; }
// An individual remembers which version of its content it was last evaluated with; operators give a new version to what they change.
static int land[4], versions = 0, calls = 0;
struct Gene : public EO<double> { int g, version, evaluated; Gene(int c = 0) : g(c), version(++versions), evaluated(0) {} std::string className() const { return "Gene"; } };
static void change(Gene& x) { x.g = (x.g + 1) & 3; x.version = ++versions; }
struct Obj : public eoEvalFunc<Gene> { void operator()(Gene& x) { if (!x.invalid()) return; vf_assert(x.evaluated != x.version, "an unchanged individual is not evaluated again"); if (x.evaluated) vf_cover("again"); calls++; x.evaluated = x.version; x.fitness(land[x.g]); } };
// called only on unevaluated individuals: used behind the stock wrappers
struct Strict : public eoEvalFunc<Gene> { void operator()(Gene& x) { vf_assert(x.invalid(), "the objective is called only on unevaluated individuals"); vf_assert(x.evaluated != x.version, "an unchanged individual is not evaluated again"); if (x.evaluated) vf_cover("again"); calls++; x.evaluated = x.version; x.fitness(land[x.g]); } };
struct Mut : public eoMonOp<Gene> { bool operator()(Gene& x) { if (!vfPick("mutate", 0, 1)) return false; change(x); return true; } };
struct Cross : public eoQuadOp<Gene> { bool operator()(Gene& a, Gene& b) { if (!vfPick("cross", 0, 1)) return false; int t = a.g; a.g = b.g; b.g = t; a.version = ++versions; b.version = ++versions; return true; } };
static bool healthy(const Gene& x) { return !x.invalid() && x.fitness() == land[x.g] && x.evaluated == x.version; }
struct Watch : public eoContinue<Gene> { int left, n; const eoValueParam<unsigned long>* counter; Watch(int g, int size, const eoValueParam<unsigned long>* c = 0) : left(g), n(size), counter(c) {} bool operator()(const eoPop<Gene>& p) { vf_assert((int)p.size() == n, "the population keeps its size"); for (unsigned i = 0; i < p.size(); i++) vf_assert(healthy(p[i]), "every individual is evaluated, with the fitness of its content"); if (counter) vf_assert((int)const_cast<eoValueParam<unsigned long>*>(counter)->value() == calls, "the evaluation counter equals the objective calls"); if (--left > 0) return true; vf_cover("stop"); return false; } };
static eoPop<Gene> start(int n, bool all) { for (int i = 0; i < 4; i++) land[i] = vfInt("land", 0, 3); eoPop<Gene> p; for (int i = 0; i < n; i++) { Gene x(i & 3); if (all || (i == 0 && vfPick("old", 0, 1))) { x.evaluated = x.version; x.fitness(land[x.g]); if (!all) vf_cover("kept"); } p.push_back(x); } if (all) vf_cover("kept"); return p; }
struct AnyOne : public eoSelectOne<Gene> { const Gene& operator()(const eoPop<Gene>& p) { return p[vfPick("select", 0, p.size() - 1)]; } };
static void setUp() { vf_max_draws = 60; vf_rbits = 1; }
ENTRY(easy) {
    setUp(); int n = P("n", 2), g = P("g", 1), how = vfPick("how", 0, 7); eoPop<Gene> pop = start(n, false); Strict strict; eoEvalFuncCounter<Gene> eval(strict); Watch stop(g, n, &eval); AnyOne sel; Mut mut; Cross cross; eoMonGenOp<Gene> mop(mut); eoGeneralBreeder<Gene> breed(sel, mop); eoGenerationalReplacement<Gene> gen; eoPlusReplacement<Gene> plus; eoSelectMany<Gene> many(sel, 1.0); eoSGATransform<Gene> tr(cross, 1.0, mut, P("s", 1) ? 1.0 : 0.5); eoPopLoopEval<Gene> loop(eval); eoTimeVaryingLoopEval<Gene> vary(eval); eoNoElitism<Gene> none; eoPlus<Gene> keep; eoTruncate<Gene> trunc;
    if (how == 0) { eoEasyEA<Gene> a(stop, eval, breed, gen); a(pop); } else if (how == 1) { eoEasyEA<Gene> a(stop, eval, breed, plus, (unsigned)n); a(pop); } else if (how == 2) { eoEasyEA<Gene> a(stop, eval, loop, breed, plus, (unsigned)n); a(pop); } else if (how == 3) { eoEasyEA<Gene> a(stop, vary, breed, plus); a(pop); }
    else if (how == 4) { eoEasyEA<Gene> a(stop, loop, many, tr, gen); a(pop); } else if (how == 5) { eoEasyEA<Gene> a(stop, eval, breed, keep, trunc); a(pop); } else if (how == 6) { eoEasyEA<Gene> a(stop, eval, many, tr, gen); a(pop); } else { eoEasyEA<Gene> a(stop, eval, many, tr, none, trunc); a(pop); }
}
ENTRY(breeders) {
    setUp(); int n = P("n", 2), g = P("g", 1), how = vfPick("how", 0, P("b", 0) ? 1 : 4); eoPop<Gene> pop = start(n, false); Strict strict; eoEvalFuncCounter<Gene> eval(strict); Watch stop(g, n, &eval); AnyOne sel; Mut mut; Cross cross; eoGenerationalReplacement<Gene> gen; eoCommaReplacement<Gene> comma; eoSGAGenOp<Gene> sga(cross, 0.5, mut, 0.5); eoPropGAGenOp<Gene> prop(0.25, cross, 0.5, mut, 0.25); eoSequentialOp<Gene> seq; seq.add(cross, 0.5); seq.add(mut, 1.0); eoProportionalOp<Gene> po; po.add(mut, 0.5); po.add(cross, 0.5); eoMonGenOp<Gene> mop(mut); eoGenOp<Gene>* op[] = {&mop, &prop, &sga, &seq, &po}; eoGeneralBreeder<Gene> breed(sel, *op[how]); eoReplacement<Gene>& rep = how & 1 ? (eoReplacement<Gene>&)comma : gen; eoEasyEA<Gene> a(stop, eval, breed, rep); a(pop);
}
ENTRY(sga) { setUp(); int n = P("n", 2), g = P("g", 1); eoPop<Gene> pop = start(n, true); Strict strict; eoEvalFuncCounter<Gene> eval(strict); Watch stop(g, n, &eval); AnyOne sel; Mut mut; Cross cross; eoSGA<Gene> a(sel, cross, 0.5f, mut, 0.5f, eval, stop); a(pop); }
ENTRY(fast) { setUp(); int n = P("n", 2), g = P("g", 1), setup = vfPick("setup", 0, 3); eoPop<Gene> pop = start(n, true); Strict strict; eoEvalFuncCounter<Gene> eval(strict); eoPopLoopEval<Gene> loop(eval); eoTimeVaryingLoopEval<Gene> vary(eval); Watch stop(g, n, &eval); AnyOne sel; Mut mut; Cross cross; eoPlusReplacement<Gene> plus; eoGenerationalReplacement<Gene> gen; eoFastGA<Gene> a(0.5, sel, cross, sel, 0.5, sel, mut, setup & 1 ? (eoPopEvalFunc<Gene>&)vary : loop, setup & 2 ? (eoReplacement<Gene>&)plus : gen, stop, setup == 2 ? 1 : 0); a(pop); }
struct Cell : public eoCellularEasyEA<Gene> { using eoCellularEasyEA<Gene>::eoCellularEasyEA; eoPop<Gene> neighbours(const eoPop<Gene>& p, int r) { eoPop<Gene> q; q.push_back(p[(r + 1) % p.size()]); return q; } };
struct Always : public eoMonOp<Gene> { bool operator()(Gene& x) { change(x); return true; } };
ENTRY(cellular) { setUp(); int n = P("n", 2), g = P("g", 1); eoPop<Gene> pop = start(n, true); Strict strict; eoEvalFuncCounter<Gene> eval(strict); Watch stop(g, n, &eval); AnyOne sel; Always mut; Cross cross; Cell a(stop, eval, sel, cross, mut, sel, sel); a(pop); }
ENTRY(oneToOne) { setUp(); int n = P("n", 2), g = P("g", 1); eoPop<Gene> pop = start(n, true); Strict strict; eoEvalFuncCounter<Gene> eval(strict); Watch stop(g, n, &eval); Mut mut; eoMonGenOp<Gene> mop(mut); eoOneToOneBreeder<Gene> breed(mop, eval, vfPick("replace", 0, 1) ? 1.0 : 0.5); eoGenerationalReplacement<Gene> gen; eoPop<Gene> before = pop; eoEasyEA<Gene> a(stop, eval, breed, gen); a(pop); }
struct Fresh : public eoInit<Gene> { void operator()(Gene& x) { x = Gene(vfPick("init", 0, 3)); } };
ENTRY(restart) {
    setUp(); int n = P("n", 2), g = P("g", 1), how = vfPick("how", 0, 3); eoPop<Gene> pop = start(n, true); Strict strict; eoEvalFuncCounter<Gene> eval(strict); eoPopLoopEval<Gene> loop(eval); Watch inner(1000, n, &eval), outer(2, n, &eval); AnyOne sel; Mut mut; eoMonGenOp<Gene> mop(mut); eoGeneralBreeder<Gene> breed(sel, mop); eoGenerationalReplacement<Gene> gen; eoGenContinue<Gene> count(g); eoCombinedContinue<Gene> stop(inner); stop.add(count); struct Again : eoAlgoReset<Gene> { eoGenContinue<Gene>& c; int calls = 0; Again(eoGenContinue<Gene>& x) : c(x) {} void operator()(eoPop<Gene>&) { calls++; c.reset(); } } again(count); eoEasyEA<Gene> ea(stop, eval, breed, gen); Fresh init;
    eoAlgoPopReset<Gene> reset(init, loop), sized(init, loop, n); eoAlgoResetCombine<Gene> both(again); both.add(how == 2 ? reset : sized); std::vector<eoAlgoReset<Gene>*> v(1, &reset); v.push_back(&again); eoAlgoResetCombine<Gene> both2(v);
    if (how == 0) { eoAlgoRestart<Gene> a(init, loop, ea, outer); a(pop); } else if (how == 1) { eoAlgoRestart<Gene> a(init, eval, ea, outer); a(pop); } else if (how == 2) { eoAlgoRestart<Gene> a(loop, ea, outer, both); a(pop); } else { eoAlgoRestart<Gene> a(eval, ea, outer, both2); a(pop); }
    vf_assert(how < 2 || again.calls == 2, "one reset per run"); vf_assert(outer.left == 0, "restarted until the criterion stops");
}
struct Dist : public eoDistribution<Gene> { std::string className() const { return "Dist"; } void operator()(Gene& x) { x = Gene(vfPick("sample", 0, 1)); } void readFrom(std::istream&) {} void printOn(std::ostream&) const {} };
struct Upd : public eoDistribUpdater<Gene> { int calls = 0; void operator()(eoDistribution<Gene>&, eoPop<Gene>& p) { calls++; for (unsigned i = 0; i < p.size(); i++) vf_assert(healthy(p[i]), "the distribution is updated from evaluated individuals"); } };
ENTRY(distribution) { setUp(); int n = P("n", 2), g = P("g", 2); start(0, false); Strict strict; eoEvalFuncCounter<Gene> eval(strict); Watch stop(g, n, &eval); Dist d; Upd u; eoSimpleEDA<Gene> a(u, eval, n, stop); a(d); vf_assert(u.calls == g && calls == n * g, "one update per generation, one evaluation per sample"); }
static double pointer(const Gene& x) { calls++; const_cast<Gene&>(x).evaluated = x.version; return land[x.g]; }
struct Bad : public eoEvalFunc<Gene> { bool fail = false; void operator()(Gene& x) { calls++; x.fitness(fail ? (land[x.g] == 0 ? (double)NAN : INFINITY) : land[x.g]); } };
ENTRY(wrappers) {
    setUp(); start(0, false); Strict strict; eoEvalFuncCounter<Gene> eval(strict); eoEvalKeepBest<Gene> best(eval); int top = -1;
    for (int i = 0; i < P("l", 4); i++) { Gene x(i & 3); bool old = vfPick("old", 0, 1); if (old) { x.evaluated = x.version; x.fitness(land[x.g]); } best(x); vf_assert(healthy(x) && (int)eval.value() == calls, "evaluated once and counted"); if (land[x.g] > top) { top = land[x.g]; vf_cover("best"); } else vf_cover("kept"); vf_assert(best.best_element().fitness() == top && land[best.best_element().g] == top, "the best individual evaluated so far"); }
    best.reset(); Gene y(1); best(y); vf_assert(best.best_element().g == 1, "reset forgets the best");
    calls = 0; eoEvalFuncPtr<Gene, double> ptr(pointer); Gene z(2); ptr(z); ptr(z); vf_assert(calls == 1 && healthy(z), "function pointer evaluated once");
    calls = 0; Bad bad; eoEvalNanThrowException<Gene> nan(bad); bad.fail = vfPick("fail", 0, 1); Gene w(3); bool thrown = false; try { nan(w); nan(w); } catch (eoNanException&) { thrown = true; vf_cover("failed"); } vf_assert(thrown == bad.fail && calls == 1, "a bad value raises an exception");
    calls = 0; vf_now = 100; eoEvalTimeThrowException<Gene> wall(strict, 5); vf_now += vfInt("wait", 0, 9); bool late = false; Gene a(0), b(1); try { wall(a); wall(a); } catch (eoMaxTimeException&) { late = true; vf_cover("late"); } vf_assert(late == (vf_now >= 105) && calls == !late && (int)wall.value() == calls && a.invalid() == late, "time contract");
    calls = 0; vf_now = vfInt("used", 0, 9); eoEvalUserTimeThrowException<Gene> user(strict, 5); late = false; try { user(b); user(b); } catch (eoMaxTimeException&) { late = true; } vf_assert(late == (vf_now >= 5) && calls == !late && (int)user.value() == calls && b.invalid() == late, "user time contract");
}
