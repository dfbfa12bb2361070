// C30: the scheduler applies the function once to everyone and returns when all applications are finished.
//@ bounds populations of 0..n individuals, 1..w workers, one or two calls of the same scheduler; the first `fair` scheduling choices (thread starts, joins, locks, unlocks, sleeps, middle of an application) are arbitrary, then the threads take turns
//@ outside preemption between other instructions (memory model effects, unlocked reads of a package's emptiness), schedules that stay unfair after the bound, functions that throw
//@ include smp/src
//@ entry linear covers=fewer,even,uneven,empty,again,overlapped quick="n=5 w=3 fair=10" thorough="n=7 w=3 fair=11;n=6 w=4 fair=9" jobs=8
//@ entry progressive covers=fewer,even,uneven,empty,again,overlapped quick="n=5 w=2 fair=11;n=3 w=3 fair=8" thorough="n=9 w=2 fair=12;n=6 w=3 fair=9" jobs=8
//@ entry master covers=generation,applied,evaluated quick="n=3 w=3 fair=5" thorough="n=4 w=3 fair=5" jobs=4
#include "common.h"
#include <thread>
#include <chrono>
#include <eo>
#include <smp>
extern "C" void vf_yield();
using namespace paradiseo::smp;
// every individual carries a symbolic value that one application masks with a symbolic key
struct Ind : public EO<double> { int id, value; Ind() : id(-1), value(0) {} };
static int runs_[16]; static int inside_, key_;
struct Apply : public eoUF<Ind&, void> { void operator()(Ind& x) { vf_assert(x.id >= 0 && x.id < 16, "the function is applied to individuals"); runs_[x.id]++; if (inside_++) vf_cover("overlapped"); if (P("yield", 1)) vf_yield(); inside_--; x.value ^= key_; x.fitness(100 + x.id); } };
template<class S> static void apply(const char*) {
    int n = vfPick("n", 0, P("n", 4)), w = vfPick("w", 1, P("w", 3)), times = vfPick("times", 1, 2); P("fair", 5); S s(w); Apply f; key_ = vfInt("key", 1, 255); std::vector<int> v; for (int i = 0; i < n; i++) v.push_back(vfInt("value", 0, 255));
    for (int t = 0; t < times; t++) {
        eoPop<Ind> p; for (int i = 0; i < n; i++) { Ind x; x.id = i; x.value = v[i]; p.push_back(x); runs_[i] = 0; } inside_ = 0; s(f, p);
        vf_assert(inside_ == 0, "all applications are finished on return"); vf_assert((int)p.size() == n, "the population keeps its size"); for (int i = 0; i < n; i++) { vf_assert(runs_[i] >= 1, "the function is applied to every individual"); vf_assert(runs_[i] == 1, "the function is applied once to each individual"); vf_assert(p[i].id == i && !p[i].invalid() && p[i].fitness() == 100 + i, "every individual of the population holds its result"); }
        bool masked = true; for (int i = 0; i < n; i++) masked &= (p[i].value & key_) == (key_ & ~v[i]) && (p[i].value | key_) == (v[i] | key_); vf_assert(masked, "every value has been masked exactly once");
    }
    if (times == 2) vf_cover("again"); if (!n) vf_cover("empty"); else if (n < w) vf_cover("fewer"); else if (n % w) vf_cover("uneven"); else vf_cover("even");
}
ENTRY(linear) { apply<Scheduler<Ind, LinearPolicy> >("linear"); }
ENTRY(progressive) { apply<Scheduler<Ind, ProgressivePolicy> >("progressive"); }
struct Eval : public eoEvalFunc<Ind> { Apply f; void operator()(Ind& x) { f(x); } };
struct Once : public eoContinue<Ind> { int n; Once() : n(0) {} bool operator()(const eoPop<Ind>&) { return false; } };
// offspring are the parents renumbered, not yet evaluated
struct Breed : public eoBreed<Ind> { void operator()(const eoPop<Ind>& p, eoPop<Ind>& o) { o.clear(); for (unsigned i = 0; i < p.size(); i++) { Ind x; x.id = p[i].id + 4; o.push_back(x); } } };
struct Replace : public eoReplacement<Ind> { void operator()(eoPop<Ind>& p, eoPop<Ind>& o) { for (unsigned i = 0; i < o.size(); i++) { vf_assert(!o[i].invalid() && runs_[o[i].id] == 1, "offspring are evaluated once before the replacement"); } vf_assert(inside_ == 0, "no evaluation runs during the replacement"); p.swap(o); } };
ENTRY(master) {
    int n = vfPick("n", 1, P("n", 3)), w = vfPick("w", 1, P("w", 3)); P("fair", 5); Once c; Eval e; Breed b; Replace r; MWModel<eoEasyEA, Ind, LinearPolicy> m((unsigned)w, c, e, b, r); eoPop<Ind> p; for (int i = 0; i < n; i++) { Ind x; x.id = i; p.push_back(x); }
    if (vfPick("whole", 0, 1)) { m(p); for (int i = 0; i < n; i++) vf_assert(p[i].id == i + 4 && runs_[i + 4] == 1, "every offspring is evaluated once"); vf_cover("generation"); }
    else if (vfPick("apply", 0, 1)) { Apply f; m.apply(f, p); for (int i = 0; i < n; i++) vf_assert(runs_[i] == 1, "the function is applied once to each individual"); vf_cover("applied"); } else { m.evaluate(p); for (int i = 0; i < n; i++) vf_assert(runs_[i] == 1 && p[i].fitness() == 100 + i, "each individual is evaluated once"); vf_cover("evaluated"); }
}
