// Shared driver for replacement harnesses: parents have ids 0..n-1, offspring 100..100+m-1.
#pragma once
#include "ind.h"
#include <eoMGGReplacement.h>
#include <eoG3Replacement.h>
#include <eoSurviveAndDie.h>
#include <eoReduceMergeReduce.h>
template <class I> struct Repl {
    int n, m; eoPop<I> par, off, p, o; bool threw; std::vector<int> sp, so;
    Repl(int nlo, int nhi, int mlo, int mhi) : threw(false) {
        n = vfPick("parents", nlo, nhi); m = vfPick("offspring", mlo, mhi);
        par = symPop<I>(n, 0, 0, P("f", 2)); off = symPop<I>(m, 100, 0, P("f", 2));
    }
    void run(eoReplacement<I>& r) { p = par; o = off; try { r(p, o); } catch (std::exception&) { threw = true; vf_cover("refused"); } }
    // size kept, only former parents and offspring, each at most once, unchanged
    void conserve(int size) {
        vf_assert((int)p.size() == size, "population size is preserved");
        sp.assign(n, 0); so.assign(m, 0);
        for (auto& x : p) {
            int id = vf_concretize(x.id); vf_note("member", id);
            bool isP = id >= 0 && id < n, isO = id >= 100 && id < 100 + m;
            vf_assert(isP || isO, "members are former parents or offspring");
            int& c = isP ? sp[id] : so[id - 100];
            vf_assert(c++ == 0, "each individual is used at most once");
            const I& src = isP ? par[id] : off[id - 100];
            vf_assert(!x.invalid() && x.fitness() == src.fitness(), "members are unchanged");
        }
        vf_cover("replaced");
    }
    bool hasBestParent() { // the best fitness of p is not worse than every parent's
        bool ok = true;
        for (auto& a : par) { bool beat = false; for (auto& x : p) if (!(x < a)) beat = true; if (!beat) ok = false; }
        return ok;
    }
};
