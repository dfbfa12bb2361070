// Minimal evaluated individual: an identity plus a symbolic fitness.
#pragma once
#include "common.h"
#include <eo>
template <class F> struct Ind : public EO<F> {
    int id;
    Ind(int i = -1) : id(i) {}
    std::string className() const { return "Ind"; }
    bool operator==(const Ind& o) const { return id == o.id; }
};
typedef Ind<double> MaxInd;
typedef Ind<eoMinimizingFitness> MinInd;
template <class I> eoPop<I> symPop(unsigned n, int base, int lo, int hi) {
    eoPop<I> p; p.reserve(n);
    for (unsigned i = 0; i < n; i++) { I x(base + i); x.fitness((double)vf_range("fit", lo, hi)); p.push_back(x); }
    return p;
}
