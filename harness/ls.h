// Local search over small search spaces with an arbitrary fitness landscape: bit strings and permutations whose fitness is read from a table.
#pragma once
#include "chrom.h"
#include <mo>
typedef eoMinimizingFitness MinF;
static int vf_land[32]; static unsigned vf_evals = 0;
static void landscape(int size, int hi) { for (int i = 0; i < size; i++) vf_land[i] = vfInt("fit", 0, hi); }
template <class F> static int codeOf(const eoBit<F>& s) { int c = 0; for (unsigned i = 0; i < s.size(); i++) c |= (s[i] ? 1 : 0) << i; return c; }
template <class F> static int codeOf(const eoInt<F>& s) { int c = 0, n = s.size(); for (int i = 0; i < n; i++) { int r = 0; for (int j = i + 1; j < n; j++) r += s[j] < s[i]; c = c * (n - i) + r; } return c; }
template <class S> struct Table : eoEvalFunc<S> { void operator()(S& s) { vf_evals++; s.fitness(vf_land[codeOf(s)]); } };
template <class S> static int valueOf(const S& s) { return vf_land[codeOf(s)]; }
template <class S> static bool consistent(const S& s) { return !s.invalid() && (double)s.fitness() == (double)valueOf(s); }
template <class F> struct Dir { static bool better(int a, int b) { return a > b; } };
template <> struct Dir<MinF> { static bool better(int a, int b) { return a < b; } };
template <class F> static eoBit<F> pickStart(int n) { eoBit<F> s(n, false); int m = vfPick("start", 0, (1 << n) - 1); for (int i = 0; i < n; i++) s[i] = m >> i & 1; return s; }
template <class F> static eoBit<F> flipped(const eoBit<F>& s, int k) { eoBit<F> t = s; t[k] = !t[k]; return t; }
// a neighbour evaluation, by copy or by modification
template <class NB> struct AnyEval : moEval<NB> {
    typedef typename NB::EOT S; Table<S> full; moFullEvalByCopy<NB> copy; moFullEvalByModif<NB> modif; int how;
    AnyEval() : copy(full), modif(full), how(0) {}
    void operator()(S& s, NB& nb) { if (how) modif(s, nb); else copy(s, nb); }
};
