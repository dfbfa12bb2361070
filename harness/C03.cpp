// C03: permutation operators, initializers and moves keep permutations.
//@ bounds every permutation (pair) of 2..n elements numbered from 0, or from 1 where the operator allows it; every draw, at most one repeated draw per pair of distinct positions; 1..2 swaps
//@ outside longer sequences; sequences of one element for the mutations
//@ entry swapMut covers=done quick="n=4" thorough="n=5"
//@ entry shiftMut covers=done quick="n=5" thorough="n=6"
//@ entry twoOptMut covers=done quick="n=5" thorough="n=6"
//@ entry order covers=done quick="n=4" thorough="n=5"
//@ entry order1 covers=done quick="n=3" thorough="n=4"
//@ entry pmx covers=done quick="n=4" thorough="n=5"
//@ entry init covers=done quick="n=4" thorough="n=6"
//@ entry moveSwap covers=done quick="n=5" thorough="n=6"
//@ entry moveIndexed covers=done quick="n=5" thorough="n=6"
//@ entry moveShift covers=done quick="n=5" thorough="n=6"
//@ entry moveTwoOpt covers=done quick="n=5" thorough="n=6"
//@ entry pipeline covers=done quick="n=3" thorough="n=4"
#include "chrom.h"
#include <eoSwapMutation.h>
#include <eoShiftMutation.h>
#include <eoTwoOptMutation.h>
#include <eoOrderXover.h>
#include <eoPartiallyMappedXover.h>
#include <problems/permutation/moSwapNeighbor.h>
#include <problems/permutation/moIndexedSwapNeighbor.h>
#include <problems/permutation/moShiftNeighbor.h>
#include <problems/permutation/moTwoOptExNeighbor.h>
static Ints perm(int n, int first) { std::vector<unsigned> p = symPerm(n); Ints x(n, 0); for (int i = 0; i < n; i++) x[i] = p[i] + first; return x; }
static void note(const char* s, const Ints& x) { long v = 0; for (unsigned i = 0; i < x.size(); i++) v = v * 10 + x[i]; vf_note(s, v); }
#define N vfPick("n", 2, P("n", 4))
static void mutate(eoMonOp<Ints>& op, int n) {
    int f = vfPick("first", 0, 1); Ints x = perm(n, f), x0 = x; vf_split_random = 1; bool r = op(x); note("x", x);
    vf_assert(isPerm(x, n, f), "each element exactly once"); if (!same(x, x0)) vf_assert(r, "a change is reported"); vf_cover("done");
}
static void cross(eoQuadOp<Ints>& op, int n, int f) {
    Ints x = perm(n, f), y = perm(n, f); vf_split_random = 1; op(x, y); note("x", x); note("y", y);
    vf_assert(isPerm(x, n, f) && isPerm(y, n, f), "each element exactly once in both children"); vf_cover("done");
}
ENTRY(swapMut) { int k = vfPick("swaps", 1, 2); vf_max_draws = 2 * k + 1; eoSwapMutation<Ints> op(k); mutate(op, N); }
ENTRY(shiftMut) { vf_max_draws = 3; eoShiftMutation<Ints> op; mutate(op, N); }
ENTRY(twoOptMut) { vf_max_draws = 3; eoTwoOptMutation<Ints> op; mutate(op, N); }
ENTRY(order) { eoOrderXover<Ints> op; int n = N; cross(op, n, 0); }
ENTRY(order1) { eoOrderXover<Ints> op; int n = N; cross(op, n, 1); }
ENTRY(pmx) { vf_max_draws = 3; eoPartiallyMappedXover<Ints> op; int n = vfPick("n", 1, P("n", 4)); cross(op, n, 0); }
ENTRY(init) {
    int n = vfPick("n", 1, P("n", 4)), f = vfPick("first", 0, 1); eoInitPermutation<Ints> in(n, f); Ints x(vfPick("before", 0, 2), 7); x.fitness(1); in(x); note("x", x);
    vf_assert(isPerm(x, n, f), "each element exactly once"); vf_assert(x.invalid(), "not evaluated"); vf_cover("done");
}
template <class NB> static void moved(NB& nb, Ints& x, int n, int f) { nb.move(x); note("x", x); vf_assert(isPerm(x, n, f), "each element exactly once"); vf_cover("done"); }
ENTRY(moveSwap) { int n = N, f = vfPick("first", 0, 1); Ints x = perm(n, f); moSwapNeighbor<Ints> nb; nb.setIndices(vfInt("i", 0, n - 1), vfInt("j", 0, n - 1)); moved(nb, x, n, f); }
ENTRY(moveIndexed) { int n = N, f = vfPick("first", 0, 1); Ints x = perm(n, f); moIndexedSwapNeighbor<Ints> nb; nb.index(x, vfPick("key", 0, n * (n - 1) / 2 - 1)); moved(nb, x, n, f); }
ENTRY(moveShift) { int n = N, f = vfPick("first", 0, 1); Ints x = perm(n, f); moShiftNeighbor<Ints> nb; nb.index(x, vfPick("key", 0, (n - 1) * (n - 1) - 1)); moved(nb, x, n, f); }
ENTRY(moveTwoOpt) { int n = N, f = vfPick("first", 0, 1); Ints x = perm(n, f); moTwoOptExNeighbor<Ints> nb; int i = vfPick("i", 0, n - 2); nb.setIndices(i, vfPick("j", i + 1, n - 1)); moved(nb, x, n, f); }
// two operators in a row
ENTRY(pipeline) {
    int n = N; Ints x = perm(n, 0), y = perm(n, 0); vf_split_random = 1; eoOrderXover<Ints> ox; eoPartiallyMappedXover<Ints> pmx; eoSwapMutation<Ints> sw; eoShiftMutation<Ints> sh; eoTwoOptMutation<Ints> to;
    vf_max_draws = 6; int q = vfPick("x", 0, 1), m = vfPick("m", 0, 2); if (q) ox(x, y); else pmx(x, y);
    if (m == 0) sw(x); else if (m == 1) sh(x); else to(x);
    note("x", x); note("y", y); vf_assert(isPerm(x, n, 0) && isPerm(y, n, 0), "each element exactly once"); vf_cover("done");
}
