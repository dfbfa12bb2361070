// C18: a move does what it announces and its undo restores the solution.
//@ bounds bit strings of 1..n bits with arbitrary content, integer sequences of 2..n arbitrary values, every neighbour index or position pair; copies and assignments of neighbours
//@ outside longer solutions; printing and reading of neighbours
//@ entry bit covers=done quick="n=8" thorough="n=16"
//@ entry bitsN covers=done quick="n=4" thorough="n=5"
//@ entry swp covers=done quick="n=5" thorough="n=7"
//@ entry indexed covers=done quick="n=6" thorough="n=8"
//@ entry indexedSet covers=done quick="n=6" thorough="n=8"
//@ entry shift covers=done quick="n=5" thorough="n=7"
//@ entry shiftSet covers=done quick="n=5" thorough="n=7"
//@ entry twoOpt covers=done quick="n=6" thorough="n=9"
#include "chrom.h"
#include <mo>
#include <problems/permutation/moSwapNeighbor.h>
#include <problems/permutation/moTwoOptExNeighbor.h>
#include <problems/permutation/moIndexedSwapNeighbor.h>
#include <problems/permutation/moShiftNeighbor.h>
#include <problems/bitString/moBitsNeighbor.h>
// applies the neighbour (the original, a copy or an assigned one), compares with the announced result, undoes it
template <class NB, class S> static void moveUndo(NB& nb0, S& s, const S& expect) {
    int how = vfPick("how", 0, 2); if (vfPick("evaluated", 0, 1)) nb0.fitness(4); NB copied(nb0), assigned; if (how == 2) { if (vfPick("stale", 0, 1)) assigned.fitness(9); assigned = nb0; }
    NB& nb = how == 0 ? nb0 : how == 1 ? copied : assigned;
    vf_assert(nb.invalid() == nb0.invalid(), "a copy is evaluated if and only if the original is"); if (!nb0.invalid()) vf_assert(nb.fitness() == nb0.fitness(), "a copy carries the same fitness"); vf_assert(nb.equals(nb0), "a copy equals the original");
    const S s0 = s; s.fitness(7); nb.move(s); vf_assert(s.invalid(), "the previous fitness is invalidated"); vf_assert(same(s, expect), "the neighbour announced by the description");
    nb.moveBack(s); vf_assert(same(s, s0), "undoing restores the content"); vf_cover("done");
}
template <class S> static S swapped(const S& s, int i, int j) { S t = s; std::swap(t[i], t[j]); return t; }
#define N(lo) vfPick("n", lo, P("n", 4))
ENTRY(bit) { int n = N(1), k = vfPick("k", 0, n - 1); Bits s = symBits(n), e = s; e[k] = !e[k]; moBitNeighbor<double> nb; nb.index(s, k); vf_assert((int)nb.index() == k, "index"); moveUndo(nb, s, e); }
ENTRY(bitsN) {
    int n = N(1), m = vfPick("mask", 0, (1 << n) - 1); Bits s = symBits(n), e = s; moBitsNeighbor<Bits> nb; nb.nBits = 0; for (int i = 0; i < n; i++) if (m >> i & 1) { nb.bits.push_back(i); nb.nBits++; e[i] = !e[i]; } moveUndo(nb, s, e);
}
ENTRY(swp) { int n = N(2), i = vfPick("i", 0, n - 1), j = vfPick("j", 0, n - 1); Ints s = symInts(n, 0, 9), e = swapped(s, i, j); moSwapNeighbor<Ints> nb; nb.setIndices(i, j); moveUndo(nb, s, e); }
ENTRY(indexed) {
    int n = N(2), k = vfPick("k", 0, n * (n - 1) / 2 - 1); Ints s = symInts(n, 0, 9); moIndexedSwapNeighbor<Ints> nb; nb.index(s, k); int i = nb.first(), j = nb.second();
    vf_assert((int)nb.index() == k, "index"); vf_assert(i >= 0 && i < j && j < n, "two distinct positions"); Ints e = swapped(s, i, j); moveUndo(nb, s, e);
}
ENTRY(indexedSet) {
    int n = N(2), i = vfPick("i", 0, n - 2), j = vfPick("j", i + 1, n - 1); Ints s = symInts(n, 0, 9), e = swapped(s, i, j); moIndexedSwapNeighbor<Ints> nb; nb.set(s, i, j); vf_assert((int)nb.first() == i && (int)nb.second() == j, "positions");
    moIndexedSwapNeighbor<Ints> nc; nc.index(s, nb.index()); vf_assert((int)nc.first() == i && (int)nc.second() == j, "the index denotes the same positions"); moveUndo(nb, s, e);
}
// the element at i is taken out and put back before the element that was at j (j = n: at the end)
static Ints inserted(const Ints& s, int i, int j) { Ints t(s); std::vector<int> v; int n = s.size(); for (int k = 0; k <= n; k++) { if (k == j) v.push_back(s[i]); if (k < n && k != i) v.push_back(s[k]); } for (int k = 0; k < n; k++) t[k] = v[k]; return t; }
ENTRY(shift) {
    int n = N(2), k = vfPick("k", 0, n * (n - 1) - 1); Ints s = symInts(n, 0, 9); moShiftNeighbor<Ints> nb; nb.index(s, k); int i = nb.first(), j = nb.second();
    vf_assert((int)nb.index() == k, "index"); vf_assert(i >= 0 && i < n && j >= 0 && j <= n && j != i && j != i + 1, "a move to another place"); Ints e = inserted(s, i, j); moveUndo(nb, s, e);
}
ENTRY(shiftSet) {
    int n = N(2), i = vfPick("i", 0, n - 1), j = vfPick("j", 0, n); vf_assume(j != i && j != i + 1); Ints s = symInts(n, 0, 9), e = inserted(s, i, j); moShiftNeighbor<Ints> nb; nb.set(s, i, j);
    moShiftNeighbor<Ints> nc; nc.index(s, nb.index()); vf_assert((int)nc.first() == i && (int)nc.second() == j, "the index denotes the same positions"); moveUndo(nb, s, e);
}
ENTRY(twoOpt) { int n = N(2), i = vfPick("i", 0, n - 2), j = vfPick("j", i + 1, n - 1); Ints s = symInts(n, 0, 9), e = s; for (int k = i; k <= j; k++) e[k] = s[i + j - k]; moTwoOptExNeighbor<Ints> nb; nb.setIndices(i, j); moveUndo(nb, s, e); }
