// C16: neighbourhoods present every neighbour exactly once.
//@ bounds neighbourhood sizes 1..n, one pass and a re-initialised second pass after 0..2 steps, every integer draw; permutations of 2..n elements; bit strings of 1..n bits with 1..3 flipped bits
//@ outside larger neighbourhoods; neighbourhoods declared empty (they announce that there is no neighbour)
//@ entry ordered covers=done quick="n=8" thorough="n=16"
//@ entry withoutRepl covers=done quick="n=4" thorough="n=5"
//@ entry withRepl covers=done quick="n=4" thorough="n=6"
//@ entry resized covers=done quick="n=3" thorough="n=4"
//@ entry swaps covers=done quick="n=6" thorough="n=9"
//@ entry twoOpt covers=done quick="n=6" thorough="n=9"
//@ entry indexedSwaps covers=done quick="n=6" thorough="n=9"
//@ entry shifts covers=done quick="n=5" thorough="n=7"
//@ entry bitsWithout covers=done quick="n=3" thorough="n=4"
//@ entry bitsWith covers=done quick="n=3" thorough="n=4"
//@ entry bitsFlip covers=done quick="n=3" thorough="n=4"
//@ entry evaluated covers=done quick="n=4" thorough="n=6"
#include "chrom.h"
#include <mo>
#include <problems/permutation/moSwapNeighborhood.h>
#include <problems/permutation/moTwoOptExNeighborhood.h>
#include <problems/permutation/moIndexedSwapNeighbor.h>
#include <problems/permutation/moShiftNeighbor.h>
#include <problems/bitString/moBitsNeighbor.h>
#include <problems/bitString/moBitsWithoutReplNeighborhood.h>
#include <problems/bitString/moBitsWithReplNeighborhood.h>
#include <problems/bitString/moBitFlipNeighborhood.h>
typedef moBitNeighbor<double> BN;
// starts a pass, abandons it after some steps, then makes a full pass that must present 0..n-1 (each once when once)
template <class NB, class NH> static void pass(NH& nh, typename NB::EOT& s, int n, int count, bool once, bool inOrder) {
    NB nb; vf_split_random = 1; vf_assert(nh.hasNeighbor(s), "there is a neighbour");
    int before = vfPick("before", -1, count > 1 ? 1 : 0);
    if (before >= 0) { nh.init(s, nb); if (before) nh.next(s, nb); }
    std::vector<int> seen(n, 0); int k = 1;
    nh.init(s, nb);
    for (;; k++) {
        int i = nb.index(); vf_assert(i >= 0 && i < n, "index in range"); if (inOrder) vf_assert(i == k - 1, "in order"); seen[i]++;
        if (!nh.cont(s)) break;
        vf_assert(k < count, "not more neighbours than announced"); nh.next(s, nb);
    }
    vf_assert(k == count, "as many neighbours as announced");
    if (once) for (int i = 0; i < n; i++) vf_assert(seen[i] == 1, "each neighbour exactly once");
    vf_note("count", k); vf_cover("done");
}
ENTRY(ordered) { int n = vfPick("n", 1, P("n", 4)); Bits b(n, false); moOrderNeighborhood<BN> nh(n); pass<BN>(nh, b, n, n, true, true); }
ENTRY(withoutRepl) { int n = vfPick("n", 1, P("n", 4)); Bits b(n, false); moRndWithoutReplNeighborhood<BN> nh(n); pass<BN>(nh, b, n, n, true, false); }
ENTRY(withRepl) { int n = vfPick("n", 1, P("n", 4)), m = vfPick("max", 1, 3); Bits b(n, false); moRndWithReplNeighborhood<BN> nh(n, m); pass<BN>(nh, b, n, m, false, false); }
ENTRY(resized) {
    int n = vfPick("n", 1, P("n", 4)), m = vfPick("m", 1, P("n", 4)); Bits b(n, false); vf_max_draws = 20;
    if (vfPick("which", 0, 1)) { moRndWithoutReplNeighborhood<BN> nh(m); if (vfPick("used", 0, 1)) { BN nb; vf_split_random = 1; nh.init(b, nb); } nh.setNeighborhoodSize(n); vf_assert((int)nh.getNeighborhoodSize() == n, "declared size"); pass<BN>(nh, b, n, n, true, false); }
    else { moOrderNeighborhood<BN> nh(m); nh.setNeighborhoodSize(n); pass<BN>(nh, b, n, n, true, true); }
}
// pairs i < j, each once
template <class NB, class NH> static void pairs() {
    int n = vfPick("n", 1, P("n", 4)); Ints s(n, 0); for (int i = 0; i < n; i++) s[i] = i; NH nh; NB nb;
    vf_assert(nh.hasNeighbor(s) == (n > 1), "neighbours exist from two elements on"); if (n < 2) return;
    int before = vfPick("before", 0, 2); nh.init(s, nb); for (int i = 0; i < before && nh.cont(s); i++) nh.next(s, nb);
    std::vector<int> seen(n * n, 0); int k = 1; nh.init(s, nb);
    for (;; k++) { unsigned i, j; nb.getIndices(i, j); vf_assert(i < j && (int)j < n, "a pair of distinct positions"); seen[i * n + j]++; if (!nh.cont(s)) break; vf_assert(k < n * n, "ends"); nh.next(s, nb); }
    for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) vf_assert(seen[i * n + j] == 1, "each pair exactly once");
    vf_assert(k == n * (n - 1) / 2, "as many as pairs"); vf_cover("done");
}
ENTRY(swaps) { pairs<moSwapNeighbor<Ints>, moSwapNeighborhood<Ints>>(); }
ENTRY(twoOpt) { pairs<moTwoOptExNeighbor<Ints>, moTwoOptExNeighborhood<Ints>>(); }
// index neighbours over permutations: the indices enumerate distinct results
template <class NB> static void distinct(int n, int count, bool results) {
    Ints s(n, 0); for (int i = 0; i < n; i++) s[i] = i; moOrderNeighborhood<NB> nh(count); NB nb; std::vector<Ints> all; nh.init(s, nb); int k = 1;
    for (;; k++) { Ints t = s; nb.move(t); vf_assert(!same(t, s), "a neighbour differs from the solution"); if (results) for (auto& o : all) vf_assert(!same(t, o), "two indices never give the same neighbour"); all.push_back(t); vf_assert((int)nb.first() < n && (int)nb.second() <= n, "positions of the sequence"); NB nc; nc.set(s, nb.first(), nb.second()); vf_assert(nc.index() == nb.index(), "index and positions correspond"); if (!nh.cont(s)) break; nh.next(s, nb); }
    vf_assert(k == count, "all of them"); vf_cover("done");
}
ENTRY(indexedSwaps) { int n = vfPick("n", 2, P("n", 4)); distinct<moIndexedSwapNeighbor<Ints>>(n, n * (n - 1) / 2, true); }
ENTRY(shifts) { int n = vfPick("n", 2, P("n", 4)); distinct<moShiftNeighbor<Ints>>(n, n * (n - 1), false); } // adjacent exchanges have two descriptions
typedef moBitsNeighbor<Bits> MB;
static int choose(int n, int k) { int r = 1; for (int i = 0; i < k; i++) r = r * (n - i) / (i + 1); return r; }
static unsigned maskOf(MB& nb, int n) { unsigned m = 0; for (unsigned i = 0; i < nb.nBits; i++) { vf_assert((int)nb.bits[i] < n, "a position of the string"); vf_assert(!(m >> nb.bits[i] & 1), "distinct positions"); m |= 1u << nb.bits[i]; } return m; }
// runs a pass over multi-bit neighbours
template <class NH> static void bits(NH& nh, int n, int d, bool exact, int count, bool once) {
    Bits b(n, false); MB nb; vf_split_random = 1; vf_max_draws = 40; vf_assert(nh.hasNeighbor(b), "there is a neighbour"); std::vector<int> seen(1 << n, 0); int k = 1;
    if (vfPick("before", 0, 1)) nh.init(b, nb);
    nh.init(b, nb);
    for (;; k++) {
        unsigned m = maskOf(nb, n); int c = __builtin_popcount(m); vf_assert(exact ? c == d : c >= 1 && c <= d, "announced number of flipped bits"); if (once) vf_assert(!seen[m]++, "no neighbour twice");
        Bits t = b; nb.move(t); for (int i = 0; i < n; i++) vf_assert(t[i] == (bool)(m >> i & 1), "the announced bits are flipped");
        if (!nh.cont(b)) break; vf_assert(k < count, "not more neighbours than announced"); nh.next(b, nb);
    }
    vf_assert(k == count, "as many neighbours as announced"); vf_note("count", k); vf_cover("done");
}
static int total(int n, int d, bool exact) { if (exact) return choose(n, d); int t = 0; for (int i = 1; i <= d; i++) t += choose(n, i); return t; }
ENTRY(bitsWithout) { int n = vfPick("n", 1, P("n", 3)), d = vfPick("d", 1, n), e = vfPick("exact", 0, 1), t = total(n, d, e), s = vfPick("sample", 0, 3); vf_assume(t <= 6); moBitsWithoutReplNeighborhood<MB> nh(n, d, s, e); bits(nh, n, d, e, s == 0 || s > t ? t : s, true); }
ENTRY(bitsWith) { int n = vfPick("n", 1, P("n", 3)), d = vfPick("d", 1, n), e = vfPick("exact", 0, 1), t = total(n, d, e), s = vfPick("sample", 1, 2); moBitsWithReplNeighborhood<MB> nh(n, d, s, e); bits(nh, n, d, e, s > t ? t : s, false); }
ENTRY(bitsFlip) {
    int n = vfPick("n", 1, P("n", 3)), s = vfPick("sample", 1, 2); moBitFlipNeighborhood<MB> nh(0.5, n, s); Bits b(n, false); MB nb; vf_assert(nh.hasNeighbor(b), "there is a neighbour"); int k = 1; nh.init(b, nb);
    for (;; k++) { maskOf(nb, n); vf_assert(nb.bits.size() == nb.nBits, "positions listed"); if (!nh.cont(b)) break; vf_assert(k < s, "not more than the sample"); nh.next(b, nb); }
    vf_assert(k == s, "as many as the sample"); vf_cover("done");
}
struct NhEval : public moNeighborhoodEvaluation<BN> { int calls = 0; void operator()(Bits&) { calls++; } };
ENTRY(evaluated) {
    int n = vfPick("n", 1, P("n", 4)); Bits b(n, false); NhEval ev; moOrderNeighborhood<BN> o(n); moEvaluatedNeighborhood<BN> nh(o, ev);
    pass<BN>(nh, b, n, n, true, true); vf_assert(ev.calls >= 1, "the neighbourhood is evaluated when a pass starts");
}
