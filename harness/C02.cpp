// C02: crossovers exchange alleles position by position, bit mutations flip what they announce.
//@ bounds chromosomes of 1..n genes with arbitrary content (bits; integers 0..5 and reals -3..3 for the crossovers), every draw, 1..3 cut points, gene sizes 1..n, flip counts 0..n
//@ outside chromosomes of unequal length; longer chromosomes; the component-wise operators of eoFlOrBinOp.h and eoFlOrQuadOp.h, which do not compile; more than vf_max_draws draws (repeated picks of the same cut point)
//@ entry onePointBits covers=done,changed quick="n=6" thorough="n=10"
//@ entry onePointInts covers=done,changed quick="n=4" thorough="n=6"
//@ entry uniformBits covers=done,changed quick="n=4" thorough="n=6"
//@ entry uniformReals covers=done,changed quick="n=3" thorough="n=4"
//@ entry nPointBits covers=done,changed quick="n=4" thorough="n=6"
//@ entry nPointInts covers=done,changed quick="n=3" thorough="n=4"
//@ entry geneBits covers=done,changed quick="n=5" thorough="n=8"
//@ entry geneInts covers=done,changed quick="n=4" thorough="n=6"
//@ entry oneFlip covers=done quick="n=6" thorough="n=10"
//@ entry detFlip covers=done quick="n=5" thorough="n=7"
//@ entry singleFlip covers=done quick="n=4" thorough="n=5"
//@ entry bitMutation covers=done,none quick="n=5" thorough="n=7"
//@ entry inversion covers=done quick="n=4" thorough="n=6"
//@ entry nextPrev covers=done quick="n=6" thorough="n=12"
//@ entry standard covers=done quick="n=3" thorough="n=4"
//@ entry uniformMutation covers=done quick="n=4" thorough="n=5"
//@ entry conditional covers=done quick="n=3" thorough="n=4"
//@ entry shifted covers=done quick="n=3" thorough="n=4"
//@ entry normalMutation covers=done quick="n=3" thorough="n=4" opts="-enum 2000"
//@ entry fast covers=done quick="n=4" thorough="n=4" opts="-enum 2000"
//@ entry bucket covers=done quick="n=4" thorough="n=5"
#include "chrom.h"
#include <ga/eoStandardBitMutation.h>
// applies a crossover and checks the conservation of the two values held at each position
template <class C> static void cross(eoQuadOp<C>& op, int n) {
    C a = symOf<C>(n), b = symOf<C>(n); const C a0 = a, b0 = b;
    bool r = op(a, b);
    vf_assert((int)a.size() == n && (int)b.size() == n, "lengths unchanged");
    bool ch = false;
    for (int i = 0; i < n; i++) {
        vf_assert((a[i] == a0[i] && b[i] == b0[i]) || (a[i] == b0[i] && b[i] == a0[i]), "the children hold at each position the two values of the parents");
        ch |= a[i] != a0[i] || b[i] != b0[i];
    }
    if (ch) vf_assert(r, "a change is reported");
    if (ch) vf_cover("changed");
    vf_note("changed", ch); vf_cover("done");
}
static int N(int lo) { return vfPick("n", lo, P("n", 4)); }
ENTRY(onePointBits) { eo1PtBitXover<Bits> op; cross<Bits>(op, N(1)); }
ENTRY(onePointInts) { eo1PtBitXover<Ints> op; cross<Ints>(op, N(1)); }
ENTRY(uniformBits) { eoUBitXover<Bits> op(vfPick("p4", 1, 3) / 4.0f); cross<Bits>(op, N(1)); }
ENTRY(uniformReals) { eoRealUXover<Reals> op(vfPick("p4", 1, 3) / 4.0f); cross<Reals>(op, N(1)); }
ENTRY(nPointBits) { vf_split_random = 1; vf_max_draws = 6; eoNPtsBitXover<Bits> op(vfPick("points", 1, 3)); cross<Bits>(op, N(1)); }
ENTRY(nPointInts) { vf_split_random = 1; vf_max_draws = 6; eoNPtsBitXover<Ints> op(vfPick("points", 1, 3)); cross<Ints>(op, N(1)); }
ENTRY(geneBits) { vf_split_random = 1; vf_max_draws = 5; int n = N(1); eoBitGxOver<Bits> op(vfPick("gene", 1, n), vfPick("points", 1, 3)); cross<Bits>(op, n); }
ENTRY(geneInts) { vf_split_random = 1; vf_max_draws = 5; eoBitGxOver<Ints> op(vfPick("gene", 1, P("n", 4) + 1), vfPick("points", 1, 3)); cross<Ints>(op, N(1)); }
// applies a mutation; returns the number of positions that changed
static int mut(eoMonOp<Bits>& op, Bits& b, bool& r) {
    int n = b.size(); const Bits b0 = b; r = op(b);
    vf_assert((int)b.size() == n, "length unchanged");
    int d = differ(b, b0); if (d > 0) vf_assert(r, "a change is reported"); vf_cover("done"); vf_note("flips", d);
    return d;
}
ENTRY(oneFlip) { Bits b = symBits(N(1)); eoOneBitFlip<Bits> op; bool r; vf_assert(mut(op, b, r) == 1 && r, "exactly one bit changes"); }
ENTRY(detFlip) {
    Bits b = symBits(N(1)); int k = vfPick("k", 0, 3); eoDetBitFlip<Bits> op(k); bool r; int d = mut(op, b, r);
    vf_assert(d <= k && (k - d) % 2 == 0, "k flips, a position drawn twice flips back"); if (k == 1) vf_assert(d == 1, "one flip changes one bit");
}
ENTRY(singleFlip) {
    int n = N(1), k = vfPick("k", 0, n); Bits b = symBits(n); eoDetSingleBitFlip<Bits> op(k); bool r; vf_split_random = 1;
    if (vfPick("later", 0, 1)) { op.number_bits(n - k); k = n - k; }
    vf_assert(mut(op, b, r) == k, "exactly the announced number of distinct bits changes"); vf_assert(r == (k > 0), "reported exactly when something changes");
}
ENTRY(bitMutation) {
    int n = N(1); bool norm = vfPick("norm", 0, 1); if (norm) vf_assume((n & (n - 1)) == 0); int q = vfPick("p4", 0, 4); Bits b = symBits(n); eoBitMutation<Bits> op(norm ? q * n / 4.0 : q / 4.0, norm); bool r; int d = mut(op, b, r);
    vf_assert(r == (d > 0), "reported exactly when something changes"); if (q == 0) { vf_assert(d == 0, "rate zero changes nothing"); vf_cover("none"); } if (q == 4) vf_assert(d == n, "rate one changes every bit");
}
ENTRY(inversion) {
    int n = N(1); Bits b = symBits(n); const Bits b0 = b; eoBitInversion<Bits> op; bool r; vf_split_random = 1; vf_max_draws = 3; mut(op, b, r);
    // a contiguous range has been reversed
    bool ok = false; for (int i = 0; i < n; i++) for (int j = i; j < n; j++) { bool m = true; for (int k = 0; k < n; k++) m &= b[k] == b0[k >= i && k <= j ? i + j - k : k]; ok |= m; }
    vf_assert(ok, "one contiguous range is reversed");
}
ENTRY(nextPrev) {
    int n = N(1); Bits b = symBits(n); const Bits b0 = b; bool up = vfPick("up", 0, 1); bool r; eoBitNext<Bits> nx; eoBitPrev<Bits> pv; mut(up ? (eoMonOp<Bits>&)nx : (eoMonOp<Bits>&)pv, b, r);
    unsigned v = 0, w = 0; for (int i = 0; i < n; i++) { v = 2 * v + b0[i]; w = 2 * w + b[i]; }
    vf_assert(w == ((v + (up ? 1 : -1)) & ((1u << n) - 1)), "the binary value is incremented or decremented"); vf_assert(r, "reported");
}
ENTRY(standard) {
    int n = N(1); Bits b = symBits(n); int q = vfPick("p4", 0, 4); eoStandardBitMutation<Bits> op(q / 4.0); bool r; vf_split_random = 1; vf_rbits = 6;
    int d = mut(op, b, r); vf_assert(r == (d > 0), "reported exactly when something changes"); if (q == 4) vf_assert(d == n, "rate one changes every bit");
}
ENTRY(uniformMutation) { int n = N(1); Bits b = symBits(n); eoUniformBitMutation<Bits> op; bool r; vf_split_random = 1; int d = mut(op, b, r); vf_assert(d < n && d == (int)vf_log[0], "exactly the drawn number of distinct bits changes"); vf_assert(r == (d > 0), "reported exactly when something changes"); }
ENTRY(conditional) { int n = N(1); Bits b = symBits(n); eoConditionalBitMutation<Bits> op(vfPick("p4", 0, 4) / 4.0); bool r; vf_split_random = 1; vf_rbits = 6; vf_max_draws = 2 * n + 2; int d = mut(op, b, r); vf_assert(d >= 1 && r, "at least one bit changes"); }
ENTRY(shifted) { int n = N(1); Bits b = symBits(n); eoShiftedBitMutation<Bits> op(vfPick("p4", 0, 4) / 4.0); bool r; vf_split_random = 1; vf_rbits = 6; int d = mut(op, b, r); vf_assert(d >= 1 && r, "at least one bit changes"); }
ENTRY(normalMutation) { int n = N(2); Bits b = symBits(n); eoNormalBitMutation<Bits> op(vfPick("mean", 1, 2), 1.0); bool r; vf_split_random = 1; int d = mut(op, b, r); vf_assert(d < n, "fewer flips than bits"); vf_assert(r == (d > 0), "reported exactly when something changes"); }
ENTRY(fast) { int n = N(2); Bits b = symBits(n); eoFastBitMutation<Bits> op(1.5); bool r; vf_split_random = 1; vf_rbits = 4; int d = mut(op, b, r); vf_assert(r == (d > 0), "reported exactly when something changes"); }
ENTRY(bucket) {
    int n = N(2); Bits b = symBits(n); int m = vfPick("mid", 1, n); std::vector<std::vector<int>> bk = {{1, m}, {m, n}}; eoBucketBitMutation<Bits> op(bk, std::vector<double>{1.0 * vfPick("w0", 0, 1), 1.0});
    bool r; vf_split_random = 1; vf_rbits = 6; int d = mut(op, b, r); vf_assert(d >= 1 && d <= n, "the number of flips lies in a bucket");
}
