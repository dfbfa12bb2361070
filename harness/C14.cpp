// C14: counts and sizes given as rate, absolute count or signed count.
//@ bounds population sizes 0..n, rates every multiple of 1/64 in [-1,2] for the counting rule and any double in [0,1] for the size bound, counts -c..c; selectors, breeders and reducers on populations up to n with arbitrary random draws
//@ outside counts read from text; populations beyond the stated size
//@ entry rateGrid covers=done,refused quick="n=10" thorough="n=12"
//@ entry rateAny covers=done quick="n=5" thorough="n=7" opts="-fp-sym"
//@ entry counts covers=done,refused quick="n=10 c=12" thorough="n=12 c=14"
//@ entry opposite covers=done quick="n=6 c=6" thorough="n=10 c=10"
//@ entry reassign covers=done quick="n=6 c=6" thorough="n=10 c=10"
//@ entry selecting covers=done quick="n=4" thorough="n=5"
//@ entry breed covers=done,multi quick="n=4" thorough="n=5"
//@ entry reduce covers=done quick="n=4" thorough="n=5"
#include "ind.h"
#include <eoDetSelect.h>
#include <eoSelectPerc.h>
#include <eoSelectNumber.h>
#include <eoSelectMany.h>
#include <eoTruncSelect.h>
#include <eoTruncatedSelectMany.h>
#include <eoTruncatedSelectOne.h>
#include <eoRankMuSelect.h>
#include <eoOneToOneBreeder.h>
#include <eoGeneralBreeder.h>
#include <eoReduceSplit.h>
#include <eoReduceMerge.h>
// rate k/64 of n, rounded up
static int up(int k, int n) { return (k * n + 63) / 64; }
ENTRY(rateGrid) {
    int n = vfPick("size", 0, P("n", 6)), k = vfInt("rate64", -128, 128); bool threw = false; unsigned r = 0;
    try { eoHowMany h(k / 64.0); r = h(n); } catch (std::exception&) { threw = true; vf_cover("refused"); }
    vf_assert(threw == (k < -64), "only a rate below -1 is refused");
    if (threw) return;
    vf_assert((int)r == up(k < 0 ? 64 + k : k, n), "rate of the size rounded up (negative rate: complement)");
    if (k <= 64) vf_assert((int)r <= n, "a rate up to one never asks for more than the population");
    vf_cover("done");
}
ENTRY(rateAny) {
    int n = vfPick("size", 0, P("n", 3)); double rate = vfDouble("rate"); vf_assume(rate >= 0 && rate <= 1);
    eoHowMany h(rate); unsigned r = h(n);
    vf_assert((int)r <= n, "a rate up to one never asks for more than the population");
    vf_assert((double)r >= rate * n, "not fewer than the rate"); vf_assert(r == 0 || (double)(r - 1) < rate * n, "not one too many");
    vf_cover("done");
}
ENTRY(counts) {
    int n = vfPick("size", 0, P("n", 6)), c = vfInt("count", -P("c", 8), P("c", 8)); bool threw = false; unsigned r = 0;
    switch (vfPick("form", 0, 2)) {
    case 0: try { eoHowMany h(c); r = h(n); } catch (std::exception&) { threw = true; } break;
    case 1: try { eoHowMany h((double)c, false); r = h(n); } catch (std::exception&) { threw = true; } break;
    case 2: vf_assume(c >= 0); try { eoHowMany h((unsigned)c); r = h(n); } catch (std::exception&) { threw = true; } break;
    }
    vf_assert(threw == (c < 0 && -c > n), "only a negative result is refused");
    if (threw) { vf_cover("refused"); return; }
    vf_assert((int)r == (c >= 0 ? c : n + c), "count, or size minus count"); vf_cover("done");
}
ENTRY(opposite) { // unary minus: all but that many
    int n = vfPick("size", 0, P("n", 6));
    if (vfPick("rate", 0, 1)) { int k = vfInt("rate64", 0, 64); eoHowMany h(k / 64.0); eoHowMany g = -h; vf_assert((int)g(n) == up(64 - k, n), "complement of a rate"); }
    else { int c = vfInt("count", -P("c", 6), P("c", 6)); vf_assume(c <= n && c != 0); eoHowMany h(c); eoHowMany g = -h; vf_assert((int)g(n) == (c < 0 ? -c : n - c), "opposite of a count"); }
    vf_cover("done");
}
ENTRY(reassign) { // an object given a new value forgets the former one
    int n = vfPick("size", 0, P("n", 6)), c0 = vfInt("count0", 0, P("c", 6)), k0 = vfInt("rate0", 0, 64);
    eoHowMany h = vfPick("was", 0, 1) ? eoHowMany(c0) : eoHowMany(k0 / 64.0);
    if (vfPick("to", 0, 1)) { int k = vfInt("rate", -64, 64); h.value(k / 64.0, true); vf_assert((int)h(n) == up(k < 0 ? 64 + k : k, n), "rate given later"); }
    else { int c = vfInt("count", -P("c", 6), P("c", 6)); vf_assume(c >= -n); h.value(c, false); vf_assert((int)h(n) == (c >= 0 ? c : n + c), "count given later"); }
    vf_cover("done");
}
// a quantity and the number it announces for a population of n (announced < 0: refused)
static eoHowMany quantity(int n, int& want, double& v, bool& isRate) {
    if (vfPick("kind", 0, 1)) { int k = vfInt("rate4", 0, 8) * 16; v = k / 64.0; isRate = true; want = vf_concretize(up(k, n)); }
    else { int c = vfPick("count", -n, n + 2); v = c; isRate = false; want = c >= 0 ? c : n + c; }
    return eoHowMany(v, isRate);
}
ENTRY(selecting) {
    typedef MaxInd I; int n = vfPick("n", 1, P("n", 4)); eoPop<I> p = symPop<I>(n, 0, 0, 2), d; if (vfPick("dirty", 0, 1)) d = p;
    int want; double v; bool r; eoHowMany h = quantity(n, want, v, r); eoSequentialSelect<I> one; 
    switch (vfPick("by", 0, 6)) {
    case 0: { eoSelectMany<I> s(one, h); s(p, d); break; }
    case 1: { eoSelectMany<I> s(one, v, r); s(p, d); break; }
    case 2: { vf_assume(!r && v >= 0); eoSelectNumber<I> s(one, want); s(p, d); break; }
    case 3: { int k = vfInt("rate", 0, 8); eoSelectPerc<I> s(one, k / 4.0f); s(p, d); want = vf_concretize(k * n / 4); break; }
    case 4: { eoDetSelect<I> s(v, r); s(p, d); if (want == 0) want = 1; for (size_t i = 0; i < d.size(); i++) vf_assert(d[i].id == (int)i % n, "deterministic selection cycles through the population"); break; }
    case 5: { eoTruncSelect<I> s(one, h); s(p, d); break; }
    case 6: { int f = vfPick("fertile", 1, n); eoTruncatedSelectMany<I> s(one, h, eoHowMany(f)); s(p, d); break; }
    }
    vf_note("size", d.size()); vf_assert((int)d.size() == want, "as many selected as announced");
    for (auto& x : d) vf_assert(x.id >= 0 && x.id < n && !x.invalid(), "selected from the population");
    vf_cover("done");
}
struct Two : public eoQuadOp<MaxInd> { bool operator()(MaxInd& a, MaxInd& b) { std::swap(a.id, b.id); return true; } std::string className() const { return "Two"; } };
struct OneOp : public eoMonOp<MaxInd> { bool operator()(MaxInd& a) { a.id += 0; return vf_range("changed", 0, 1) != 0; } std::string className() const { return "One"; } };
struct Grow : public eoGenOp<MaxInd> { unsigned max_production(void) { return 3; } std::string className() const { return "Grow"; }
    void apply(eoPopulator<MaxInd>& it) { MaxInd a = *it; it.insert(a); it.insert(a); ++it; ++it; } };
struct Ev : public eoEvalFunc<MaxInd> { void operator()(MaxInd& x) { if (x.invalid()) x.fitness((double)vf_range("ev", 0, 2)); } };
ENTRY(breed) {
    typedef MaxInd I; int n = vfPick("n", 2, P("n", 3)); eoPop<I> p = symPop<I>(n, 0, 0, 2), d; if (vfPick("dirty", 0, 1)) d = p;
    int want; double v; bool r; eoHowMany h = quantity(n, want, v, r); eoSequentialSelect<I> one; vf_max_draws = 24;
    Two q; OneOp m; Grow g; Ev ev; eoMonGenOp<I> gm(m); eoQuadGenOp<I> gq(q); 
    switch (vfPick("by", 0, 4)) {
    case 0: { eoGeneralBreeder<I> b(one, gm, v, r); b(p, d); break; }
    case 1: { eoGeneralBreeder<I> b(one, gq, h); b(p, d); vf_cover("multi"); break; }
    case 2: { eoGeneralBreeder<I> b(one, g, h); b(p, d); break; }
    case 3: { vf_assume(want <= n); eoOneToOneBreeder<I> b(gm, ev, 1.0, h); b(p, d); break; }
    case 4: { eoSequentialOp<I> s; s.add(gq, 1.0); s.add(gm, 1.0); eoGeneralBreeder<I> b(one, s, h); b(p, d); break; }
    }
    vf_note("size", d.size()); vf_assert((int)d.size() == want, "as many offspring as announced");
    vf_assert((int)p.size() == n, "parents kept"); vf_cover("done");
}
ENTRY(reduce) {
    typedef MaxInd I; int n = vfPick("n", 1, P("n", 4)); eoPop<I> p = symPop<I>(n, 0, 0, 2), e;
    int want; double v; bool r; eoHowMany h = quantity(n, want, v, r); vf_assume(want <= n); vf_split_random = 1;
    switch (vfPick("by", 0, 3)) {
    case 0: { eoTruncateSplit<I> s(h, true); s(p, e); break; }
    case 1: { eoLinearTruncateSplit<I> s(h, true); s(p, e); break; }
    case 2: { eoRandomSplit<I> s(h, true); s(p, e); break; }
    case 3: { eoLinearRandomSplit<I> s(h, true); s(p, e); break; }
    }
    vf_assert((int)e.size() == want && (int)p.size() == n - want, "as many removed as announced"); vf_cover("done");
}
