// C08: reduction and splitting of populations.
//@ bounds populations of 1..n individuals (n per entry), every fitness value in 0..f (ties included), every requested size 0..n+1, every random draw (rejection loops up to max_draws draws)
//@ outside larger populations; rejection loops that need more draws; tournament rates other than the listed ones
//@ entry truncMax covers=reduced,refused quick="n=3" thorough="n=4"
//@ entry truncMin covers=reduced,refused quick="n=3" thorough="n=4"
//@ entry linMax covers=reduced,refused quick="n=3" thorough="n=4"
//@ entry linMin covers=reduced,refused quick="n=3" thorough="n=4"
//@ entry randomMax covers=reduced,refused quick="n=3" thorough="n=4"
//@ entry epMax covers=reduced,refused quick="n=2 f=1;n=3 f=1 lo=3" thorough="n=3 f=2" jobs=4
//@ entry detMax covers=reduced,refused quick="n=3 f=1 draws=6" thorough="n=3 f=2 draws=8"
//@ entry detMin covers=reduced,refused quick="n=3 f=1 draws=6" thorough="n=3 f=2 draws=8"
//@ entry stochMax covers=reduced,refused quick="n=3 f=1" thorough="n=3 f=2" jobs=2
//@ entry stochMin covers=reduced,refused quick="n=3 f=1" thorough="n=3 f=2"
//@ entry sTrunc covers=split,refused quick="n=3" thorough="n=4"
//@ entry sLinear covers=split,refused quick="n=3" thorough="n=4"
//@ entry sLinearMin covers=split,refused quick="n=3" thorough="n=4"
//@ entry sRandom covers=split,refused quick="n=3 f=1" thorough="n=4 f=1"
//@ entry sLinRandom covers=split,refused quick="n=3 f=1" thorough="n=4 f=1"
//@ entry sDet covers=split,refused quick="n=3 f=1 draws=6" thorough="n=3 f=2 draws=8"
//@ entry sStoch covers=split,refused quick="n=3 f=1 draws=8" thorough="n=3 f=2 draws=9" jobs=2
#include "ind.h"
#include <eoReduceSplit.h>
template <class I> static void checkReduce(eoReduce<I>& r, bool trunc) {
    vf_max_draws = P("draws", 12);
    int n = vfPick("n", P("lo", 1), P("n", 3));
    int k = vfPick("k", 0, n + 1);
    eoPop<I> p = symPop<I>(n, 0, 0, P("f", 3)); eoPop<I> o = p;
    bool threw = false;
    try { r(p, k); } catch (std::exception&) { threw = true; }
    vf_assert(threw == (k > n), "refuses exactly larger sizes");
    if (threw) { vf_cover("refused"); return; }
    vf_assert((int)p.size() == k, "exact size");
    std::vector<int> seen(n, 0);
    for (auto& x : p) {
        int id = vf_concretize(x.id);
        vf_assert(id >= 0 && id < n, "kept individuals come from the original");
        vf_assert(!seen[id]++, "no individual is duplicated");
        vf_assert(!x.invalid() && x.fitness() == o[id].fitness(), "kept individuals are unchanged");
        vf_note("kept", id);
    }
    if (trunc) for (auto& x : p) for (int i = 0; i < n; i++) if (!seen[i]) vf_assert(!(x < o[i]), "truncation discards nobody better than someone kept");
    vf_cover("reduced");
}
template <class I> static void checkSplit(eoReduceSplit<I>& r, int e, bool trunc, bool ret, int n) {
    eoPop<I> p = symPop<I>(n, 0, 0, P("f", 3)); eoPop<I> o = p, out;
    int pre = vfPick("pre", 0, 1); if (pre) { I x(100); x.fitness(1.0); out.push_back(x); }
    bool threw = false;
    try { r(p, out); } catch (std::exception&) { threw = true; }
    vf_assert(threw == (e > n), "refuses exactly larger removals");
    if (threw) { vf_cover("refused"); return; }
    vf_assert((int)p.size() == n - e, "exact remaining size");
    vf_assert((int)out.size() == pre + (ret ? e : 0), "exact number handed back");
    vf_assert(!pre || out[0].id == 100, "earlier content of the receiver is kept");
    std::vector<int> seen(n, 0);
    for (auto& x : p) { int id = vf_concretize(x.id); vf_assert(id >= 0 && id < n && !seen[id], "kept individuals come from the original, once"); seen[id] = 1; vf_assert(!x.invalid() && x.fitness() == o[id].fitness(), "kept unchanged"); vf_note("kept", id); }
    for (size_t i = pre; i < out.size(); i++) { int id = vf_concretize(out[i].id); vf_assert(id >= 0 && id < n && !seen[id], "handed back exactly the removed individuals"); seen[id] = 2; vf_assert(!out[i].invalid() && out[i].fitness() == o[id].fitness(), "removed unchanged"); vf_note("removed", id); }
    if (trunc) for (auto& x : p) for (int i = 0; i < n; i++) if (seen[i] != 1) vf_assert(!(x < o[i]), "truncation discards nobody better than someone kept");
    vf_cover("split");
}
// removal count e (absolute) with the return flag on or off
#define SPLIT(I, T, trunc, ...) vf_max_draws = P("draws", 12); int n = vfPick("n", 1, P("n", 3)); int e = vfPick("e", 1, n + 1); bool ret = vfPick("ret", 0, 1); T<I> r(__VA_ARGS__ eoHowMany(e), ret); checkSplit<I>(r, e, trunc, ret, n);
ENTRY(truncMax) { eoTruncate<MaxInd> r; checkReduce<MaxInd>(r, true); }
ENTRY(truncMin) { eoTruncate<MinInd> r; checkReduce<MinInd>(r, true); }
ENTRY(linMax) { eoLinearTruncate<MaxInd> r; checkReduce<MaxInd>(r, true); }
ENTRY(linMin) { eoLinearTruncate<MinInd> r; checkReduce<MinInd>(r, true); }
ENTRY(randomMax) { eoRandomReduce<MaxInd> r; checkReduce<MaxInd>(r, false); }
ENTRY(epMax) { eoEPReduce<MaxInd> r(P("t", 2)); checkReduce<MaxInd>(r, false); }
ENTRY(detMax) { eoDetTournamentTruncate<MaxInd> r(P("t", 2)); checkReduce<MaxInd>(r, false); }
ENTRY(detMin) { eoDetTournamentTruncate<MinInd> r(P("t", 2)); checkReduce<MinInd>(r, false); }
ENTRY(stochMax) { eoStochTournamentTruncate<MaxInd> r(0.75); checkReduce<MaxInd>(r, false); }
ENTRY(stochMin) { eoStochTournamentTruncate<MinInd> r(1.0); checkReduce<MinInd>(r, false); }
ENTRY(sTrunc) { SPLIT(MaxInd, eoTruncateSplit, true) }
ENTRY(sLinear) { SPLIT(MaxInd, eoLinearTruncateSplit, true) }
ENTRY(sLinearMin) { SPLIT(MinInd, eoLinearTruncateSplit, true) }
ENTRY(sRandom) { SPLIT(MaxInd, eoRandomSplit, false) }
ENTRY(sLinRandom) { SPLIT(MaxInd, eoLinearRandomSplit, false) }
ENTRY(sStoch) { SPLIT(MaxInd, eoStochTournamentTruncateSplit, false, 0.75,) }
ENTRY(sDet) { SPLIT(MaxInd, eoDetTournamentTruncateSplit, false, 2,) }
