// C06: ranges of random draws and roulette weights, on the real eoRng::random/uniform/flip with an arbitrary generator word.
//@ nostub vf_random_stub
//@ bounds every 32-bit generator word; integer limits m in 1..2^21 and the listed larger ones; real intervals with ends on a grid of 1/16 within +-4096; 1..n weights k/8 with k in 0..w, plus float weights around 2^24
//@ outside limits m above 2^21 other than 2^22-1, 2^24, 2^31, 2^32-1; all-zero weights for eoRng::roulette_wheel; totals not equal to the sum of the weights; denormal weights
//@ entry below covers=done
//@ entry belowLarge covers=done opts="-fp-sym"
//@ entry interval covers=done
//@ entry flips covers=done,mixed
//@ entry wheel covers=done,zero quick="n=4 w=3" thorough="n=5 w=4"
//@ entry wheelInt covers=done quick="n=4 w=3" thorough="n=5 w=4"
//@ entry wheelFloat covers=done quick="n=3"
//@ entry wheelPop covers=done quick="n=3 w=3" thorough="n=4 w=3"
//@ entry wheelIter covers=done quick="n=4 w=3" thorough="n=5 w=3"
//@ entry choices covers=done quick="n=5" thorough="n=7"
//@ entry shuffles covers=done quick="n=4" thorough="n=5"
//@ entry binomials covers=done quick="n=4" thorough="n=6"
#include "ind.h"
#include <utils/selectors.h>
#include <utils/rnd_generators.h>
static eoRng& G() { return eo::rng; }
ENTRY(below) {
    uint32_t m = (uint32_t)vf_range("m", 1, 1 << 21);
    switch (vfPick("via", 0, 5)) {
    case 0: { uint32_t r = G().random(m); vf_assert(r < m, "integer draw below m"); break; }
    case 1: { random_generator<uint32_t> g(m); uint32_t r = g(); vf_assert(r < m, "integer generator below its limit"); break; }
    case 2: { UF_random_generator<uint32_t> g(m); vf_assert(g() < m && g(m) < m, "integer functor below its limit"); break; }
    case 3: { int lo = vfInt("lo", -1000, 1000), wd = vfPick("rev", 0, 1) ? -vfInt("w", 1, 1000) : vfInt("w", 1, 1000), hi = lo + wd; bool threw = false;
        try { random_generator<int> g(lo, hi); int r = g(); vf_assert(r >= lo && r < hi, "integer generator in its interval"); } catch (std::exception&) { threw = true; }
        vf_assert(threw == (lo > hi), "only a reversed interval is refused"); break; }
    case 4: { int r = eo::random<int>((int)m); vf_assert(r >= 0 && r < (int)m, "eo::random below its limit"); break; }
    case 5: { int lo = vfInt("lo", -1000, 1000); int w = vfInt("w", 1, 1000); int r = eo::random<int>(lo, lo + w); vf_assert(r >= lo && r < lo + w, "eo::random in its interval"); break; }
    }
    vf_cover("done");
}
ENTRY(belowLarge) {
    static const uint32_t M[] = {(1u << 22) - 1, 1u << 24, 1u << 31, 0xffffffffu};
    uint32_t m = M[vfPick("which", 0, 3)]; uint32_t r = G().random(m); vf_assert(r < m, "integer draw below m"); vf_cover("done");
}
ENTRY(interval) {
    double m = (double)vf_range("m16", 1, 65536) / 16; double lo = (double)vf_range("lo16", -65536, 65536) / 16, hi = (double)vf_range("hi16", -65536, 65536) / 16;
    switch (vfPick("via", 0, 5)) {
    case 0: { double r = G().uniform(m); vf_assert(r >= 0 && r < m, "real draw below m"); break; }
    case 1: { vf_assume(lo <= hi); double r = G().uniform(lo, hi); vf_assert(r >= lo && r <= hi && (r < hi || lo == hi), "real draw in its interval"); break; }
    case 2: { double r = G().uniform(); vf_assert(r >= 0 && r < 1, "unit draw"); break; }
    case 3: { bool threw = false; try { uniform_generator<double> g(lo, hi); double r = g(); vf_assert(r >= lo && r <= hi, "real generator in its interval"); } catch (std::exception&) { threw = true; } vf_assert(threw == (lo > hi), "only a reversed interval is refused"); break; }
    case 4: { uniform_generator<double> g(m); double r = g(); vf_assert(r >= 0 && r < m, "real generator below its limit"); break; }
    case 5: { vf_assume(lo <= hi); double r = eo::random<double>(lo, hi); vf_assert(r >= lo && r <= hi, "eo::random in its interval"); double s = eo::random<double>(m); vf_assert(s >= 0 && s < m, "eo::random below its limit"); break; }
    }
    vf_cover("done");
}
ENTRY(flips) {
    int k = vfInt("p1024", 0, 1024); double p = k / 1024.0; bool f;
    switch (vfPick("via", 0, 1)) { case 0: f = G().flip(p); break; default: { boolean_generator b(p); f = b(); } }
    if (k == 0) vf_assert(!f, "probability zero never happens"); else if (k == 1024) vf_assert(f, "probability one always happens"); else if (f) vf_cover("mixed");
    vf_cover("done");
}
ENTRY(wheel) {
    int n = vfPick("n", 1, P("n", 4)); std::vector<double> w; int s = 0; for (int i = 0; i < n; i++) { int k = vfInt("w8", 0, P("w", 3)); w.push_back(k / 8.0); s += k; }
    vf_assume(s > 0); int r = vfPick("given", 0, 1) ? G().roulette_wheel(w, s / 8.0) : G().roulette_wheel(w);
    r = vf_concretize(r); vf_note("r", r); vf_assert(r >= 0 && r < n, "valid index"); vf_assert(w[r] > 0, "drawn weight is positive"); 
    for (int i = 0; i < n; i++) if (w[i] == 0) vf_cover("zero"); vf_cover("done");
}
ENTRY(wheelInt) {
    int n = vfPick("n", 1, P("n", 4)); std::vector<int> w; int s = 0; for (int i = 0; i < n; i++) { int k = vfInt("w", 0, P("w", 3)); w.push_back(k); s += k; }
    vf_assume(s > 0); int r = vfPick("given", 0, 1) ? G().roulette_wheel(w, s) : G().roulette_wheel(w);
    r = vf_concretize(r); vf_assert(r >= 0 && r < n, "valid index"); vf_assert(w[r] > 0, "drawn weight is positive"); vf_cover("done");
}
ENTRY(wheelFloat) { // the shares are so large that their sum is not a float
    std::vector<float> w; w.push_back(16777216.0f); for (int i = 1; i < P("n", 3); i++) w.push_back((float)vfPick("w", 0, 3)); vf_rbits = 4;
    int r = vf_concretize(G().roulette_wheel(w)); vf_assert(r >= 0 && r < (int)w.size(), "valid index"); vf_assert(w[r] > 0, "drawn weight is positive"); vf_cover("done");
}
ENTRY(wheelPop) {
    int n = vfPick("n", 1, P("n", 3)), big = vfPick("big", 0, 1); eoPop<MaxInd> p; double s = 0; int tot = 0; if (big) vf_rbits = 5;
    for (int i = 0; i < n; i++) { int k = big ? vfPick("w", 0, 2) : vfInt("w", 0, P("w", 3)); double v = big && k ? 16777215.0 + k : k; MaxInd x(i); x.fitness(v); p.push_back(x); tot += k; }
    s = sum_fitness(p); const eoPop<MaxInd>& c = p; 
    const MaxInd* r = vfPick("const", 0, 1) ? &roulette_wheel(c, s) : &roulette_wheel(p, s);
    long k = vf_concretize(r - &p[0]); vf_note("k", k); vf_assert(k >= 0 && k < n, "drawn from the population"); if (tot > 0) vf_assert(p[k].fitness() > 0, "drawn share is positive");
    vf_cover("done");
}
ENTRY(wheelIter) {
    int n = vfPick("n", 1, P("n", 4)); std::vector<double> w; int s = 0; for (int i = 0; i < n; i++) { int k = vfInt("w", 0, P("w", 3)); w.push_back(k / 8.0); s += k; }
    auto it = roulette_wheel(w.begin(), w.end(), s / 8.0); long k = vf_concretize(it - w.begin()); vf_note("k", k);
    vf_assert(k >= 0 && k < n, "drawn from the sequence"); if (s > 0) vf_assert(w[k] > 0, "drawn share is positive"); vf_cover("done");
}
ENTRY(choices) {
    int n = vfPick("n", 1, P("n", 5)); std::vector<int> v(n); for (int i = 0; i < n; i++) v[i] = 10 + i; const std::vector<int>& c = v;
    const int* p = vfPick("const", 0, 1) ? &G().choice(c) : &G().choice(v); long k = vf_concretize(p - &v[0]); vf_assert(k >= 0 && k < n, "a member of the vector"); vf_cover("done");
}
ENTRY(shuffles) {
    int n = vfPick("n", 0, P("n", 4)); eoPop<MaxInd> p = symPop<MaxInd>(n, 0, 0, 3); p.shuffle(); std::vector<int> seen(n, 0);
    vf_assert((int)p.size() == n, "size kept"); for (auto& x : p) { int id = vf_concretize(x.id); vf_assert(id >= 0 && id < n && !seen[id]++, "each element exactly once"); } vf_cover("done");
}
ENTRY(binomials) {
    int n = vfPick("n", 0, P("n", 4)), k = vfInt("p64", 0, 64); unsigned r = G().binomial(n, k / 64.0); vf_assert((int)r <= n, "no more successes than trials");
    if (k == 0) vf_assert(r == 0, "no success at probability zero"); if (k == 64) vf_assert((int)r == n, "only successes at probability one"); vf_cover("done");
}
