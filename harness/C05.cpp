// C05: bounded variation, flights, velocity updates and repairers write inside the bounds of each coordinate.
//@ bounds one or two parents of 1..n real coordinates; every coordinate with its own bound kind (two-sided, one-sided, none) and limits; parents anywhere inside on a grid of 1/2 (symbolic or enumerated), every uniform draw (32-bit) or normal draw (multiples of 1/16 in [-8,8]); steps 1/4, 1/2 and 1; convex combinations of decimal values in double arithmetic with 64 uniform draws; particles of 1..n coordinates with every velocity and every best on the grid
//@ outside other grids and step sizes, rounding for other decimals; exponentials, logarithms, sines and roots are replaced by arbitrary values of {1/2,1,2}, {-1,0,1}, {-1,0,1} and 1; bound modifiers; binary particles
//@ stub exp=vf_exp_stub
//@ stub log=vf_log_stub
//@ stub sqrt=vf_sqrt_stub
//@ stub sin=vf_sin_stub
//@ stub cos=vf_sin_stub
//@ stub eoEsMutationInit::TauLcl()=vf_tau
//@ stub eoEsMutationInit::TauGlb()=vf_tau
//@ stub eoEsMutationInit::TauBeta()=vf_tau
//@ entry uniformMutation covers=bounded,free,vectors,moved,still quick="n=2" thorough="n=3" jobs=4
//@ entry detUniformMutation covers=bounded,free,vectors,moved,still quick="n=2" thorough="n=3" jobs=4
//@ entry normalMutations covers=moved,still,free quick="n=1" thorough="n=2" jobs=4
//@ entry evolutionStrategies covers=simple,stdev,full quick="n=1" thorough="n=2" opts="-enum 2000" jobs=4
//@ entry segment covers=contracted,extended quick="n=2" thorough="n=2" opts="-enum 2000" jobs=4
//@ entry hypercube covers=contracted,extended quick="n=1" thorough="n=2" opts="-enum 2000" jobs=4
//@ entry rounding covers=segment,hypercube quick="" thorough="" opts="-enum 2000" jobs=2
//@ entry simulatedBinary covers=done quick="n=1" thorough="n=2" opts="-enum 2000" jobs=4
//@ entry exchange covers=swapped,kept quick="n=3" thorough="n=4"
//@ entry rounded covers=mono,quad quick="n=2" thorough="n=3" jobs=2
//@ entry flight covers=limited,unlimited quick="n=2" thorough="n=3"
//@ entry velocities covers=standard,extended,constricted,integer,fixed,variable,variableConstricted,unlimited quick="n=1" thorough="n=2" opts="-enum 2000" jobs=4
//@ entry bounders covers=bound,uniform,generator,none quick="n=2" thorough="n=3"
//@ entry repairers covers=dispatched,modulo,rounded quick="n=3" thorough="n=3" opts="-enum 600"
//@ entry sampler covers=done quick="n=2" thorough="n=3"
//@ include edo/src
#include "chrom.h"
#include <es/eoEsMutate.h>
#include <eoRealToIntMonOp.h>
#include <eoRealToIntQuadOp.h>
#include <eoStarTopology.h>
#include <eoIntegerVelocity.h>
#include <eoFixedInertiaWeightedVelocity.h>
#include <eoVariableInertiaWeightedVelocity.h>
#include <eoConstrictedVariableWeightVelocity.h>
#include <eoRandomRealWeightUp.h>
#include <edoBounderBound.h>
#include <edoBounderNo.h>
#include <edoBounderRng.h>
#include <edoBounderUniform.h>
#include <edoRepairerDispatcher.h>
#include <edoRepairerModulo.h>
#include <edoRepairerRound.h>
#include <edoSamplerUniform.h>
extern "C" __attribute__((used)) double vf_exp_stub(double) { static const double v[3] = {0.5, 1.0, 2.0}; return v[vfPick("exp", 0, 2)]; }
extern "C" __attribute__((used)) double vf_log_stub(double) { return (double)vfPick("log", -1, 1); }
extern "C" __attribute__((used)) double vf_sqrt_stub(double) { return 1.0; }
extern "C" __attribute__((used)) double vf_sin_stub(double) { return (double)vfPick("sin", -1, 1); }
extern "C" __attribute__((used)) double vf_tau(void*) { return 0.5; }
// bounds: one kind and one pair of limits per coordinate
struct Lim { int kind; double min, max; bool lo() const { return kind == 1 || kind == 2; } bool hi() const { return kind == 1 || kind == 3; } bool in(double x) const { return !(lo() && x < min) && !(hi() && x > max); } };
struct Box {
    std::vector<Lim> L; eoRealVectorBounds v; std::vector<eoRealBounds*> own;
    Box(int n, bool two = false, int pow = 0) { for (int i = 0; i < n; i++) { Lim l; l.kind = two ? 1 : vfPick("kind", 0, 3); static const double lo[] = {-1, 0, 3}, wd[] = {2, 1, 4}; int k = (i + pow) % 3; l.min = lo[k]; l.max = l.min + wd[k]; add(l); } }
    void add(Lim l) { L.push_back(l); eoRealBounds* b; switch (l.kind) { case 0: b = new eoRealNoBounds; break; case 1: b = new eoRealInterval(l.min, l.max); break; case 2: b = new eoRealBelowBound(l.min); break; default: b = new eoRealAboveBound(l.max); } own.push_back(b); v.push_back(b); }
    ~Box() { for (unsigned i = 0; i < own.size(); i++) delete own[i]; }
    double gene(int i, bool pick) const { int a = (int)(2 * L[i].min), b = (int)(2 * L[i].max); return 0.5 * (pick ? vfPick("x", a, b) : vfInt("x", a, b)); }
    Reals parent(bool pick) const { Reals r(L.size(), 0.0); for (unsigned i = 0; i < L.size(); i++) r[i] = gene(i, pick); return r; }
    template <class V> void inside(const V& x, const char* what) const { for (unsigned i = 0; i < L.size(); i++) vf_assert(L[i].in(x[i]), what); }
};
static int N() { return vfPick("n", 1, P("n", 2)); }
static const char* IN = "every coordinate lies inside its own bounds";
static double dist(double a, double b) { return a < b ? b - a : a - b; }
// the extreme draws take a coordinate to an end of the interval of its step
static void reach(const Lim& l, bool bounded, double x0, double x, double step) {
    double a = x0 - step, b = x0 + step; if (bounded && l.lo() && a < l.min) a = l.min; if (bounded && l.hi() && b > l.max) b = l.max;
    if (vf_last_rand == 0) vf_assert(x == a || x == b, "the extreme draw moves a coordinate by its whole step, or to its bound");
}
ENTRY(uniformMutation) {
    int n = N(), k = vfPick("ctor", 0, 2); static const double E[] = {0.25, 0.5, 1}; double e = E[vfPick("step", 0, 2)];
    Box B(n); Reals x = B.parent(true), x0 = x; bool r;
    std::vector<double> step(n), p(n, 0.5);
    if (k == 0) { vf_cover("free"); x = x0 = symOf<Reals>(n); eoUniformMutation<Reals> op(e, 0.5); r = op(x); for (int i = 0; i < n; i++) step[i] = e; }
    else if (k == 1) { vf_cover("bounded"); eoUniformMutation<Reals> op(B.v, e, 0.5); r = op(x); for (int i = 0; i < n; i++) step[i] = B.L[i].kind == 1 ? e * (B.L[i].max - B.L[i].min) : e; }
    else { vf_cover("vectors"); for (int i = 0; i < n; i++) { step[i] = i ? e : 0.5; p[i] = vfPick("p", 0, 1); } eoUniformMutation<Reals> op(B.v, step, p); r = op(x); }
    if (k) B.inside(x, IN);
    vf_assert((int)x.size() == n, "the dimension is kept"); bool ch = false;
    for (int i = 0; i < n; i++) { if (p[i] == 0) vf_assert(x[i] == x0[i], "a coordinate that is never mutated is left as it was"); vf_assert(dist(x[i], x0[i]) <= step[i], "a coordinate moves by at most its step"); ch |= x[i] != x0[i]; }
    if (n == 1 && p[0] > 0) reach(B.L[0], k != 0, x0[0], x[0], step[0]);
    if (ch) vf_cover("moved"); else vf_cover("still"); if (ch) vf_assert(r, "a change is reported");
}
ENTRY(detUniformMutation) {
    vf_split_random = 1; int n = N(), k = vfPick("ctor", 0, 2); unsigned no = vfPick("no", 0, 1); static const double E[] = {0.25, 0.5, 1}; double e = E[vfPick("step", 0, 2)];
    Box B(n); Reals x = B.parent(true), x0 = x; bool r; std::vector<double> step(n), eps(n);
    if (k == 0) { vf_cover("free"); x = x0 = symOf<Reals>(n); eoDetUniformMutation<Reals> op(e, no); r = op(x); for (int i = 0; i < n; i++) step[i] = e; }
    else if (k == 1) { vf_cover("bounded"); eoDetUniformMutation<Reals> op(B.v, e, no); r = op(x); for (int i = 0; i < n; i++) step[i] = B.L[i].kind == 1 ? e * (B.L[i].max - B.L[i].min) : e; }
    else { vf_cover("vectors"); for (int i = 0; i < n; i++) { eps[i] = i ? e : 0.5; step[i] = B.L[i].kind == 1 ? eps[i] * (B.L[i].max - B.L[i].min) : eps[i]; } eoDetUniformMutation<Reals> op(B.v, eps, no); r = op(x); }
    if (k) B.inside(x, IN);
    if (n == 1 && no == 1) reach(B.L[0], k != 0, x0[0], x[0], step[0]);
    unsigned c = 0; for (int i = 0; i < n; i++) { c += x[i] != x0[i]; vf_assert(dist(x[i], x0[i]) <= step[i], "a coordinate moves by at most its step"); }
    vf_assert(c <= no, "no more coordinates change than announced"); if (c) { vf_cover("moved"); vf_assert(r, "a change is reported"); } else vf_cover("still");
}
ENTRY(normalMutations) {
    int n = N(), k = vfPick("op", 0, 3); double sigma = 0.5; Box B(n, false, vfPick("limits", 0, 2)); Reals x = B.parent(false), x0 = x; vf_max_draws = 2 * n;
    if (k == 0) { eoNormalVecMutation<Reals> op(B.v, 0.5, 0.5); op(x); B.inside(x, IN); }
    else if (k == 1) { eoNormalMutation<Reals> op(B.v, sigma, 0.5); op(x); B.inside(x, IN); }
    else if (k == 2) { vf_cover("free"); eoNormalVecMutation<Reals> op(0.5, 0.5); op(x); }
    else { vf_cover("free"); eoNormalMutation<Reals> op(sigma, 0.5); op(x); }
    vf_assert((int)x.size() == n, "the dimension is kept");
    if (same(x, x0)) vf_cover("still"); else vf_cover("moved");
}
template <class E> static void es(E& x, int n) {
    static char parser[4096]; eoEsMutationInit init(reinterpret_cast<eoParser&>(parser)); Box B(n, false, vfPick("limits", 0, 2)); Reals p = B.parent(false); x.resize(n); for (int i = 0; i < n; i++) x[i] = p[i];
    eoEsMutate<E> op(init, B.v); bool r = op(x); vf_assert(r && (int)x.size() == n, "the mutation is announced"); B.inside(x, IN);
}
ENTRY(evolutionStrategies) {
    int n = N(); vf_max_draws = 8;
    switch (vfPick("kind", 0, 2)) {
    case 0: { eoEsSimple<double> x; x.stdev = 0.5; es(x, n); vf_cover("simple"); break; }
    case 1: { eoEsStdev<double> x; x.stdevs.assign(n, 0.5); es(x, n); vf_cover("stdev"); break; }
    default: { eoEsFull<double> x; x.stdevs.assign(n, 0.5); x.correlations.assign(n * (n - 1) / 2, 0.0); es(x, n); vf_cover("full"); }
    }
}
ENTRY(segment) {
    int n = N(); double alpha = vfPick("alpha", 0, 2) * 0.5; vf_rbits = 3; Box B(n, false, vfPick("limits", 0, 2)); Reals x = B.parent(true), y = B.parent(true), x0 = x, y0 = y;
    for (int i = 0; i < n; i++) { double d = dist(x[i], y[i]); if (!(d == 0 || d == 0.5 || d == 1 || d == 2 || d == 4)) vf_prune(); }
    eoSegmentCrossover<Reals> op(B.v, alpha); op(x, y); B.inside(x, IN); B.inside(y, IN); if (alpha == 0) vf_cover("contracted"); else vf_cover("extended");
    for (int i = 0; i < n; i++) { vf_assert(x[i] + y[i] == x0[i] + y0[i], "the children are symmetric about the middle of the parents"); double lo = std::min(x0[i], y0[i]), hi = std::max(x0[i], y0[i]), m = alpha * (hi - lo); vf_assert(x[i] >= lo - m && x[i] <= hi + m && y[i] >= lo - m && y[i] <= hi + m, "children stay within the announced distance of the parents"); if (lo == hi) vf_assert(x[i] == lo && y[i] == lo, "equal coordinates are left as they were"); }
}
ENTRY(hypercube) {
    int n = N(); double alpha = vfPick("alpha", 0, 2) * 0.5; vf_rbits = 3; Box B(n, false, vfPick("limits", 0, 2)); Reals x = B.parent(true), y = B.parent(true), x0 = x, y0 = y;
    eoHypercubeCrossover<Reals> op(B.v, alpha); bool r = op(x, y); B.inside(x, IN); B.inside(y, IN); if (alpha == 0) vf_cover("contracted"); else vf_cover("extended");
    for (int i = 0; i < n; i++) { double lo = std::min(x0[i], y0[i]), hi = std::max(x0[i], y0[i]), m = alpha * (hi - lo); vf_assert(x[i] >= lo - m && x[i] <= hi + m && y[i] >= lo - m && y[i] <= hi + m, "children stay within the announced distance of the parents"); if (lo == hi) vf_assert(x[i] == lo && y[i] == lo, "equal coordinates are left as they were"); }
    if (!same(x, x0) || !same(y, y0)) vf_assert(r, "a change is reported");
}
// convex combinations in double arithmetic: decimal limits and parents on or near them
ENTRY(rounding) {
    static const double lo[] = {0.1, -0.7, 0.3}, hi[] = {0.7, 0.1, 1.1}; int c = vfPick("limits", 0, 2); eoRealVectorBounds b(1, lo[c], hi[c]); double pts[] = {lo[c], hi[c], (lo[c] + hi[c]) / 2};
    Reals x(1, pts[vfPick("x", 0, 2)]), y(1, pts[vfPick("y", 0, 2)]); vf_rbits = 5;
    bool seg = vfPick("op", 0, 1); if (seg) { eoSegmentCrossover<Reals> op(b, vfPick("alpha", 0, 1) * 0.3); op(x, y); vf_cover("segment"); } else { eoHypercubeCrossover<Reals> op(b, vfPick("alpha", 0, 1) * 0.3); op(x, y); vf_cover("hypercube"); }
    vf_assert(x[0] >= lo[c] && x[0] <= hi[c] && y[0] >= lo[c] && y[0] <= hi[c], IN);
}
ENTRY(simulatedBinary) {
    int n = N(); vf_rbits = 2; Box B(n, false, vfPick("limits", 0, 2)); Reals x = B.parent(false), y = B.parent(false); eoSBXCrossover<Reals> op(B.v, 1.0); op(x, y); B.inside(x, IN); B.inside(y, IN); vf_cover("done");
}
ENTRY(exchange) {
    int n = N(); Reals x = symOf<Reals>(n), y = symOf<Reals>(n), x0 = x, y0 = y; eoRealUXover<Reals> op(0.5); bool r = op(x, y), ch = false;
    for (int i = 0; i < n; i++) { vf_assert((x[i] == x0[i] && y[i] == y0[i]) || (x[i] == y0[i] && y[i] == x0[i]), "a coordinate is exchanged or left"); ch |= x[i] != x0[i]; }
    vf_assert(ch == r, "a change is reported exactly when there is one"); if (ch) vf_cover("swapped"); else vf_cover("kept");
}
typedef eoInt<double, long> Longs;
struct Mono : eoMonOp<Reals> { bool c; bool operator()(Reals& r) { c = vfPick("changed", 0, 1); if (c) for (unsigned i = 0; i < r.size(); i++) r[i] += vfInt("d", -24, 24) * 0.25; return c; } };
struct Quad : eoQuadOp<Reals> { bool c; bool operator()(Reals& r, Reals& s) { c = vfPick("changed", 0, 1); if (c) for (unsigned i = 0; i < r.size(); i++) { r[i] += vfInt("d", -24, 24) * 0.25; s[i] += vfInt("d", -24, 24) * 0.25; } return c; } };
ENTRY(rounded) {
    int n = N(); long a = vfPick("a", -1, 1), w = 4; eoIntInterval ib(a, a + w); Longs x(n, 0), y(n, 0); for (int i = 0; i < n; i++) { x[i] = vfInt("x", a, a + w); y[i] = vfInt("y", a, a + w); } Longs x0 = x, y0 = y; bool fold = vfPick("repair", 0, 1);
    if (vfPick("op", 0, 1)) { typedef eoRealToIntMonOp<Longs> Op; Mono m; Op op(m, ib, fold ? Op::folds : Op::truncate); bool r = op(x); vf_assert(r == m.c, "the wrapped operator's report is passed on"); if (!r) vf_assert(same(x, x0), "nothing is written when nothing changed"); for (int i = 0; i < n; i++) vf_assert(x[i] >= a && x[i] <= a + w, IN); vf_cover("mono"); }
    else { typedef eoRealToIntQuadOp<Longs> Op; Quad m; Op op(m, ib, fold ? Op::folds : Op::truncate); if (n > 1) vf_prune(); bool r = op(x, y); vf_assert(r == m.c, "the wrapped operator's report is passed on"); if (!r) vf_assert(same(x, x0) && same(y, y0), "nothing is written when nothing changed"); for (int i = 0; i < n; i++) vf_assert(x[i] >= a && x[i] <= a + w && y[i] >= a && y[i] <= a + w, IN); vf_cover("quad"); }
}
typedef eoRealParticle<double> Part;
static double grid(const char* n, int lo, int hi) { return 0.5 * vfInt(n, lo, hi); }
ENTRY(flight) {
    int n = N(), k = vfPick("how", 0, 2); Part p(n); for (int i = 0; i < n; i++) { p[i] = grid("x", -8, 8); p.velocities[i] = grid("v", -8, 8); } p.fitness(1.0); Part p0 = p;
    if (k == 0) { Box B(n); for (int i = 0; i < n; i++) if (!B.L[i].in(p[i])) vf_prune(); eoStandardFlight<Part> f(B.v); f(p); B.inside(p, IN); for (int i = 0; i < n; i++) { double t = p0[i] + p0.velocities[i]; if (B.L[i].in(t)) vf_assert(p[i] == t, "an admissible move is made in full"); } vf_cover("limited"); }
    else if (k == 1) { eoStandardFlight<Part> f(n, -1.0, 2.0); f(p); for (int i = 0; i < n; i++) vf_assert(p[i] >= -1 && p[i] <= 2, IN); vf_cover("limited"); }
    else { eoStandardFlight<Part> f; f(p); for (int i = 0; i < n; i++) vf_assert(p[i] == p0[i] + p0.velocities[i], "a move without bounds is made in full"); vf_cover("unlimited"); }
    vf_assert(p.invalid(), "a particle that moved is not evaluated"); for (int i = 0; i < n; i++) vf_assert(p.velocities[i] == p0.velocities[i], "a flight leaves the velocity");
}
ENTRY(velocities) {
    int n = N(), k = vfPick("kind", 0, 6); bool lim = vfPick("limited", 0, 1); vf_rbits = 2; eoPop<Part> pop; eoStarTopology<Part> topo;
    Part p(n); for (int i = 0; i < n; i++) { p[i] = vfInt("x", -4, 4); p.velocities[i] = vfInt("v", -4, 4); p.bestPositions[i] = vfInt("b", -4, 4); } p.fitness(1.0); p.best(2.0); pop.push_back(p);
    Part g(n); for (int i = 0; i < n; i++) g[i] = g.bestPositions[i] = vfInt("g", -4, 4); g.fitness(3.0); g.best(3.0); pop.push_back(g); topo.setup(pop);
    Part q = p; Box B(n, false, vfPick("limits", 0, 2)); double w = 0.5, c1 = 1, c2 = 0.5, c3 = 1; eoRandomRealWeightUp up(0.25, 0.75); eoVelocity<Part>* v = 0;
    switch (k) {
    case 0: vf_cover("standard"); v = lim ? new eoStandardVelocity<Part>(topo, w, c1, c2, B.v) : new eoStandardVelocity<Part>(topo, w, c1, c2); break;
    case 1: vf_cover("extended"); v = lim ? new eoExtendedVelocity<Part>(topo, w, c1, c2, c3, B.v) : new eoExtendedVelocity<Part>(topo, w, c1, c2, c3); break;
    case 2: vf_cover("constricted"); v = lim ? new eoConstrictedVelocity<Part>(topo, w, c1, c2, B.v) : new eoConstrictedVelocity<Part>(topo, w, c1, c2); break;
    case 3: vf_cover("integer"); v = lim ? new eoIntegerVelocity<Part>(topo, w, c1, c2, B.v) : new eoIntegerVelocity<Part>(topo, w, c1, c2); break;
    case 4: vf_cover("fixed"); v = lim ? new eoFixedInertiaWeightedVelocity<Part>(topo, w, c1, c2, B.v) : new eoFixedInertiaWeightedVelocity<Part>(topo, w, c1, c2); break;
    case 5: vf_cover("variable"); v = lim ? new eoVariableInertiaWeightedVelocity<Part>(topo, up, c1, c2, B.v) : new eoVariableInertiaWeightedVelocity<Part>(topo, up, c1, c2); break;
    default: vf_cover("variableConstricted"); v = lim ? new eoConstrictedVariableWeightVelocity<Part>(topo, w, up, c1, c2, B.v) : new eoConstrictedVariableWeightVelocity<Part>(topo, w, up, c1, c2);
    }
    (*v)(q, 0); if (lim) B.inside(q.velocities, "every velocity lies inside its own bounds"); else vf_cover("unlimited");
    vf_assert((int)q.velocities.size() == n && q.size() == p.size(), "dimensions are kept"); for (int i = 0; i < n; i++) vf_assert(q[i] == p[i] && q.bestPositions[i] == p.bestPositions[i], "a velocity update moves nothing");
    vf_assert(&v->getTopology() == &topo, "the velocity uses the topology it was given");
}
ENTRY(bounders) {
    int n = N(), k = vfPick("kind", 0, 3); Box B(n, true); Reals lo(n), hi(n), x(n); for (int i = 0; i < n; i++) { lo[i] = B.L[i].min; hi[i] = B.L[i].max; x[i] = grid("x", -40, 40); } Reals x0 = x;
    struct Gen : eoRndGenerator<double> { Gen() {} double operator()() { return vfInt("gen", 0, 2) * 0.5; } } gen;
    switch (k) {
    case 0: { edoBounderBound<Reals> b(lo, hi); b(x); B.inside(x, IN); for (int i = 0; i < n; i++) vf_assert(x[i] == (x0[i] < lo[i] ? lo[i] : x0[i] > hi[i] ? hi[i] : x0[i]), "an outside coordinate is set to the limit it violates"); vf_cover("bound"); break; }
    case 1: { edoBounderUniform<Reals> b(lo, hi); b(x); B.inside(x, IN); vf_cover("uniform"); break; }
    case 2: { for (int i = 0; i < n; i++) { lo[i] = 0 - i; hi[i] = 1 + i; } edoBounderRng<Reals> b(lo, hi, gen); b(x); for (int i = 0; i < n; i++) { vf_assert(x[i] >= lo[i] && x[i] <= hi[i], IN); if (x0[i] >= lo[i] && x0[i] <= hi[i]) vf_assert(x[i] == x0[i], "an inside coordinate is left as it was"); } vf_cover("generator"); return; }
    default: { edoBounderNo<Reals> b; b(x); vf_assert(same(x, x0), "no repair"); vf_cover("none"); }
    }
    for (int i = 0; i < n; i++) if (B.L[i].in(x0[i])) vf_assert(x[i] == x0[i], "an inside coordinate is left as it was");
}
ENTRY(repairers) {
    int n = P("n", 3), k = vfPick("kind", 0, 2); Reals x(n); for (int i = 0; i < n; i++) x[i] = 0.25 * (k == 1 ? vfPick("x", -12, 12) : vfInt("x", -12, 12)); Reals x0 = x;
    if (k == 0) {
        vf_cover("dispatched"); unsigned a = vfPick("a", 0, n - 1), b = vfPick("b", 0, n - 1); if (a == b) vf_prune(); Reals lo(1, -1.0), hi(1, 1.0), lo2(1, 0.0), hi2(1, 2.0); edoBounderBound<Reals> r1(lo, hi), r2(lo2, hi2); edoRepairerDispatcher<Reals> d; std::vector<unsigned> ia(1, a), ib(1, b); d.add(ia, &r1); d.add(ib, &r2); x.fitness(1.0); d(x);
        for (int i = 0; i < n; i++) { if (i == (int)a) vf_assert(x[i] >= -1 && x[i] <= 1, IN); else if (i == (int)b) vf_assert(x[i] >= 0 && x[i] <= 2, IN); else vf_assert(x[i] == x0[i], "a coordinate no repairer is in charge of is left as it was"); }
        vf_assert(x.invalid(), "a repaired individual is not evaluated");
    } else if (k == 1) { x.resize(1); edoRepairerModulo<Reals> m(2.0); m(x); vf_assert(x[0] > -2 && x[0] < 2, "the remainder is smaller than the divisor"); vf_assert((x0[0] - x[0]) / 2 == (double)(long)((x0[0] - x[0]) / 2), "the remainder differs by a multiple of the divisor"); vf_cover("modulo"); }
    else { x.resize(1); switch (vfPick("how", 0, 2)) { case 0: { edoRepairerFloor<Reals> r; r(x); vf_assert(x[0] <= x0[0] && x0[0] - x[0] < 1, "rounded down"); break; } case 1: { edoRepairerCeil<Reals> r; r(x); vf_assert(x[0] >= x0[0] && x[0] - x0[0] < 1, "rounded up"); break; } default: { edoRepairerRound<Reals> r; r(x); vf_assert(dist(x[0], x0[0]) <= 0.5, "rounded to the nearest"); } } vf_assert(x[0] == (double)(long)x[0], "rounded to an integer"); vf_cover("rounded"); }
}
ENTRY(sampler) {
    int n = N(); Reals lo(n), hi(n), l2(n), h2(n); for (int i = 0; i < n; i++) { lo[i] = -2 + i; hi[i] = 2; l2[i] = vfPick("l", -1, 0); h2[i] = 1; } edoUniform<Reals> d(lo, hi); edoBounderBound<Reals> b(l2, h2); edoSamplerUniform<Reals> s(b); Reals x = s(d);
    vf_assert((int)x.size() == n, "a sample has the dimension of the distribution"); for (int i = 0; i < n; i++) vf_assert(x[i] >= l2[i] && x[i] <= h2[i], IN); vf_cover("done");
}
