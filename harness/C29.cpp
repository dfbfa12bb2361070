// C29: estimates describe the sample, samples lie in the estimate, repairs are local and satisfy their condition.
//@ bounds 1..n solutions of 1..d coordinates, arbitrary integral values of -4..4 (quarters for roundings), every draw of the generator, up to two index sets of any coordinates for the dispatcher
//@ outside multivariate and adaptive normal distributions (matrix libraries), quality of the normal generator, larger samples, denominators other than 1..3, roundings to decimals that are not binary fractions
//@ include edo/src
//@ entry box covers=one,several,degenerate quick="n=4 d=2;n=3 d=3" thorough="n=5 d=2;n=4 d=3" jobs=4
//@ entry boxSample covers=inside,degenerate quick="d=3" thorough="d=3" jobs=4
//@ entry frequency covers=never,always,sometimes quick="n=5 d=2;n=3 d=3" thorough="n=5 d=2;n=3 d=3" jobs=4
//@ entry normal covers=one,several,spread quick="n=4" thorough="n=5" jobs=4
//@ entry centre covers=box,normal quick="d=3" thorough="d=3"
//@ entry bounders covers=clamped,redrawn,given,kept quick="d=3" thorough="d=3" jobs=4
//@ entry rounding covers=floor,ceil,round,half,quarter,tie quick="d=3" thorough="d=3" jobs=4
//@ entry modulo covers=done quick="d=3" thorough="d=3" jobs=4
//@ entry dispatcher covers=two,overlap,empty quick="d=4 k=2" thorough="d=5 k=2" jobs=8
#include "common.h"
#include <eo>
#include <es/eoReal.h>
#include <ga/eoBit.h>
#include <edoEstimatorUniform.h>
#include <edoEstimatorBinomial.h>
#include <edoEstimatorNormalMono.h>
#include <edoSamplerUniform.h>
#include <edoSamplerBinomial.h>
#include <edoUniformCenter.h>
#include <edoNormalMonoCenter.h>
#include <edoBounderBound.h>
#include <edoBounderUniform.h>
#include <edoBounderRng.h>
#include <edoRepairerRound.h>
#include <edoRepairerModulo.h>
#include <edoRepairerDispatcher.h>
typedef eoReal<double> R; typedef eoBit<double> B;
static bool near(double a, double b) { double d = a - b; return d < 1e-9 && d > -1e-9; }
static R point(int d, const char* name, double unit = 1) { R r; for (int i = 0; i < d; i++) r.push_back(vfInt(name, -4, 4) * unit); return r; }
ENTRY(box) {
    int n = vfPick("n", 1, P("n", 3)), d = vfPick("d", 1, P("d", 2)); eoPop<R> p; for (int i = 0; i < n; i++) p.push_back(point(d, "x")); eoPop<R> before(p); edoEstimatorUniform<R> e; edoUniform<R> u = e(p); R lo = u.min(), hi = u.max();
    vf_assert((int)u.size() == d && (int)lo.size() == d && (int)hi.size() == d, "the box has the dimension of the sample");
    for (int k = 0; k < d; k++) { bool a = false, b = false; for (int i = 0; i < n; i++) { vf_assert(p[i][k] == before[i][k], "the sample is unchanged"); vf_assert(lo[k] <= p[i][k] && p[i][k] <= hi[k], "the box contains the sample"); a |= p[i][k] == lo[k]; b |= p[i][k] == hi[k]; } vf_assert(a && b, "the box is the smallest one"); if (n > 1 && lo[k] == hi[k]) vf_cover("degenerate"); }
    vf_cover(n == 1 ? "one" : "several");
}
struct Count : public edoRepairer<R> { int n; Count() : n(0) {} void operator()(R&) { n++; } };
ENTRY(boxSample) {
    int d = vfPick("d", 1, P("d", 2)); R lo, hi; for (int i = 0; i < d; i++) { lo.push_back(vfPick("lo", -2, 1)); hi.push_back(lo[i] + vfPick("width", 0, 3)); } edoUniform<R> u(lo, hi); Count c; edoSamplerUniform<R> s(c); R x = s(u);
    vf_assert((int)x.size() == d, "samples have the dimension of the box"); vf_assert(c.n == 1, "samples are repaired once"); for (int i = 0; i < d; i++) { vf_assert(lo[i] <= x[i] && x[i] <= hi[i], "samples lie in the box"); if (lo[i] == hi[i]) vf_cover("degenerate"); else vf_cover("inside"); }
}
ENTRY(frequency) {
    int n = vfPick("n", 1, P("n", 3)), d = vfPick("d", 1, P("d", 2)); eoPop<B> p; int ones[4] = {0, 0, 0, 0}; for (int i = 0; i < n; i++) { B b; for (int k = 0; k < d; k++) { int v = vfPick("bit", 0, 1); b.push_back(v != 0); ones[k] += v; } p.push_back(b); }
    edoEstimatorBinomial<B> e; edoBinomial<B> f = e(p); vf_assert((int)f.size() == d, "one frequency per position"); for (int k = 0; k < d; k++) vf_assert(near(f[k], (double)ones[k] / n), "the estimate is the frequency of ones");
    edoSamplerBinomial<B> s; B x = s(f); vf_assert((int)x.size() == d, "samples have as many positions"); for (int k = 0; k < d; k++) { if (ones[k] == 0) { vf_assert(!x[k], "a position that was never one is zero"); vf_cover("never"); } else if (ones[k] == n) { vf_assert(x[k], "a position that was always one is one"); vf_cover("always"); } else if (x[k]) vf_cover("sometimes"); }
}
ENTRY(normal) {
    int n = vfPick("n", 1, P("n", 3)), d = 2; eoPop<R> p; double sum = 0; for (int i = 0; i < n; i++) { R r; r.push_back(vfPick("x", -2, 2)); r.push_back(3); p.push_back(r); sum += r[0]; } double mean = sum / n, var = 0; for (int i = 0; i < n; i++) var += (p[i][0] - mean) * (p[i][0] - mean) / n;
    edoEstimatorNormalMono<R> e; edoNormalMono<R> m = e(p); vf_assert((int)m.size() == d, "one mean and variance per coordinate"); vf_assert(near(m.mean()[0], mean) && near(m.mean()[1], 3), "the mean is that of the sample"); vf_assert(near(m.variance()[0], var) && near(m.variance()[1], 0), "the variance is that of the sample"); vf_cover(n == 1 ? "one" : "several"); if (var > 0) vf_cover("spread");
}
ENTRY(centre) {
    int d = vfPick("d", 1, P("d", 2)); R lo = point(d, "lo"), hi, c = point(d, "centre"); for (int i = 0; i < d; i++) hi.push_back(lo[i] + vfInt("width", 0, 4));
    if (vfPick("normal", 0, 1)) { edoNormalMono<R> m(lo, hi); edoNormalMonoCenter<R> op; op(m, c); for (int i = 0; i < d; i++) { vf_assert(m.mean()[i] == c[i], "the mean moves to the centre"); vf_assert(m.variance()[i] == hi[i], "the variance is kept"); } vf_cover("normal"); }
    else { edoUniform<R> u(lo, hi); edoUniformCenter<R> op; op(u, c); R a = u.min(), b = u.max(); for (int i = 0; i < d; i++) { vf_assert(a[i] + b[i] == 2 * c[i], "the box moves to the centre"); vf_assert(b[i] - a[i] == hi[i] - lo[i], "the box keeps its extent"); } vf_cover("box"); }
}
ENTRY(bounders) {
    int d = vfPick("d", 1, P("d", 2)), kind = vfPick("kind", 0, 2); R lo, hi, x = point(d, "x"), y = x; for (int i = 0; i < d; i++) { lo.push_back(vfPick("lo", -2, 0)); hi.push_back(vfPick("hi", 1, 2)); } eoUniformGenerator<double> g(0.5, 0.75);
    edoBounderBound<R> b0(lo, hi); edoBounderUniform<R> b1(lo, hi); edoBounderRng<R> b2(lo, hi, g); if (kind == 0) b0(x); else if (kind == 1) b1(x); else b2(x); vf_assert((int)x.size() == d, "the number of coordinates is kept");
    for (int i = 0; i < d; i++) {
        vf_assert(lo[i] <= x[i] && x[i] <= hi[i], "repaired solutions are within the bounds"); if (lo[i] <= y[i] && y[i] <= hi[i]) { vf_assert(x[i] == y[i], "coordinates within the bounds are kept"); vf_cover("kept"); continue; }
        if (kind == 0) { vf_assert(x[i] == (y[i] < lo[i] ? lo[i] : hi[i]), "coordinates out of bounds move to the nearest bound"); vf_cover("clamped"); } else if (kind == 1) vf_cover("redrawn"); else { vf_assert(x[i] >= 0.5 && x[i] <= 0.75, "coordinates out of bounds come from the generator"); vf_cover("given"); }
    }
}
ENTRY(rounding) {
    int d = vfPick("d", 1, P("d", 2)), kind = vfPick("kind", 0, 4); R x; int q[4]; double unit = 0.125; for (int i = 0; i < d; i++) { q[i] = vfInt("eighths", -24, 24); x.push_back(q[i] * unit); } x.fitness(1);
    edoRepairerFloor<R> f; edoRepairerCeil<R> c; edoRepairerRound<R> r; edoRepairerRoundDecimals<R> h(0.5), t(0.25); edoRepairer<R>* op[5] = {&f, &c, &r, &h, &t}; (*op[kind])(x); vf_assert((int)x.size() == d, "the number of coordinates is kept"); vf_assert(x.invalid(), "a repaired solution has to be evaluated again");
    int step = kind == 3 ? 4 : kind == 4 ? 2 : 8; // in eighths
    for (int i = 0; i < d; i++) {
        int z = (int)(x[i] / unit); vf_assert(z * unit == x[i] && z % step == 0, "roundings give multiples of the precision"); int e = z - q[i];
        if (kind == 0) { vf_assert(e <= 0 && e > -8, "floor gives the next lower integer"); vf_cover("floor"); } else if (kind == 1) { vf_assert(e >= 0 && e < 8, "ceil gives the next higher integer"); vf_cover("ceil"); }
        else { vf_assert(2 * e <= step && -2 * e <= step, "rounding gives the nearest multiple"); if (2 * e == step) { vf_assert(q[i] >= 0, "halves round away from zero"); vf_cover("tie"); } if (-2 * e == step) vf_assert(q[i] <= 0, "halves round away from zero"); vf_cover(kind == 2 ? "round" : kind == 3 ? "half" : "quarter"); }
    }
}
ENTRY(modulo) {
    int d = vfPick("d", 1, P("d", 2)), m = vfPick("m", 1, 3); R x; int v[4]; for (int i = 0; i < d; i++) { v[i] = vfPick("x", -7, 7); x.push_back(v[i]); } x.fitness(1); edoRepairerModulo<R> r(m); r(x); vf_assert((int)x.size() == d && x.invalid(), "a repaired solution keeps its size and has to be evaluated again"); for (int i = 0; i < d; i++) vf_assert(x[i] == v[i] % m, "the remainder has the sign of the coordinate"); vf_cover("done");
}
struct Step : public edoRepairer<R> { double by; std::vector<double> seen; Step(double b) : by(b) {} void operator()(R& x) { seen.assign(x.begin(), x.end()); for (unsigned i = 0; i < x.size(); i++) x[i] += by * (i + 1); x.invalidate(); } };
ENTRY(dispatcher) {
    int d = vfPick("d", 1, P("d", 3)), sets = vfPick("sets", 0, 2); R x = point(d, "x"); double want[4]; for (int i = 0; i < d; i++) want[i] = x[i]; x.fitness(1); Step a(10), b(1000); std::vector<unsigned> idx[2]; bool used[2][4] = {};
    edoRepairerDispatcher<R>* op = 0; double by[2] = {10, 10};
    for (int s = 0; s < sets; s++) { int n = vfPick("count", 0, d < P("k", 2) ? d : P("k", 2)); for (int i = 0; i < n; i++) { unsigned k = vfPick("index", 0, d - 1); if (used[s][k]) return; idx[s].push_back(k); used[s][k] = true; } if (s == 0) op = new edoRepairerDispatcher<R>(idx[0], &a); else { bool same = vfPick("same", 0, 1); if (!same) by[1] = 1000; op->add(idx[1], same ? &a : &b); } if (!n) vf_cover("empty"); }
    if (!op) op = new edoRepairerDispatcher<R>();
    int times = vfPick("times", 1, 2); for (int t = 0; t < times; t++) { (*op)(x); for (int s = 0; s < sets; s++) for (unsigned i = 0; i < idx[s].size(); i++) want[idx[s][i]] += by[s] * (i + 1); }
    delete op; vf_assert(x.invalid(), "a repaired solution has to be evaluated again"); vf_assert((int)x.size() == d, "the number of coordinates is kept");
    for (int k = 0; k < d; k++) vf_assert(x[k] == want[k], used[0][k] || used[1][k] ? "each coordinate is repaired by the repairers of its index sets" : "coordinates outside the index sets are kept"); if (sets == 2) vf_cover("two");
    for (int k = 0; k < d; k++) if (used[0][k] && used[1][k]) vf_cover("overlap");
}
