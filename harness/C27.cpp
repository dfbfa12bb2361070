// C27: quality indicators equal their definitions.
//@ bounds every set of up to n points with integer objectives in 0..r, 2 or 3 objectives, every mix of directions; the reference point no better than any point; sets compared have up to 2 points each
//@ outside larger sets and grids, points beyond the reference point, empty sets, one objective, the entropy and distance metrics
//@ include moeo/src
//@ entry volume covers=several,dominated quick="n=3 r=2 m=2;n=2 r=2 m=3" thorough="n=4 r=2 m=2;n=3 r=3 m=2;n=3 r=2 m=3" jobs=8
//@ entry volume3 covers=several,dominated quick="n=3 r=1 m=3" thorough="n=3 r=2 m=3 one=1" jobs=8
//@ entry normalised covers=plain,constant,own quick="n=2 r=2 m=2;n=3 r=1 m=2" thorough="n=3 r=2 m=2;n=2 r=2 m=3" jobs=8
//@ entry reference covers=given,own,constant quick="n=2 r=1 m=2" thorough="n=2 r=2 m=2" jobs=8
//@ entry difference covers=better,worse,same quick="n=2 r=2 m=2" thorough="n=2 r=3 m=2" jobs=8
//@ entry pairs covers=dominates,incomparable quick="r=3 m=2;r=2 m=3" thorough="r=5 m=2;r=3 m=3" jobs=8
//@ entry epsilonSets covers=normalised,plain,factor quick="n=2 r=2" thorough="n=2 r=3" jobs=8
//@ entry contribution covers=common,better,none quick="n=2 r=2" thorough="n=2 r=3;n=3 r=2" jobs=8
#include "objv.h"
static bool near(double a, double b) { double d = a - b; return d < 1e-9 && d > -1e-9; }
static std::vector<Obj> points(int n, int lo, int hi) { std::vector<Obj> s; for (int i = 0; i < n; i++) s.push_back(pickObj(lo, hi)); return s; }
// measure of the union of boxes [0,x] by inclusion and exclusion
static double measure(const std::vector<std::vector<double> >& b) {
    int n = b.size(); double v = 0; for (int s = 1; s < (1 << n); s++) { double p = 1; int bits = 0; for (unsigned o = 0; o < nobj; o++) { double m = 1e9; for (int i = 0; i < n; i++) if (s >> i & 1) m = std::min(m, b[i][o]); p *= m; } for (int i = 0; i < n; i++) bits += s >> i & 1; v += bits % 2 ? p : -p; }
    return v;
}
static void same(const std::vector<Obj>& a, const std::vector<Obj>& b) { vf_assert(a.size() == b.size(), "sets are unchanged"); for (unsigned i = 0; i < a.size(); i++) vf_assert(equalObj(a[i], b[i]), "points are unchanged"); }
static void volume(int m) {
    if (P("one", 0)) directions(m, vfPick("mix", 0, 1) ? 7 : 2); else directions(m); int r = P("r", 2), n = vfPick("n", 1, P("n", 2)); std::vector<Obj> s = points(n, 0, r), keep = s; Obj ref; for (int o = 0; o < m; o++) ref[o] = mini[o] ? r : 0; moeoHyperVolumeMetric<Obj> h(false, ref); double v = h(s); same(s, keep);
    // the region is a set of unit cells
    int cells = 0, total = 1, without = 0; for (int o = 0; o < m; o++) total *= r;
    for (int c = 0; c < total; c++) { bool in = false, in1 = false; for (int i = 0; i < n; i++) { bool k = true; int q = c; for (int o = 0; o < m; o++) { double g = mini[o] ? r - s[i][o] : (double)s[i][o]; if (q % r >= g) k = false; q /= r; } if (k) { in = true; if (i + 1 < n) in1 = true; } } if (in) cells++; if (in1) without++; }
    vf_assert(near(v, cells), "hypervolume is the measure of the dominated region"); if (n > 1) { vf_cover("several"); std::vector<Obj> t(s.rbegin(), s.rend()); vf_assert(near(h(t), v), "hypervolume does not depend on the order"); s.pop_back(); double w = h(s); vf_assert(near(w, without) && w <= v + 1e-9, "adding a point never decreases the hypervolume"); if (dom(s[0], keep[n - 1])) vf_cover("dominated"); }
}
ENTRY(volume) { volume(P("m", 2)); }
ENTRY(volume3) { volume(3); }
// coordinates of the points from the reference point, after scaling by the range of the given points
static std::vector<std::vector<double> > scaled(const std::vector<Obj>& s, const std::vector<Obj>& all, double rho, bool norm) {
    std::vector<std::vector<double> > b(s.size(), std::vector<double>(nobj)); for (unsigned o = 0; o < nobj; o++) { double lo = all[0][o], hi = lo; for (unsigned i = 1; i < all.size(); i++) { lo = std::min(lo, (double)all[i][o]); hi = std::max(hi, (double)all[i][o]); }
        for (unsigned i = 0; i < s.size(); i++) { double x = s[i][o]; if (norm) x = hi == lo ? 0.5 : (x - lo) / (hi - lo); double ref = norm ? (mini[o] ? rho : 1 - rho) : (mini[o] ? hi * rho : hi * (1 - rho)); b[i][o] = mini[o] ? ref - x : x - ref; } } return b;
}
static bool constant(const std::vector<Obj>& s) { for (unsigned o = 0; o < nobj; o++) { bool c = true; for (unsigned i = 1; i < s.size(); i++) if (s[i][o] != s[0][o]) c = false; if (c) return true; } return false; }
static bool close(double a, double b) { double d = a - b; return d < 1e-4 && d > -1e-4; }
ENTRY(normalised) {
    directions(P("m", 2)); int n = vfPick("n", 1, P("n", 2)); std::vector<Obj> s = points(n, 0, P("r", 2)), keep = s; bool norm = vfPick("norm", 0, 1); if (constant(s)) vf_cover("constant"); if (norm) vf_cover("own"); else vf_cover("plain");
    moeoHyperVolumeMetric<Obj> h(norm, 1.25); double v = h(s); same(s, keep); vf_assert(close(v, measure(scaled(s, s, 1.25, norm))), "hypervolume up to the scaled reference point"); vf_assert(close(h(s), v), "asking again gives the same");
}
// the reference point is given in the coordinates of the scaled points
static Obj farther() { Obj ref; for (unsigned o = 0; o < nobj; o++) ref[o] = mini[o] ? 1.25 : -0.25; return ref; }
ENTRY(reference) {
    directions(P("m", 2)); int n = vfPick("n", 1, P("n", 2)), r = P("r", 2); std::vector<Obj> s = points(n, 0, r), keep = s; Obj ref = farther(); if (constant(s)) vf_cover("constant");
    if (vfPick("given", 0, 1)) { vf_cover("given"); std::vector<eoRealInterval> b(nobj, eoRealInterval(0, r)); std::vector<Obj> box(2); for (unsigned o = 0; o < nobj; o++) { box[0][o] = 0; box[1][o] = r; } moeoHyperVolumeMetric<Obj> h(ref, b); vf_assert(close(h(s), measure(scaled(s, box, 1.25, true))), "hypervolume within the given bounds"); same(s, keep); }
    else { vf_cover("own"); moeoHyperVolumeMetric<Obj> h(true, ref); double v = h(s); vf_assert(close(v, measure(scaled(s, s, 1.25, true))), "hypervolume up to the given reference point, scaled"); same(s, keep); vf_assert(close(h(s), v), "asking again gives the same"); }
    std::vector<Obj> b = points(1, 0, r), all = s; all.push_back(b[0]); moeoHyperVolumeDifferenceMetric<Obj> d(true, ref); vf_assert(close(d(s, b), measure(scaled(s, all, 1.25, true)) - measure(scaled(b, all, 1.25, true))), "the difference up to the given reference point");
}
ENTRY(difference) {
    directions(P("m", 2)); std::vector<Obj> a = points(vfPick("na", 1, P("n", 2)), 0, P("r", 2)), b = points(vfPick("nb", 1, 2), 0, P("r", 2)), all = a; all.insert(all.end(), b.begin(), b.end()); bool norm = vfPick("norm", 0, 1);
    moeoHyperVolumeDifferenceMetric<Obj> h(norm, 1.25), g(norm, 1.25); double v = h(a, b); vf_assert(close(v, measure(scaled(a, all, 1.25, norm)) - measure(scaled(b, all, 1.25, norm))), "the difference of the two hypervolumes"); vf_assert(close(g(b, a), -v), "the difference changes sign"); if (v > 0) vf_cover("better"); else if (v < 0) vf_cover("worse"); else vf_cover("same");
}
ENTRY(pairs) {
    directions(P("m", 2)); double hi = 4; Obj a = pickObj(0, P("r", 3)), b = pickObj(0, P("r", 3)); moeoAdditiveEpsilonBinaryMetric<Obj> e; moeoHypervolumeBinaryMetric<Obj> h(1.25); for (unsigned o = 0; o < nobj; o++) { e.setup(0, hi * (o + 1), o); h.setup(0, hi * (o + 1), o); }
    double eps = -1e9; std::vector<double> x(nobj), y(nobj), z(nobj); for (unsigned o = 0; o < nobj; o++) { double R = hi * (o + 1), d = (a[o] - b[o]) / R; eps = std::max(eps, mini[o] ? d : -d); double u = mini[o] ? (double)a[o] : R - a[o], w = mini[o] ? (double)b[o] : R - b[o]; x[o] = (1.25 * R - u) / (1.25 * R); y[o] = (1.25 * R - w) / (1.25 * R); z[o] = std::min(x[o], y[o]); }
    vf_assert(near(e(a, b), eps), "additive epsilon is the largest scaled disadvantage"); double vx = 1, vy = 1, vz = 1; for (unsigned o = 0; o < nobj; o++) { vx *= x[o]; vy *= y[o]; vz *= z[o]; }
    if (dom(a, b)) { vf_cover("dominates"); vf_assert(near(h(a, b), -(vx - vz)), "minus the volume only the dominator covers"); } else { if (!weakly(b, a)) vf_cover("incomparable"); vf_assert(near(h(a, b), vy - vz), "the volume only the second covers"); }
    (void)vx;
}
ENTRY(epsilonSets) {
    directions(2); int kind = vfPick("kind", 0, 2), lo = kind == 2 ? 1 : 0; std::vector<Obj> a = points(vfPick("na", 1, P("n", 2)), lo, lo + P("r", 2)), b = points(vfPick("nb", 1, 2), lo, lo + P("r", 2)), all = a; all.insert(all.end(), b.begin(), b.end());
    moeoVecVsVecAdditiveEpsilonBinaryMetric<Obj> p(false), q(true); moeoVecVsVecMultiplicativeEpsilonBinaryMetric<Obj> f; double v = kind == 0 ? p(a, b) : kind == 1 ? q(a, b) : f(a, b), w = -1e9; vf_cover(kind == 0 ? "plain" : kind == 1 ? "normalised" : "factor");
    for (unsigned j = 0; j < b.size(); j++) { double best = 1e9; for (unsigned i = 0; i < a.size(); i++) { double worst = -1e9; for (unsigned o = 0; o < nobj; o++) { double x = a[i][o], y = b[j][o]; if (!mini[o]) std::swap(x, y); if (kind == 1) { double l = all[0][o], h = l; for (unsigned k = 1; k < all.size(); k++) { l = std::min(l, (double)all[k][o]); h = std::max(h, (double)all[k][o]); } if (h > l) { x /= h - l; y /= h - l; } } worst = std::max(worst, kind == 2 ? x / y : x - y); } best = std::min(best, worst); } w = std::max(w, best); }
    vf_assert(near(v, w), "epsilon is the worst best disadvantage");
}
static bool in(const std::vector<Obj>& s, const Obj& x) { for (unsigned i = 0; i < s.size(); i++) if (equalObj(s[i], x)) return true; return false; }
static void counts(const std::vector<Obj>& a, const std::vector<Obj>& b, double& c, double& w, double& n) { c = w = n = 0; for (unsigned i = 0; i < a.size(); i++) { bool up = false, down = false; for (unsigned j = 0; j < b.size(); j++) { if (dom(a[i], b[j])) up = true; if (dom(b[j], a[i])) down = true; } if (in(b, a[i])) c++; if (up) w++; else if (!down) n++; } }
ENTRY(contribution) {
    directions(2, vfPick("mix", 0, 1) ? 3 : 1); std::vector<Obj> a = points(vfPick("na", 1, P("n", 2)), 0, P("r", 2)), b = points(vfPick("nb", 1, 2), 0, P("r", 2));
    // each set is a set of mutually non-dominated points
    for (unsigned i = 0; i < a.size(); i++) for (unsigned j = 0; j < a.size(); j++) if (i != j) vf_assume(!weakly(a[i], a[j])); for (unsigned i = 0; i < b.size(); i++) for (unsigned j = 0; j < b.size(); j++) if (i != j) vf_assume(!weakly(b[i], b[j]));
    double c, w, n, c2, w2, n2; counts(a, b, c, w, n); counts(b, a, c2, w2, n2); moeoContributionMetric<Obj> m; double v = m(a, b); if (c > 0) vf_cover("common"); if (v > 0.5) vf_cover("better"); if (v == 0) vf_cover("none");
    vf_assert(near(v, (c / 2 + w + n) / (c + w + n + w2 + n2)), "contribution is the share of the first set"); vf_assert(near(v + m(b, a), 1), "the contributions of two sets sum to one");
}
