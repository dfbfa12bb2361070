// C26: diversity values are numbers, favour the extremes and follow from gaps and distances alone.
//@ bounds every population of up to n individuals with integer objectives in 0..r, 1 to 2 objectives, every assignment to fronts; every symmetric distance matrix over {0,1/4,1/2,1} (sharing) or 0..3 (nearest neighbour, index 1..3), with and without an archive; earlier diversities arbitrary
//@ outside larger populations, other niche sizes than 1/2, exponents other than 1 and 2, fuzzy diversities, the Manhattan distance (the IR compiler rejects its return type), updates after a deletion
//@ include moeo/src
//@ entry crowding covers=interior,tied,constant,few quick="n=4 r=2 d=1;n=3 r=3" thorough="n=4 r=3;n=5 r=4 d=1" jobs=8
//@ entry frontCrowding covers=interior,tied,constant,few,fronts quick="n=4 r=2 d=1;n=3 r=2" thorough="n=4 r=2;n=5 r=3 d=1" jobs=8
//@ entry nearest covers=archive,duplicate quick="n=3" thorough="n=4" jobs=4
//@ entry sharing covers=duplicate,isolated,front quick="n=3" thorough="n=4" jobs=4
//@ entry distances covers=same,apart,normalised quick="" thorough="" jobs=4
//@ entry dummy covers=kept,given quick="" thorough=""
#include "objv.h"
static std::vector<Obj> objs; static std::vector<double> fit;
static eoPop<Sol> population(int n, int r, int fronts) {
    eoPop<Sol> p; objs.clear(); fit.clear(); for (int i = 0; i < n; i++) { Sol s(i); objs.push_back(symObj(0, r)); s.objectiveVector(objs[i]); fit.push_back(fronts > 1 ? vfPick("front", 0, fronts - 1) : 0); s.fitness(fit[i]); if (i & 1) s.diversity(7); p.push_back(s); }
    return p;
}
static std::vector<double> values(eoPop<Sol>& p) {
    vf_assert(p.size() == objs.size(), "no individual is added or lost"); std::vector<double> v(p.size()); std::vector<bool> seen(p.size());
    for (unsigned i = 0; i < p.size(); i++) { int k = p[i].id; vf_assert(k >= 0 && k < (int)p.size() && !seen[k], "no individual is replaced"); seen[k] = true; vf_assert(equalObj(p[i].objectiveVector(), objs[k]), "objective vectors are unchanged"); vf_assert(p[i].fitness() == fit[k], "fitness values are unchanged"); vf_assert(!p[i].invalidDiversity(), "everyone gets a diversity"); v[k] = p[i].diversity(); vf_assert(v[k] == v[k], "diversity is a number"); }
    return v;
}
static bool near(double a, double b) { double d = a - b; return d < 1e-9 && d > -1e-9; }
static void gaps(const std::vector<double>& v, double inf) {
    int n = objs.size();
    for (int i = 0; i < n; i++) {
        int peers = 0; for (int j = 0; j < n; j++) if (fit[j] == fit[i]) peers++;
        if (peers <= 2) { vf_cover("few"); vf_assert(v[i] == inf, "up to two solutions have the maximal value"); continue; }
        vf_assert(v[i] <= inf && v[i] >= 0, "no value exceeds the maximal one");
        bool lowest[2], highest[2]; double sum = 0; bool exact = true, extreme = false;
        for (unsigned o = 0; o < nobj; o++) {
            double x = objs[i][o], below = -1, above = 99, min = 99, max = -1; bool tied = false, inflow = false, infhigh = false;
            for (int j = 0; j < n; j++) if (fit[j] == fit[i]) { double y = objs[j][o]; if (j != i && y == x) tied = true; if (y < x && y > below) below = y; if (y > x && y < above) above = y; if (y < min) min = y; if (y > max) max = y; }
            for (int j = 0; j < n; j++) if (fit[j] == fit[i]) { if (objs[j][o] == min && v[j] == inf) inflow = true; if (objs[j][o] == max && v[j] == inf) infhigh = true; }
            vf_assert(inflow && infhigh, "an extreme solution of each objective has the maximal value");
            lowest[o] = x == min; highest[o] = x == max; if (tied) exact = false; if (min == max) { vf_cover("constant"); continue; }
            if (!tied && (lowest[o] || highest[o])) { extreme = true; continue; }
            if (tied) { vf_cover("tied"); if (lowest[o]) below = x; if (highest[o]) above = x; }
            sum += (above - below) / (max - min);
        }
        if (extreme) vf_assert(v[i] == inf, "the only extreme solution has the maximal value");
        else if (exact) { vf_cover("interior"); vf_assert(near(v[i], sum), "interior solutions have the sum of normalised gaps"); }
        else if (v[i] != inf) vf_assert(v[i] <= sum + 1e-9, "tied solutions have no more than the gap around them");
        // the maximal value is only for extremes
        bool any = false; for (unsigned o = 0; o < nobj; o++) if (lowest[o] || highest[o]) any = true; if (!any) vf_assert(v[i] < inf, "only extremes have the maximal value");
    }
}
ENTRY(crowding) { directions(P("d", 2), vfPick("mix", 0, 1)); int n = vfPick("n", P("n", 3) > 3 ? P("n", 3) : 1, P("n", 3)); eoPop<Sol> p = population(n, P("r", 2), 1); moeoCrowdingDiversityAssignment<Sol> a; a(p); gaps(values(p), a.inf()); }
ENTRY(frontCrowding) { directions(P("d", 2), vfPick("mix", 0, 1)); int n = P("n", 3); eoPop<Sol> p = population(n, P("r", 2), 2); for (int i = 1; i < n; i++) if (fit[i] != fit[0]) vf_cover("fronts"); moeoFrontByFrontCrowdingDiversityAssignment<Sol> a; a(p); gaps(values(p), std::numeric_limits<double>::max()); }
// an arbitrary symmetric distance, by identity
struct Matrix : public moeoDistance<Sol, double> { double d[8][8]; const double operator()(const Sol& a, const Sol& b) { return d[a.id][b.id]; } };
static Matrix arbitrary(int n, bool niche) { Matrix m; static const double q[4] = {0, 0.25, 0.5, 1}; for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) m.d[i][j] = m.d[j][i] = i == j ? 0 : niche ? q[vfPick("dist", 0, 3)] : vfPick("dist", 0, 3); return m; }
ENTRY(nearest) {
    directions(1, 1); int arc = vfPick("arc", 0, 1), n = P("n", 3) - arc, k = vfPick("k", 1, 3); Matrix m = arbitrary(n + arc, false); moeoUnboundedArchive<Sol> ar; eoPop<Sol> p; objs.clear(); fit.clear();
    for (int i = 0; i < n + arc; i++) { Sol s(i); Obj o; o[0] = i; s.objectiveVector(o); s.fitness(0); if (i < n) { p.push_back(s); objs.push_back(o); fit.push_back(0); } else ar.push_back(s); }
    moeoNearestNeighborDiversityAssignment<Sol> a(m, k), b(m, ar, k); if (arc) b(p); else a(p); std::vector<double> v = values(p); if (arc) { vf_cover("archive"); vf_assert(ar.size() == 1, "the archive keeps its members"); v.push_back(ar[0].diversity()); }
    for (int i = 0; i < n + arc; i++) {
        std::vector<double> d; for (int j = 0; j < n + arc; j++) if (j != i) d.push_back(m.d[i][j]); std::sort(d.begin(), d.end()); double x = d[std::min(k, (int)d.size()) - 1]; if (x == 0) vf_cover("duplicate");
        vf_assert(v[i] == -1 / (2 + x), "the value follows from the distance to the k-th neighbour");
    }
}
ENTRY(sharing) {
    directions(1, 1); int n = P("n", 3); Matrix m = arbitrary(n, true); int kind = vfPick("kind", 0, 2); double alpha = kind == 0 ? 1 : 2; eoPop<Sol> p; objs.clear(); fit.clear();
    for (int i = 0; i < n; i++) { Sol s(i); Obj o; o[0] = i; s.objectiveVector(o); fit.push_back(vfPick("fit", 0, 1)); s.fitness(fit[i]); objs.push_back(o); p.push_back(s); }
    moeoSharingDiversityAssignment<Sol> a(m), b(m, 0.5, 2.0); moeoFrontByFrontSharingDiversityAssignment<Sol> c(m); if (kind == 0) a(p); else if (kind == 1) b(p); else c(p);
    std::vector<double> v = values(p), s(n); double max = 0;
    for (int i = 0; i < n; i++) { s[i] = 0; for (int j = 0; j < n; j++) { if (kind == 2 && fit[i] != fit[j]) { vf_cover("front"); continue; } double d = m.d[i][j] / 0.5; if (d < 1) s[i] += 1 - (alpha == 1 ? d : d * d); if (d == 0 && j != i) vf_cover("duplicate"); } if (s[i] == 1) vf_cover("isolated"); max = std::max(max, s[i]); }
    for (int i = 0; i < n; i++) vf_assert(near(v[i], max - s[i]), "the value follows from the similarities");
}
ENTRY(distances) {
    directions(2, vfPick("mix", 0, 3)); Sol a(0), b(1), c(2); Obj x = pickObj(0, 2), y = pickObj(0, 2), w; a.objectiveVector(x); b.objectiveVector(y); w[0] = 4; w[1] = 8; c.objectiveVector(w);
    int how = vfPick("how", 0, 2); double s[2] = {1, 1};
    Obj z; z[0] = z[1] = 0; moeoObjectiveVectorNormalizer<Sol> norm(z, w, 2.0); if (how) { vf_cover("normalised"); s[0] = 0.5; s[1] = 0.25; }
    double dx = (x[0] - y[0]) * s[0], dy = (x[1] - y[1]) * s[1]; moeoEuclideanDistance<Sol> e0, e1(norm); moeoDistance<Sol, double>& e = how ? e1 : e0;
    vf_assert(near(e(a, b) * e(a, b), dx * dx + dy * dy), "euclidean distance of the normalised objectives"); vf_assert(e(a, b) == e(b, a), "distances are symmetric"); vf_assert((e(a, b) == 0) == equalObj(x, y), "distance zero is for equal vectors");
    if (equalObj(x, y)) vf_cover("same"); else vf_cover("apart");
    if (how == 2) { eoPop<Sol> p; p.push_back(a); p.push_back(b); p.push_back(c); moeoDistanceMatrix<Sol, double> dm(3, e); dm(p); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) vf_assert(dm[i][j] == e(p[i], p[j]), "the matrix holds the distances of all pairs"); }
}
ENTRY(dummy) { directions(1, 1); eoPop<Sol> p = population(2, 3, 1); int d = vfInt("d", -9, 9); p[1].diversity(d); moeoDummyDiversityAssignment<Sol> a; a(p); std::vector<double> v = values(p); vf_assert(v[0] == 0 && v[1] == d, "only missing diversities are set"); if (v[1] != 0) vf_cover("kept"); vf_cover("given"); }
