// Multi-objective individuals: an identity and symbolic objective vectors on a small grid.
#pragma once
#include "common.h"
#include <eo>
#include <moeo>
#include <core/moeoObjectiveVectorTraits.cpp>
typedef moeoRealObjectiveVector<moeoObjectiveVectorTraits> Obj;
struct Sol : public MOEO<Obj, double, double> {
    int id;
    Sol(int i = -1) : id(i) {}
    std::string className() const { return "Sol"; }
    bool operator==(const Sol& o) const { return id == o.id; }
};
static unsigned nobj; static bool mini[6];
static void directions(unsigned n) { std::vector<bool> b(n); int m = vfPick("mix", 0, (1 << n) - 1); nobj = n; for (unsigned i = 0; i < n; i++) { mini[i] = (m >> i) & 1; b[i] = mini[i]; } Obj::setup(n, b); }
static void directions(unsigned n, int m) { std::vector<bool> b(n); nobj = n; for (unsigned i = 0; i < n; i++) { mini[i] = (m >> i) & 1; b[i] = mini[i]; } Obj::setup(n, b); }
static Obj symObj(int lo, int hi) { Obj o; for (unsigned i = 0; i < nobj; i++) o[i] = vfInt("obj", lo, hi); return o; }
static Obj pickObj(int lo, int hi) { int w = hi - lo + 1, t = 1; for (unsigned i = 0; i < nobj; i++) t *= w; int c = vfPick("obj", 0, t - 1); Obj o; for (unsigned i = 0; i < nobj; i++) { o[i] = lo + c % w; c /= w; } return o; }
// reference relations: is a worse than b in one objective, or dominated by b
static bool worse(const Obj& a, const Obj& b, unsigned i) { return mini[i] ? a[i] > b[i] : a[i] < b[i]; }
static bool weakly(const Obj& b, const Obj& a) { for (unsigned i = 0; i < nobj; i++) if (worse(b, a, i)) return false; return true; }
static bool strictly(const Obj& b, const Obj& a) { for (unsigned i = 0; i < nobj; i++) if (!worse(a, b, i)) return false; return true; }
static bool equalObj(const Obj& a, const Obj& b) { for (unsigned i = 0; i < nobj; i++) if (a[i] != b[i]) return false; return true; }
static bool dom(const Obj& b, const Obj& a) { return weakly(b, a) && !equalObj(a, b); }
