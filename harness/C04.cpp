// C04: real and integer bounds: repairs and draws stay inside, inside values are left alone, tests agree with the limits.
//@ bounds one bound description of each kind; limits: every multiple of 1/2 in [-2,2] with a range of 1/2, 1, 2 or 4 and values: every multiple of 1/4 in [-w,w] (symbolic); decimal limits 0.1 and 0.3 apart with every multiple of 0.1 in [-2,2] in double arithmetic; ranges of 3 and 5; limits and values around and above 1e9; null range; vectors of up to 3 bounds built in every way, read from text, copied, extended; every draw
//@ outside other limits and values (rounding of other decimals), infinite and not-a-number values; printing of bounds; text conversion of numbers (replaced by an exact decimal reader)
//@ stub read_double(**)=vf_read_double
//@ stub read_int(**)=vf_read_int
//@ entry realSymbolic covers=none,two,below,above,inside,low,high quick="w=10" thorough="w=64" jobs=4
//@ entry realDecimal covers=inside,low,high quick="w=20" thorough="w=60" opts="-enum 2000"
//@ entry realLarge covers=inside,low,high quick="" thorough=""
//@ entry realNull covers=inside,low,high quick="" thorough=""
//@ entry intSymbolic covers=none,two,below,above,inside,low,high quick="w=10" thorough="w=64" jobs=4
//@ entry intOdd covers=inside,low,high quick="w=20" thorough="w=60" opts="-enum 2000"
//@ entry draws covers=real,int,general quick="" thorough=""
//@ entry general covers=real,int,refused quick="" thorough=""
//@ entry vectors covers=scalar,pair,lists,shared,text,nobounds,copied quick="n=3 w=16" thorough="n=3 w=64" jobs=4
//@ entry reread covers=done quick="w=16 f=2" thorough="w=64 f=3" jobs=4
//@ entry initializers covers=real,es,uniform,rounded quick="n=2" thorough="n=3" opts="-enum 600"
#include "chrom.h"
#include <utils/eoIntBounds.h>
#include <utils/eoUniformInit.h>
#include <es/eoRealInitBounded.h>
#include <es/eoEsChromInit.h>
#include <eoRealToIntInit.h>
// exact reader of decimal texts such as -2, 0.5, 3
extern "C" __attribute__((used)) double vf_read_double(std::string* s) {
    double v = 0, unit = 1; bool neg = false, frac = false;
    for (unsigned i = 0; i < s->size(); i++) { char c = (*s)[i]; if (c == '-') neg = true; else if (c == '.') frac = true; else if (c >= '0' && c <= '9') { if (frac) { unit /= 10; v += (c - '0') * unit; } else v = v * 10 + (c - '0'); } }
    return neg ? -v : v;
}
extern "C" __attribute__((used)) long vf_read_int(std::string* s) { return (long)vf_read_double(s); }
static const double LOWS[] = {-2, -0.5, 0, 1.5}, WIDTHS[] = {0.5, 1, 2, 4};
struct Lim { bool lo, hi; double min, max; bool in(double x) const { return !(lo && x < min) && !(hi && x > max); } };
// the kind of bound against the limits it was built from
template <class B> static void kind(const B& b, const Lim& L) {
    vf_assert(b.isMinBounded() == L.lo && b.isMaxBounded() == L.hi && b.isBounded() == (L.lo && L.hi) && b.hasNoBoundAtAll() == (!L.lo && !L.hi), "the bound says which limits it has");
    if (L.lo) vf_assert(b.minimum() == L.min, "minimum() is the declared minimum");
    else { bool t = false; try { b.minimum(); } catch (eoException&) { t = true; } vf_assert(t, "a missing minimum is refused"); }
    if (L.hi) vf_assert(b.maximum() == L.max, "maximum() is the declared maximum");
    else { bool t = false; try { b.maximum(); } catch (eoException&) { t = true; } vf_assert(t, "a missing maximum is refused"); }
    if (L.lo && L.hi) vf_assert(b.range() == L.max - L.min, "range() is the distance of the limits");
    else { bool t = false; try { b.range(); } catch (eoException&) { t = true; } vf_assert(t, "a missing range is refused"); }
}
template <class B> static void repair(const B& b, const Lim& L, double x) {
    vf_assert(b.isInBounds(x) == L.in(x), "the in-domain test agrees with the limits");
    double t = x, f = x; b.truncate(t); b.foldsInBounds(f);
    vf_assert(L.in(t), "a truncated value is inside"); vf_assert(L.in(f), "a folded value is inside");
    if (L.in(x)) { vf_cover("inside"); vf_assert(t == x, "truncating leaves an inside value unchanged"); vf_assert(f == x, "folding leaves an inside value unchanged"); }
    else if (L.lo && x < L.min) { vf_cover("low"); vf_assert(t == L.min, "truncating gives the violated limit"); }
    else { vf_cover("high"); vf_assert(t == L.max, "truncating gives the violated limit"); }
}
static Lim lim(int k, double a, double b) { Lim L; L.lo = k == 1 || k == 2; L.hi = k == 1 || k == 3; L.min = a; L.max = b; return L; }
static void coverKind(int k) { if (k == 0) vf_cover("none"); else if (k == 1) vf_cover("two"); else if (k == 2) vf_cover("below"); else vf_cover("above"); }
static eoRealBounds* makeReal(int k, double a, double b) {
    switch (k) { case 0: return new eoRealNoBounds; case 1: return new eoRealInterval(a, b); case 2: return new eoRealBelowBound(a); default: return new eoRealAboveBound(b); }
}
static eoIntBounds* makeInt(int k, long a, long b) {
    switch (k) { case 0: return new eoIntNoBounds; case 1: return new eoIntInterval(a, b); case 2: return new eoIntBelowBound(a); default: return new eoIntAboveBound(b); }
}
static void checkReal(int k, double a, double b, double x) {
    eoRealBounds* p = makeReal(k, a, b); Lim L = lim(k, a, b); kind(*p, L); repair(*p, L, x);
    eoRealBounds* q = p->dup(); delete p; kind(*q, L); delete q;
}
ENTRY(realSymbolic) {
    int c = vfPick("config", 0, 63), k = c / 16; double a = LOWS[c / 4 % 4], b = a + WIDTHS[c % 4]; coverKind(k);
    checkReal(k, a, b, vfInt("x", -4 * P("w", 64), 4 * P("w", 64)) * 0.25);
}
ENTRY(realDecimal) {
    static const double lo[] = {0, 0, -0.1, 0.1, -0.7, 0}, hi[] = {0.1, 0.3, 0.2, 0.4, -0.4, 3};
    int c = vfPick("config", 0, 5); checkReal(1, lo[c], hi[c], vfPick("x", -P("w", 20), P("w", 20)) / 10.0);
}
ENTRY(realLarge) {
    static const double lo[] = {0, -2e9, 1e9, -1}, hi[] = {2e9, -1.5e9, 4e9, 1}, xs[] = {0, 0.5, 1e9, -1e9, 1.5e9, -1.75e9, 3e9, -1e300, 1e300, 1e17, -999999999.0, 4e9};
    vf_rbits = 2; int c = vfPick("config", 0, 3), i = vfPick("x", 0, 11); checkReal(1, lo[c], hi[c], xs[i]);
}
ENTRY(realNull) { double a = vfPick("a", -2, 2) * 0.5; checkReal(1, a, a, vfPick("x", -8, 8) * 0.25); }

static void checkInt(int k, long a, long b, double x) {
    eoIntBounds* p = makeInt(k, a, b); Lim L = lim(k, a, b); kind(*p, L); repair(*p, L, x);
    eoIntBounds* q = p->dup(); delete p; kind(*q, L);
    long xi = (long)x, t = xi, f = xi; q->eoIntBounds::truncate(t); q->eoIntBounds::foldsInBounds(f);
    vf_assert(L.in(t) && L.in(f), "a repaired integer is inside"); if (L.in(xi)) vf_assert(t == xi && f == xi, "an inside integer is left unchanged");
    delete q;
}
ENTRY(intSymbolic) {
    static const long lo[] = {-2, 0, 1, 7}, wd[] = {1, 2, 4, 8};
    int c = vfPick("config", 0, 63), k = c / 16; long a = lo[c / 4 % 4], b = a + wd[c % 4]; coverKind(k);
    checkInt(k, a, b, vfInt("x", -4 * P("w", 64), 4 * P("w", 64)) * 0.25);
}
ENTRY(intOdd) {
    static const long lo[] = {0, -1, -7}, wd[] = {3, 5, 6}; int c = vfPick("config", 0, 8);
    checkInt(1, lo[c / 3], lo[c / 3] + wd[c % 3], vfPick("x", -2 * P("w", 20), 2 * P("w", 20)) * 0.5);
}
static void drawn(const eoRng& g) { vf_assert(vf_last_gen == (const void*)&g, "the draw comes from the generator that was passed"); }
ENTRY(draws) {
    static eoRng g(42u); int c = vfPick("config", 0, 15); double a = LOWS[c / 4], b = a + WIDTHS[c % 4]; eoRng& r = vfPick("own", 0, 1) ? g : eo::rng;
    switch (vfPick("kind", 0, 3)) {
    case 0: { eoRealInterval i(a, b); double u = i.uniform(r); drawn(r); vf_assert(u >= a && u <= b, "a uniform draw is inside"); vf_cover("real"); break; }
    case 1: { eoIntInterval i((long)a, (long)a + 4); if (vfPick("int", 0, 1)) { long u = i.random(r); vf_assert(u >= (long)a && u <= (long)a + 4, "an integer draw is inside"); } else { double u = i.uniform(r); vf_assert(u >= (long)a && u <= (long)a + 4, "a uniform draw is inside"); } drawn(r); vf_cover("int"); break; }
    case 2: { eoGeneralRealBounds i("[-1,3]"); double u = i.uniform(r); drawn(r); vf_assert(u >= -1 && u <= 3, "a uniform draw is inside"); vf_cover("general"); break; }
    default: { eoGeneralIntBounds i("[-1,3]"); if (vfPick("int", 0, 1)) { long u = i.random(r); vf_assert(u >= -1 && u <= 3, "an integer draw is inside"); } else { double u = i.uniform(r); vf_assert(u >= -1 && u <= 3, "a uniform draw is inside"); } drawn(r); }
    }
}
static const char* TEXT[] = {"[-infinity,+infinity]", "[-inf,+inf]", "[-1,3]", "(-1;3)", "[-1,+inf]", "[-1,+infinity]", "[-inf,3]", "[-infinity,3]"};
static Lim textLim(int i) { return lim(i < 2 ? 0 : i < 4 ? 1 : i < 6 ? 2 : 3, -1, 3); }
ENTRY(general) {
    int i = vfPick("text", 0, 10); double x = vfInt("x", -32, 32) * 0.25;
    if (i >= 8) {
        static const char* bad[] = {"", "[3,-1]", "3"}; bool t = false;
        try { if (vfPick("int", 0, 1)) eoGeneralIntBounds b(bad[i - 8]); else eoGeneralRealBounds b(bad[i - 8]); } catch (eoException&) { t = true; }
        vf_assert(t, "a malformed description is refused"); vf_cover("refused"); return;
    }
    Lim L = textLim(i);
    if (vfPick("int", 0, 1)) {
        eoGeneralIntBounds b(TEXT[i]); kind(b, L); repair(b, L, x); eoGeneralIntBounds c(b); kind(c, L); repair(c, L, x);
        eoGeneralIntBounds d("[7,9]"); d = b; kind(d, L); repair(d, L, x); d = *&d; kind(d, L); eoIntBounds* e = d.dup(); kind(*e, L); repair(*e, L, x); delete e; vf_cover("int");
    } else {
        eoGeneralRealBounds b(TEXT[i]); kind(b, L); repair(b, L, x); eoGeneralRealBounds c(b); kind(c, L); repair(c, L, x);
        eoGeneralRealBounds d("[7,9]"); d = b; kind(d, L); repair(d, L, x); d = *&d; kind(d, L); eoRealBounds* e = d.dup(); kind(*e, L); repair(*e, L, x); delete e; vf_cover("real");
    }
}
// a vector of bounds against the list of limits it was built from
static void checkVector(eoRealBaseVectorBounds& v, const std::vector<Lim>& L, int w) {
    unsigned n = L.size(); vf_assert(v.size() == n, "one bound per coordinate");
    std::vector<double> x(n), t, f; bool all = true, none = true;
    for (unsigned i = 0; i < n; i++) {
        x[i] = vfInt("x", -4 * w, 4 * w) * 0.25; all = all && L[i].lo && L[i].hi; none = none && !L[i].lo && !L[i].hi;
        vf_assert(v.isMinBounded(i) == L[i].lo && v.isMaxBounded(i) == L[i].hi && v.isBounded(i) == (L[i].lo && L[i].hi) && v.hasNoBoundAtAll(i) == (!L[i].lo && !L[i].hi), "each coordinate says which limits it has");
        if (L[i].lo) vf_assert(v.minimum(i) == L[i].min, "minimum of the coordinate"); if (L[i].hi) vf_assert(v.maximum(i) == L[i].max, "maximum of the coordinate");
        if (L[i].lo && L[i].hi) vf_assert(v.range(i) == L[i].max - L[i].min, "range of the coordinate");
        vf_assert(v.isInBounds(i, x[i]) == L[i].in(x[i]), "the in-domain test of a coordinate agrees with its limits");
        double a = x[i], b = x[i]; v.truncate(i, a); v.foldsInBounds(i, b); vf_assert(L[i].in(a) && L[i].in(b), "a repaired coordinate is inside"); if (L[i].in(x[i])) vf_assert(a == x[i] && b == x[i], "an inside coordinate is left unchanged");
    }
    vf_assert(v.isBounded() == all && v.hasNoBoundAtAll() == none, "the vector says whether all, or no, coordinates are bounded");
    bool in = true; for (unsigned i = 0; i < n; i++) in = in && L[i].in(x[i]);
    vf_assert(v.isInBounds(x) == in, "a vector is inside when every coordinate is");
    t = x; f = x; v.truncate(t); v.foldsInBounds(f); vf_assert(t.size() == n && f.size() == n, "repairing keeps the dimension");
    for (unsigned i = 0; i < n; i++) { vf_assert(L[i].in(t[i]) && L[i].in(f[i]), "a repaired vector is inside"); if (L[i].in(x[i])) vf_assert(t[i] == x[i] && f[i] == x[i], "inside coordinates are left unchanged"); }
    static eoRng g(7u);
    if (all) {
        std::vector<double> u; v.uniform(u, g); drawn(g); vf_assert(u.size() == n, "a drawn vector has the dimension of the bounds");
        for (unsigned i = 0; i < n; i++) vf_assert(u[i] >= L[i].min && u[i] <= L[i].max, "a drawn vector is inside");
        double r = 0; for (unsigned i = 0; i < n; i++) r += L[i].max - L[i].min; vf_assert(n == 3 || v.averageRange() == r / n, "average range");
    }
}
static const char* VTEXT[] = {"[0,2]", "2[0,2]", "[0,2][-1,3]", "[0,2];2[-1,+inf]", "(-inf,2);[-1,3]", "[-inf,+inf],3[0,2]"};
static std::vector<Lim> vtext(int i) {
    std::vector<Lim> L; Lim a = lim(1, 0, 2);
    switch (i) {
    case 0: L.push_back(a); break; case 1: L.assign(2, a); break; case 2: L.push_back(a); L.push_back(lim(1, -1, 3)); break;
    case 3: L.push_back(a); L.push_back(lim(2, -1, 0)); L.push_back(lim(2, -1, 0)); break;
    case 4: L.push_back(lim(3, 0, 2)); L.push_back(lim(1, -1, 3)); break; default: L.push_back(lim(0, 0, 0)); L.push_back(a); L.push_back(a); L.push_back(a);
    }
    return L;
}
static void withCopy(eoRealVectorBounds& v, std::vector<Lim> L) {
    int w = P("w", 16);
    switch (vfPick("how", 0, 2)) {
    case 0: checkVector(v, L, w); break;
    case 1: { vf_cover("copied"); eoRealVectorBounds c(v); checkVector(c, L, w); break; }
    default: { unsigned d = vfPick("dim", 1, P("n", 3)); v.adjust_size(d); while (L.size() < d) L.push_back(L.back()); checkVector(v, L, w); }
    }
}
ENTRY(vectors) {
    vf_rbits = 3; int c = vfPick("config", 0, 10), n = 1 + c % 2;
    if (c < 2) { vf_cover("scalar"); eoRealVectorBounds v(n, -1, 3); withCopy(v, std::vector<Lim>(n, lim(1, -1, 3))); }
    else if (c == 2) { vf_cover("pair"); eoRealInterval a(0, 2); eoRealBelowBound b(-1); eoRealVectorBounds v(a, b); std::vector<Lim> L; L.push_back(lim(1, 0, 2)); L.push_back(lim(2, -1, 0)); withCopy(v, L); }
    else if (c == 3) { vf_cover("lists"); std::vector<double> lo(2), hi(2); lo[0] = 0; lo[1] = -1; hi[0] = 4; hi[1] = 1; eoRealVectorBounds v(lo, hi); std::vector<Lim> L; L.push_back(lim(1, 0, 4)); L.push_back(lim(1, -1, 1)); withCopy(v, L); }
    else if (c == 4) { vf_cover("shared"); eoRealAboveBound a(2); eoRealVectorBounds v(2, a); withCopy(v, std::vector<Lim>(2, lim(3, 0, 2))); }
    else { vf_cover("text"); int i = c - 5; eoRealVectorBounds v{std::string(VTEXT[i])}; withCopy(v, vtext(i)); }
    if (c == 0) {
        eoRealVectorNoBounds v(2); std::vector<Lim> L(2, lim(0, 0, 0)); checkVector(v, L, P("w", 16)); eoRealBaseVectorBounds& b = v; bool t = false; try { std::vector<double> u; b.uniform(0u); } catch (eoException&) { t = true; } vf_assert(t, "no uniform draw without bounds"); vf_cover("nobounds");
    }
}
// a copy keeps its own limits whatever happens to the original
ENTRY(reread) {
    vf_rbits = 2; int i = vfPick("first", 0, P("f", 2)), j = vfPick("second", 0, 1) * 4; std::vector<Lim> L = vtext(i), M = vtext(j);
    eoRealVectorBounds v{std::string(VTEXT[i])}; eoRealVectorBounds c(v); v.readFrom(std::string(VTEXT[j])); while (M.size() < L.size()) M.push_back(M.back());
    if (vfPick("which", 0, 1)) checkVector(c, L, P("w", 16)); else checkVector(v, M, P("w", 16)); vf_cover("done");
}
ENTRY(initializers) {
    int k = vfPick("kind", 0, 3), n = vfPick("n", 1, P("n", 2)), c = vfPick("config", 0, 3);
    std::vector<double> lo(n), hi(n); for (int i = 0; i < n; i++) { lo[i] = LOWS[(c + i) % 4]; hi[i] = lo[i] + WIDTHS[(c + 2 * i) % 4]; }
    eoRealVectorBounds b(lo, hi);
    if (k == 0) { Reals x; x.fitness(1.0); eoRealInitBounded<Reals> in(b); in(x); vf_assert((int)x.size() == n, "the initializer gives the announced dimension"); for (int i = 0; i < n; i++) vf_assert(x[i] >= lo[i] && x[i] <= hi[i], "an initialized coordinate is inside"); vf_assert(x.invalid(), "a new individual is not evaluated"); vf_cover("real"); }
    else if (k == 1) { vf_rbits = 2; eoEsFull<double> x; eoEsChromInit<eoEsFull<double> > in(b, 0.5, vfPick("scale", 0, 1)); in(x); vf_assert((int)x.size() == n && (int)x.stdevs.size() == n && (int)x.correlations.size() == n * (n - 1) / 2, "the initializer gives the announced dimensions"); for (int i = 0; i < n; i++) vf_assert(x[i] >= lo[i] && x[i] <= hi[i], "an initialized coordinate is inside"); vf_cover("es"); }
    else if (k == 2) { eoRealInterval iv(lo[0], hi[0]); eoUniformInit<double> in(iv); double d; in(d); vf_assert(d >= lo[0] && d <= hi[0], "an initialized value is inside"); vf_cover("uniform"); }
    else {
        struct Any : eoInit<Reals> { int n; void operator()(Reals& r) { r.resize(n); for (int i = 0; i < n; i++) r[i] = vfInt("x", -40, 40) * 0.25; } } any; any.n = n;
        long a = vfPick("a", -1, 1); eoIntInterval ib(a, a + 4); typedef eoInt<double, long> Longs; Longs x; typedef eoRealToIntInit<Longs> RI; RI in(any, ib, vfPick("repair", 0, 1) ? RI::folds : RI::truncate); in(x);
        vf_assert((int)x.size() == n, "the initializer gives the announced dimension"); for (int i = 0; i < n; i++) vf_assert((long)x[i] >= a && (long)x[i] <= a + 4, "an initialized coordinate is inside"); vf_cover("rounded");
    }
}
