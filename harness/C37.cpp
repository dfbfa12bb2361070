// C37: deferred operators are built with the arguments last announced, cached or not, and owned by their forge.
//@ bounds forges holding two operators out of three kinds (no argument, one or two arguments, one referenced object), every sequence of k requests and new set-ups with arbitrary integer arguments, with and without cache; by index, by name, by shared pointer; scalar ranges with arbitrary integer limits
//@ outside scalar values out of range and fractional indices (refused by assertions), longer sequences, the foundries built on top
//@ entry byIndex covers=cached,rebuilt,reset,outside quick="k=4" thorough="k=5" jobs=8
//@ entry shared covers=cached,rebuilt,mixed quick="k=4" thorough="k=5" jobs=8
//@ entry byName covers=cached,rebuilt,reset,unknown quick="k=3" thorough="k=4" jobs=8
//@ entry scalar covers=inner,limit quick="" thorough=""
#include "common.h"
#include <eo>
#include <eoForge.h>
static int live_, built_;
struct Base { int serial; Base() : serial(++built_) { live_++; } Base(const Base&) : serial(++built_) { live_++; } virtual ~Base() { live_--; } virtual int kind() const = 0; virtual int first() const { return 0; } virtual int second() const { return 0; } };
struct None : Base { int kind() const { return 0; } };
struct One : Base { int a; One(int x) : a(x) {} int kind() const { return 1; } int first() const { return a; } };
struct Two : Base { int a; int& b; Two(int x, int& y) : a(x), b(y) {} int kind() const { return 2; } int first() const { return a; } int second() const { return b; } };
struct Want { int kind, a, made; };
static int target_;
static Want want() { Want w; w.kind = vfPick("kind", 0, 2); w.a = w.kind ? vfInt("argument", -100, 100) : 0; w.made = 0; return w; }
static void matches(const Base& o, const Want& w) { vf_assert(o.kind() == w.kind, "the operator announced last is built"); vf_assert(o.first() == w.a, "it gets the arguments announced last"); if (w.kind == 2) vf_assert(o.second() == target_, "referenced arguments stay references"); }
// one request: fresh without cache, the same object with cache
static void requested(const Base& o, Want& w, bool again) { matches(o, w); if (w.made && !again) { vf_assert(o.serial == w.made, "with a cache the same operator is given again"); vf_cover("cached"); } else { vf_assert(o.serial > w.made, "without a cache a new operator is built"); if (w.made) vf_cover("rebuilt"); } w.made = o.serial; }
typedef eoForgeVector<Base> V; typedef eoForgeMap<Base> M;
static void put(V& f, const Want& w) { if (w.kind == 0) f.add<None>(); else if (w.kind == 1) f.add<One>(w.a); else f.add<Two>(w.a, std::ref(target_)); }
static void change(V& f, int i, const Want& w) { if (w.kind == 0) f.setup<None>(i); else if (w.kind == 1) f.setup<One>(i, w.a); else f.setup<Two>(i, w.a, std::ref(target_)); }
static void put(M& f, const std::string& n, const Want& w) { if (w.kind == 0) f.add<None>(n); else if (w.kind == 1) f.add<One>(n, w.a); else f.add<Two>(n, w.a, std::ref(target_)); }
static void change(M& f, const std::string& n, const Want& w) { if (w.kind == 0) f.setup<None>(n); else if (w.kind == 1) f.setup<One>(n, w.a); else f.setup<Two>(n, w.a, std::ref(target_)); }
ENTRY(byIndex) {
    live_ = built_ = 0; target_ = vfInt("target", 0, 50); bool again = vfPick("again", 0, 1); { V f(again); Want w[2]; for (int i = 0; i < 2; i++) { w[i] = want(); put(f, w[i]); } vf_assert(built_ == 0 && f.size() == 2, "nothing is built before it is asked for");
    for (int k = P("k", 4); k > 0; k--) { int i = vfPick("which", 0, 1), what = vfPick("what", 0, 2); if (what == 0) { w[i] = want(); change(f, i, w[i]); vf_cover("reset"); } else if (what == 1) requested(f.instantiate(i), w[i], again); else { target_ = vfInt("target", 0, 50); requested(f.instantiate_from((double)i), w[i], again); } }
    bool refused = false; try { f.instantiate(2); } catch (std::out_of_range&) { refused = true; } vf_assert(refused, "an unknown index is refused"); vf_cover("outside"); vf_assert(live_ <= 2, "each forge keeps one operator at most"); }
    vf_assert(live_ == 0, "every operator is destroyed with its forge");
}
ENTRY(shared) {
    live_ = built_ = 0; target_ = 7; bool again = vfPick("again", 0, 1); { std::vector<std::shared_ptr<Base> > held; std::vector<Want> whats; { V f(again); Want w = want(); put(f, w); Want plain = w;
    for (int k = P("k", 4); k > 0; k--) { if (vfPick("plain", 0, 1)) { requested(f.instantiate(0), plain, again); if (held.size()) vf_cover("mixed"); } else { std::shared_ptr<Base> p = vfPick("from", 0, 1) ? f.instantiate_ptr_from(0.0) : f.instantiate_ptr(0); vf_assert(p.get() != 0, "an operator is built"); if (!p) return; requested(*p, w, again); held.push_back(p); whats.push_back(w); } } }
    for (unsigned i = 0; i < held.size(); i++) { matches(*held[i], whats[i]); vf_assert(held[i]->serial == whats[i].made, "shared operators outlive their forge"); } }
    vf_assert(live_ == 0, "every operator is destroyed with its last owner");
}
ENTRY(byName) {
    live_ = built_ = 0; target_ = 7; bool again = vfPick("again", 0, 1); const char* names[2] = {"b", "a"}; { M f(again); Want w[2]; for (int i = 0; i < 2; i++) { w[i] = want(); put(f, names[i], w[i]); }
    for (int k = P("k", 3); k > 0; k--) { int i = vfPick("which", 0, 1); if (vfPick("what", 0, 1)) { w[i] = want(); change(f, names[i], w[i]); vf_cover("reset"); } else requested(f.instantiate(names[i]), w[i], again); }
    bool refused = false; try { f.instantiate("c"); } catch (std::out_of_range&) { refused = true; } vf_assert(refused, "an unknown name is refused"); vf_cover("unknown"); }
    vf_assert(live_ == 0, "every operator is destroyed with its forge");
}
ENTRY(scalar) {
    int lo = vfInt("lo", -20, 20), hi = vfInt("hi", -20, 20), v = vfInt("value", -20, 20); vf_assume(lo <= v && v <= hi); eoForgeScalar<int> f(0, 1); if (vfPick("setup", 0, 1)) f.setup(lo, hi); else f = eoForgeScalar<int>(lo, hi);
    vf_assert(f.min() == lo && f.max() == hi, "the range is the one announced"); vf_assert(f.instantiate(v) == v, "values in the range are given as they are"); if (v == hi) vf_cover("limit"); else vf_cover("inner"); eoForgeScalar<double> g(lo, hi); vf_assert(g.instantiate(v) == v, "real values in the range are given as they are");
}
