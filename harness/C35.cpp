// C35: expression trees stay well formed under assignment and variation, and operators replace exactly the subtrees they picked.
//@ bounds trees of depth 1..d over nodes of arity 0..2 (0..3 and 4 for the container entries), every pair of positions, size limits 1..m, every draw of the operators; node payloads are distinct tags
//@ outside deeper trees; assigning a bare node of larger arity (its arguments are default nodes); size limits of the typed operators, which do not prune; node classes with state of their own beyond a tag; streams; eoStBranchMutation and eoPointMutation for which no candidate node exists (they retry for ever)
//@ entry build covers=done quick="d=3" thorough="d=3"
//@ entry pushBack covers=done quick="d=3" thorough="d=3"
//@ entry assignOther covers=done quick="d=2;d=3 a=2" thorough="d=3" jobs=2
//@ entry assignSame covers=done,inside quick="d=3" thorough="d=3"
//@ entry assignNode covers=done,shrink quick="d=3" thorough="d=3"
//@ entry swapped covers=done quick="d=3" thorough="d=3"
//@ entry wide covers=done quick="d=2" thorough="d=2"
//@ entry prune covers=done,cut quick="d=3" thorough="d=4 a=2"
//@ entry crossover covers=done,cut quick="d=3 u=1" thorough="d=3" jobs=4
//@ entry typedCrossover covers=done,none quick="d=2" thorough="d=2" jobs=4
//@ entry mutations covers=done,cut quick="d=2;d=3 u=1" thorough="d=3" jobs=4
//@ entry typedMutations covers=done quick="d=2" thorough="d=3 u=1" jobs=4
//@ entry initializer covers=done,grow,full quick="d=3" thorough="d=3" jobs=2
//@ entry applied covers=done quick="d=3" thorough="d=3"
#include "common.h"
#include <eo>
#include <gp/eoParseTree.h>
#include <gp/eoStParseTreeOp.h>
struct Nd {
    int ar, tag, ty;
    Nd(int a = 0, int t = 0, int y = 0) : ar(a), tag(t), ty(y) {}
    int arity() const { return ar; }
    int type() const { return ty; }
    void randomize() {}
    bool operator==(const Nd& o) const { return ar == o.ar && tag == o.tag; }
    template <class It> void operator()(std::vector<int>& out, It b) const { out.push_back(tag); for (int i = 0; i < ar; i++) b[i].apply(out); }
};
static std::ostream& operator<<(std::ostream& o, const Nd&) { return o; }
static std::istream& operator>>(std::istream& i, Nd&) { return i; }
typedef eoParseTree<double, Nd> Tree; typedef parse_tree<Nd>::subtree Sub;
typedef std::vector<Nd> Seq;     // nodes by rank: the root is last, the subtree at rank i is the contiguous block ending there
static int tagNo, maxAr = 2, minAr = 0;
// appends an arbitrary tree in prefix order
static void genPrefix(Seq& s, int depth, bool typed) {
    int a = depth <= 1 ? 0 : vfPick("arity", 0, maxAr); if (a == 1 && minAr) a = 0;
    s.push_back(Nd(a, ++tagNo, typed ? vfPick("type", 0, 1) : 0)); for (int i = 0; i < a; i++) genPrefix(s, depth - 1, typed);
}
static Seq gen(int depth, int base, bool typed = false) { Seq s; tagNo = base; genPrefix(s, depth, typed); std::reverse(s.begin(), s.end()); return s; }
static Tree mk(const Seq& s) { parse_tree<Nd> p(s.begin(), s.end()); return Tree(p); }
static int sizeAt(const Seq& s, int i) { int need = 1, k = i; while (need > 0) { need += s[k].ar - 1; k--; } return i - k; }
static Seq block(const Seq& s, int i) { return Seq(s.begin() + (i - sizeAt(s, i) + 1), s.begin() + i + 1); }
static Seq replaced(const Seq& s, int i, const Seq& by) { Seq r(s.begin(), s.begin() + (i - sizeAt(s, i) + 1)); r.insert(r.end(), by.begin(), by.end()); r.insert(r.end(), s.begin() + i + 1, s.end()); return r; }
static Seq pruned(Seq s, unsigned mx) { while (s.size() > mx) { vf_cover("cut"); s = block(s, (int)s.size() - 2); } return s; }
struct Shape { size_t size, depth, cum; };
static Shape walk(const Sub& s, const Sub* parent, Seq& out) {
    vf_assert(s.get_parent() == parent, "every node knows its parent");
    Shape r = {1, 0, 0}; out.push_back(*s);
    for (int i = 0; i < s.arity(); i++) { Shape c = walk(s[i], &s, out); r.size += c.size; r.depth = std::max(r.depth, c.depth); r.cum += c.cum; }
    r.depth++; r.cum += r.size;
    vf_assert(s.size() == r.size, "every node knows the size of its subtree");
    vf_assert(s.depth() == r.depth, "every node knows the depth of its subtree");
    vf_assert(s.cumulative_size() == r.cum, "every node knows its cumulative size");
    return r;
}
static Seq flat(const parse_tree<Nd>& t) { Seq s; walk(t.back(), 0, s); std::reverse(s.begin(), s.end()); return s; }
static bool eq(const Seq& a, const Seq& b) { if (a.size() != b.size()) return false; for (unsigned i = 0; i < a.size(); i++) if (!(a[i] == b[i])) return false; return true; }
static void setup() { vf_split_random = 1; vf_max_draws = 8; maxAr = P("a", 2); minAr = P("u", 0); }
ENTRY(build) {
    setup(); Seq s = gen(P("d", 3), 0); Tree t = mk(s), c(t), e; e = t; Seq v;
    vf_assert(eq(flat(t), s) && eq(flat(c), s) && eq(flat(e), s), "a tree holds the sequence it was built from, and so do its copies");
    for (auto it = t.ebegin(); it != t.eend(); ++it) v.push_back(*it);
    vf_assert(eq(v, s), "iteration visits the nodes by rank");
    for (unsigned i = 0; i < s.size(); i++) { vf_assert(*t[i] == s[i], "the subtree at a rank is rooted at that node"); vf_assert((int)t[i].size() == sizeAt(s, i), "the subtree at a rank has the size of its block"); }
    vf_assert(t == c && !(t != c), "equal trees compare equal"); vf_note("size", t.size()); vf_cover("done");
}
ENTRY(pushBack) {
    setup(); Seq s = gen(P("d", 3), 0); Tree t; t.clear(); for (unsigned i = 0; i < s.size(); i++) t.push_back(s[i]);
    vf_assert(t.valid(), "a complete sequence leaves nothing pending"); vf_assert(t.size() == s.size(), "all nodes pushed are in the tree"); vf_note("size", t.size()); vf_cover("done");
}
ENTRY(assignOther) {
    setup(); Seq s = gen(P("d", 3), 0), u = gen(P("d", 3), 100); Tree t = mk(s), o = mk(u); int i = vfPick("i", 0, (int)s.size() - 1), j = vfPick("j", 0, (int)u.size() - 1);
    t[i] = o[j]; vf_assert(eq(flat(t), replaced(s, i, block(u, j))), "exactly the subtree assigned to is replaced"); vf_assert(eq(flat(o), u), "the source tree is unchanged"); vf_cover("done");
}
ENTRY(assignSame) {
    setup(); Seq s = gen(P("d", 3), 0); Tree t = mk(s); int i = vfPick("i", 0, (int)s.size() - 1), j = vfPick("j", 0, (int)s.size() - 1); if (j < i && j > i - sizeAt(s, i)) vf_cover("inside");
    t[i] = t[j]; vf_assert(eq(flat(t), replaced(s, i, block(s, j))), "exactly the subtree assigned to is replaced"); vf_cover("done");
}
ENTRY(assignNode) {
    setup(); Seq s = gen(P("d", 3), 0); Tree t = mk(s); int i = vfPick("i", 0, (int)s.size() - 1), a = vfPick("same", 0, 1) ? s[i].ar : 0; t[i] = Nd(a, 77);
    if (a == s[i].ar) { Seq e = s; e[i] = Nd(a, 77); vf_assert(eq(flat(t), e), "a node of the same arity keeps the subtrees"); }
    else { vf_assert(eq(flat(t), replaced(s, i, Seq(1, Nd(0, 77)))), "a terminal replaces the whole subtree"); vf_cover("shrink"); }
    vf_cover("done");
}
ENTRY(swapped) {
    setup(); Seq s = gen(P("d", 3), 0), u = gen(P("d", 3), 100); Tree t = mk(s), o = mk(u); t.swap(o); vf_assert(eq(flat(t), u) && eq(flat(o), s), "swapping exchanges the trees");
    parse_tree<Nd> p(t[0]); vf_assert(eq(flat(p), block(u, 0)), "a tree made of a subtree holds that subtree"); ((parse_tree<Nd>&)t) = o[(int)s.size() - 1]; vf_assert(eq(flat(t), s), "assigning a subtree to a tree copies it"); vf_cover("done");
}
ENTRY(wide) {   // arities handled by their own code: 3 and more
    setup(); int a = vfPick("arity", 3, 5), b = vfPick("inner", 0, 4), at = vfPick("at", 0, a - 1); Seq p; p.push_back(Nd(a, 1)); for (int i = 0; i < a; i++) { int ar = i == at ? b : 0; p.push_back(Nd(ar, 10 * (i + 1))); for (int k = 0; k < ar; k++) p.push_back(Nd(0, 10 * (i + 1) + k + 1)); }
    std::reverse(p.begin(), p.end()); Tree t = mk(p), c(t); vf_assert(eq(flat(t), p) && eq(flat(c), p), "a tree and its copy hold the sequence");
    Seq u = gen(2, 100); Tree o = mk(u); int i = vfPick("i", 0, (int)p.size() - 1); c[i] = o.back(); vf_assert(eq(flat(c), replaced(p, i, u)), "exactly the subtree assigned to is replaced"); vf_assert(eq(flat(t), p), "the copy is independent");
    t.swap(c); vf_assert(eq(flat(c), p), "swapping exchanges the trees"); vf_cover("done");
}
ENTRY(prune) {
    setup(); Seq s = gen(P("d", 3), 0); Tree t = mk(s); unsigned mx = vfPick("max", 0, (int)s.size() + 1); t.pruneTree(mx);
    if (mx >= 1) { vf_assert(t.size() <= mx, "a pruned tree respects the limit"); vf_assert(eq(flat(t), pruned(s, mx)), "pruning keeps the largest first-argument subtree that fits"); } else vf_assert(eq(flat(t), s), "no limit, no change"); vf_cover("done");
}
ENTRY(crossover) {
    setup(); Seq s = gen(P("d", 3), 0), u = gen(P("d", 3), 100); Tree t = mk(s), o = mk(u); unsigned mx = vfPick("max", 1, 3) * 3; eoSubtreeXOver<double, Nd> op(mx);
    vf_nlog = 0; bool r = op(t, o); int i = vf_log[0], j = vf_log[1];
    vf_assert(r, "a change is reported"); vf_assert(vf_nlog == 2 && i < (int)s.size() && j < (int)u.size(), "one position is drawn in each parent");
    vf_assert(eq(flat(t), pruned(replaced(s, i, block(u, j)), mx)) && eq(flat(o), pruned(replaced(u, j, block(s, i)), mx)), "the two subtrees picked are exchanged, then the children are pruned to the limit");
    vf_cover("done");
}
ENTRY(typedCrossover) {
    setup(); vf_max_draws = 7; Seq s = gen(P("d", 2), 0, true), u = gen(P("d", 2), 100, true); Tree t = mk(s), o = mk(u); unsigned mx = vfPick("max", 1, 2) * 4; eoStSubtreeXOver<double, Nd> op(mx); op(t, o);
    Seq a = flat(t), b = flat(o); bool found = eq(a, s) && eq(b, u), common = false; int which = 0;
    for (int i = 0; i < (int)s.size(); i++) for (int j = 0; j < (int)u.size(); j++) if (s[i].ty == u[j].ty) { common = true; if (eq(a, replaced(s, i, block(u, j))) && eq(b, replaced(u, j, block(s, i)))) which++; }
    if (common) vf_assert(which >= 1, "two subtrees of the same type are exchanged"); else { vf_assert(found, "without a common type nothing changes"); vf_cover("none"); }
    vf_cover("done");
}
struct AnyTree : eoInit<Tree> { Seq last; int depth, calls = 0; bool typed; AnyTree(int d, bool t = false) : depth(d), typed(t) {} void operator()(Tree& t) { if (++calls > 2) vf_prune(); last = gen(depth, 500, typed); parse_tree<Nd> p(last.begin(), last.end()); t.swap(p); } };
ENTRY(mutations) {
    setup(); int k = vfPick("op", 0, 4); Seq s = gen(P("d", 3), 0); Tree t = mk(s); t.fitness(1); unsigned mx = vfPick("max", 1, 2) * 3; AnyTree in(2); vf_nlog = 0; bool r = false; Seq e; vf_max_draws = 4;
    std::vector<Nd> set; set.push_back(Nd(0, 900)); set.push_back(Nd(1, 901)); set.push_back(Nd(2, 902)); set.push_back(Nd(0, 903));
    if (k == 0) { eoBranchMutation<double, Nd> op(in, mx); r = op(t); e = pruned(replaced(s, vf_log[0], block(in.last, vf_log[1])), mx); }
    else if (k == 1) { eoPointMutation<double, Nd> op(set); r = op(t); int i = vf_log[0]; Nd n = set[vf_log[vf_nlog - 1]]; vf_assert(n.ar == s[i].ar, "a node is replaced by one of its arity"); e = s; e[i] = n; }
    else if (k == 2) { eoHoistMutation<double, Nd> op; r = op(t); e = block(s, vf_log[0]); }
    else {
        // the last draw in each tree is the one that counts
        eoExpansionMutation<double, Nd> ex(in, mx); eoCollapseSubtreeMutation<double, Nd> co(in, mx); r = k == 3 ? ex(t) : co(t);
        Seq f = flat(t); int hit = 0;
        for (int i = 0; i < (int)s.size(); i++) for (int j = 0; j < (int)in.last.size(); j++) {
            bool okI = k == 3 ? s[i].ar == 0 : (s[i].ar != 0 || s.size() == 1), okJ = k == 3 ? in.last[j].ar != 0 : in.last[j].ar == 0;
            if (okI && okJ && eq(f, pruned(replaced(s, i, block(in.last, j)), mx))) hit++;
        }
        vf_assert(hit >= 1, "a terminal grows into a subtree, or a subtree collapses into a terminal"); e = f;
    }
    vf_assert(r, "a change is reported"); vf_assert(eq(flat(t), e), "exactly the subtree picked is replaced, then the tree is pruned"); vf_cover("done");
}
ENTRY(typedMutations) {
    setup(); int k = vfPick("op", 0, 2); Seq s = gen(P("d", 2), 0, true); Tree t = mk(s); unsigned mx = vfPick("max", 1, 2) * 4; AnyTree in(2, true); vf_max_draws = 3; vf_nlog = 0;
    std::vector<Nd> set; for (int a = 0; a < 3; a++) for (int y = 0; y < 2; y++) set.push_back(Nd(a, 900 + 2 * a + y, y)); set.push_back(Nd(0, 950, 1));
    if (k == 0) {
        eoStBranchMutation<double, Nd> op(in, mx); vf_assert(op(t), "a change is reported"); Seq f = flat(t); int i = vf_log[0], hit = 0;
        for (int j = 0; j < (int)in.last.size(); j++) if (in.last[j].ty == s[i].ty && eq(f, replaced(s, i, block(in.last, j)))) hit++;
        vf_assert(hit >= 1, "the subtree picked is replaced by one of its type");
    } else if (k == 1) {
        eoStPointMutation<double, Nd> op(set); vf_assert(op(t), "a change is reported"); Seq f = flat(t); int i = vf_log[0]; Seq e = s; bool ok = false;
        for (unsigned j = 0; j < set.size(); j++) if (set[j].ty == s[i].ty && set[j].ar == s[i].ar) { e[i] = set[j]; ok |= eq(f, e); }
        vf_assert(ok, "the node picked is replaced by one of its type and arity");
    } else {
        eoStHoistMutation<double, Nd> op(in, mx); vf_assert(op(t), "a change is reported"); Seq f = flat(t); bool ok = false;
        for (int i = 0; i < (int)s.size(); i++) if (s[i].ty == s.back().ty) ok |= eq(f, block(s, i));
        vf_assert(ok, "the tree becomes one of its subtrees of the root's type");
    }
    vf_cover("done");
}
static void leaves(const Sub& s, int d, int& lo, int& hi) { if (!s.arity()) { lo = std::min(lo, d); hi = std::max(hi, d); } for (int i = 0; i < s.arity(); i++) leaves(s[i], d + 1, lo, hi); }
ENTRY(initializer) {
    setup(); int d = vfPick("depth", 1, P("d", 3)), mode = vfPick("mode", 0, 2); std::vector<Nd> set; set.push_back(Nd(2, 3)); set.push_back(Nd(0, 1)); set.push_back(Nd(1, 2)); vf_max_draws = 10;
    eoParseTreeDepthInit<double, Nd> op(d, set, mode != 1, mode == 2); Tree t; op(t); Seq f = flat(t); int lo = 99, hi = 0; leaves(t.back(), 1, lo, hi);
    vf_assert((int)t.depth() <= d, "the depth limit holds"); if (mode == 1) { vf_assert(lo == d && hi == d, "a full tree has all its leaves at the maximal depth"); vf_cover("full"); } else vf_cover("grow");
    for (unsigned i = 0; i < f.size(); i++) vf_assert(f[i].tag == f[i].ar + 1, "every node comes from the set given"); vf_cover("done");
}
ENTRY(applied) {
    setup(); Seq s = gen(P("d", 3), 0); Tree t = mk(s); std::vector<int> out; t.apply(out); vf_assert(out.size() == s.size(), "evaluation visits every node once"); for (unsigned i = 0; i < s.size(); i++) vf_assert(out[i] == s[s.size() - 1 - i].tag, "arguments are evaluated in their order"); vf_cover("done");
}
