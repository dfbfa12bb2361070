// C34: variable-length variation keeps lengths within limits and neither invents nor loses genes.
//@ bounds parents of 0..n genes with arbitrary content (size_t genes 0..5), limits inside 0..2n, every draw, up to two attempts of a crossover that retries
//@ outside longer parents; more than two attempts (in particular giving up after 10000 failed attempts)
//@ entry cross covers=done,retry,swap quick="n=2" thorough="n=3" jobs=4
//@ entry single covers=done,retry quick="n=2" thorough="n=3" jobs=4
//@ entry inner covers=done quick="n=3" thorough="n=4"
//@ entry grow covers=done,full quick="n=3" thorough="n=5"
//@ entry shrink covers=done,small quick="n=3" thorough="n=5"
//@ entry choose covers=done quick="n=3" thorough="n=5"
//@ entry init covers=done quick="n=3" thorough="n=5"
#include "chrom.h"
#include <eoVariableLengthCrossover.h>
#include <eoVariableLengthMutation.h>
typedef Ints::AtomType Atom;
static Ints tagged(int n, int base) { Ints r(n, 0); for (int i = 0; i < n; i++) r[i] = base + i; return r; }
static int count(const Ints& v, Atom a) { int c = 0; for (unsigned i = 0; i < v.size(); i++) c += v[i] == a; return c; }
// genes are distinct tags, so that a lost or doubled gene shows whatever the content
ENTRY(cross) {
    int k = vfPick("op", 0, 1), n = P("n", 2), n1 = vfPick("n1", 0, n), n2 = vfPick("n2", 0, n); unsigned lo = vfPick("min", 0, n), hi = vfPick("max", lo, 2 * n);
    Ints a = tagged(n1, 10), b = tagged(n2, 20); vf_max_draws = 2 * (n1 + n2);
    if (n1 + n2 < (int)(2 * lo) || n1 + n2 > (int)(2 * hi) || n1 + n2 == 0) { vf_prune(); }
    eoUniformAtomExchange<Atom> ex; eoVlAtomExchangeQuadOp<Ints> o1(lo, hi, ex); eoVlUniformQuadOp<Ints> o2(lo, hi);
    bool r = k ? o2(a, b) : o1(a, b);
    vf_assert(r, "a change is reported");
    vf_assert(a.size() >= lo && a.size() <= hi && b.size() >= lo && b.size() <= hi, "the lengths of the children are within the limits");
    vf_assert((int)(a.size() + b.size()) == n1 + n2, "the children have as many genes as the parents");
    for (int i = 0; i < n1; i++) vf_assert(count(a, 10 + i) + count(b, 10 + i) == 1, "each gene of the first parent is in exactly one child");
    for (int i = 0; i < n2; i++) vf_assert(count(a, 20 + i) + count(b, 20 + i) == 1, "each gene of the second parent is in exactly one child");
    if ((int)vf_draws > n1 + n2) vf_cover("retry"); if ((int)a.size() == n2 && n1 != n2) vf_cover("swap");
    vf_note("a", a.size()); vf_cover("done");
}
ENTRY(single) {
    int n = P("n", 2), n1 = vfPick("n1", 0, n), n2 = vfPick("n2", 0, n); unsigned lo = vfPick("min", 0, n), hi = vfPick("max", lo, 2 * n);
    Ints a = tagged(n1, 10); const Ints b = tagged(n2, 20), a0 = a; vf_max_draws = 2 * (n1 + n2);
    if (n1 + n2 < (int)lo || n1 + n2 == 0) vf_prune();
    eoVlUniformBinOp<Ints> op(lo, hi); bool r = op(a, b);
    vf_assert(a.size() >= lo && a.size() <= hi, "the length of the child is within the limits");
    for (unsigned i = 0; i < a.size(); i++) { vf_assert((a[i] >= 10 && a[i] < (Atom)(10 + n1)) || (a[i] >= 20 && a[i] < (Atom)(20 + n2)), "each gene comes from a parent"); vf_assert(count(a, a[i]) == 1, "no gene is taken twice"); }
    if (!r) vf_assert(same(a, a0), "nothing changes unreported");
    if ((int)vf_draws > n1 + n2) vf_cover("retry");
    vf_note("a", a.size()); vf_cover("done");
}
struct Swap : eoQuadOp<Atom> { bool operator()(Atom& a, Atom& b) { int k = vfPick("atom", 0, 1); if (k) std::swap(a, b); return k; } };
ENTRY(inner) {
    int n1 = vfPick("n1", 0, P("n", 3)), n2 = vfPick("n2", 0, P("n", 3)); Ints a = tagged(n1, 10), b = tagged(n2, 20); const Ints a0 = a, b0 = b; Swap s; eoInnerExchangeQuadOp<Ints> op(s, 0.5);
    bool r = op(a, b), ch = false;
    vf_assert((int)a.size() == n1 && (int)b.size() == n2, "lengths unchanged");
    for (int i = 0; i < n1; i++) { bool sw = i < n2 && a[i] == b0[i]; vf_assert(a[i] == a0[i] || (sw && b[i] == a0[i]), "genes are exchanged at their position only"); ch |= sw; }
    for (int i = n1; i < n2; i++) vf_assert(b[i] == b0[i], "genes without a partner stay");
    vf_assert(r == ch, "a change is reported"); vf_cover("done");
}
struct NewAtom : eoInit<Atom> { void operator()(Atom& i) { i = 99; } };
// v is w with one gene removed; the genes are distinct
static bool without(const Ints& v, const Ints& w, unsigned pos) { if (v.size() + 1 != w.size()) return false; bool r = true; for (unsigned i = 0; i < v.size(); i++) r &= v[i] == w[i < pos ? i : i + 1]; return r; }
ENTRY(grow) {
    int n = vfPick("n", 0, P("n", 3)); unsigned mx = vfPick("max", 0, P("n", 3)); Ints a = symInts(n, 0, 5); const Ints a0 = a; NewAtom in; eoVlAddMutation<Ints> op(mx, in); vf_split_random = 1;
    bool r = op(a);
    if (n >= (int)mx) { vf_assert(!r && same(a, a0), "no gene is added at the maximal length"); vf_cover("full"); }
    else { vf_assert(r, "a change is reported"); unsigned pos = 0; vf_assert((int)a.size() == n + 1, "one gene is added"); while (a[pos] != 99) pos++; vf_assert(without(a0, a, pos), "the other genes keep their values and order"); vf_assert(a.size() <= mx, "the maximal length holds"); }
    vf_cover("done");
}
ENTRY(shrink) {
    int n = vfPick("n", 0, P("n", 3)); unsigned mn = vfPick("min", 0, P("n", 3)); Ints a = tagged(n, 10); const Ints a0 = a; eoVlDelMutation<Ints> op(mn); vf_split_random = 1;
    bool r = op(a);
    if (n <= (int)mn) { vf_assert(!r && same(a, a0), "no gene is removed at the minimal length"); vf_cover("small"); }
    else { vf_assert(r, "a change is reported"); bool ok = false; for (int i = 0; i < n; i++) ok |= without(a, a0, i); vf_assert(ok, "one gene is removed and the others keep their order"); vf_assert(a.size() >= mn, "the minimal length holds"); }
    vf_cover("done");
}
struct Last : eoGeneDelChooser<Ints> { std::string className() const { return "Last"; } unsigned at; unsigned operator()(Ints&) { return at; } };
ENTRY(choose) {
    int n = vfPick("n", 1, P("n", 3)); Last c; c.at = vfPick("at", 0, n - 1); Ints a = symInts(n, 0, 5); const Ints a0 = a; eoVlDelMutation<Ints> op(0, c);
    vf_assert(op(a) && without(a, a0, c.at), "the chosen gene is removed"); vf_cover("done");
}
struct CountAtom : eoRndGenerator<Atom> { int calls = 0; Atom operator()() { return 30 + calls++; } };
ENTRY(init) {
    unsigned mn = vfPick("min", 0, P("n", 3)), mx = vfPick("max", mn, P("n", 3)); CountAtom g; eoInitVariableLength<Ints>* op = 0; struct In : eoInit<Atom> { CountAtom& g; In(CountAtom& x) : g(x) {} void operator()(Atom& a) { a = g(); } } in(g);
    vf_split_random = 1; eoInitVariableLength<Ints> vi(mn, mx + 1, in); Ints a = tagged(2, 10); a.fitness(3); vi(a);
    vf_assert(a.size() >= mn && a.size() <= mx, "the length is within the limits"); vf_assert(g.calls == (int)a.size(), "one draw per gene");
    for (unsigned i = 0; i < a.size(); i++) vf_assert(a[i] == 30 + i, "every gene is the one drawn for it"); vf_assert(a.invalid(), "a fresh individual is not evaluated"); vf_cover("done");
}
