// Symbolic genotypes: bit strings, integer vectors, permutations and real vectors.
#pragma once
#include "common.h"
#include <eo>
#include <ga.h>
#include <es.h>
#include <eoInt.h>
typedef eoBit<double> Bits;
typedef eoInt<double> Ints;
typedef eoReal<double> Reals;
static Bits symBits(int n) { Bits b(n, false); for (int i = 0; i < n; i++) b[i] = vfInt("bit", 0, 1); return b; }
static Ints symInts(int n, int lo, int hi) { Ints b(n, 0); for (int i = 0; i < n; i++) b[i] = vfInt("int", lo, hi); return b; }
template <class C> static C symOf(int n);
template <> Bits symOf<Bits>(int n) { return symBits(n); }
template <> Ints symOf<Ints>(int n) { return symInts(n, 0, 5); }
template <> Reals symOf<Reals>(int n) { Reals r(n, 0.0); for (int i = 0; i < n; i++) r[i] = vfInt("real", -3, 3); return r; }
template <class C> static bool same(const C& a, const C& b) { if (a.size() != b.size()) return false; bool r = true; for (unsigned i = 0; i < a.size(); i++) r &= a[i] == b[i]; return r; }
// number of positions where two equally long chromosomes differ
template <class C> static int differ(const C& a, const C& b) { int d = 0; for (unsigned i = 0; i < a.size(); i++) d += a[i] != b[i]; return d; }
// any permutation of 0..n-1
static std::vector<unsigned> symPerm(int n) {
    std::vector<unsigned> p(n), q(n); for (int i = 0; i < n; i++) p[i] = i;
    for (int i = n - 1; i > 0; i--) std::swap(p[i], p[vfPick("perm", 0, i)]);
    return p;
}
template <class V> static bool isPerm(const V& v, int n, int first) {
    if ((int)v.size() != n) return false; bool ok = true;
    for (int e = first; e < first + n; e++) { int c = 0; for (int i = 0; i < n; i++) c += (int)v[i] == e; ok &= c == 1; }
    return ok;
}
