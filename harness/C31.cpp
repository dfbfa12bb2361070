// C31: topologies announce exactly the neighbours of their definition, isolation removes an island, two-way maps stay bijections.
//@ bounds 1..n islands, reconstruction with another number, every centre, every ratio 0, 1/64, .. 1, every pair of isolated islands, bijections over keys 0..2 with every history of k additions and removals
//@ outside custom topologies read from files, more islands, hypercubes of other sizes than powers of two (asserted), centres that do not exist, empty topologies
//@ include smp/src
//@ entry regular covers=complete,ring,star,hypercube,single,again quick="n=8" thorough="n=16" jobs=8
//@ entry mesh covers=line,grid,square,single quick="n=12" thorough="n=30" jobs=8
//@ entry isolate covers=one,two quick="n=5" thorough="n=8" jobs=8
//@ entry bimap covers=replaced,removedA,removedB,missing,empty quick="k=3;k=4 s=1" thorough="k=4" jobs=8
#include "common.h"
#include <algorithm>
#include <vector>
#include <topology/topology.h>
#include <topology/complete.h>
#include <topology/ring.h>
#include <topology/star.h>
#include <topology/hypercubic.h>
#include <topology/mesh.h>
#include <topology/complete.cpp>
#include <topology/ring.cpp>
#include <topology/star.cpp>
#include <topology/hypercubic.cpp>
#include <topology/mesh.cpp>
#include <bimap.h>
using namespace paradiseo::smp;
static bool adj[32][32]; static int N;
template<class T> static void same(const T& t) {
    for (int i = 0; i < N; i++) {
        std::vector<unsigned> v = t.getIdNeighbors(i); bool in[32] = {}; for (unsigned k = 0; k < v.size(); k++) { vf_assert(v[k] < (unsigned)N, "neighbours exist"); vf_assert((int)v[k] != i, "no island is its own neighbour"); vf_assert(!in[v[k]], "a neighbour is announced once"); in[v[k]] = true; }
        for (int j = 0; j < N; j++) vf_assert(in[j] == adj[i][j], "the neighbours are those of the definition");
    }
}
static int bits(int x) { int n = 0; for (; x; x &= x - 1) n++; return n; }
static void define(int kind, int c) { for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) adj[i][j] = i != j && (kind == 0 || (kind == 1 && j == (i + 1) % N) || (kind == 2 && j == c) || (kind == 3 && bits(i ^ j) == 1)); }
template<class T> static void build(T& t, int kind, int c) { t.construct(N); define(kind, c); same(t); }
template<class T> static void twice(int kind) { T t; int first = vfPick("n", 1, P("n", 8)), second = vfPick("again", 0, 2); N = first; if (kind == 3) vf_assume(bits(N) == 1); build(t, kind, 0); if (N == 1) vf_cover("single"); if (!second) return; N = second == 1 ? 2 : 4; build(t, kind, 0); vf_cover("again"); }
ENTRY(regular) {
    switch (vfPick("kind", 0, 3)) {
        case 0: twice<Topology<Complete>>(0); vf_cover("complete"); break;
        case 1: twice<Topology<Ring>>(1); vf_cover("ring"); break;
        case 2: { twice<Topology<Star>>(2); Topology<Star> t; int c = vfPick("centre", 0, N - 1); t.getBuilder().setCenter(c); build(t, 2, c); vf_cover("star"); break; }
        default: twice<Topology<Hypercubic>>(3); vf_cover("hypercube");
    }
}
ENTRY(mesh) {
    N = vfPick("n", 1, P("n", 12)); Topology<Mesh> t; int r = vfPick("set", 0, 1) ? vfInt("ratio", 0, 64) : -1; double ratio = r < 0 ? 1 : r / 64.0; if (r >= 0) t.getBuilder().setRatio(ratio); t.construct(N);
    // the grid whose height over width is nearest to the ratio; of two equally near ones either is right
    double best = 1e9; for (int h = 1; h * h <= N; h++) if (N % h == 0) { double d = (double)h * h / N - ratio; if (d < 0) d = -d; if (d < best) best = d; }
    bool found = false;
    for (int h = 1; h * h <= N; h++) if (N % h == 0) {
        double d = (double)h * h / N - ratio; if (d < 0) d = -d; if (d > best + 1e-9) continue; int w = N / h; bool ok = true;
        for (int i = 0; i < N; i++) { std::vector<unsigned> v = t.getIdNeighbors(i); bool in[32] = {}; for (unsigned k = 0; k < v.size(); k++) { vf_assert(v[k] < (unsigned)N && (int)v[k] != i && !in[v[k]], "neighbours are other islands"); in[v[k]] = true; } for (int j = 0; j < N; j++) { int dx = i % w - j % w, dy = i / w - j / w; if (in[j] != (dx * dx + dy * dy == 1)) ok = false; } }
        if (ok) { found = true; if (N == 1) vf_cover("single"); else if (h == 1) vf_cover("line"); else if (h == w) vf_cover("square"); else vf_cover("grid"); }
    }
    vf_assert(found, "the neighbours are those on the grid nearest to the ratio");
}
template<class T> static void cut(int kind) {
    T t; N = vfPick("n", 1, P("n", 5)); if (kind == 3) vf_assume(bits(N) == 1); t.construct(N); define(kind, 0); int times = vfPick("times", 1, 2);
    for (int k = 0; k < times; k++) { int g = vfInt("gone", 0, N - 1); t.isolateNode(g); for (int i = 0; i < N; i++) adj[i][g] = adj[g][i] = false; same(t); } vf_cover(times == 1 ? "one" : "two");
}
ENTRY(isolate) { switch (vfPick("kind", 0, 3)) { case 0: cut<Topology<Complete>>(0); break; case 1: cut<Topology<Ring>>(1); break; case 2: cut<Topology<Star>>(2); break; default: cut<Topology<Hypercubic>>(3); } }
ENTRY(bimap) {
    Bimap<int, int> m; int part[3] = {-1, -1, -1}, K = P("s", 2);
    for (int s = 0; s < P("k", 3); s++) {
        int what = vfPick("what", 0, 2), a = vfInt("a", 0, K), b = what ? 0 : vfInt("b", 0, K);
        if (what == 0) { int x = a, y = 10 + b; m.add(x, y); if (part[a] >= 0 && part[a] != b) vf_cover("replaced"); for (int i = 0; i <= K; i++) if (part[i] == b) part[i] = -1; part[a] = b; }
        else if (what == 1) { m.removeFromRight(a); vf_cover(part[a] >= 0 ? "removedA" : "missing"); part[a] = -1; }
        else { m.removeFromLeft(10 + a); for (int i = 0; i <= K; i++) if (part[i] == a) { part[i] = -1; vf_cover("removedB"); } }
        int n = 0; for (int i = 0; i <= K; i++) if (part[i] >= 0) n++;
        std::map<int, int> r = m.getRight(), l = m.getLeft(); vf_assert((int)r.size() == n && (int)l.size() == n && (int)m.size() == n, "both directions hold the same pairs"); vf_assert(m.empty() == (n == 0), "empty exactly without pairs"); if (!n) vf_cover("empty");
        for (int i = 0; i <= K; i++) if (part[i] >= 0) { vf_assert(r.count(i) && r[i] == 10 + part[i], "a key maps to the partner last added"); vf_assert(l.count(10 + part[i]) && l[10 + part[i]] == i, "the partner maps back to the key"); }
    }
}
