// C32: worker assignment hands out idle workers once and exactly the announced number of tasks.
//@ bounds 1..w workers with arbitrary distinct ranks, 0..r tasks, every history of k assignment, confirmation and reinitialisation steps, every constructor with worlds of up to 4 processes
//@ outside confirmations of workers that were not handed out, reinitialisation while workers are busy, the message passing itself, more workers, empty worker sets
//@ include eo/src/mpi
//@ entry dynamicOne covers=given,none,confirmed,reinit quick="w=4 k=6" thorough="w=4 k=8" jobs=4
//@ entry staticOne covers=given,none,confirmed,exhausted,reinit quick="w=3 r=5 k=6" thorough="w=4 r=5 k=7" jobs=8
//@ entry share covers=even,uneven,fewer,zero quick="w=4 r=9" thorough="w=5 r=12" jobs=4
//@ entry constructors covers=dynamicKind,staticKind,rest,range quick="" thorough="" jobs=2
#include "common.h"
// only the number of processes is asked of the communicator: it is arbitrary here
#define __MPI_NODE_H__
namespace eo { namespace mpi { struct communicator { int n; int size() { return n; } }; static communicator vf_world; class Node { public: static communicator& comm() { return vf_world; } }; } }
#include <vector>
#include <eoMpiAssignmentAlgorithm.h>
#include <eoMpiAssignmentAlgorithm.cpp>
using namespace eo::mpi;
static int W, rank_[4]; static bool busy_[4];
static int index_(int r) { for (int i = 0; i < W; i++) if (rank_[i] == r) return i; return -1; }
static void reported(AssignmentAlgorithm& a) {
    int idle = 0; for (int i = 0; i < W; i++) if (!busy_[i]) idle++;
    vf_assert(a.availableWorkers() == idle, "the number of available workers is that of the idle ones"); std::vector<int> v = a.idles(); vf_assert((int)v.size() == idle, "as many workers are reported idle as are idle");
    for (unsigned i = 0; i < v.size(); i++) { int k = index_(v[i]); vf_assert(k >= 0, "workers reported idle exist"); vf_assert(!busy_[k], "workers reported idle are idle"); for (unsigned j = 0; j < i; j++) vf_assert(v[i] != v[j], "a worker is reported idle once"); }
}
static std::vector<int> workers() { W = vfPick("workers", 1, P("w", 3)); std::vector<int> v; for (int i = 0; i < W; i++) { rank_[i] = vfInt("rank", 0, 9); busy_[i] = false; for (int j = 0; j < i; j++) vf_assume(rank_[i] != rank_[j]); v.push_back(rank_[i]); } return v; }
static int given(AssignmentAlgorithm& a) { int r = a.get(); if (r == -1) return -1; int k = index_(r); vf_assert(k >= 0, "workers handed out exist"); vf_assert(!busy_[k], "a busy worker is not handed out"); busy_[k] = true; return k; }
static bool confirmOne(AssignmentAlgorithm& a) { int k = vfPick("who", 0, W - 1); if (!busy_[k]) return false; a.confirm(rank_[k]); busy_[k] = false; vf_cover("confirmed"); return true; }
static bool quiet() { for (int i = 0; i < W; i++) if (busy_[i]) return false; return true; }
ENTRY(dynamicOne) {
    DynamicAssignmentAlgorithm a(workers()); reported(a);
    for (int s = 0; s < P("k", 5); s++) {
        int what = vfPick("step", 0, 2);
        if (what == 0) { bool all = true; for (int i = 0; i < W; i++) if (!busy_[i]) all = false; int k = given(a); if (k < 0) { vf_assert(all, "an idle worker is handed out when there is one"); vf_cover("none"); } else vf_cover("given"); }
        else if (what == 1) { if (!confirmOne(a)) return; }
        else { a.reinit(vfInt("runs", 0, 5)); vf_cover("reinit"); }
        reported(a);
    }
}
static int left[4];
static void budget(int runs) { for (int i = 0; i < W; i++) left[i] = runs / W + (i < runs % W ? 1 : 0); }
ENTRY(staticOne) {
    int runs = vfInt("tasks", 0, P("r", 4)); StaticAssignmentAlgorithm a(workers(), runs); int handed = 0; reported(a);
    for (int s = 0; s < P("k", 5); s++) {
        int what = vfPick("step", 0, 2);
        if (what == 0) { int k = given(a); if (k < 0) { vf_cover("none"); if (handed == runs) vf_cover("exhausted"); } else { handed++; vf_cover("given"); } vf_assert(handed <= runs, "no more tasks are handed out than announced"); if (k < 0 && quiet()) vf_assert(handed == runs, "as many tasks are handed out as announced"); }
        else if (what == 1) { if (!confirmOne(a)) return; }
        else { if (!quiet()) return; runs = vfInt("tasks", 0, P("r", 4)); a.reinit(runs); handed = 0; vf_cover("reinit"); }
        reported(a);
    }
}
// each worker gets its share, in whatever order confirmations arrive
ENTRY(share) {
    int runs = vfInt("tasks", 0, P("r", 5)); StaticAssignmentAlgorithm a(workers(), vfPick("before", 0, 1) ? runs : 1 + P("r", 5)); a.reinit(runs); int got[4] = {0, 0, 0, 0}, all = 0;
    for (;;) {
        int k = given(a); if (k >= 0) { got[k]++; all++; vf_assert(all <= runs, "no more tasks are handed out than announced"); continue; }
        if (quiet()) break; int who = vfPick("who", 0, W - 1); if (!busy_[who]) return; a.confirm(rank_[who]); busy_[who] = false;
    }
    vf_assert(all == runs, "exactly the announced number of tasks is handed out"); for (int i = 0; i < W; i++) vf_assert(got[i] == runs / W || got[i] == runs / W + (runs % W ? 1 : 0), "each worker gets its fair share");
    reported(a); if (!runs) vf_cover("zero"); else if (runs < W) vf_cover("fewer"); else if (runs % W) vf_cover("uneven"); else vf_cover("even");
}
static void expect(AssignmentAlgorithm& a, int first, int last) { W = last - first + 1; for (int i = 0; i < W; i++) { rank_[i] = first + i; busy_[i] = false; } reported(a); for (int i = 0; i < W; i++) vf_assert(given(a) >= 0, "every worker of the set can be handed out"); vf_assert(given(a) < 0, "no other worker is handed out"); reported(a); }
ENTRY(constructors) {
    vf_world.n = vfPick("world", 2, 4); int last = vf_world.n - 1, f = vfInt("first", 0, 3), l = vfPick("count", 0, 2); vf_assume(f <= last);
    switch (vfPick("kind", 0, 7)) {
        case 0: { DynamicAssignmentAlgorithm a; expect(a, 1, last); vf_cover("dynamicKind"); break; }
        case 1: { DynamicAssignmentAlgorithm a(f); expect(a, f, f); break; }
        case 2: { DynamicAssignmentAlgorithm a(f, REST_OF_THE_WORLD); expect(a, f, last); vf_cover("rest"); break; }
        case 3: { DynamicAssignmentAlgorithm a(f, f + l); expect(a, f, f + l); vf_cover("range"); break; }
        case 4: { StaticAssignmentAlgorithm a(last); expect(a, 1, last); vf_cover("staticKind"); break; }
        case 5: { StaticAssignmentAlgorithm a(f, 1); expect(a, f, f); break; }
        case 6: { StaticAssignmentAlgorithm a(f, REST_OF_THE_WORLD, last - f + 1); expect(a, f, last); break; }
        default: { StaticAssignmentAlgorithm a(f, f + l, l + 1); expect(a, f, f + l); break; }
    }
}
