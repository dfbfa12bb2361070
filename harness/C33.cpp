// C33: particles remember their best position, topologies the best of every neighbourhood.
//@ bounds swarms of 2..n particles of one coordinate, every initial fitness and every history of t moves in which any particle takes any fitness (integers -3..3), maximised and minimised; star, ring and linear topologies with every admissible neighbourhood size; the two stock loops over g iterations with arbitrary moves
//@ outside larger swarms and longer histories; topologies set up again with another swarm; bests initialised to something else than the first position
//@ entry star covers=improved,kept,minimised quick="n=3 t=2" thorough="n=3 t=3" jobs=2
//@ entry ring covers=improved,kept,minimised quick="n=3 t=2" thorough="n=4 t=2" jobs=4
//@ entry linear covers=improved,kept,minimised,refused quick="n=4 t=2" thorough="n=5 t=2" jobs=4
//@ entry particle covers=done quick="" thorough=""
//@ entry loops covers=async,sync quick="n=2 g=2" thorough="n=3 g=2" jobs=4
#include "common.h"
#include <eo>
#include <eoStarTopology.h>
#include <eoRingTopology.h>
#include <eoLinearTopology.h>
#include <eoInitializer.h>
#include <eoEasyPSO.h>
#include <eoSyncEasyPSO.h>
typedef eoRealParticle<double> Max;
typedef eoRealParticle<eoMinimizingFitness> Min;
template <class POT> struct Star : eoStarTopology<POT> { std::vector<unsigned> members(unsigned) { return this->neighborhood.getInformatives(); } unsigned count() { return 1; } };
template <class POT> struct Ring : eoRingTopology<POT> { Ring(unsigned s) : eoRingTopology<POT>(s) {} std::vector<unsigned> members(unsigned i) { return this->neighborhoods[this->retrieveNeighborhoodByIndice(i)].getInformatives(); } unsigned count() { return this->neighborhoods.size(); } };
template <class POT> struct Linear : eoLinearTopology<POT> { Linear(unsigned s) : eoLinearTopology<POT>(s) {} std::vector<unsigned> members(unsigned i) { return this->neighborhoods[this->retrieveNeighborhoodByIndice(i)].getInformatives(); } unsigned count() { return this->neighborhoods.size(); } };
struct Visit { unsigned who; double pos, fit; };
static int g_sign = 1;
static bool better(double a, double b) { return g_sign * a > g_sign * b; }
static std::vector<Visit> H;
static bool has(const std::vector<unsigned>& v, unsigned x) { return std::find(v.begin(), v.end(), x) != v.end(); }
static void visit(unsigned who, double pos, double fit) { Visit v; v.who = who; v.pos = pos; v.fit = fit; H.push_back(v); }
template <class POT> static void checkParticle(const POT& p, unsigned i) {
    bool found = false, top = true;
    for (unsigned h = 0; h < H.size(); h++) if (H[h].who == i) { found |= (double)p.best() == H[h].fit && p.bestPositions[0] == H[h].pos; top &= !better(H[h].fit, p.best()); }
    vf_assert(top, "the remembered best is at least as good as every position the particle occupied");
    vf_assert(found, "the remembered best is a position the particle occupied, with its fitness");
}
template <class POT> static void checkBest(POT& b, const std::vector<unsigned>& members) {
    bool found = false, top = true;
    for (unsigned h = 0; h < H.size(); h++) if (has(members, H[h].who)) { found |= (double)b.fitness() == H[h].fit && b[0] == H[h].pos; top &= !better(H[h].fit, b.fitness()); }
    vf_assert(top, "the best of a neighbourhood is at least as good as every particle of it so far");
    vf_assert(found, "the best of a neighbourhood is a position one of its particles visited");
    vf_assert((double)b.best() == (double)b.fitness() && b.bestPositions[0] == b[0], "the best of a neighbourhood is a best of its particle");
}
template <class POT, class T> static void checkAll(T& topo, eoPop<POT>& pop) {
    std::vector<unsigned> all; for (unsigned i = 0; i < pop.size(); i++) all.push_back(i);
    for (unsigned i = 0; i < pop.size(); i++) { checkParticle(pop[i], i); checkBest(topo.best(i), topo.members(i)); }
    checkBest(topo.globalBest(), all);
}
static double symFit(const char* n) { return vfInt(n, -3, 3); }
template <class POT> static eoPop<POT> swarm(unsigned n) {
    eoPop<POT> pop; H.clear(); eoFirstIsBestInit<POT> first;
    for (unsigned i = 0; i < n; i++) { POT p(1, i + 1.0); p.fitness(symFit("f0")); first(p); pop.push_back(p); visit(i, p[0], p.fitness()); }
    return pop;
}
template <class POT, class T> static void history(T& topo, eoPop<POT>& pop) {
    checkAll<POT>(topo, pop);
    for (int t = 0, T_ = P("t", 2); t < T_; t++) {
        unsigned i = vfPick("who", 0, pop.size() - 1); double old = pop[i].best();
        pop[i][0] = 100.0 + t; pop[i].invalidate(); vf_assert((double)pop[i].best() == old, "a particle that has moved still knows its best");
        pop[i].fitness(symFit("f")); visit(i, pop[i][0], pop[i].fitness());
        topo.updateNeighborhood(pop[i], i); if (better(pop[i].best(), old)) vf_cover("improved"); else vf_cover("kept");
        checkAll<POT>(topo, pop);
    }
}
template <class POT> static void runStar() {
    unsigned n = vfPick("n", 2, P("n", 3)); eoPop<POT> pop = swarm<POT>(n); Star<POT> topo; topo.setup(pop);
    std::vector<unsigned> m = topo.members(0); vf_assert(m.size() == n, "a star joins all particles"); for (unsigned i = 0; i < n; i++) vf_assert(has(m, i), "a star joins all particles");
    history<POT>(topo, pop);
}
ENTRY(star) { g_sign = vfPick("min", 0, 1) ? -1 : 1; if (g_sign > 0) runStar<Max>(); else { runStar<Min>(); vf_cover("minimised"); } }
template <class POT> static void runRing() {
    unsigned n = vfPick("n", 2, P("n", 3)), s = vfPick("s", 1, n); eoPop<POT> pop = swarm<POT>(n); Ring<POT> topo(s); topo.setup(pop);
    vf_assert(topo.count() == n, "one neighbourhood per particle");
    for (unsigned i = 0; i < n; i++) { std::vector<unsigned> m = topo.members(i); vf_assert(m.size() == s && has(m, i), "a ring neighbourhood has the announced size and contains its particle"); for (unsigned j = 0; j < s; j++) vf_assert(has(m, (i + n - s / 2 + j) % n), "a ring neighbourhood holds the adjacent particles"); }
    history<POT>(topo, pop);
}
ENTRY(ring) { g_sign = vfPick("min", 0, 1) ? -1 : 1; if (g_sign > 0) runRing<Max>(); else { runRing<Min>(); vf_cover("minimised"); } }
template <class POT> static void runLinear() {
    unsigned n = vfPick("n", 2, P("n", 3)), s = vfPick("s", 1, n); eoPop<POT> pop = swarm<POT>(n); Linear<POT> topo(s);
    if (s >= n) { bool t = false; try { topo.setup(pop); } catch (eoException&) { t = true; } vf_assert(t, "a neighbourhood as large as the swarm is refused"); vf_cover("refused"); return; }
    topo.setup(pop); vf_assert(topo.count() == n / s, "number of neighbourhoods");
    for (unsigned i = 0; i < n; i++) {
        std::vector<unsigned> m = topo.members(i); unsigned b = std::min(i / s, n / s - 1), lo = b * s, hi = b == n / s - 1 ? n : lo + s;
        vf_assert(m.size() == hi - lo, "a linear neighbourhood has the announced size"); for (unsigned j = lo; j < hi; j++) vf_assert(has(m, j), "a linear neighbourhood holds consecutive particles");
    }
    history<POT>(topo, pop);
}
ENTRY(linear) { g_sign = vfPick("min", 0, 1) ? -1 : 1; if (g_sign > 0) runLinear<Max>(); else { runLinear<Min>(); vf_cover("minimised"); } }
ENTRY(particle) {
    Max p(2, 1.0); bool t = false; try { p.best(); } catch (eoInvalidFitnessError&) { t = true; } vf_assert(t && p.invalidBest(), "a new particle has no best yet");
    t = false; try { p.fitness(); } catch (eoInvalidFitnessError&) { t = true; } vf_assert(t && p.invalid(), "a new particle has no fitness yet");
    double f = symFit("f"), b = symFit("b"); p.fitness(f); p.best(b); vf_assert(p.fitness() == f && p.best() == b && !p.invalid() && !p.invalidBest(), "fitness and best are what was set");
    Max q(p); p.invalidate(); vf_assert(p.invalid() && p.best() == b && q.fitness() == f && q.best() == b, "best survives a move, copies keep both");
    q.invalidateBest(); vf_assert(q.invalidBest() && !q.invalid(), "best can be forgotten alone"); vf_cover("done");
}
// loops with arbitrary moves
struct Obj : eoEvalFunc<Max> { unsigned calls = 0; std::vector<double> seen; void operator()(Max& p) { calls++; double f = symFit("f"); p.fitness(f); seen.push_back(p[0]); } };
struct Move : eoVelocity<Max> {
    eoTopology<Max>& topo; std::vector<unsigned> order; Move(eoTopology<Max>& t) : topo(t) {}
    void operator()(Max& p, unsigned i) { p.velocities[0] = 1; order.push_back(i); }
    void updateNeighborhood(Max& p, unsigned i) { visit(i, p[0], p.fitness()); topo.updateNeighborhood(p, i); }
    eoTopology<Max>& getTopology() { return topo; }
};
struct Fly : eoFlight<Max> { void operator()(Max& p) { p[0] += 10 * p.velocities[0]; p.invalidate(); } };
struct Zero : eoVelocityInit<Max> { void operator()(Max& p) { p.velocities[0] = 0; } };
template <class T> static void runLoop(T& topo, unsigned n, bool sync) {
    eoPop<Max> pop; g_sign = 1; H.clear(); for (unsigned i = 0; i < n; i++) { Max p(1, i + 1.0); pop.push_back(p); }
    Obj obj; Move vel(topo); Fly fly; Zero zero; eoFirstIsBestInit<Max> first; eoInitializer<Max> init(obj, zero, first, topo, pop); unsigned g = P("g", 2); eoGenContinue<Max> cont(g);
    struct Init : eoInitializerBase<Max> { eoInitializer<Max>& in; eoPop<Max>& pop; Init(eoInitializer<Max>& i, eoPop<Max>& p) : in(i), pop(p) {} void operator()() { in(); for (unsigned i = 0; i < pop.size(); i++) visit(i, pop[i][0], pop[i].fitness()); } } init2(init, pop);
    if (sync) { vf_cover("sync"); eoSyncEasyPSO<Max> a(init2, cont, obj, vel, fly); a(pop); } else { vf_cover("async"); eoEasyPSO<Max> a(init2, cont, obj, vel, fly); a(pop); }
    vf_assert(pop.size() == n && obj.calls == n * (g + 1) && H.size() == n * (g + 1), "every particle is evaluated once per iteration");
    for (unsigned i = 0; i < vel.order.size(); i++) vf_assert(vel.order[i] == i % n, "particles are updated with their own index");
    for (unsigned i = 0; i < n; i++) vf_assert(pop[i][0] == i + 1.0 + 10.0 * g, "every particle moves once per iteration");
    checkAll<Max>(topo, pop);
}
ENTRY(loops) {
    unsigned n = vfPick("n", 2, P("n", 2)); bool sync = vfPick("sync", 0, 1);
    switch (vfPick("topology", 0, 2)) { case 0: { Star<Max> t; runLoop(t, n, sync); break; } case 1: { Ring<Max> t(2); runLoop(t, n, sync); break; } default: { Linear<Max> t(1); runLoop(t, n, sync); } }
}
