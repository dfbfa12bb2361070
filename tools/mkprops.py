#!/usr/bin/env python3
"""Writes properties.jsonl (one property per line) from the table below."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

p("C01", "A varied offspring never keeps a stale fitness",
  "Whenever a stock variation operator, applied through the library's operator pipeline (single, sequential or proportional combination, or a breeder), changes the content of an individual, that individual comes out marked as not evaluated. An individual that comes out still marked as evaluated has exactly the content it was evaluated with, and variation never changes the individuals of the source population. A proportional combination fed from a fixed batch of parents stops quietly when the parents run out.",
  ["inputs", "configurations"], "every parent content and evaluated/unevaluated state, every random draw, every stock mutation and crossover on bit strings, real vectors and permutations, and each way of combining them",
  "The tests run operators on a few seeds and print the result; staleness needs the particular draw for which an operator changes its argument and reports no change.",
  ["eo/src/eoInvalidateOps.h", "eo/src/eoGenOp.h", "eo/src/eoOpContainer.h", "eo/src/eoPopulator.h", "eo/src/eoGeneralBreeder.h", "eo/src/eoBreed.h", "eo/src/ga/eoBitOp.h", "eo/src/es/eoRealOp.h", "eo/src/eoCloneOps.h", "eo/src/eoProportionalCombinedOp.h"],
  [("operators return whether they changed their argument", "eo/src/eoOp.h"), ("generic operators invalidate when told so", "eo/src/eoGenOp.h"), ("invalidating wrappers", "eo/src/eoInvalidateOps.h")],
  [("fitness validity flag", "says whether the stored fitness belongs to the content", "eo/src/EO.h")])

p("C02", "Recombination and bit mutation conserve alleles and length",
  "One-point, n-point, uniform and gene-wise crossover of two equal-length chromosomes leave both lengths unchanged and, at every position, the two children hold exactly the two values the parents held there. Bit mutations never change the length; those that announce a fixed number of flips without repetition change exactly that many distinct positions, inversion reverses one contiguous range, next and previous add and subtract one from the binary value, and an operator reports a change whenever the content changed.",
  ["inputs"], "every pair of equal-length parents, every random draw, every cut-point configuration within the stated sizes",
  "Tests print offspring of one seed and compare nothing position by position.",
  ["eo/src/ga/eoBitOp.h", "eo/src/ga/eoStandardBitMutation.h", "eo/src/es/eoRealOp.h", "eo/src/eoFlOrQuadOp.h", "eo/src/eoFlOrBinOp.h"],
  [("swap ranges between chromosomes", "eo/src/ga/eoBitOp.h"), ("distinct position draw", "eo/src/ga/eoStandardBitMutation.h")])

p("C03", "Permutation operators always yield permutations",
  "Starting from permutations, every stock permutation mutation (swap, shift, two-opt), permutation crossover (order, partially mapped), permutation initializer, and permutation neighbour move yields a sequence that contains each element exactly once. The mutations terminate for every draw once the sequence has at least two elements.",
  ["inputs"], "every permutation (pair) within the stated length, every random draw",
  "The tests check a handful of seeded permutations; duplicates appear only for particular cut points.",
  ["eo/src/eoSwapMutation.h", "eo/src/eoShiftMutation.h", "eo/src/eoTwoOptMutation.h", "eo/src/eoOrderXover.h", "eo/src/eoPartiallyMappedXover.h", "eo/src/eoInt.h", "eo/src/eoInit.h", "mo/src/problems/permutation/moSwapNeighbor.h", "mo/src/problems/permutation/moShiftNeighbor.h", "mo/src/problems/permutation/moIndexedSwapNeighbor.h"],
  [("position draws and rotation of segments", "eo/src/eoShiftMutation.h"), ("mapping of conflicting genes", "eo/src/eoPartiallyMappedXover.h")])

p("C04", "Bounded domains contain every value they repair or draw",
  "For every real or integer bound description (two-sided, one-sided, none), truncating or folding any finite value gives a value inside the domain and leaves a value that was already inside unchanged, the in-domain test agrees with the declared limits, and uniform draws lie inside. The same holds coordinate by coordinate for vectors of bounds, for a copy of the bounds, and for bounded initializers. Draws come from the generator that is passed.",
  ["inputs", "configurations"], "every limit pair, every value and every random draw within the stated numeric range",
  "Tests fold a handful of hand-picked constants; folding is arithmetic whose errors depend on the ratio of value to range.",
  ["eo/src/utils/eoRealBounds.h", "eo/src/utils/eoIntBounds.h", "eo/src/utils/eoRealVectorBounds.h", "eo/src/utils/eoRealBounds.cpp", "eo/src/es/eoRealInitBounded.h"],
  [("interval folding and truncation", "eo/src/utils/eoRealBounds.h"), ("per-coordinate delegation", "eo/src/utils/eoRealVectorBounds.h")])

p("C05", "Bounded variation never leaves the feasible box",
  "When a real-coded mutation or crossover, a particle flight, or a sampling repairer is given bounds and in-bounds arguments, every coordinate it writes lies inside the bounds of that same coordinate, and a coordinate it has no reason to change is left as it was. A uniform mutation moves a coordinate by at most its step, which is the given fraction of the coordinate's range when that is bounded, and the smallest draw moves it that far or to its bound. A particle velocity update with velocity bounds writes velocities inside those bounds.",
  ["inputs", "configurations"], "every in-bounds parent, every random draw, every bound vector within the stated numeric grid",
  "The tests draw a few random individuals and print them.",
  ["eo/src/es/eoRealOp.h", "eo/src/es/eoNormalMutation.h", "eo/src/es/eoSBXcross.h", "eo/src/eoStandardFlight.h", "eo/src/eoStandardVelocity.h", "eo/src/eoConstrictedVelocity.h", "eo/src/eoExtendedVelocity.h", "edo/src/edoBounderBound.h", "edo/src/edoBounderUniform.h", "edo/src/edoBounderRng.h", "edo/src/edoSampler.h"],
  [("range clamping around the parents", "eo/src/es/eoRealOp.h"), ("clamp after move", "eo/src/eoStandardFlight.h")])

p("C06", "Random draws stay in range and roulette respects weights",
  "Whatever the underlying generator emits, an integer draw below m is less than m, a real draw over an interval lies in it, a flip with probability zero is false and with probability one is true, and a roulette draw over weights that are not all zero returns a valid index or member whose weight is positive. Shuffling rearranges its argument without losing or duplicating elements. Two generators given the same seed emit the same words, and reseeding restarts the sequence.",
  ["inputs"], "every 32-bit generator output (or sequence of them), every weight vector and bound within the stated sizes",
  "Statistical tests over seeded streams never meet the extreme 32-bit words.",
  ["eo/src/utils/eoRNG.h", "eo/src/utils/selectors.h", "eo/src/eoPop.h", "eo/src/utils/rnd_generators.h"],
  [("scaling of 32-bit outputs", "eo/src/utils/eoRNG.h"), ("wheel walk", "eo/src/utils/selectors.h")])

p("C07", "Every individual selection returns a real member, fairly",
  "Every one-individual selector (deterministic and stochastic tournament, roulette, ranking, universal sampling, sequential, random, best, truncated) returns a reference to an individual of the population it was given and does not alter that population. A deterministic tournament returns one of its contestants and none of them is better; best, elite and truncated selections return the top individuals; ranking gives a strictly better individual a larger worth. Sequential selection visits each individual once per pass, and universal sampling returns each individual its expected number of times per pass, rounded down or up.",
  ["inputs", "configurations"], "every fitness vector (ties included), every random draw, every tournament size and population size within the stated bounds, both optimisation directions",
  "Tests check population sizes or print; which member is returned is never compared with the draws.",
  ["eo/src/utils/selectors.h", "eo/src/eoDetTournamentSelect.h", "eo/src/eoStochTournamentSelect.h", "eo/src/eoProportionalSelect.h", "eo/src/eoSequentialSelect.h", "eo/src/eoRandomSelect.h", "eo/src/eoSelectFromWorth.h", "eo/src/eoRankingSelect.h", "eo/src/eoStochasticUniversalSelect.h", "eo/src/eoTruncatedSelectOne.h", "eo/src/eoDetSelect.h", "eo/src/eoSelectMany.h", "eo/src/eoSelectNumber.h", "eo/src/eoSelectPerc.h"],
  [("tournament loops", "eo/src/utils/selectors.h"), ("setup of per-generation tables", "eo/src/eoSelectOne.h")])

p("C08", "Reduction keeps exactly the requested individuals",
  "Reducing a population to n individuals leaves exactly n individuals, all taken from the original with none duplicated or invented, and asking for more than there are is refused. Truncating reducers never discard an individual strictly better than one they keep; splitting reducers hand back precisely the individuals they removed.",
  ["inputs", "configurations"], "every fitness vector including ties, every random draw, every target size within the stated population size, both optimisation directions",
  "Tests compare sizes for one seeded population.",
  ["eo/src/eoReduce.h", "eo/src/eoReduceSplit.h", "eo/src/eoTruncSelect.h", "eo/src/utils/selectors.h"],
  [("nth-element / repeated worst removal / inverse tournaments", "eo/src/eoReduce.h")])

p("C09", "Replacement preserves population size and membership",
  "Every stock replacement (generational, plus, comma, steady-state variants, merge-reduce combinations, MGG, G3, survive-and-die) given as many offspring as it asks for, leaves a next population of the same size as the parent population, made only of former parents and offspring, each used at most once. A comma-type replacement uses offspring only, and steady-state truncation removes no individual better than one it keeps.",
  ["inputs", "configurations"], "every fitness vector with ties, every random draw, every parent/offspring size within bounds, both optimisation directions",
  "Tests check printed sizes of a single configuration.",
  ["eo/src/eoReplacement.h", "eo/src/eoMergeReduce.h", "eo/src/eoReduceMerge.h", "eo/src/eoReduceMergeReduce.h", "eo/src/eoMGGReplacement.h", "eo/src/eoG3Replacement.h", "eo/src/eoSurviveAndDie.h", "eo/src/eoMerge.h", "eo/src/eoReduce.h"],
  [("merge then reduce", "eo/src/eoMergeReduce.h"), ("reduce then merge", "eo/src/eoReduceMerge.h")])

p("C10", "Elitist replacement never loses the best individual",
  "With any replacement that promises elitism (plus replacement, weak elitism around any replacement, elitist merge, strong or weak elite of a merge-reduce scheme, MOEO elitist replacement on its own order), the best fitness in the next population is never worse than the best fitness among the parents. Elitist merging adds exactly the announced number of best parents to the offspring.",
  ["inputs", "configurations"], "every parent and offspring fitness vector with ties, every elite count and random draw within bounds, both optimisation directions",
  "The one elitism test fixes fitnesses and checks one configuration.",
  ["eo/src/eoReplacement.h", "eo/src/eoMerge.h", "eo/src/eoMergeReduce.h", "eo/src/eoReduceMergeReduce.h", "moeo/src/replacement/moeoElitistReplacement.h"],
  [("re-insertion of the old champion", "eo/src/eoReplacement.h"), ("copying of elites", "eo/src/eoMerge.h")])

p("C11", "Population order, best and worst agree with fitness",
  "Sorting, best, worst, nth-element queries and population statistics (best, average, n-th) agree with one total preorder on fitness that respects the optimisation direction, for maximised, minimised and feasibility-first (dual) fitness; sorting and shuffling only rearrange individuals. Reading or comparing the fitness of an unevaluated individual is refused with an exception rather than answered.",
  ["inputs"], "every fitness vector including ties and unevaluated members, within the stated population size",
  "Tests sort one population; direction and tie handling matter only for particular value patterns.",
  ["eo/src/eoPop.h", "eo/src/EO.h", "eo/src/eoScalarFitness.h", "eo/src/eoDualFitness.h", "eo/src/utils/eoStat.h"],
  [("comparators on fitness", "eo/src/eoPop.h"), ("direction-aware scalar", "eo/src/eoScalarFitness.h")])

p("C12", "Stopping criteria fire exactly when their condition is met",
  "A generation, evaluation, iteration, period or time limit stops a run at exactly the announced count and not before; a target-fitness criterion stops exactly when the best fitness has reached the target; a steady-fitness criterion stops only after the announced number of generations without improvement following the minimum. A combined criterion or checkpoint stops if and only if one of its parts asks to stop, a checkpoint runs each attached part exactly once per call (its statistics every k-th call when given an interval k) and their final call exactly when it stops, and restarting a criterion restores its full budget.",
  ["histories", "configurations"], "every limit and every history of best fitness values within the stated horizon",
  "Tests run one long loop per criterion; off-by-one and reset errors depend on the history.",
  ["eo/src/eoContinue.h", "eo/src/eoGenContinue.h", "eo/src/eoSteadyFitContinue.h", "eo/src/eoFitContinue.h", "eo/src/eoEvalContinue.h", "eo/src/eoCombinedContinue.h", "eo/src/eoPeriodicContinue.h", "eo/src/utils/eoCheckPoint.h", "mo/src/continuator/moIterContinuator.h", "mo/src/continuator/moCheckpoint.h", "mo/src/continuator/moFitContinuator.h", "mo/src/continuator/moCombinedContinuator.h", "mo/src/continuator/moEvalsContinuator.h", "mo/src/continuator/moFullEvalContinuator.h", "mo/src/continuator/moNeighborEvalContinuator.h", "mo/src/continuator/moBestNoImproveContinuator.h"],
  [("counters compared with limits", "eo/src/eoGenContinue.h"), ("checkpoint fan-out", "eo/src/utils/eoCheckPoint.h")])

p("C13", "Evolution loops evaluate each unevaluated individual once",
  "A generational evolution loop, after each generation, holds a population of the initial size in which every individual is evaluated and carries the fitness of its own content. The evaluation counter equals the number of objective calls, the objective is called only on individuals marked as unevaluated, and never twice on an individual that no operator has reported as changed.",
  ["inputs", "histories"], "every initial content, every random draw, over the stated number of generations and population size",
  "Tests run full algorithms and look only at the final best fitness.",
  ["eo/src/eoEasyEA.h", "eo/src/eoSGA.h", "eo/src/eoPopEvalFunc.h", "eo/src/eoEvalFuncCounter.h", "eo/src/eoEvalCounterThrowException.h", "eo/src/apply.h", "eo/src/eoBreed.h", "eo/src/eoGeneralBreeder.h"],
  [("evaluation of unevaluated only", "eo/src/eoEvalFuncCounter.h"), ("loop over population", "eo/src/apply.h")])

p("C14", "Count and size specifications yield the announced number",
  "A quantity given as a rate, an absolute count or a signed count relative to a population produces that rate of the population size (rounded up; rounded down by percentage selection), the count itself, or size minus count, and an impossible request is refused. A specification changed later replaces the former one. Selecting, breeding or reducing by such a quantity produces exactly that many individuals.",
  ["inputs", "configurations"], "every rate on the stated grid, every count and population size in range",
  "Tests use two or three constants.",
  ["eo/src/utils/eoHowMany.h", "eo/src/eoSelectMany.h", "eo/src/eoSelectPerc.h", "eo/src/eoSelectNumber.h", "eo/src/eoGeneralBreeder.h", "eo/src/eoDetSelect.h"],
  [("rate/count arithmetic", "eo/src/utils/eoHowMany.h")])

p("C15", "Local search keeps solution and fitness consistent and never worsens",
  "During and after a hill-climbing run (simple, first-improvement, random-best, neutral and random-neutral) the solution's stored fitness is the fitness of its content, the fitness never gets worse from one step to the next, and the non-neutral climbers stop only at a solution none of whose neighbours is strictly better. Among tied best neighbours the randomised climbers can only pick a best one.",
  ["inputs", "histories"], "every start solution, every fitness landscape over the small search space, every random draw, within the stated steps",
  "Tests climb OneMax from one start; landscapes with ties and plateaus are not covered.",
  ["mo/src/algo/moLocalSearch.h", "mo/src/explorer/moSimpleHCexplorer.h", "mo/src/explorer/moFirstImprHCexplorer.h", "mo/src/explorer/moRandomBestHCexplorer.h", "mo/src/explorer/moNeutralHCexplorer.h", "mo/src/explorer/moRandomNeutralWalkExplorer.h", "mo/src/explorer/moNeighborhoodExplorer.h", "mo/src/comparator/moNeighborComparator.h", "mo/src/comparator/moSolNeighborComparator.h"],
  [("exploration, acceptance and move", "mo/src/algo/moLocalSearch.h")])

p("C16", "Neighbourhood iteration visits each neighbour exactly once",
  "Ordered and random-without-replacement neighbourhoods of declared size n present exactly n neighbours, each index from 0 to n-1 once, and then report that none is left; random-with-replacement presents exactly the announced number of draws (none announced means no limit), all in range; re-initialising starts afresh and honours a size changed since. Permutation-swap and bit-pattern neighbourhoods enumerate every distinct neighbour of the solution exactly once.",
  ["inputs", "histories"], "every neighbourhood size within bound, every random draw",
  "Tests iterate one fixed size and count.",
  ["mo/src/neighborhood/moOrderNeighborhood.h", "mo/src/neighborhood/moRndWithoutReplNeighborhood.h", "mo/src/neighborhood/moRndWithReplNeighborhood.h", "mo/src/neighborhood/moIndexNeighborhood.h", "mo/src/problems/permutation/moSwapNeighborhood.h", "mo/src/problems/bitString/moBitsNeighborhood.h", "mo/src/problems/bitString/moBitsWithoutReplNeighborhood.h"],
  [("index shuffling by swapping with the last", "mo/src/neighborhood/moRndWithoutReplNeighborhood.h")])

p("C17", "Incremental evaluation equals full evaluation",
  "For every bundled problem with an incremental neighbour evaluation (OneMax, royal road, NK landscape, UBQP, QAP, MaxSAT, and the generic move-and-undo evaluations) the fitness it gives a neighbour equals the full evaluation of the solution after the move, and the solution itself, content and fitness, is left as it was.",
  ["inputs"], "every problem instance, every solution and every neighbour within the stated size",
  "Tests compare a few neighbours on one random instance.",
  ["mo/src/problems/eval/moOneMaxIncrEval.h", "mo/src/problems/eval/moOneMaxBitsIncrEval.h", "mo/src/problems/eval/moRoyalRoadIncrEval.h", "mo/src/problems/eval/moNKlandscapesIncrEval.h", "mo/src/problems/eval/moNKlandscapesBitsIncrEval.h", "mo/src/problems/eval/moUBQPSimpleIncrEval.h", "mo/src/problems/eval/moUBQPBitsIncrEval.h", "mo/src/problems/eval/moUBQPdoubleIncrEvaluation.h", "mo/src/problems/eval/moQAPIncrEval.h", "mo/src/problems/eval/moMaxSATincrEval.h", "mo/src/eval/moFullEvalByCopy.h", "mo/src/eval/moFullEvalByModif.h", "mo/src/eval/moDoubleIncrEvaluation.h", "problems/eval/royalRoadEval.h", "problems/eval/nkLandscapesEval.h", "problems/eval/ubqpEval.h", "problems/eval/qapEval.h", "problems/eval/maxSATeval.h", "problems/eval/oneMaxEval.h"],
  [("delta formulas", "mo/src/problems/eval")])

p("C18", "Undoing a move restores the solution exactly",
  "Applying any bundled neighbour (bit flip, multi-bit flip, swap, indexed swap, shift where an undo exists) and then undoing it gives back the original content, and applying it invalidates the previous fitness. The neighbour reached is the one its description announces, and a copy of a neighbour describes the same move and carries the same fitness.",
  ["inputs"], "every solution and every neighbour index within the stated size",
  "Tests try a few indices on one solution.",
  ["mo/src/problems/bitString/moBitNeighbor.h", "mo/src/problems/bitString/moBitsNeighbor.h", "mo/src/problems/permutation/moSwapNeighbor.h", "mo/src/problems/permutation/moIndexedSwapNeighbor.h", "mo/src/problems/permutation/moShiftNeighbor.h", "mo/src/neighborhood/moBackableNeighbor.h"],
  [("move/moveBack pairs", "mo/src/problems")])

p("C19", "Tabu search moves to the best admissible neighbour only",
  "At each step tabu search moves to a neighbour that is not forbidden unless the aspiration criterion admits it, no admissible neighbour it could have taken is strictly better, and it stays put when none is admissible. The fitness stays that of the content, the solution reported is the best one moved to, and a move or solution recorded in a tabu list is forbidden until the announced number of updates has passed (for ever if none is announced) or, in a full list, until newer entries replace it.",
  ["inputs", "histories"], "every landscape over the small search space, every start, every random draw, within the stated steps",
  "Tests probe one list with a fixed script.",
  ["mo/src/explorer/moTSexplorer.h", "mo/src/memory/moSolVectorTabuList.h", "mo/src/memory/moNeighborVectorTabuList.h", "mo/src/memory/moIndexedVectorTabuList.h", "mo/src/memory/moCountMoveMemory.h", "mo/src/memory/moBestImprAspiration.h"],
  [("exploration with tabu and aspiration tests", "mo/src/explorer/moTSexplorer.h"), ("tabu tenure counters", "mo/src/memory")])

p("C20", "Annealing accepts improvements always and cools as announced",
  "Simulated annealing always accepts a neighbour that is strictly better, accepts a worse one only when the random draw is below the Boltzmann probability for the current temperature, and keeps fitness consistent with content. The simple schedule holds the temperature for exactly the announced number of updates and multiplies it by the factor at the next, the dynamic one cools after the announced number of tries or moves; they never raise it, and the run ends exactly when the floor is reached or the announced number of idle spans is exceeded.",
  ["inputs", "histories"], "every fitness pair, temperature and draw; every schedule parameter within the stated range",
  "Tests check a few numeric steps of one schedule.",
  ["mo/src/explorer/moSAexplorer.h", "mo/src/coolingSchedule/moSimpleCoolingSchedule.h", "mo/src/coolingSchedule/moDynSpanCoolingSchedule.h", "mo/src/explorer/moMetropolisHastingExplorer.h"],
  [("acceptance test", "mo/src/explorer/moSAexplorer.h"), ("span counter", "mo/src/coolingSchedule/moSimpleCoolingSchedule.h")])

p("C21", "Iterated searches return the accepted solution consistently",
  "Iterated local search and variable neighbourhood search keep the current solution's fitness equal to the fitness of its content, keep or restore the previous solution whenever the acceptance criterion refuses the new one, and, with a better-only criterion, never get worse. Variable neighbourhood search tries the neighbourhoods in the declared order, returns to the first after an improvement when so defined, and stops when they are exhausted.",
  ["inputs", "histories"], "every landscape over the small search space, every start and random draw, within the stated steps",
  "Tests run OneMax once and look at final fitness.",
  ["mo/src/explorer/moILSexplorer.h", "mo/src/explorer/moVNSexplorer.h", "mo/src/neighborhood/moForwardVectorVNSelection.h", "mo/src/neighborhood/moBackwardVectorVNSelection.h", "mo/src/neighborhood/moRndVectorVNSelection.h", "mo/src/acceptCrit/moBetterAcceptCrit.h", "mo/src/acceptCrit/moAlwaysAcceptCrit.h", "mo/src/perturb/moMonOpPerturb.h", "mo/src/perturb/moRestartPerturb.h", "mo/src/perturb/moNeighborhoodPerturb.h"],
  [("accept or restore", "mo/src/explorer/moILSexplorer.h")])

p("C22", "Neighbourhood statistics describe the whole neighbourhood",
  "The statistics of a solution's neighbourhood (size, minimum, maximum, mean, quartiles, numbers of better, equal and worse neighbours) equal those of the multiset of fitnesses of all its neighbours, and best-so-far statistics equal the best solution seen since the start of the run (since the first run when not re-initialised). Counting, distance and sample statistics equal what they count.",
  ["inputs", "histories"], "every landscape and solution within the stated neighbourhood size, both optimisation directions",
  "Tests check one OneMax solution.",
  ["mo/src/continuator/moNeighborhoodStat.h", "mo/src/continuator/moBestSoFarStat.h", "mo/src/continuator/moMinNeighborStat.h", "mo/src/continuator/moMaxNeighborStat.h", "mo/src/continuator/moQuartilesNeighborStat.h"],
  [("sorting of neighbour fitnesses and counting", "mo/src/continuator/moNeighborhoodStat.h")])

p("C23", "Pareto comparisons are consistent dominance relations",
  "Pareto, weak, strict, epsilon, goal-based and feasibility-first comparisons of objective vectors give exactly the textbook relation for every mix of minimised and maximised objectives; Pareto and strict dominance are irreflexive, antisymmetric and transitive. Single-criterion comparators of individuals (fitness, diversity, aggregated, one objective) are strict weak orders.",
  ["inputs", "configurations"], "every objective vector on the stated grid, every minimise/maximise mix, 1 to 3 objectives",
  "Tests compare a dozen fixed vectors with one direction mix.",
  ["moeo/src/comparator/moeoParetoObjectiveVectorComparator.h", "moeo/src/comparator/moeoWeakObjectiveVectorComparator.h", "moeo/src/comparator/moeoStrictObjectiveVectorComparator.h", "moeo/src/comparator/moeoEpsilonObjectiveVectorComparator.h", "moeo/src/comparator/moeoGDominanceObjectiveVectorComparator.h", "moeo/src/comparator/moeoObjectiveObjectiveVectorComparator.h", "moeo/src/comparator/moeoFitnessThenDiversityComparator.h", "moeo/src/comparator/moeoDiversityThenFitnessComparator.h", "moeo/src/comparator/moeoAggregativeComparator.h", "moeo/src/comparator/moeoParetoDualObjectiveVectorComparator.h", "moeo/src/core/moeoRealObjectiveVector.h"],
  [("per-objective comparison with tolerance", "moeo/src/comparator/moeoParetoObjectiveVectorComparator.h")])

p("C24", "Pareto archives hold exactly the non-dominated set",
  "After any sequence of insertions an unbounded archive contains no two members one of which dominates the other, no duplicated objective vector, only solutions that were offered, and for every solution offered a member that equals or dominates it; the reported answer says whether the archive took the solution. Bounded archives never exceed their capacity and still hold mutually non-dominated offered solutions.",
  ["histories", "inputs"], "every sequence of objective vectors of the stated length on the stated grid, every minimise/maximise mix, one by one or as populations",
  "Tests insert five fixed vectors.",
  ["moeo/src/archive/moeoArchive.h", "moeo/src/archive/moeoUnboundedArchive.h", "moeo/src/archive/moeoImprOnlyBoundedArchive.h", "moeo/src/archive/moeoFitDivBoundedArchive.h", "moeo/src/archive/moeo2DMinHypervolumeArchive.h", "moeo/src/archive/moeoSPEA2Archive.h", "moeo/src/archive/moeoEpsilonHyperboxArchive.h"],
  [("removal of dominated members then insertion", "moeo/src/archive/moeoArchive.h")])

p("C25", "Dominance-based fitness ranks dominators first",
  "Dominance depth, rank, count and count-ranking assignments and non-dominated sorting give each solution the value their definition gives for the current population (and archive): a solution is strictly better than any it dominates and, except for count, non-dominated solutions all have the best value. Equal objective vectors get equal values unless copies are set aside, in which case one keeps its place and the rest are never better; this holds for any number and direction of objectives and whatever was assigned before. The objective vectors and the set of individuals are unchanged.",
  ["inputs", "configurations"], "every population of objective vectors on the stated grid, every minimise/maximise mix, 1 to 3 objectives",
  "Tests assign fitness to one small population with both objectives minimised.",
  ["moeo/src/fitness/moeoDominanceDepthFitnessAssignment.h", "moeo/src/fitness/moeoDominanceRankFitnessAssignment.h", "moeo/src/fitness/moeoDominanceCountFitnessAssignment.h", "moeo/src/fitness/moeoDominanceCountRankingFitnessAssignment.h", "moeo/src/utils/moeoDominanceMatrix.h", "eo/src/eoNDSorting.h"],
  [("front construction", "moeo/src/fitness/moeoDominanceDepthFitnessAssignment.h"), ("dominance counting", "moeo/src/utils/moeoDominanceMatrix.h")])

p("C26", "Diversity values are well defined and favour extremes",
  "Crowding diversity assigns every individual a number (never NaN), gives each objective's extreme solutions of the population or of their front the maximal value, and gives interior ones the sum of normalised neighbour gaps. Nearest-neighbour and sharing diversities depend only on the distances, are symmetric under renaming of individuals, and never rank a duplicated solution above an isolated one.",
  ["inputs", "configurations"], "every population of objective vectors on the stated grid, including duplicated and constant objectives",
  "Tests assign diversity to one generic population without ties.",
  ["moeo/src/diversity/moeoCrowdingDiversityAssignment.h", "moeo/src/diversity/moeoFrontByFrontCrowdingDiversityAssignment.h", "moeo/src/diversity/moeoNearestNeighborDiversityAssignment.h", "moeo/src/diversity/moeoSharingDiversityAssignment.h"],
  [("per-objective sort and gap sum", "moeo/src/diversity/moeoCrowdingDiversityAssignment.h")])

p("C27", "Quality indicators equal their mathematical definition",
  "The hypervolume of a set equals the measure of the region it dominates up to the reference point, does not depend on the order of the points, and never decreases when a point is added; set differences and contributions are consistent with it. The additive epsilon, contribution and vector-versus-vector indicators equal their definitions, and the contributions of two sets with a common reference sum to one.",
  ["inputs", "configurations"], "every set of objective vectors on the stated grid, 2 or 3 objectives, every minimise/maximise mix",
  "Tests compute one number for one set.",
  ["moeo/src/metric/moeoHyperVolumeMetric.h", "moeo/src/metric/moeoHyperVolumeDifferenceMetric.h", "moeo/src/metric/moeoHypervolumeBinaryMetric.h", "moeo/src/metric/moeoAdditiveEpsilonBinaryMetric.h", "moeo/src/metric/moeoContributionMetric.h", "moeo/src/metric/moeoVecVsVecAdditiveEpsilonBinaryMetric.h", "moeo/src/metric/moeoNormalizedSolutionVsSolutionBinaryMetric.h"],
  [("slicing recursion", "moeo/src/metric/moeoHyperVolumeMetric.h")])

p("C28", "Multi-objective replacement and selection keep the preferred",
  "Multi-objective environmental and elitist replacement leave the parent population size unchanged using only parents and offspring, and never discard an individual that ranks strictly before one they keep in the order used. Multi-objective tournament and random selections return members of the population, and a deterministic tournament returns no one ranked after all its contestants.",
  ["inputs", "configurations"], "every fitness/diversity assignment on the grid and every random draw within the stated sizes",
  "Tests run one seeded replacement and check sizes.",
  ["moeo/src/replacement/moeoElitistReplacement.h", "moeo/src/replacement/moeoEnvironmentalReplacement.h", "moeo/src/replacement/moeoGenerationalReplacement.h", "moeo/src/selection/moeoDetTournamentSelect.h", "moeo/src/selection/moeoStochTournamentSelect.h", "moeo/src/selection/moeoRouletteSelect.h", "moeo/src/selection/moeoSelectors.h", "moeo/src/selection/moeoRandomSelect.h"],
  [("sort by comparator and truncate", "moeo/src/replacement/moeoElitistReplacement.h")])

p("C29", "Estimated distributions describe the sample and repairs are local",
  "A uniform estimate is the smallest box containing the sample, a binomial estimate is the frequency of ones at each position, a normal estimate has the sample's means and variances, and samples drawn lie in the box, or equal the certain value where the frequency is 0 or 1. Centring moves a distribution to the given centre and keeps its extent. Repairers change only the coordinates they are responsible for, rounding ones give integral multiples, and the repaired solution satisfies the repairer's own condition.",
  ["inputs", "configurations"], "every sample, coordinate list and random draw within the stated sizes and grid",
  "Tests print a repaired vector; nothing is compared over inputs.",
  ["edo/src/edoEstimatorUniform.h", "edo/src/edoEstimatorBinomial.h", "edo/src/edoSamplerUniform.h", "edo/src/edoSamplerBinomial.h", "edo/src/edoRepairerDispatcher.h", "edo/src/edoRepairerRound.h", "edo/src/edoRepairerModulo.h", "edo/src/edoRepairerApply.h", "edo/src/edoBounderBound.h", "edo/src/edoEstimatorNormalMono.h", "edo/src/edoUniformCenter.h", "edo/src/edoNormalMonoCenter.h", "edo/src/edoBounderUniform.h"],
  [("running min/max and frequency", "edo/src/edoEstimatorUniform.h"), ("index dispatch", "edo/src/edoRepairerDispatcher.h")])

p("C30", "Parallel evaluation applies the function to everyone exactly once",
  "Whatever the interleaving of the worker threads and the number of workers, the shared-memory scheduler applies the function exactly once to each individual of the population, for both the linear and the progressive policy, and returns only when all applications are finished.",
  ["schedules", "configurations"], "every interleaving of scheduler and worker steps at synchronisation points, every population size and worker count within bounds",
  "Tests run with whatever interleaving the machine gives; lost or doubled applications need a particular one.",
  ["smp/src/scheduler.h", "smp/src/scheduler.cpp", "smp/src/MWModel.cpp"],
  [("package splitting", "smp/src/scheduler.cpp"), ("hand-over under a lock", "smp/src/scheduler.cpp")],
  [("packages", "individuals waiting for one worker", "smp/src/scheduler.h")])

p("C31", "Island topologies and island maps are well formed",
  "For every number of islands, each topology announces for every island only other existing islands as neighbours, and exactly those of its definition (complete, ring, star, hypercube, mesh, none); isolating an island removes it from every neighbour list. The two-way map between islands and numbers stays a bijection under every sequence of additions and removals.",
  ["inputs", "histories", "configurations"], "every island count and every sequence of operations within the stated bound",
  "Tests print a few matrices for fixed sizes.",
  ["smp/src/topology", "smp/src/bimap.h", "smp/src/bimap.cpp"],
  [("adjacency matrix construction", "smp/src/topology"), ("paired maps", "smp/src/bimap.cpp")])

p("C32", "Distributed job assignment never double-books a worker",
  "Worker assignment strategies hand out only workers that are idle, never the same worker twice before its completion is confirmed, report exactly the idle workers as idle and their number as available, and the static strategy hands each worker its fair share so that exactly the announced number of tasks is assigned. Reinitialising restores the full budget.",
  ["histories", "configurations"], "every sequence of assignment and confirmation steps, every worker count and task count within bounds",
  "The MPI tests need several processes and are not run; arrival orders are never varied.",
  ["eo/src/mpi/eoMpiAssignmentAlgorithm.h", "eo/src/mpi/eoMpiAssignmentAlgorithm.cpp"],
  [("busy flags and attribution counters", "eo/src/mpi/eoMpiAssignmentAlgorithm.cpp")])

p("C33", "Particle swarms remember the best positions seen",
  "After each update a particle's remembered best fitness and position are those of the best position it has ever occupied, and the best of its neighbourhood is at least as good as the fitness of every particle of that neighbourhood so far and is a position actually visited. Neighbourhoods of linear, star and ring topologies contain exactly the announced particles and cover the swarm.",
  ["inputs", "histories", "configurations"], "every fitness history of every particle within the stated swarm size and steps",
  "Tests only construct the topologies or run one seeded swarm.",
  ["eo/src/eoLinearTopology.h", "eo/src/eoStarTopology.h", "eo/src/eoRingTopology.h", "eo/src/eoSocialNeighborhood.h", "eo/src/eoParticleBestInit.h", "eo/src/PO.h", "eo/src/eoVectorParticle.h", "eo/src/eoEasyPSO.h", "eo/src/eoSyncEasyPSO.h"],
  [("update of personal and neighbourhood best", "eo/src/eoRingTopology.h")])

p("C34", "Variable-length variation respects length limits and conserves genes",
  "After a variable-length crossover the children's lengths lie inside the configured limits whenever it reports success, and together the two children hold exactly the parents' genes, each as often as before; the one-child version takes each parental gene at most once. Adding a gene inserts exactly one gene unless the maximal length is reached and deleting removes exactly one unless the minimal length is reached, the other genes keeping their order. A change is announced exactly when one was made, or at least never withheld when the genes changed.",
  ["inputs", "random draws", "configurations"], "every pair of parents of the stated lengths, every outcome of the random draws, every limit",
  "The tests run a seeded loop and print the lengths.",
  ["eo/src/eoVariableLengthCrossover.h", "eo/src/eoVariableLengthMutation.h"],
  [("gene exchange and length tests", "eo/src/eoVariableLengthCrossover.h")])

p("C35", "Expression trees stay well formed and operators replace exactly one subtree",
  "After building, copying, assigning, swapping or pruning expression trees, every node's size, depth and parent agree with the actual structure, and the result is exactly the intended tree. Crossover and mutation replace exactly the picked subtrees, keep type agreement when they are typed, and the untyped ones return trees no larger than the limit; the depth initializer never exceeds its depth and fills it when asked for full trees.",
  ["inputs", "random draws"], "every tree shape and every choice of nodes within the stated depth",
  "The GP tests only run a seeded evolution.",
  ["eo/src/gp/parse_tree.h", "eo/src/gp/eoParseTree.h", "eo/src/gp/eoParseTreeOp.h", "eo/src/gp/eoStParseTreeOp.h", "eo/src/gp/eoParseTreeDepthInit.h"],
  [("subtree assignment and bookkeeping of size and depth", "eo/src/gp/parse_tree.h")])

p("C36", "Dominance-based local search explores and archives consistently",
  "The exhaustive explorer adds every neighbour of the selected solutions, the bounded one at most the announced number, the first-improving one the neighbours not dominated by their origin up to the first that dominates it, the non-worsening one the first neighbour not dominated by it; all are new unvisited solutions holding the objective vector of their content, and a solution is marked visited exactly when all its neighbours were explored. Selection returns the announced number of unvisited solutions, each once. During and after a search the archive members do not dominate each other and every evaluated solution is dominated by or equal to a member; the search goes on until it is told to stop or all members are visited, and its hybrids run it as often as announced.",
  ["inputs", "random draws", "histories"], "every landscape, start and selection within the stated sizes",
  "The tests run one search on a small fixed test class and check a few members.",
  ["moeo/src/explorer/moeoExhaustiveNeighborhoodExplorer.h", "moeo/src/explorer/moeoSimpleSubNeighborhoodExplorer.h", "moeo/src/explorer/moeoFirstImprovingNeighborhoodExplorer.h", "moeo/src/explorer/moeoNoDesimprovingNeighborhoodExplorer.h", "moeo/src/selection/moeoNumberUnvisitedSelect.h", "moeo/src/algo/moeoUnifiedDominanceBasedLS.h", "moeo/src/hybridization/moeoDMLSMonOp.h", "moeo/src/hybridization/moeoDMLSGenUpdater.h"],
  [("visited marks and objective vectors of new solutions", "moeo/src/explorer/moeoSubNeighborhoodExplorer.h")])

p("C37", "Deferred operators are built as last announced and owned by their forge",
  "A forge builds nothing before it is asked; it then builds the operator of the kind and with the arguments announced last for that index or name, referenced arguments staying references, and refuses unknown indices and names. Without a cache every request gives a new operator, with a cache the same one until it is set up again, for plain and for shared instances alike, and every operator is destroyed with its forge or its last owner. Scalar forges give values of their range unchanged.",
  ["inputs", "histories", "configurations"], "every sequence of set-ups and requests and all arguments within the stated length",
  "The tests build each operator once with fixed arguments.",
  ["eo/src/eoForge.h"],
  [("caching and ownership of instances", "eo/src/eoForge.h")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
