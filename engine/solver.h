#pragma once
#include "expr.h"
#include <memory>
struct ModelObj { Model m; u64 gen; };
typedef std::shared_ptr<ModelObj> ModelP;
enum Res { SAT, UNSAT, UNKNOWN };
struct SolverStats { u64 queries = 0, z3calls = 0, cacheHits = 0, modelHits = 0, sat = 0, unsat = 0, unknown = 0, fpQueries = 0; double z3time = 0, maxTime = 0; };
extern SolverStats g_ss;
void solverInit(unsigned timeoutMs);
// Is (conj of cons) && extra satisfiable?  hint satisfies all of cons.  On SAT a model of everything is produced.
Res solveSat(const std::vector<Expr*>& cons, Expr* extra, const ModelP& hint, ModelP& out);
extern std::string g_lastUnknown;
