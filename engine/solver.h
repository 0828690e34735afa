#pragma once
#include "expr.h"
#include <vector>
#include <memory>
typedef std::shared_ptr<Model> ModelP;
struct SolverStats {
    u64 queries = 0, z3calls = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, modelHits = 0, splits = 0;
    double z3time = 0, z3max = 0;
};
extern SolverStats g_sstats;
extern unsigned g_queryTimeoutMs;
enum Res { R_Unsat = 0, R_Sat = 1, R_Unknown = 2 };
// Is (constraints and cond) satisfiable?  base: a model of the constraints;
// on Sat, *out (if given) is a model of all constraints and cond.
Res solve(const std::vector<E>& constraints, E cond, const ModelP& base, ModelP* out);
ModelP freshModel(const std::vector<u128>& v);
