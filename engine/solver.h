#pragma once
#include "expr.h"
#include <memory>
enum class Sat { Yes, No, Unknown };
struct SolverStats {
    uint64_t queries = 0;      // decision questions asked by the engine (after constant folding)
    uint64_t modelHits = 0;    // answered by evaluating a cached model (a sat witness)
    uint64_t cacheHits = 0;    // answered by the query cache
    uint64_t z3calls = 0, z3sat = 0, z3unsat = 0, z3unknown = 0;
    double z3time = 0; double maxTime = 0;
};
extern SolverStats g_ss;
void solverInit(unsigned timeout_ms);
// decide conjunction of cs; on Yes fills values of variables occurring in cs into m
Sat solverCheck(const std::vector<Expr*>& cs, Model& m);
std::string solverDump(const std::vector<Expr*>& cs);
