#pragma once
#include "expr.h"
#include <memory>
enum Sat { UNSAT = 0, SAT = 1, UNKNOWN = 2 };
struct SolverStats { u64 queries = 0, z3calls = 0, cacheHits = 0, modelHits = 0, domainHits = 0, unknowns = 0, badModels = 0; double z3time = 0; double maxq = 0; };
extern SolverStats gSS;
extern unsigned gQueryTimeoutMs;
// Decide the conjunction of cs. On SAT fills m (only the variables involved).
Sat solveConj(const std::vector<E>& cs, Model& m);
// truth table of e over its single variable of width <= 8 (nullptr if not applicable)
struct Tab { u64 t[4]; };
const Tab* truthTable(E e, u32& var);
