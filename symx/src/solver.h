#pragma once
#include "expr.h"
#include <unordered_map>
struct SolverStats { uint64_t queries = 0, cacheHits = 0, sat = 0, unsat = 0, unknown = 0; double secs = 0, maxq = 0; };
extern SolverStats g_sstats;
enum Res { R_SAT, R_UNSAT, R_UNKNOWN };
// Is pc /\ cond satisfiable? pc alone is known to be satisfiable, with witness base. On R_SAT *out is a model of both.
Res solve(const std::vector<E> &pc, E cond, const ModelP &base, ModelP *out);
void solverInit(unsigned rlimit, const char *dumpDir);
