#pragma once
#include "expr.h"
struct SolverStats {
  uint64_t queries = 0, cacheHits = 0, sat = 0, unsat = 0, unknown = 0, modelHits = 0;
  double seconds = 0;
};
extern SolverStats solverStats;
enum class Res { Sat, Unsat, Unknown };
// Is (conjunction of cons) && q satisfiable?  On Sat the values of every
// variable of the relevant slice are written over base into out.
Res solve(const std::vector<ExprP> &cons, ExprP q, const Model &base, Model &out);
// Full dump of a query as SMT-LIB2 (for cross-checking with a second solver).
std::string smt2Of(const std::vector<ExprP> &cons, ExprP q);
void solverAfterFork();
extern unsigned solverRlimit;
extern std::string smtDumpDir;
extern int smtDumpEvery;
