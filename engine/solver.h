#pragma once
#include "expr.h"
#include <memory>
struct SolverStats { u64 z3_queries = 0, z3_sat = 0, z3_unsat = 0, z3_unknown = 0, table_queries = 0, cache_hits = 0, model_hits = 0, table_confirmed = 0; double z3_time = 0; double z3_max = 0; };
extern SolverStats g_sol;
extern unsigned g_z3_timeout_ms;
typedef std::shared_ptr<const Model> ModelP;

// A path condition: the constraints, per-variable domains (exact conjunction of the
// single-variable constraints), and a model satisfying all of it.
struct Dom { Table t; };
struct PathCond {
  std::vector<Expr *> cs;        // multi-variable constraints
  std::vector<const Table *> dom; // per variable; null = unconstrained
  ModelP model;
};
enum Res { UNSAT = 0, SAT = 1, UNKNOWN = 2 };
// Is pc && cond satisfiable?  On SAT *out (if given) is a model of both.
Res feasible(const PathCond &pc, Expr *cond, ModelP *out);
// Conjoin cond, known to be consistent; model must satisfy it afterwards.
void addConstraint(PathCond &pc, Expr *cond);
void solverInit();
