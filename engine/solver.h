#pragma once
#include "expr.h"
#include <memory>
struct SolverStats { uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, modelHits = 0, fallbacks = 0; double time = 0, maxTime = 0; };
enum SRes { S_UNSAT, S_SAT, S_UNKNOWN };
typedef std::shared_ptr<std::vector<uint8_t>> ModelP;
struct Solver {
  Z3_context ctx;
  SolverStats st;
  unsigned timeoutMs = 60000; unsigned incMs = 3000;
  std::string dumpDir; unsigned dumpMax = 0, dumped = 0;
  Solver();
  // is cs /\ cond satisfiable?  On SAT, model gets assignments overlaid on base.
  SRes check(const std::vector<Expr *> &cs, Expr *cond, const ModelP &base, ModelP &out);
  Z3_ast tr(Expr *e);
 private:
  Z3_ast bv(Expr *e);
  Z3_solver mk();
  Z3_solver inc(); Z3_solver incS = nullptr; std::vector<Expr *> stack;
  struct CacheEnt { SRes r; std::vector<std::pair<uint32_t, uint8_t>> m; };
  std::map<std::vector<uint32_t>, CacheEnt> cache;
  std::unordered_map<uint32_t, Z3_ast> symAst;
};
