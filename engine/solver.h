#pragma once
#include "expr.h"
#include <chrono>
#include <map>
struct Stats { u64 queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, modelHits = 0; double solverSec = 0, maxQuery = 0; };
struct Solver {
  Z3_context c; Z3_solver s; Stats st; unsigned timeoutMs = 20000;
  struct CacheEnt { int r; std::vector<std::pair<u32, u128>> m; };
  std::unordered_map<u64, std::vector<std::pair<std::vector<u32>, CacheEnt>>> cache;
  Solver();
  // 1 sat (model of the slice merged into 'm'), 0 unsat, -1 unknown
  int check(const std::vector<E> &pc, E cond, const Model &base, Model &out);
  int raw(const std::vector<E> &cs, std::vector<std::pair<u32, u128>> &vals, const std::vector<u32> &syms);
};
