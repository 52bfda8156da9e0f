#pragma once
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

#include "expr.h"

namespace vf {

enum class Res { Sat, Unsat, Unknown };

struct SolverStats {
  uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, cached = 0;
  uint64_t checks = 0;  // queries that decide an assertion
  double seconds = 0, max_seconds = 0;
};

struct Solver {
  Solver();
  ~Solver();
  // Is the conjunction of the slice of pc relevant to extra, and extra,
  // satisfiable?  On Sat, `model` is updated (it is expected to satisfy pc).
  Res Check(std::vector<E> const& pc, E extra, Model* model, int timeout_ms);
  // The whole conjunction.
  Res CheckAll(std::vector<E> const& cs, Model* model, int timeout_ms);
  // Interval linear check: |p| <= tol for |v| <= bound(v), every monomial
  // taken as an independent unknown.
  Res LinearBound(Poly const& p, std::map<uint32_t, double> const& bounds,
                  double tol);
  SolverStats stats;
  std::string smt2_dump_dir;

 private:
  struct Impl;
  std::unique_ptr<Impl> impl_;
};

}  // namespace vf
