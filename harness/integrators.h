// Ordinary differential equations, one per rooted tree, whose solutions are
// monomials and which a method of order p integrates exactly up to weight p.
#pragma once
#include <algorithm>
#include <vector>

#include "base/for_all_of.hpp"
#include "geo.h"
#include "integrators/integrators.hpp"
#include "integrators/methods.hpp"
#include "integrators/ordinary_differential_equations.hpp"

namespace vf {
using namespace principia::base::_for_all_of;
using namespace principia::numerics::_double_precision;
using namespace principia::integrators::_integrators;
using namespace principia::integrators::_methods;
using namespace principia::integrators::_ordinary_differential_equations;

// An elementary differential.  Its children are indices in the forest: `2 * i`
// for the value of node i, `2 * i + 1` for its derivative.
struct Tree {
  int weight;                 // Of the value: it is coefficient·tʷ.
  double coefficient;
  std::vector<int> children;
};

// All the trees up to the given weight.  `order` is that of the equation;
// node 0 of a second-order forest has a constant derivative.  `general` says if
// the right-hand side depends on the derivatives.
struct Forest {
  int order;
  bool general;
  std::vector<Tree> trees;

  Forest(int const order, bool const general, int const max_weight) : order(order), general(general) {
    if (order == 2) trees.push_back({1, 1.0, {}});
    for (int w = order; w <= max_weight; ++w) {
      std::vector<int> chosen;
      grow(w, w - order, trees.size(), 0, chosen, 1.0);
    }
  }
  int weight(int const child) const { return trees[child / 2].weight - child % 2; }
  double coefficient(int const child) const {
    Tree const& t = trees[child / 2];
    return child % 2 == 0 ? t.coefficient : t.coefficient * t.weight;
  }
  void grow(int const w, int const left, int const known, int const first, std::vector<int>& chosen, double const product) {
    if (left == 0) {
      double c = product;
      for (int k = 0; k < order; ++k) c /= w - k;
      trees.push_back({w, c, chosen});
      return;
    }
    for (int child = first; child < 2 * known; ++child) {
      if (child % 2 == 1 && !general) continue;
      int const cw = weight(child);
      if (cw < 1 || cw > left) continue;
      chosen.push_back(child);
      grow(w, left - cw, known, child, chosen, product * coefficient(child));
      chosen.pop_back();
    }
  }
  int size() const { return trees.size(); }
  static double power(double const x, int const n) {
    double p = 1;
    for (int i = 0; i < n; ++i) p *= x;
    return p;
  }
  // The exact values.
  double q(int const i, double const t) const { return trees[i].coefficient * power(t, trees[i].weight); }
  double v(int const i, double const t) const { return trees[i].coefficient * trees[i].weight * power(t, trees[i].weight - 1); }
};

using Special = SpecialSecondOrderDifferentialEquation<Length>;
using Explicit = ExplicitSecondOrderOrdinaryDifferentialEquation<Length>;
using State = Special::State;

struct SecondOrderSystem {
  Forest forest;
  Instant t0;
  Time unit;
  double x;  // Initial value of all the variables.
  int max_power;  // The weight of the last power of the time.
  SecondOrderSystem(bool const general, int const max_weight, int const max_power = -1)
      : forest(2, general, max_weight), max_power(max_power < 0 ? max_weight : max_power),
        t0(Instant() + vf_real("t0", -10, 10) * si::Unit<Time>),
        unit(si::Unit<Time>), x(vf_real("x", -10, 10)) {}
  // The dimension is the number of trees, then that of powers of t.
  int dimension() const { return forest.size() + max_power - 1; }
  int weight(int const i) const { return i < forest.size() ? forest.trees[i].weight : i - forest.size() + 2; }
  double coefficient(int const i) const {
    int const w = weight(i);
    return i < forest.size() ? forest.trees[i].coefficient : 1.0 / (w * (w - 1));
  }
  State initial() const {
    std::vector<Length> q(dimension(), x * si::Unit<Length>);
    std::vector<Speed> v(dimension(), Speed());
    v[0] = 1 * si::Unit<Speed>;
    return State(t0, q, v);
  }
  absl::Status acceleration(Instant const& t, std::vector<Length> const& q, std::vector<Speed> const* v, std::vector<Acceleration>& g) const {
    vf_check(q.size() == dimension() && g.size() == dimension(), "dimension");
    for (int i = 0; i < forest.size(); ++i) {
      double product = i == 0 ? 0 : 1;
      for (int const child : forest.trees[i].children) {
        product *= child % 2 == 0 ? q[child / 2] / si::Unit<Length> - x : (*v)[child / 2] / si::Unit<Speed>;
      }
      g[i] = product * si::Unit<Acceleration>;
    }
    double const s = (t - t0) / unit;
    for (int i = forest.size(); i < dimension(); ++i) g[i] = Forest::power(s, i - forest.size()) * si::Unit<Acceleration>;
    return absl::OkStatus();
  }
  Special equation() const {
    Special result;
    result.compute_acceleration = [this](Instant const& t, std::vector<Length> const& q, std::vector<Acceleration>& g) {
      return acceleration(t, q, nullptr, g);
    };
    return result;
  }
  // Checks the value of the state `at` after the start.
  void check(State const& state, double const at, int const order) const {
    near(state.time.value - t0, at, "time");
    for (int i = 0; i < dimension(); ++i) {
      int const w = weight(i);
      double const c = coefficient(i);
      if (w <= order) {
        vf_near(state.positions[i].value / si::Unit<Length> - x, c * Forest::power(at, w), 1e-9, "position");
      }
      if (w <= order + 1) {
        vf_near(state.velocities[i].value / si::Unit<Speed>, w * c * Forest::power(at, w - 1), 1e-9, "velocity");
      }
    }
  }
  static void near(Time const& t, double const expected, char const* const id) {
    vf_near(t / si::Unit<Time>, expected, 1e-9, id);
  }
};

}  // namespace vf
