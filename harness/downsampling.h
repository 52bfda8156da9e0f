// A model of the downsampling of a segment.  The norm of the difference of two interpolations is replaced with an
// arbitrary upper bound.
#pragma once
#include "geo.h"
#include "numerics/hermite3.hpp"

using namespace vf;
using World = Frame<principia::serialization::Frame::TestTag, NonRotating, Handedness::Right, principia::serialization::Frame::TEST1>;
using HermiteDifference = principia::numerics::_hermite3::internal::Hermite3<Displacement<World>, Instant>;
static void norm(HermiteDifference const& difference);
static double norms[16];
static int normed;
template<>
Length HermiteDifference::LInfinityL₂Norm() const {
  norm(*this);
  return (norms[normed++] = vf_real("norm", 0, 8)) * Metre;
}

#include "base/status_utilities.hpp"
#include "geometry/instant.hpp"
#include "physics/degrees_of_freedom.hpp"
#include "physics/discrete_trajectory.hpp"

using namespace principia::geometry::_instant;
using namespace principia::physics::_degrees_of_freedom;
using namespace principia::physics::_discrete_trajectory;
using Trajectory = DiscreteTrajectory<World>;

namespace principia::geometry::_point::internal {
std::string DebugString(Instant const&) { return "instant"; }
}

struct P { double t, x, v; };
static Instant at(double t) { return Instant() + t * Second; }
template<typename F>
static DegreesOfFreedom<F> dof(P const& p) {
  return {F::origin + Displacement<F>({p.x * Metre, 0 * Metre, 0 * Metre}), Velocity<F>({p.v * (Metre / Second), 0 * (Metre / Second), 0 * (Metre / Second)})};
}
// The cubic that interpolates a and b, and its derivative.
static double cubic(P const& a, P const& b, double t) {
  double const h = b.t - a.t, u = (t - a.t) / h;
  return a.x * (1 + 2 * u) * (1 - u) * (1 - u) + h * a.v * u * (1 - u) * (1 - u) + b.x * u * u * (3 - 2 * u) + h * b.v * u * u * (u - 1);
}
static double slope(P const& a, P const& b, double t) {
  double const h = b.t - a.t, u = (t - a.t) / h;
  return (b.x - a.x) / h * 6 * u * (1 - u) + a.v * (1 - u) * (1 - 3 * u) + b.v * u * (3 * u - 2);
}

static P lower, last, next;
static void norm(HermiteDifference const& difference) {
  // The interpolation with the point being appended, minus the current one.
  double const s = vf_real("s", 0, 20);
  vf_near(num(difference(at(s)).coordinates().x), cubic(lower, next, s) - cubic(lower, last, s), 1e-6, "difference of interpolations");
}

static constexpr double times[] = {0, 1, 3, 4, 6, 7, 9, 10};
struct Segment {
  int n = 0;
  P points[10];
  double error = 0;  // Of the last interval.
  double errors[10] = {};  // Same, for each interval.
};

template<typename T>
static void append(T& trajectory, Segment& m, double τ, double t, bool exact) {
  P const p{t, vf_real("x", -10, 10), vf_real("v", -10, 10)};
  if (m.n > 1) {
    lower = m.points[m.n - 2];
    last = m.points[m.n - 1];
    next = p;
  }
  int const before = normed;
  vf_check(trajectory.Append(at(t), dof<World>(p)).ok(), "Append");
  int const size = std::prev(trajectory.segments().end())->size();
  vf_check(normed == before + (m.n > 1), "bound computed");
  double const error = normed > before ? m.errors[m.n - 1] + norms[before] : 0;
  if (m.n > 1 && size == m.n) {
    // The previous point is dropped.
    vf_check(error < τ, "error above the tolerance");
  } else {
    vf_check(m.n <= 1 || !exact || error >= τ, "point not dropped");
    vf_check(size == m.n + 1, "size");
    ++m.n;
    m.errors[m.n - 1] = 0;
  }
  m.points[m.n - 1] = p;
  if (m.n > 1 && size == m.n && normed > before && error < τ) m.errors[m.n - 1] = error;
}

template<typename T>
static void verify(T const& trajectory, Segment const& m) {
  auto const& segment = *std::prev(trajectory.segments().end());
  vf_check(segment.size() == m.n, "points");
  int i = 0;
  for (auto const& [t, d] : segment) {
    vf_check(i < m.n && t == at(m.points[i].t), "times");
    vf_near(num((d.position() - std::decay_t<decltype(d.position())>()).coordinates().x), m.points[i].x, 1e-9, "positions");
    ++i;
  }
  if (m.n < 2) return;
  i = 1 + vf_choose(m.n - 1, "interval");
  P const &a = m.points[i - 1], &b = m.points[i];
  double const s = a.t + (b.t - a.t) * vf_real("u", 0.01, 0.99);
  auto const d = trajectory.EvaluateDegreesOfFreedom(at(s));
  vf_near(num((d.position() - World::origin).coordinates().x), cubic(a, b, s), 1e-6, "interpolated position");
  vf_near(num(d.velocity().coordinates().x), slope(a, b, s), 1e-6, "interpolated velocity");
}

