// A model of the structure of discrete trajectories.
#pragma once
#include "geo.h"
#include "base/status_utilities.hpp"
#include "geometry/instant.hpp"
#include "physics/degrees_of_freedom.hpp"
#include "physics/discrete_trajectory.hpp"

using namespace vf;
using namespace principia::geometry::_instant;
using namespace principia::physics::_degrees_of_freedom;
using namespace principia::physics::_discrete_trajectory;

namespace principia::geometry::_point::internal {
std::string DebugString(Instant const&) { return "instant"; }
}

using World = Frame<principia::serialization::Frame::TestTag, NonRotating, Handedness::Right, principia::serialization::Frame::TEST1>;
using Trajectory = DiscreteTrajectory<World>;

static Instant at(double t) { return Instant() + t * Second; }
static DegreesOfFreedom<World> dof(int id) {
  return {World::origin + Displacement<World>({id * Metre, 0 * Metre, 0 * Metre}),
          Velocity<World>({0 * (Metre / Second), id * (Metre / Second), 0 * (Metre / Second)})};
}

// The degrees of freedom identify the point appended at time t.
struct Model {
  // The points of each segment, which are at consecutive integral times.
  int n = 1;
  int first[8] = {}, last[8] = {-1};  // Empty if first > last.
  bool void_(int k) const { return first[k] > last[k]; }
  bool empty() const {
    for (int k = 0; k < n; ++k) if (!void_(k)) return false;
    return true;
  }
  int begin() const {
    for (int k = 0; k < n; ++k) if (!void_(k)) return first[k];
    return 0;
  }
  int end() const { return empty() ? 0 : last[n - 1] + 1; }
  int size() const { return end() - begin(); }
  void append(int t) {
    if (void_(n - 1)) first[n - 1] = t;
    last[n - 1] = t;
  }
  void new_segment() {
    ++n;
    first[n - 1] = void_(n - 2) ? 0 : last[n - 2];
    last[n - 1] = void_(n - 2) ? -1 : last[n - 2];
  }
};

static void append(Trajectory& trajectory, Model& m, int t) {
  vf_check(trajectory.Append(at(t), dof(t)).ok(), "Append");
  m.append(t);
}

static void lookup(Trajectory const& trajectory, Model const& m) {
  // Lookups at an arbitrary time.
  double const s = vf_real("lookup", -50, 50);
  vf_assume(s > -100 && s < 100);
  auto const l = trajectory.lower_bound(at(s)), u = trajectory.upper_bound(at(s)), f = trajectory.find(at(s));
  int il = m.begin(), iu = m.begin();
  while (il < m.end() && il < s) ++il;
  while (iu < m.end() && iu <= s) ++iu;
  vf_check((l == trajectory.end()) == (il == m.end()), "lower_bound is end");
  vf_check((u == trajectory.end()) == (iu == m.end()), "upper_bound is end");
  if (il < m.end()) vf_check(l->time == at(il) && l->degrees_of_freedom == dof(il), "lower_bound");
  if (iu < m.end()) vf_check(u->time == at(iu) && u->degrees_of_freedom == dof(iu), "upper_bound");
  vf_check((f == trajectory.end()) == (il == iu), "find is end");
  if (il != iu) vf_check(f->time == at(il) && f->degrees_of_freedom == dof(il), "find");
  if (il < m.end()) {
    int i = il;
    for (auto it = l; it != trajectory.end(); ++it, ++i) vf_check(i < m.end() && it->time == at(i), "iteration from lower_bound");
    vf_check(i == m.end(), "iteration from lower_bound");
    i = il;
    for (auto it = l; it != trajectory.begin(); --it, --i) vf_check(i > m.begin() && it->time == at(i), "iteration back from lower_bound");
    vf_check(i == m.begin(), "iteration back from lower_bound");
  }
  int k = 0;
  for (auto const& segment : trajectory.segments()) {
    int jl = m.first[k], ju = m.first[k];
    while (jl <= m.last[k] && jl < s) ++jl;
    while (ju <= m.last[k] && ju <= s) ++ju;
    auto const sl = segment.lower_bound(at(s)), su = segment.upper_bound(at(s)), sf = segment.find(at(s));
    if (!m.void_(k)) {
      vf_check(jl > m.last[k] ? sl == segment.end() : sl->time == at(jl), "lower_bound in segment");
      vf_check(ju > m.last[k] ? su == segment.end() : su->time == at(ju), "upper_bound in segment");
      vf_check(jl == ju ? sf == segment.end() : sf->time == at(jl), "find in segment");
    }
    ++k;
  }
}

static void verify(Trajectory const& trajectory, Model const& m) {
  int const b = m.begin(), e = m.end();
  vf_check(trajectory.empty() == m.empty(), "empty");
  vf_check(trajectory.size() == m.size(), "size");
  int i = b;
  for (auto const& [t, d] : trajectory) {
    vf_check(i < e && t == at(i) && d == dof(i), "iteration");
    ++i;
  }
  vf_check(i == e, "iteration");
  for (auto it = trajectory.rbegin(); it != trajectory.rend(); ++it) {
    --i;
    vf_check(i >= b && it->time == at(i) && it->degrees_of_freedom == dof(i), "reverse iteration");
  }
  vf_check(i == b, "reverse iteration");
  if (m.empty()) {
    vf_check(trajectory.begin() == trajectory.end(), "begin");
    vf_check(trajectory.t_min() == InfiniteFuture && trajectory.t_max() == InfinitePast, "bounds");
  } else {
    vf_check(trajectory.front().time == at(b) && trajectory.front().degrees_of_freedom == dof(b), "front");
    vf_check(trajectory.back().time == at(e - 1) && trajectory.back().degrees_of_freedom == dof(e - 1), "back");
    vf_check(trajectory.t_min() == at(b) && trajectory.t_max() == at(e - 1), "bounds");
  }
  vf_check(trajectory.segments().size() == m.n, "segments");
  int k = 0;
  for (auto const& segment : trajectory.segments()) {
    int const sb = m.first[k], se = m.last[k] + 1;
    vf_check(segment.empty() == m.void_(k), "empty segment");
    vf_check(segment.size() == se - sb, "size of segment");
    i = sb;
    if (!m.void_(k)) {
      for (auto const& [t, d] : segment) {
        vf_check(i < se && t == at(i) && d == dof(i), "iteration in segment");
        ++i;
      }
      vf_check(i == se, "iteration in segment");
      for (auto it = segment.rbegin(); it != segment.rend(); ++it) {
        --i;
        vf_check(i >= sb && it->time == at(i), "reverse iteration in segment");
      }
      vf_check(i == sb, "reverse iteration in segment");
      vf_check(segment.front().time == at(sb) && segment.back().time == at(se - 1), "ends of segment");
      vf_check(segment.t_min() == at(sb) && segment.t_max() == at(se - 1), "bounds of segment");
    }
    ++k;
  }
  vf_check(k == m.n, "iteration over segments");
  for (auto const& segment : trajectory.rsegments()) vf_check(segment.size() == m.last[--k] + 1 - m.first[k], "reverse iteration over segments");
}

// Check that the trajectory may still be used.
static void use(Trajectory& trajectory, Model& m) {
  verify(trajectory, m);
  int t = m.empty() ? 20 : m.end();
  append(trajectory, m, t++);
  append(trajectory, m, t++);
  auto const s = trajectory.NewSegment();
  m.new_segment();
  vf_check(s->size() == 1 && s->front().time == at(t - 1), "new segment");
  append(trajectory, m, t++);
  verify(trajectory, m);
  lookup(trajectory, m);
}

static void before(Trajectory& trajectory, Model& m, double s) {
  trajectory.ForgetBefore(at(s));
  for (int k = 0; k < m.n; ++k)
    while (!m.void_(k) && m.first[k] < s) ++m.first[k];
}

static void make(Trajectory& trajectory, Model& m, bool forget, int t = 0) {
  int const segments = 1 + vf_choose(3, "segments");
  for (int k = 0; k < segments; ++k) {
    if (k > 0) {
      trajectory.NewSegment();
      m.new_segment();
    }
    int const points = vf_choose(k == 0 ? 4 : 3, "points");
    for (int i = 0; i < points; ++i) append(trajectory, m, t++);
  }
  if (forget && vf_choose(2, "forget_before") == 1) {
    double const s = vf_real("first", -50, 50);
    vf_assume(s > 0 && s < 100);
    before(trajectory, m, s);
  }
}

