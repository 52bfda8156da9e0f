// An ephemeris whose bodies are where the harness says.
#pragma once
#include "geo.h"
#include <memory>
#include <vector>
#include "physics/continuous_trajectory.hpp"
#include "physics/degrees_of_freedom.hpp"
#include "physics/ephemeris.hpp"
#include "physics/massive_body.hpp"
#include "physics/rotating_body.hpp"

using namespace vf;
using namespace principia::base::_not_null;
using namespace principia::physics::_continuous_trajectory;
using namespace principia::physics::_degrees_of_freedom;
using namespace principia::physics::_ephemeris;
using namespace principia::physics::_massive_body;
using namespace principia::physics::_rotating_body;
namespace integrators = principia::integrators::_integrators;

namespace principia::geometry::_point::internal {
std::string DebugString(Instant const&) { return "instant"; }
}

using World = Frame<principia::serialization::Frame::TestTag, Inertial, Handedness::Right, principia::serialization::Frame::TEST1>;
using D = Displacement<World>;
using V = Velocity<World>;
using A = Vector<Acceleration, World>;
using J = Vector<Jerk, World>;
using Sky = Ephemeris<World>;

static Instant at(double t) { return Instant() + t * Second; }

// What happens at one instant.
struct State {
  D q; V v; A a; J j;
};
constexpr int bodies_max = 5;
struct Universe {
  int n = 0;
  MassiveBody const* body[bodies_max];
  // At instants 0 and 1.
  State state[2][bodies_max];
  // The field, and its potential.
  A g[2];
  R3Element<double> linear[2] = {{0, 0, 0}, {0, 0, 0}};
  J massless_jerk[2];
};
static Universe universe;
static int evaluated = 0;  // The last instant for which all the degrees of freedom were evaluated.

static int when(Instant const& t) {
  if (t == at(0)) return 0;
  vf_check(t == at(1), "The frame looks at the time requested");
  return 1;
}
static int which(MassiveBody const* b) {
  for (int i = 0; i < universe.n; ++i) if (universe.body[i] == b) return i;
  vf_fail("The frame looks at bodies of the ephemeris");
  return 0;
}
static State& state(MassiveBody const* b, Instant const& t) { return universe.state[when(t)][which(b)]; }

class Path : public ContinuousTrajectory<World> {
 public:
  Path(MassiveBody const* b) : b_(b) {}
  Position<World> EvaluatePosition(Instant const& t) const override { return World::origin + state(b_, t).q; }
  Velocity<World> EvaluateVelocity(Instant const& t) const override { return state(b_, t).v; }
  DegreesOfFreedom<World> EvaluateDegreesOfFreedom(Instant const& t) const override {
    return {World::origin + state(b_, t).q, state(b_, t).v};
  }
  Instant t_min() const override { return at(-10); }
  Instant t_max() const override { return at(10); }
 private:
  MassiveBody const* b_;
};

static A gravity_at(Position<World> const& q, Instant const& t) {
  int const k = when(t);
  R3Element<double> const& m = universe.linear[k];
  auto const c = (q - World::origin).coordinates();
  return universe.g[k] + A({m.x * c.x / (Second * Second), m.y * c.y / (Second * Second), m.z * c.z / (Second * Second)});
}

namespace principia::physics::_ephemeris::internal {
template<> Ephemeris<World>::BodiesToPositions Ephemeris<World>::EvaluateAllPositions(Instant const& t) const {
  BodiesToPositions r;
  for (int i = 0; i < universe.n; ++i) r.emplace(universe.body[i], World::origin + universe.state[when(t)][i].q);
  return r;
}
template<> Ephemeris<World>::BodiesToVelocities Ephemeris<World>::EvaluateAllVelocities(Instant const& t) const {
  BodiesToVelocities r;
  for (int i = 0; i < universe.n; ++i) r.emplace(universe.body[i], universe.state[when(t)][i].v);
  return r;
}
template<> Ephemeris<World>::BodiesToDegreesOfFreedom Ephemeris<World>::EvaluateAllDegreesOfFreedom(Instant const& t) const {
  BodiesToDegreesOfFreedom r;
  for (int i = 0; i < universe.n; ++i)
    evaluated = when(t), r.emplace(universe.body[i], DegreesOfFreedom<World>(World::origin + universe.state[when(t)][i].q, universe.state[when(t)][i].v));
  return r;
}
template<> Vector<Jerk, World> Ephemeris<World>::ComputeGravitationalJerkOnMasslessBody(
    DegreesOfFreedom<World> const&, Instant const& t) const { return universe.massless_jerk[when(t)]; }
template<> Vector<Jerk, World> Ephemeris<World>::ComputeGravitationalJerkOnMassiveBody(
    not_null<MassiveBody const*> body, Instant const& t) const { return state(body, t).j; }
template<> std::vector<Vector<Jerk, World>> Ephemeris<World>::ComputeGravitationalJerkOnMassiveBodies(
    std::vector<not_null<MassiveBody const*>> const& bodies, BodiesToDegreesOfFreedom const& dofs) const {
  vf_check(int(dofs.size()) == universe.n, "The jerks depend on all the bodies");
  std::vector<Vector<Jerk, World>> r;
  for (auto b : bodies) {
    // The instant is not given.
    State const& x = universe.state[evaluated][which(b)];
    eq(dofs.at(b).position() - World::origin, x.q, "positions of all the bodies");
    r.push_back(x.j);
  }
  return r;
}
template<> SpecificEnergy Ephemeris<World>::ComputeGravitationalPotential(Position<World> const& q, Instant const& t) const {
  int const k = when(t);
  R3Element<double> const& m = universe.linear[k];
  auto const c = (q - World::origin).coordinates();
  return -InnerProduct(universe.g[k], q - World::origin) -
      (m.x * c.x * c.x + m.y * c.y * c.y + m.z * c.z * c.z) / (2 * (Second * Second));
}
}

class FakeIntegrator : public integrators::FixedStepSizeIntegrator<Sky::NewtonianMotionEquation> {
 public:
  using ODE = Sky::NewtonianMotionEquation;
  not_null<std::unique_ptr<integrators::Integrator<ODE>::Instance>> NewInstance(
      principia::integrators::_ordinary_differential_equations::InitialValueProblem<ODE> const&, integrators::Integrator<ODE>::AppendState const&,
      Time const&) const override { vf_fail("NewInstance"); __builtin_trap(); }
  void WriteToMessage(not_null<principia::serialization::FixedStepSizeIntegrator*>) const override {}
};

class FakeEphemeris : public Sky {
 public:
  FakeEphemeris(FakeIntegrator const& i) : Sky(i) {}
  void add(MassiveBody const* b) {
    universe.body[universe.n++] = b;
    paths_.push_back(std::make_unique<Path>(b));
    bodies_.push_back(b);
  }
  std::vector<not_null<MassiveBody const*>> const& bodies() const override { return bodies_; }
  not_null<ContinuousTrajectory<World> const*> trajectory(not_null<MassiveBody const*> b) const override {
    return paths_[which(b)].get();
  }
  Instant t_min() const override { return at(-5); }
  Instant t_max() const override { return at(5); }
  A ComputeGravitationalAccelerationOnMasslessBody(Position<World> const& q, Instant const& t) const override {
    return gravity_at(q, t);
  }
  A ComputeGravitationalAccelerationOnMasslessBody(
      not_null<principia::physics::_discrete_trajectory::DiscreteTrajectory<World>*>, Instant const&) const override {
    vf_fail("No trajectory here");
    return {};
  }
  A ComputeGravitationalAccelerationOnMassiveBody(not_null<MassiveBody const*> b, Instant const& t) const override {
    return state(b, t).a;
  }
  std::vector<A> ComputeGravitationalAccelerationOnMassiveBodies(
      std::vector<not_null<MassiveBody const*>> const& bodies, BodiesToPositions const& positions,
      Instant const& t) const override {
    vf_check(int(positions.size()) == universe.n, "The accelerations depend on all the bodies");
    for (auto const& [b, q] : positions) eq(q - World::origin, state(b, t).q, "positions at the time given");
    std::vector<A> r;
    for (auto b : bodies) r.push_back(state(b, t).a);
    return r;
  }
  int serialization_index_for_body(not_null<MassiveBody const*> b) const override { return which(b); }
  not_null<MassiveBody const*> body_for_serialization_index(int i) const override { return universe.body[i]; }
 private:
  std::vector<std::unique_ptr<Path>> paths_;
  std::vector<not_null<MassiveBody const*>> bodies_;
};
