// An ephemeris whose bodies move as the harness says, and whose integrators are recorded.
#pragma once
#include "geo.h"
#include <map>
#include <memory>
#include <vector>
#include "physics/continuous_trajectory.hpp"
#include "physics/degrees_of_freedom.hpp"
#include "physics/discrete_trajectory.hpp"
#include "physics/ephemeris.hpp"
#include "physics/massive_body.hpp"
#include "physics/oblate_body.hpp"
#include "physics/rotating_body.hpp"

using namespace vf;
using namespace principia::base::_not_null;
using namespace principia::physics::_continuous_trajectory;
using namespace principia::physics::_degrees_of_freedom;
using namespace principia::physics::_discrete_trajectory;
using namespace principia::physics::_ephemeris;
using namespace principia::physics::_geopotential;
using namespace principia::physics::_massive_body;
using namespace principia::physics::_oblate_body;
using namespace principia::physics::_rotating_body;
namespace integrators = principia::integrators::_integrators;
namespace equations = principia::integrators::_ordinary_differential_equations;

namespace principia::geometry::_point::internal {
std::string DebugString(Instant const&) { return "instant"; }
}

using World = Frame<principia::serialization::Frame::TestTag, Inertial, Handedness::Right, principia::serialization::Frame::TEST1>;
using D = Displacement<World>;
using V = Velocity<World>;
using A = Vector<Acceleration, World>;
using J = Vector<Jerk, World>;
using Sky = Ephemeris<World>;
using Path = ContinuousTrajectory<World>;
using Motion = Sky::NewtonianMotionEquation;
using GeneralMotion = Sky::GeneralizedNewtonianMotionEquation;

static Instant at(double t) { return Instant() + t * Second; }

constexpr int bodies_max = 5;
// The bodies in the order in which they are given to the ephemeris.
static int bodies_count;
static MassiveBody const* given[bodies_max];
static D where[bodies_max];
static V speed[bodies_max];
static std::map<Path const*, int> whose;
// The time at which everything is evaluated.
static double now = 3;
// The times until which the trajectories are known; the integrator adds to it.
static Instant last_time = at(0);

static int which(MassiveBody const* b) {
  for (int i = 0; i < bodies_count; ++i) if (given[i] == b) return i;
  vf_fail("Only the bodies given are used");
  return 0;
}
static int of(Path const* p, Instant const& t) {
  vf_check(t == at(now), "The bodies are observed at the time requested");
  auto const it = whose.find(p);
  vf_check(it != whose.end(), "The bodies follow their trajectories");
  return it->second;
}

namespace principia::physics::_continuous_trajectory::internal {
template<> absl::Status ContinuousTrajectory<World>::Append(Instant const&, DegreesOfFreedom<World> const&) { return absl::OkStatus(); }
template<> Position<World> ContinuousTrajectory<World>::EvaluatePositionLocked(Instant const& t) const {
  return World::origin + where[of(this, t)];
}
template<> Velocity<World> ContinuousTrajectory<World>::EvaluateVelocityLocked(Instant const& t) const { return speed[of(this, t)]; }
template<> DegreesOfFreedom<World> ContinuousTrajectory<World>::EvaluateDegreesOfFreedomLocked(Instant const& t) const {
  int const i = of(this, t);
  return {World::origin + where[i], speed[i]};
}
template<> bool ContinuousTrajectory<World>::empty() const { return false; }
template<> Instant ContinuousTrajectory<World>::t_min() const { return at(0); }
template<> Instant ContinuousTrajectory<World>::t_max() const { return last_time; }
template<> Instant ContinuousTrajectory<World>::t_min_locked() const { return at(0); }
template<> Instant ContinuousTrajectory<World>::t_max_locked() const { return last_time; }
}

// The effects of the oblateness of body i at the displacement r, per unit of gravitational parameter, are
// stretch[i] * r + shift[i] and slope[i] * r.x.
static double stretch[bodies_max], slope[bodies_max];
static R3Element<double> shift[bodies_max];
namespace principia::physics::_geopotential::internal {
using AccelerationByGravitationalParameter = Quotient<Acceleration, GravitationalParameter>;
using PotentialByGravitationalParameter = Quotient<SpecificEnergy, GravitationalParameter>;
template<> Geopotential<World>::Geopotential(not_null<OblateBody<World> const*> body, double tolerance) : body_(body) {
  vf_check(tolerance == 0.125, "The tolerance of the geopotentials");
}
static Vector<AccelerationByGravitationalParameter, World> effect(int i, Displacement<World> const& r) {
  auto const c = r.coordinates();
  return Vector<AccelerationByGravitationalParameter, World>(
      {(stretch[i] * num(c.x) + shift[i].x) * si::Unit<AccelerationByGravitationalParameter>,
       (stretch[i] * num(c.y) + shift[i].y) * si::Unit<AccelerationByGravitationalParameter>,
       (stretch[i] * num(c.z) + shift[i].z) * si::Unit<AccelerationByGravitationalParameter>});
}
static PotentialByGravitationalParameter potential_effect(int i, Displacement<World> const& r) {
  return slope[i] * num(r.coordinates().x) * si::Unit<PotentialByGravitationalParameter>;
}
static void consistent(Instant const& t, Displacement<World> const& r, Length const& norm, Square<Length> const& r2,
                       Exponentiation<Length, -3> const& r_3) {
  vf_check(t == at(now), "The geopotentials are evaluated at the time requested");
  eq(r.Norm²(), r2, "The square of the distance");
  eq(norm * norm, r2, "The distance");
  eq(norm * r2 * r_3, 1, "The inverse of the cube of the distance");
}
template<> Vector<AccelerationByGravitationalParameter, World> Geopotential<World>::GeneralSphericalHarmonicsAcceleration(
    Instant const& t, Displacement<World> const& r, Length const& norm, Square<Length> const& r2,
    Exponentiation<Length, -3> const& r_3) const {
  consistent(t, r, norm, r2, r_3);
  return effect(which(body_), r);
}
template<> PotentialByGravitationalParameter Geopotential<World>::GeneralSphericalHarmonicsPotential(
    Instant const& t, Displacement<World> const& r, Length const& norm, Square<Length> const& r2,
    Exponentiation<Length, -3> const& r_3) const {
  consistent(t, r, norm, r2, r_3);
  return potential_effect(which(body_), r);
}
}
using principia::physics::_geopotential::internal::effect;
using principia::physics::_geopotential::internal::potential_effect;

// Records what is to be integrated.
template<typename ODE>
struct Recording {
  int instances = 0;
  equations::InitialValueProblem<ODE> problem;
  std::function<void(typename ODE::State const&)> append;
  Time step;
  // Called by Solve.
  std::function<absl::Status(Instant const&)> solve = [](Instant const&) { return absl::OkStatus(); };
};

class FakeFixed : public integrators::FixedStepSizeIntegrator<Motion> {
 public:
  Recording<Motion>& r_;
  FakeFixed(Recording<Motion>& r) : r_(r) {}
  class It : public integrators::FixedStepSizeIntegrator<Motion>::Instance {
   public:
    It(FakeFixed const& i, equations::InitialValueProblem<Motion> const& p, integrators::Integrator<Motion>::AppendState const& a, Time const& s)
        : Instance(p, a, s), i_(i) {}
    absl::Status Solve(Instant const& t) override {
      auto const s = i_.r_.solve(t);
      this->current_state_.time = equations::internal::DoublePrecision<Instant>(t);
      return s;
    }
    integrators::FixedStepSizeIntegrator<Motion> const& integrator() const override { return i_; }
    not_null<std::unique_ptr<integrators::Integrator<Motion>::Instance>> Clone() const override { vf_fail("Clone"); __builtin_trap(); }
    FakeFixed const& i_;
  };
  not_null<std::unique_ptr<integrators::Integrator<Motion>::Instance>> NewInstance(
      equations::InitialValueProblem<Motion> const& p, integrators::Integrator<Motion>::AppendState const& a,
      Time const& step) const override {
    ++r_.instances;
    r_.problem = p;
    r_.append = a;
    r_.step = step;
    return not_null<std::unique_ptr<integrators::Integrator<Motion>::Instance>>(std::make_unique<It>(*this, p, a, step));
  }
  void WriteToMessage(not_null<principia::serialization::FixedStepSizeIntegrator*>) const override {}
};
