// The integration of trajectories by the ephemeris.
//@ entry prolong mode=real max-seconds=120
//@ entry adaptive mode=real max-seconds=150
//@ entry general mode=real max-seconds=150
//@ entry ratio mode=real max-seconds=150
//@ entry fixed mode=real max-seconds=120
//@ src $VERIF/rt/elementary.cc
//@ bound One massive body and one massless one; any times, the massive trajectories being late by up to 3 steps on their integration; any status returned by the integrator; errors on up to 2 positions and 2 velocities.
//@ assume The coordinates and times are real numbers (the rounding of the operations is not modelled).
#include "heavens.h"
#include "numerics/elementary_functions.hpp"

using namespace principia::numerics::_elementary_functions;

template<typename ODE>
class FakeAdaptive : public integrators::AdaptiveStepSizeIntegrator<ODE> {
 public:
  using Base = integrators::AdaptiveStepSizeIntegrator<ODE>;
  mutable int instances = 0;
  mutable equations::InitialValueProblem<ODE> problem;
  mutable typename integrators::Integrator<ODE>::AppendState append;
  mutable typename Base::ToleranceToErrorRatio ratio;
  mutable double first_step = 0, safety_factor = 0;
  mutable std::int64_t max_steps = 0;
  mutable bool exact = false;
  mutable int solved = 0;
  mutable Instant solved_until;
  absl::Status status;
  class It : public Base::Instance {
   public:
    It(FakeAdaptive const& i, equations::InitialValueProblem<ODE> const& p, typename integrators::Integrator<ODE>::AppendState const& a,
       typename Base::ToleranceToErrorRatio const& r, typename Base::Parameters const& q)
        : Base::Instance(p, a, r, q, q.first_step, true), i_(i) {}
    absl::Status Solve(Instant const& t) override {
      ++i_.solved;
      i_.solved_until = t;
      return i_.status;
    }
    Base const& integrator() const override { return i_; }
    not_null<std::unique_ptr<typename integrators::Integrator<ODE>::Instance>> Clone() const override { vf_fail("Clone"); __builtin_trap(); }
    FakeAdaptive const& i_;
  };
  not_null<std::unique_ptr<typename integrators::Integrator<ODE>::Instance>> NewInstance(
      equations::InitialValueProblem<ODE> const& p, typename integrators::Integrator<ODE>::AppendState const& a,
      typename Base::ToleranceToErrorRatio const& r, typename Base::Parameters const& q) const override {
    ++instances;
    problem = p;
    append = a;
    ratio = r;
    first_step = q.first_step / Second;
    safety_factor = q.safety_factor;
    max_steps = q.max_steps;
    exact = q.last_step_is_exact;
    return not_null<std::unique_ptr<typename integrators::Integrator<ODE>::Instance>>(std::make_unique<It>(*this, p, a, r, q));
  }
  void WriteToMessage(not_null<principia::serialization::AdaptiveStepSizeIntegrator*>) const override {}
};

static Recording<Motion> planets;
static FakeFixed const planetary(planets);
constexpr double step = 2;
static double lateness;
static int prolongations;
static double integrated;  // The time until which the massive bodies are integrated.

static std::unique_ptr<Sky> heavens() {
  bodies_count = 1;
  std::vector<not_null<std::unique_ptr<MassiveBody const>>> bodies;
  auto b = std::make_unique<RotatingBody<World>>(
      MassiveBody::Parameters(2 * si::Unit<GravitationalParameter>),
      RotatingBody<World>::Parameters(0.125 * Metre, 0 * Radian, at(0), 1 * Radian / Second, 0 * Radian, 0 * Radian));
  given[0] = b.get();
  bodies.push_back(std::unique_ptr<MassiveBody const>(std::move(b)));
  auto s = std::make_unique<Sky>(std::move(bodies), std::vector<DegreesOfFreedom<World>>{{World::origin, V()}}, at(0),
                                 Sky::AccuracyParameters(1 * Metre, 0.125), Sky::FixedStepParameters(planetary, step * Second));
  whose[s->trajectory(given[0])] = 0;
  lateness = vf_real("lateness", 0, 3 * step);
  planets.solve = [](Instant const& t) {
    ++prolongations;
    vf_check(prolongations < 20, "The prolongation terminates");
    double const τ = (t - at(0)) / Second;
    vf_check(τ > integrated, "The massive bodies are integrated forward");
    integrated = τ;
    if (at(τ - lateness) > last_time) last_time = at(τ - lateness);
    return absl::OkStatus();
  };
  return s;
}

VF_HARNESS(prolong) {
  auto const s = heavens();
  for (int k = 0; k < 2; ++k) {
    double const t = vf_real("t", -1, 10);
    double const before = integrated;
    bool const limited = vf_choose(2, "limited");
    bool const needed = last_time < at(t);
    if (limited) {
      std::int64_t const steps = vf_choose(3, "steps");
      vf_check(s->Prolong(at(t), steps).ok(), "Prolong succeeds");
      vf_check(last_time >= at(t) || last_time >= at(before + steps * step), "Prolong goes as far as it may");
      vf_check(integrated <= before + (steps > 1 ? steps : 1) * step + lateness + step, "Prolong stops when it must");
    } else {
      vf_check(s->Prolong(at(t)).ok(), "Prolong succeeds");
      vf_check(last_time >= at(t), "t_max is at or after the time requested");
    }
    if (!needed) vf_check(integrated == before, "Nothing is integrated when the time has been reached already");
    vf_check(integrated <= (t > before + step ? t : before + step) + lateness + step, "Prolong does not go too far");
    vf_check(s->t_max() == last_time, "t_max");
  }
}

static absl::Status const statuses[3] = {absl::OkStatus(), absl::OutOfRangeError("collision"), absl::AbortedError("aborted")};

template<typename ODE, typename Call>
static void flow(Call const& call) {
  auto const s = heavens();
  FakeAdaptive<ODE> integrator;
  int const kind = vf_choose(3, "status");
  integrator.status = statuses[kind];
  double const start = vf_real("start", 0.5, 3), t = start + vf_real("duration", 0, 10);
  bool const nothing = vf_choose(2, "nothing");
  double const end = nothing ? start : t;
  vf_assume(t > start + 0.01);
  DiscreteTrajectory<World> trajectory;
  D const q0 = v<Length, World>("q");
  V const v0 = v<Speed, World>("v");
  trajectory.Append(at(start - 0.25), {World::origin, V()}).IgnoreError();
  trajectory.Append(at(start), {World::origin + q0, v0}).IgnoreError();
  bool const limited = vf_choose(2, "limited");
  // Enough to reach the start of the trajectory.
  std::int64_t const steps = limited ? 2 : Sky::unlimited_max_ephemeris_steps;
  auto const status = call(*s, integrator, trajectory, at(end), steps);
  if (nothing) {
    vf_check(status.ok() && integrator.instances == 0, "There is nothing to do at the end of the trajectory");
    return;
  }
  vf_check(integrator.instances == 1 && integrator.solved == 1, "The trajectory is integrated");
  double const final = at(t) <= last_time ? t : (last_time - at(0)) / Second;
  vf_near((integrator.solved_until - at(0)) / Second, final, 1e-9, "The integration stops at the time requested or at the end of the ephemeris");
  vf_check(integrator.solved_until <= last_time, "The integration stays within the ephemeris");
  if (!limited) vf_check(integrator.solved_until == at(t), "The integration stops at the time requested");
  vf_near(integrator.first_step, final - start, 1e-9, "The first step");
  vf_check(integrator.exact, "The last step is exact");
  vf_check(integrator.max_steps == 17, "The number of steps is limited");
  vf_check(integrator.safety_factor > 0 && integrator.safety_factor < 1, "The safety factor");
  auto const& state = integrator.problem.initial_state;
  vf_check(state.time.value == at(start), "The initial time");
  vf_check(state.positions.size() == 1 && state.velocities.size() == 1, "One trajectory is integrated");
  eq(state.positions[0].value - World::origin, q0, "The initial position");
  eq(state.velocities[0].value, v0, "The initial velocity");
  if (kind == 2) vf_check(status.code() == statuses[2].code(), "The errors of the integrator are returned");
  else vf_check(status.ok() == (integrator.solved_until == at(t)), "The status is OK when the time requested is reached");
}

constexpr double length_tolerance = 0.5, speed_tolerance = 0.25;

VF_HARNESS(adaptive) {
  where[0] = v<Length, World>("body");
  A const push = v<Acceleration, World>("push");
  bool const pushed = vf_choose(2, "pushed");
  flow<Motion>([&](Sky& s, FakeAdaptive<Motion> const& integrator, DiscreteTrajectory<World>& trajectory, Instant const& t, std::int64_t steps) {
    Sky::IntrinsicAcceleration f;
    if (pushed) f = [&](Instant const& τ) { vf_check(τ == at(now), "time of the push"); return push; };
    return s.FlowWithAdaptiveStep(&trajectory, f, t, Sky::AdaptiveStepParameters(integrator, 17, length_tolerance * Metre, speed_tolerance * (Metre / Second)), steps);
  });
}

VF_HARNESS(general) {
  flow<GeneralMotion>([&](Sky& s, FakeAdaptive<GeneralMotion> const& integrator, DiscreteTrajectory<World>& trajectory, Instant const& t, std::int64_t steps) {
    return s.FlowWithAdaptiveStep(&trajectory, Sky::GeneralizedIntrinsicAcceleration(), t,
                                  Sky::GeneralizedAdaptiveStepParameters(integrator, 17, length_tolerance * Metre, speed_tolerance * (Metre / Second)), steps);
  });
}

// What is integrated, the accelerations being evaluated during the integration.
template<typename ODE>
class Evaluating : public FakeAdaptive<ODE> {
 public:
  std::function<void(Evaluating const&)> evaluate;
  class It : public FakeAdaptive<ODE>::It {
   public:
    using FakeAdaptive<ODE>::It::It;
    absl::Status Solve(Instant const& t) override {
      auto const& e = static_cast<Evaluating const&>(this->i_);
      e.evaluate(e);
      return FakeAdaptive<ODE>::It::Solve(t);
    }
  };
  not_null<std::unique_ptr<typename integrators::Integrator<ODE>::Instance>> NewInstance(
      equations::InitialValueProblem<ODE> const& p, typename integrators::Integrator<ODE>::AppendState const& a,
      typename FakeAdaptive<ODE>::Base::ToleranceToErrorRatio const& r, typename FakeAdaptive<ODE>::Base::Parameters const& q) const override {
    (void)FakeAdaptive<ODE>::NewInstance(p, a, r, q);
    return not_null<std::unique_ptr<typename integrators::Integrator<ODE>::Instance>>(std::make_unique<It>(*this, p, a, r, q));
  }
};

VF_HARNESS(ratio) {
  auto const s = heavens();
  lateness = 0;
  where[0] = v<Length, World>("body");
  Length const k = vf_real("k", 0.2, 2) * Metre;
  D const q = where[0] + D({k, 2 * k, 2 * k});
  V const w = v<Speed, World>("w");
  A const push = v<Acceleration, World>("push");
  int const pushed = vf_choose(2, "pushed");
  A const pull = -D({k, 2 * k, 2 * k}) * (2 * si::Unit<GravitationalParameter>) / (27 * k * k * k);
  DiscreteTrajectory<World> trajectory;
  trajectory.Append(at(1), {World::origin, V()}).IgnoreError();
  bool evaluated = false;
  auto const judge = [&](auto const& e, auto&& accelerate) {
    evaluated = true;
    std::vector<A> a{v<Acceleration, World>("old")};
    vf_check(accelerate(e, a).ok(), "There is no collision");
    eq(a[0], pushed ? pull + push : pull, "The acceleration is that of gravity and the intrinsic one");
    // The errors have known norms.
    auto error = typename std::remove_cvref_t<decltype(e)>::ODE::State::Error{};
    double worst[2] = {0, 0};
    for (int i = 0; i < 2; ++i) {
      double const l = vf_real("error", 0.1, 2), m = vf_real("error", 0.1, 2);
      if (3 * l > worst[0]) worst[0] = 3 * l;
      if (3 * m > worst[1]) worst[1] = 3 * m;
      error.position_error.push_back(D({l * Metre, -2 * l * Metre, 2 * l * Metre}));
      error.velocity_error.push_back(V({m * (Metre / Second), 2 * m * (Metre / Second), -2 * m * (Metre / Second)}));
    }
    double const l = length_tolerance / worst[0], m = speed_tolerance / worst[1];
    vf_near(e.ratio(1 * Second, typename std::remove_cvref_t<decltype(e)>::ODE::State{}, error),
            l < m ? l : m, 1e-9, "The ratio of the tolerance to the error");
    // The states are appended to the trajectory.
    e.append(typename std::remove_cvref_t<decltype(e)>::ODE::State(at(2), {World::origin + q}, {w}));
  };
  if (vf_choose(2, "general")) {
    Evaluating<GeneralMotion> integrator;
    integrator.evaluate = [&](auto const& e) {
      judge(e, [&](auto const& e, std::vector<A>& a) { return e.problem.equation.compute_acceleration(at(now), {World::origin + q}, {w}, a); });
    };
    Sky::GeneralizedIntrinsicAcceleration f;
    if (pushed) f = [&](Instant const& t, DegreesOfFreedom<World> const& dof) {
      vf_check(t == at(now), "The time of the intrinsic acceleration");
      eq(dof.position() - World::origin, q, "The position of the intrinsic acceleration");
      eq(dof.velocity(), w, "The velocity of the intrinsic acceleration");
      return push;
    };
    vf_check(s->FlowWithAdaptiveStep(&trajectory, f, at(4), Sky::GeneralizedAdaptiveStepParameters(integrator, 17, length_tolerance * Metre, speed_tolerance * (Metre / Second))).ok(), "status");
  } else {
    Evaluating<Motion> integrator;
    integrator.evaluate = [&](auto const& e) {
      judge(e, [&](auto const& e, std::vector<A>& a) { return e.problem.equation.compute_acceleration(at(now), {World::origin + q}, a); });
    };
    Sky::IntrinsicAcceleration f;
    if (pushed) f = [&](Instant const& t) {
      vf_check(t == at(now), "The time of the intrinsic acceleration");
      return push;
    };
    vf_check(s->FlowWithAdaptiveStep(&trajectory, f, at(4), Sky::AdaptiveStepParameters(integrator, 17, length_tolerance * Metre, speed_tolerance * (Metre / Second))).ok(), "status");
  }
  vf_check(evaluated, "The trajectory is integrated");
  vf_check(trajectory.size() == 2 && trajectory.back().time == at(2), "The states are appended");
  eq(trajectory.back().degrees_of_freedom.position() - World::origin, q, "The positions are appended");
  eq(trajectory.back().degrees_of_freedom.velocity(), w, "The velocities are appended");
}

VF_HARNESS(fixed) {
  auto const s = heavens();
  Recording<Motion> massless;
  FakeFixed const fixed(massless);
  DiscreteTrajectory<World> trajectory;
  double const start = vf_real("start", 0, 3);
  trajectory.Append(at(start), {World::origin, V()}).IgnoreError();
  int const kind = vf_choose(3, "status");
  int solved = 0;
  Instant until;
  massless.solve = [&](Instant const& t) {
    ++solved;
    until = t;
    vf_check(t <= last_time, "The integration stays within the ephemeris");
    return statuses[kind];
  };
  auto const instance = s->NewInstance({&trajectory}, Sky::NoIntrinsicAccelerations, Sky::FixedStepParameters(fixed, 3 * Second));
  vf_check(last_time >= at(start), "The start of the trajectory is covered by the ephemeris");
  bool const nothing = vf_choose(2, "nothing");
  double const t = nothing ? start : start + vf_real("duration", 0.01, 6);
  auto const status = s->FlowWithFixedStep(at(t), *instance);
  if (nothing) {
    vf_check(status.ok() && solved == 0, "There is nothing to do at the time of the instance");
  } else {
    vf_check(solved == 1 && until == at(t), "The instance is integrated to the time requested");
    vf_check(status.code() == statuses[kind].code(), "The status is that of the instance");
  }
}
