// The adaptive integrators: choice of the steps, end of the integration,
// statuses, copy and serialization.
//@ entry adaptive_control mode=real split max-seconds=200
//@ entry adaptive_resumed mode=real split max-seconds=200
//@ entry adaptive_errors mode=real max-seconds=150
//@ entry integrators_read mode=real max-seconds=150
//@ src $VERIF/rt/elementary.cc
//@ bound Adaptive integrators of the 3 families, with a uniformly accelerated motion: up to 4 attempts, each with one of 4 outcomes, steps in [1/4, 1], ends up to 3, both directions, exact or inexact end, at most 1, 2 or unlimited steps; safety factor 1/2.  The end is at least 0.01 from the steps.
//@ assume Real arithmetic instead of rounded floating point (so compensated summation is not observable); the coefficients have the precision that they have in the code.
#include "integrators.h"
#include "integrators/embedded_explicit_generalized_runge_kutta_nyström_integrator.hpp"
#include "integrators/embedded_explicit_runge_kutta_integrator.hpp"
#include "integrators/embedded_explicit_runge_kutta_nyström_integrator.hpp"
#include "integrators/symmetric_linear_multistep_integrator.hpp"
#include "integrators/symplectic_runge_kutta_nyström_integrator.hpp"

namespace principia::geometry::_point::internal {
std::string DebugString(Instant const&) { return "an instant"; }
}
using namespace vf;
using namespace principia::integrators::_embedded_explicit_generalized_runge_kutta_nyström_integrator;
using namespace principia::integrators::_embedded_explicit_runge_kutta_integrator;
using namespace principia::integrators::_embedded_explicit_runge_kutta_nyström_integrator;
using namespace principia::integrators::_symmetric_linear_multistep_integrator;
using namespace principia::integrators::_symplectic_runge_kutta_nyström_integrator;

namespace {
using FirstOrder = ExplicitFirstOrderOrdinaryDifferentialEquation<Instant, Length, Speed>;

// The motion q = q0 + v0 t + a t² / 2, for all the kinds of equations.
struct Motion {
  Instant t0;
  double q0, v0, a;
  // The status to return by the nth evaluation.
  std::function<absl::Status()> status = [] { return absl::OkStatus(); };
  Motion() : t0(Instant() + vf_real("t0", -10, 10) * si::Unit<Time>), q0(vf_real("q0", -10, 10)), v0(vf_real("v0", -10, 10)), a(vf_real("a", -10, 10)) {}
  template<typename ODE>
  ODE equation() const {
    ODE result;
    if constexpr (std::is_same_v<ODE, FirstOrder>) {
      result.compute_derivative = [this](Instant const& t, typename ODE::DependentVariables const& y, typename ODE::DependentVariableDerivatives& yʹ) {
        Speed v;
        int i = 0;
        for_all_of(y).loop([&](auto const& component) {
          if constexpr (std::is_same_v<std::decay_t<decltype(component)>, Speed>) v = component;
        });
        for_all_of(yʹ).loop([&](auto& component) {
          if constexpr (std::is_same_v<std::decay_t<decltype(component)>, Speed>) component = v;
          else component = a * si::Unit<Acceleration>;
        });
        return status();
      };
    } else if constexpr (std::is_same_v<ODE, Special>) {
      result.compute_acceleration = [this](Instant const& t, std::vector<Length> const& q, std::vector<Acceleration>& g) {
        g[0] = a * si::Unit<Acceleration>;
        return status();
      };
    } else {
      result.compute_acceleration = [this](Instant const& t, std::vector<Length> const& q, std::vector<Speed> const& v, std::vector<Acceleration>& g) {
        g[0] = a * si::Unit<Acceleration>;
        return status();
      };
    }
    return result;
  }
  template<typename ODE>
  typename ODE::State initial() const {
    if constexpr (std::is_same_v<ODE, FirstOrder>) {
      return typename ODE::State(t0, typename ODE::DependentVariables(q0 * si::Unit<Length>, v0 * si::Unit<Speed>));
    } else {
      return typename ODE::State(t0, {q0 * si::Unit<Length>}, {v0 * si::Unit<Speed>});
    }
  }
  template<typename State>
  void check(State const& state, double const at, char const* const id) const {
    double q, v;
    Instant t;
    if constexpr (std::is_same_v<State, FirstOrder::State>) {
      t = state.s.value;
      for_all_of(state.y).loop([&](auto const& component) {
        if constexpr (std::is_same_v<std::decay_t<decltype(component.value)>, Speed>) v = component.value / si::Unit<Speed>;
        else q = component.value / si::Unit<Length>;
      });
    } else {
      t = state.time.value;
      q = state.positions[0].value / si::Unit<Length>;
      v = state.velocities[0].value / si::Unit<Speed>;
    }
    vf_near((t - t0) / si::Unit<Time>, at, 1e-9, id);
    vf_near(q, q0 + v0 * at + a * at * at / 2, 1e-9, id);
    vf_near(v, v0 + a * at, 1e-9, id);
  }
};

template<typename Check>
void integrators(Check const check) {
  switch (vf_choose(3, "integrator")) {
    case 0: check(EmbeddedExplicitRungeKuttaNyströmIntegrator<DormandالمكاوىPrince1986RKN434FM, Special>(), 3); break;
    case 1: check(EmbeddedExplicitGeneralizedRungeKuttaNyströmIntegrator<Fine1987RKNG45, Explicit>(), 4); break;
    case 2: check(EmbeddedExplicitRungeKuttaIntegrator<DormandPrince1986RK547FC, FirstOrder>(), 4); break;
  }
}

// 2ˣ to the power n.
double power(int const x, int const n) {
  double p = 1;
  for (int i = 0; i < x * n; ++i) p *= 2;
  for (int i = 0; i < -x * n; ++i) p /= 2;
  return p;
}

constexpr std::int64_t many = std::numeric_limits<std::int64_t>::max();
}  // namespace

// All the outcomes of the control of the step.
VF_HARNESS(adaptive_control) {
  Motion const motion;
  integrators([&](auto const& integrator, int const lower_order) {
    using ODE = std::decay_t<decltype(integrator)>::ODE;
    using State = ODE::State;
    double const direction = vf_choose(2, "backward") == 0 ? 1 : -1;
    double const h0 = direction * vf_real("h", 0.25, 1);
    double const T = direction * vf_real("T", 0.125, 3);
    bool const exact = vf_choose(2, "exact") == 1;
    std::int64_t const max_steps = vf_choose(2, "limited") == 0 ? many : 1 + vf_choose(2, "max_steps");

    // The expected state of the integrator.
    double t = 0, h = h0;
    std::vector<double> expected;
    bool over = false, limited = false;
    int calls = 0;
    auto const clip = [&] {
      // Stay clear of exact equality.
      vf_assume(direction * (t + h - T) >= 0.01 || direction * (t + h - T) <= -0.01);
      if (exact && direction * (t + h - T) > 0) {
        h = T - t;
        return true;
      }
      return false;
    };
    bool at_end = clip();
    auto const ratio = [&](Time const& step, State const& state, State::Error const& error) {
      vf_check(!over && !limited, "goes on");
      vf_assume(++calls <= 4);
      motion.check(state, t, "state before the step");
      vf_near(step / si::Unit<Time>, h, 1e-9, "step");
      // The step is multiplied by 1/4, 1/2, 1 or 2.
      int const x = vf_choose(4, "ratio") - 1;
      double const factor = power(x, 1) / 2;
      if (x < 0) {
        h *= factor;
        at_end = clip();
      } else if (!exact && direction * (t + h - T) > 0) {
        over = true;
      } else {
        t += h;
        expected.push_back(t);
        over = at_end;
        limited = expected.size() == max_steps && !at_end;
        h *= factor;
        if (!over && !limited) at_end = clip();
      }
      return power(x, lower_order + 1);
    };
    std::vector<State> states;
    typename AdaptiveStepSizeIntegrator<ODE>::Parameters const parameters(h0 * si::Unit<Time>, /*safety_factor=*/0.5, max_steps, exact);
    auto const instance = integrator.NewInstance({motion.equation<ODE>(), motion.initial<ODE>()}, [&](State const& state) { states.push_back(state); }, ratio, parameters);
    auto const status = instance->Solve(motion.t0 + T * si::Unit<Time>);
    vf_check(over || limited, "end");
    vf_check(status.code() == (limited ? termination_condition::ReachedMaximalStepCount : termination_condition::Done), "status");
    vf_check(states.size() == expected.size(), "states");
    for (int i = 0; i < states.size(); ++i) motion.check(states[i], expected[i], "state");
    // The current state is that before the truncated step.
    int const last = exact && !limited ? expected.size() - 2 : expected.size() - 1;
    motion.check(instance->state(), last < 0 ? 0 : expected[last], "last state");
  });
}

// Interrupted by the end or the number of steps; copied, written and read.
VF_HARNESS(adaptive_resumed) {
  Motion const motion;
  integrators([&](auto const& integrator, int const lower_order) {
    using ODE = std::decay_t<decltype(integrator)>::ODE;
    using State = ODE::State;
    double const direction = vf_choose(2, "backward") == 0 ? 1 : -1;
    double const h0 = direction * vf_real("h", 0.25, 1);
    Time const unit = si::Unit<Time>;
    int const max_steps = 2;
    // The steps are h, then h/4, since steps of h are rejected after the first.
    int const n = lower_order + 1;
    auto const ratio = [&](Time const& step, State const& state, State::Error const& error) -> double {
      double const s = step / unit / h0;
      Instant t;
      if constexpr (std::is_same_v<ODE, FirstOrder>) t = state.s.value; else t = state.time.value;
      double const at = (t - motion.t0) / unit / h0;
      // Rejecting divides the step by 4.
      return at > 0.25 && s > 0.75 ? power(-1, n) : power(1, n);
    };
    double const expected[] = {1, 1.25, 1.5, 1.75, 2.0};
    typename AdaptiveStepSizeIntegrator<ODE>::Parameters const parameters(h0 * unit, /*safety_factor=*/0.5, max_steps, /*last_step_is_exact=*/false);
    std::vector<State> states;
    auto const append = [&](State const& state) { states.push_back(state); };
    auto const instance = integrator.NewInstance({motion.equation<ODE>(), motion.initial<ODE>()}, append, ratio, parameters);
    auto const solve = [&](auto& instance, double const end) { return instance.Solve(motion.t0 + end * h0 * unit).code(); };
    bool const by_steps = vf_choose(2, "by_steps") == 1;
    vf_check(solve(*instance, by_steps ? 10 : 1.125) == (by_steps ? termination_condition::ReachedMaximalStepCount : termination_condition::Done), "status");
    int const reached = by_steps ? 2 : 1;
    vf_check(states.size() == reached, "steps before the interruption");
    State const interrupted = instance->state();
    motion.check(interrupted, expected[reached - 1] * h0, "state when interrupted");
    auto const check = [&](std::vector<State> const& states) {
      vf_check(states.size() == reached + 2, "steps");
      for (int i = 0; i < states.size(); ++i) motion.check(states[i], expected[i] * h0, "state");
    };
    switch (vf_choose(3, "how")) {
      case 0: break;
      case 1: {
        auto const clone = instance->Clone();
        vf_check(&dynamic_cast<AdaptiveStepSizeIntegrator<ODE>::Instance const&>(*clone).integrator() == &integrator, "integrator of the copy");
        vf_check(solve(*clone, 10) == termination_condition::ReachedMaximalStepCount, "status of the copy");
        check(states);
        vf_check(instance->state() == interrupted, "original state");
        states.resize(reached);
        break;
      }
      case 2: {
        if constexpr (!std::is_same_v<ODE, FirstOrder>) {
          principia::serialization::IntegratorInstance message;
          instance->WriteToMessage(&message);
          std::vector<State> more = states;
          auto const read = AdaptiveStepSizeIntegrator<ODE>::Instance::ReadFromMessage(message, motion.equation<ODE>(), [&](State const& state) { more.push_back(state); }, ratio);
          vf_check(&dynamic_cast<AdaptiveStepSizeIntegrator<ODE>::Instance const&>(*read).integrator() == &integrator, "integrator read");
          vf_check(read->state() == interrupted, "state read");
          vf_check(solve(*read, 10) == termination_condition::ReachedMaximalStepCount, "status of the instance read");
          check(more);
          vf_check(states.size() == reached, "no effect on the instance written");
          auto const parameters_read = AdaptiveStepSizeIntegrator<ODE>::Parameters::ReadFromMessage(message.GetExtension(principia::serialization::AdaptiveStepSizeIntegratorInstance::extension).parameters());
          vf_check(parameters_read.first_step == parameters.first_step && parameters_read.safety_factor == 0.5 && parameters_read.max_steps == 2 && !parameters_read.last_step_is_exact, "parameters read");
        }
        break;
      }
    }
    vf_check(solve(*instance, 10) == termination_condition::ReachedMaximalStepCount, "second status");
    check(states);
  });
}

// Errors of the right-hand side, and steps that vanish.
VF_HARNESS(adaptive_errors) {
  Motion motion;
  integrators([&](auto const& integrator, int const lower_order) {
    using ODE = std::decay_t<decltype(integrator)>::ODE;
    using State = ODE::State;
    double const h = vf_real("h", 0.25, 1);
    // A step of h, rejected; steps of h/4, h/2, and 3/8 h.
    int attempt = 0;
    int const failing = vf_choose(5, "failing");
    bool const vanishing = vf_choose(2, "vanishing") == 1;
    motion.status = [&] { return attempt == failing ? absl::OutOfRangeError("out of range") : absl::OkStatus(); };
    auto const ratio = [&](Time const&, State const&, State::Error const&) -> double {
      int const n = lower_order + 1;
      ++attempt;
      return attempt == 1 ? power(-1, n) : attempt == 2 ? power(2, n) : vanishing ? 0.0 : power(1, n);
    };
    std::vector<State> states;
    typename AdaptiveStepSizeIntegrator<ODE>::Parameters const parameters(h * si::Unit<Time>, /*safety_factor=*/0.5);
    auto const instance = integrator.NewInstance({motion.equation<ODE>(), motion.initial<ODE>()}, [&](State const& state) { states.push_back(state); }, ratio, parameters);
    auto const status = instance->Solve(motion.t0 + 1.125 * h * si::Unit<Time>);
    if (vanishing) {
      vf_check(states.size() == 1, "steps until the vanishing one");
      vf_check(status.code() == termination_condition::VanishingStepSize, "vanishing step");
      motion.check(instance->state(), 0.25 * h, "state before the vanishing step");
    } else {
      vf_check(states.size() == 3 && attempt == 4, "steps");
      // The evaluations of the rejected step do not count.
      if (failing == 0) {
        // Except if its first evaluation is reused.
        vf_check(status.ok() || std::is_same_v<ODE, FirstOrder>, "rejected step");
      } else {
        vf_check(status.code() == (failing < 4 ? absl::StatusCode::kOutOfRange : absl::StatusCode::kOk), "error in a step");
      }
    }
  });
}

// Every integrator is the one that its description designates.
namespace {
template<typename I>
void fixed_read(I const& integrator, std::string const& name) {
  FixedStepSizeIntegrator<Special> const& expected = integrator;
  principia::serialization::FixedStepSizeIntegrator message;
  expected.WriteToMessage(&message);
  vf_check(&FixedStepSizeIntegrator<Special>::ReadFromMessage(message) == &expected, "fixed integrator read");
  vf_check(&ParseFixedStepSizeIntegrator<Special>(name) == &expected, "fixed integrator parsed");
}
template<typename ODE, typename I>
void adaptive_read(I const& integrator, std::string const& name) {
  AdaptiveStepSizeIntegrator<ODE> const& expected = integrator;
  principia::serialization::AdaptiveStepSizeIntegrator message;
  expected.WriteToMessage(&message);
  vf_check(&AdaptiveStepSizeIntegrator<ODE>::ReadFromMessage(message) == &expected, "adaptive integrator read");
  vf_check(&ParseAdaptiveStepSizeIntegrator<ODE>(name) == &expected, "adaptive integrator parsed");
}
}  // namespace

VF_HARNESS(integrators_read) {
  using I = principia::serialization::FixedStepSizeIntegrator;
  adaptive_read<Special>(EmbeddedExplicitRungeKuttaNyströmIntegrator<DormandالمكاوىPrince1986RKN434FM, Special>(), "DORMAND_ELMIKKAWY_PRINCE_1986_RKN_434FM");
  adaptive_read<Explicit>(EmbeddedExplicitGeneralizedRungeKuttaNyströmIntegrator<Fine1987RKNG34, Explicit>(), "FINE_1987_RKNG_34");
  adaptive_read<Explicit>(EmbeddedExplicitGeneralizedRungeKuttaNyströmIntegrator<Fine1987RKNG45, Explicit>(), "FINE_1987_RKNG_45");
  fixed_read(SymplecticRungeKuttaNyströmIntegrator<BlanesMoan2002SRKN6B, Special>(), "BLANES_MOAN_2002_SRKN_6B");
  fixed_read(SymplecticRungeKuttaNyströmIntegrator<BlanesMoan2002SRKN11B, Special>(), "BLANES_MOAN_2002_SRKN_11B");
  fixed_read(SymplecticRungeKuttaNyströmIntegrator<BlanesMoan2002SRKN14A, Special>(), "BLANES_MOAN_2002_SRKN_14A");
  fixed_read(SymplecticRungeKuttaNyströmIntegrator<McLachlan1995SB3A4, Special>(), "MCLACHLAN_1995_SB3A_4");
  fixed_read(SymplecticRungeKuttaNyströmIntegrator<McLachlan1995SB3A5, Special>(), "MCLACHLAN_1995_SB3A_5");
  fixed_read(SymplecticRungeKuttaNyströmIntegrator<McLachlanAtela1992Order4Optimal, Special>(), "MCLACHLAN_ATELA_1992_ORDER_4_OPTIMAL");
  fixed_read(SymplecticRungeKuttaNyströmIntegrator<McLachlanAtela1992Order5Optimal, Special>(), "MCLACHLAN_ATELA_1992_ORDER_5_OPTIMAL");
  fixed_read(SymplecticRungeKuttaNyströmIntegrator<OkunborSkeel1994Order6Method13, Special>(), "OKUNBOR_SKEEL_1994_ORDER_6_METHOD_13");
  fixed_read(SymmetricLinearMultistepIntegrator<Quinlan1999Order8A, Special>(), "QUINLAN_1999_ORDER_8A");
  fixed_read(SymmetricLinearMultistepIntegrator<Quinlan1999Order8B, Special>(), "QUINLAN_1999_ORDER_8B");
  fixed_read(SymmetricLinearMultistepIntegrator<QuinlanTremaine1990Order8, Special>(), "QUINLAN_TREMAINE_1990_ORDER_8");
  fixed_read(SymmetricLinearMultistepIntegrator<QuinlanTremaine1990Order10, Special>(), "QUINLAN_TREMAINE_1990_ORDER_10");
  fixed_read(SymmetricLinearMultistepIntegrator<QuinlanTremaine1990Order12, Special>(), "QUINLAN_TREMAINE_1990_ORDER_12");
  fixed_read(SymmetricLinearMultistepIntegrator<QuinlanTremaine1990Order14, Special>(), "QUINLAN_TREMAINE_1990_ORDER_14");
}
