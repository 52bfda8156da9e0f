// The fixed-step integrators: times of the states, interruption, copy and
// serialization.
//@ entry fixed_steps mode=real split max-seconds=150
//@ entry fixed_resumed mode=real max-seconds=150
//@ entry symmetric_multistep_resumed mode=real max-seconds=150
//@ entry adams_bashforth_resumed mode=real max-seconds=150
//@ src $VERIF/rt/elementary.cc
//@ bound Fixed steps: 6 symplectic integrators (all compositions), steps in [1/4, 1], ends up to 3.75; interruption after 0 to 2 steps, or for the multistep methods anywhere among 8 (order 8) or 5 (Adams-Bashforth of order 3) points of the startup and after it.
//@ assume Real arithmetic instead of rounded floating point (so compensated summation is not observable); the coefficients have the precision that they have in the code.
#include "integrators.h"
#include "integrators/explicit_linear_multistep_integrator.hpp"
#include "integrators/explicit_runge_kutta_integrator.hpp"
#include "integrators/symmetric_linear_multistep_integrator.hpp"
#include "integrators/symplectic_runge_kutta_nyström_integrator.hpp"

namespace principia::geometry::_point::internal {
std::string DebugString(Instant const&) { return "an instant"; }
}
using namespace vf;
using namespace principia::integrators::_explicit_linear_multistep_integrator;
using namespace principia::integrators::_explicit_runge_kutta_integrator;
using namespace principia::integrators::_symplectic_runge_kutta_nyström_integrator;
namespace slms = principia::integrators::_symmetric_linear_multistep_integrator;

namespace {
FixedStepSizeIntegrator<Special> const& symplectic(std::int64_t const i) {
  using I = principia::serialization::FixedStepSizeIntegrator;
  switch (i) {
    case 0: return SymplecticRungeKuttaNyströmIntegrator<McLachlanAtela1992Order4Optimal, Special>();
    case 1: return SymplecticRungeKuttaNyströmIntegrator<BlanesMoan2002SRKN14A, Special>();
    case 2: return SymplecticRungeKuttaNyströmIntegrator<BlanesMoan2002SRKN6B, Special>();
    case 3: return SymplecticRungeKuttaNyströmIntegrator<Ruth1983, I::BA, Special>();
    case 4: return SymplecticRungeKuttaNyströmIntegrator<McLachlan1995SS5, I::ABA, Special>();
    default: return SymplecticRungeKuttaNyströmIntegrator<McLachlan1995SS5, I::BAB, Special>();
  }
}
}  // namespace

// The states are at multiples of the step, up to the end.
VF_HARNESS(fixed_steps) {
  SecondOrderSystem const system(false, 2, 2);
  bool const backward = vf_choose(2, "backward");
  double const h = backward ? -vf_real("h", 0.25, 1) : vf_real("h", 0.25, 1);
  double const T = vf_real("T", 0.125, 1.875) * (backward ? -1 : 1);
  auto const times = [&](std::vector<double> const& ends) {
    // The expected number of steps, separating the cases.
    std::vector<int> result;
    for (double const end : ends) {
      int n = 0;
      while (backward ? (n + 1) * h >= end : (n + 1) * h <= end) ++n;
      result.push_back(n);
    }
    return result;
  };
  std::vector<int> const expected = times({T, 2 * T});
  std::vector<State> states;
  auto const append = [&](State const& state) { states.push_back(state); };
  auto const& integrator = symplectic(vf_choose(6, "integrator"));
  auto const instance = integrator.NewInstance({system.equation(), system.initial()}, append, h * si::Unit<Time>);
  vf_check(instance->Solve(system.t0 + T * si::Unit<Time>).ok(), "status");
  vf_check(states.size() == expected[0], "steps");
  for (int i = 0; i < states.size(); ++i) SecondOrderSystem::near(states[i].time.value - system.t0, (i + 1) * h, "time");
  SecondOrderSystem::near(instance->time().value - system.t0, expected[0] * h, "time of the instance");
  vf_check(instance->state().time == instance->time(), "state of the instance");
  vf_check(instance->Solve(system.t0 + 2 * T * si::Unit<Time>).ok(), "second status");
  vf_check(states.size() == expected[1], "more steps");
  for (int i = expected[0]; i < states.size(); ++i) SecondOrderSystem::near(states[i].time.value - system.t0, (i + 1) * h, "later time");
}

// Interrupted, copied, or written and read.
VF_HARNESS(fixed_resumed) {
  SecondOrderSystem const system(false, 2, 3);
  double const h = vf_choose(2, "backward") == 0 ? vf_real("h", 0.125, 1) : -vf_real("h", 0.125, 1);
  std::vector<State> states;
  auto const append = [&](State const& state) { states.push_back(state); };
  auto const& integrator = symplectic(vf_choose(6, "integrator"));
  auto const instance = integrator.NewInstance({system.equation(), system.initial()}, append, h * si::Unit<Time>);
  int const reached = vf_choose(3, "reached");
  double const ends[] = {0.25, 1.0625, 2.5};
  vf_check(instance->Solve(system.t0 + ends[reached] * h * si::Unit<Time>).ok(), "status");
  vf_check(states.size() == reached, "steps before the interruption");
  State const interrupted = instance->state();
  auto const check = [&](std::vector<State> const& states) {
    vf_check(states.size() == 4, "steps");
    for (int i = 0; i < states.size(); ++i) {
      system.check(states[i], (i + 1) * h, 2);
      // All the methods have the same velocity whatever the interruption.
    }
  };
  std::vector<State> more;
  auto const append_more = [&](State const& state) { more.push_back(state); };
  Instant const end = system.t0 + 4.5 * h * si::Unit<Time>;
  switch (vf_choose(2, "how")) {
    case 0: {
      auto const clone = instance->Clone();
      vf_check(&dynamic_cast<FixedStepSizeIntegrator<Special>::Instance const&>(*clone).integrator() == &integrator, "integrator of the copy");
      vf_check(clone->Solve(end).ok(), "status of the copy");
      check(states);
      vf_check(instance->state() == interrupted, "original state");
      vf_check(clone->state() == states.back(), "state of the copy");
      auto const copied = states;
      states.resize(reached);
      vf_check(instance->Solve(end).ok(), "status of the original");
      check(states);
      for (int i = 0; i < 4; ++i) vf_check(states[i] == copied[i], "same states");
      break;
    }
    case 1: {
      principia::serialization::IntegratorInstance message;
      instance->WriteToMessage(&message);
      auto const read = FixedStepSizeIntegrator<Special>::Instance::ReadFromMessage(message, system.equation(), append_more);
      auto const& fixed = dynamic_cast<FixedStepSizeIntegrator<Special>::Instance const&>(*read);
      vf_check(&fixed.integrator() == &integrator, "integrator read");
      vf_near(fixed.step() / si::Unit<Time>, h, 1e-9, "step read");
      vf_check(read->state() == interrupted, "state read");
      vf_check(read->Solve(end).ok(), "status of the instance read");
      vf_check(states.size() == reached, "no effect on the instance written");
      vf_check(instance->Solve(end).ok(), "status of the original");
      check(states);
      vf_check(more.size() == 4 - reached, "steps of the instance read");
      for (int i = reached; i < 4; ++i) vf_check(states[i] == more[i - reached], "same states as the instance read");
      break;
    }
  }
}

// Interrupted, copied, or written and read, anywhere.
VF_HARNESS(symmetric_multistep_resumed) {
  using Method = Quinlan1999Order8A;
  SecondOrderSystem const system(false, 2, 3);
  double const h = vf_real("h", 0.125, 0.25);
  std::vector<State> states;
  auto const append = [&](State const& state) { states.push_back(state); };
  auto const instance = slms::SymmetricLinearMultistepIntegrator<Method, Special>().NewInstance({system.equation(), system.initial()}, append, h * si::Unit<Time>);
  // The steps at which to interrupt.
  double const interruptions[] = {0.28125, 1.28125, 3.03125, 6.53125, 7.03125, 7.28125, 8.03125, 9.28125};
  double const end = interruptions[vf_choose(8, "interruption")];
  vf_check(instance->Solve(system.t0 + end * h * si::Unit<Time>).ok(), "status");
  int const reached = end;
  vf_check(states.size() == reached, "steps before the interruption");
  // When starting, there are more states.
  double const at = end < 7 ? static_cast<int>(end * 16) / 16.0 : reached;
  State const interrupted = instance->state();
  system.check(interrupted, at * h, 3);

  std::vector<State> more;
  auto const append_more = [&](State const& state) { more.push_back(state); };
  int const last = vf_choose(2, "last") == 0 ? 8 : 10;
  vf_assume(last > reached);
  switch (vf_choose(3, "how")) {
    case 0: {
      vf_check(instance->Solve(system.t0 + (last + 0.5) * h * si::Unit<Time>).ok(), "second status");
      more.assign(states.begin() + reached, states.end());
      break;
    }
    case 1: {
      auto const clone = instance->Clone();
      vf_check(&dynamic_cast<FixedStepSizeIntegrator<Special>::Instance const&>(*clone).integrator() == &slms::SymmetricLinearMultistepIntegrator<Method, Special>(), "integrator of the copy");
      vf_check(clone->Solve(system.t0 + (last + 0.5) * h * si::Unit<Time>).ok(), "status of the copy");
      more.assign(states.begin() + reached, states.end());
      // The original is unaffected, and may go on.
      vf_check(instance->state() == interrupted, "original state");
      system.check(clone->state(), last * h, 3);
      states.resize(reached);
      vf_check(instance->Solve(system.t0 + (last + 0.5) * h * si::Unit<Time>).ok(), "status of the original");
      vf_check(states.size() == last, "steps of the original");
      for (int i = 0; i < states.size(); ++i) system.check(states[i], (i + 1) * h, 3);
      break;
    }
    case 2: {
      principia::serialization::IntegratorInstance message;
      instance->WriteToMessage(&message);
      auto const read = FixedStepSizeIntegrator<Special>::Instance::ReadFromMessage(message, system.equation(), append_more);
      auto const& fixed = dynamic_cast<FixedStepSizeIntegrator<Special>::Instance const&>(*read);
      vf_check(&fixed.integrator() == &slms::SymmetricLinearMultistepIntegrator<Method, Special>(), "integrator read");
      vf_near(fixed.step() / si::Unit<Time>, h, 1e-9, "step read");
      vf_check(read->state() == interrupted, "state read");
      vf_check(read->Solve(system.t0 + (last + 0.5) * h * si::Unit<Time>).ok(), "status of the instance read");
      vf_check(states.size() == reached, "no effect on the instance written");
      break;
    }
  }
  vf_check(more.size() == last - reached, "steps after the interruption");
  for (int i = 0; i < more.size(); ++i) system.check(more[i], (reached + i + 1) * h, 3);
}

VF_HARNESS(adams_bashforth_resumed) {
  using ODE = ExplicitFirstOrderOrdinaryDifferentialEquation<Instant, Length>;
  using Method = AdamsBashforthOrder3;
  Instant const t0 = Instant() + vf_real("t0", -10, 10) * si::Unit<Time>;
  double const y0 = vf_real("y0", -10, 10);
  double const h = vf_real("h", 0.125, 0.5);
  // y = t + t².
  ODE equation;
  equation.compute_derivative = [&](Instant const& t, ODE::DependentVariables const& y, ODE::DependentVariableDerivatives& yʹ) {
    yʹ = ODE::DependentVariableDerivatives((1 + 2 * (t - t0) / si::Unit<Time>) * si::Unit<Speed>);
    return absl::OkStatus();
  };
  auto const check = [&](ODE::State const& state, double const at) {
    vf_near((state.s.value - t0) / si::Unit<Time>, at, 1e-9, "time");
    for_all_of(state.y).loop([&](DoublePrecision<Length> const& l) { vf_near(l.value / si::Unit<Length> - y0, at + at * at, 1e-9, "value"); });
  };
  std::vector<ODE::State> states;
  auto const append = [&](ODE::State const& state) { states.push_back(state); };
  auto const instance = ExplicitLinearMultistepIntegrator<Method, ODE>().NewInstance({equation, ODE::State(t0, ODE::DependentVariables(y0 * si::Unit<Length>))}, append, h * si::Unit<Time>);
  double const interruptions[] = {0.28125, 1.28125, 1.78125, 2.53125, 3.28125};
  double const end = interruptions[vf_choose(5, "interruption")];
  int const reached = end;
  vf_check(instance->Solve(t0 + end * h * si::Unit<Time>).ok(), "status");
  vf_check(states.size() == reached, "steps before the interruption");
  double const at = end < 2 ? static_cast<int>(end * 16) / 16.0 : reached;
  check(instance->state(), at * h);
  auto const check_all = [&] {
    vf_check(states.size() == 5, "steps");
    for (int i = 0; i < 5; ++i) check(states[i], (i + 1) * h);
  };
  if (vf_choose(2, "how") == 0) {
    vf_check(instance->Solve(t0 + 5.5 * h * si::Unit<Time>).ok(), "second status");
    check_all();
  } else {
    auto const clone = instance->Clone();
    vf_check(clone->Solve(t0 + 5.5 * h * si::Unit<Time>).ok(), "status of the copy");
    check_all();
    check(clone->state(), 5 * h);
    check(instance->state(), at * h);
    states.resize(reached);
    vf_check(instance->Solve(t0 + 5.5 * h * si::Unit<Time>).ok(), "status of the original");
    check_all();
  }
}
