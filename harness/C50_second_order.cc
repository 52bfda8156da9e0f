// The order conditions of the methods for second-order equations.
//@ entry nyström_order mode=real max-seconds=100
//@ entry generalized_order mode=real max-seconds=150
//@ entry symplectic_nyström_order mode=real max-seconds=150
//@ entry symplectic_partitioned_order mode=real max-seconds=150
//@ src $VERIF/rt/elementary.cc
//@ bound All the trees of the order conditions of the 34 methods (up to weight 9 for the methods of order 8), powers of the time up to the order, 2 or 3 steps, absolute value of the step in [1/4, 1] (by homogeneity the results do not depend on it), forward and backward, origins in [-10, 10].
//@ assume Real arithmetic instead of rounded floating point (so compensated summation is not observable); the coefficients have the precision that they have in the code.
#include "integrators.h"
#include "integrators/embedded_explicit_generalized_runge_kutta_nyström_integrator.hpp"
#include "integrators/embedded_explicit_runge_kutta_nyström_integrator.hpp"
#include "integrators/symplectic_runge_kutta_nyström_integrator.hpp"

namespace principia::geometry::_point::internal {
std::string DebugString(Instant const&) { return "an instant"; }
}
using namespace vf;
using namespace principia::integrators::_embedded_explicit_generalized_runge_kutta_nyström_integrator;
using namespace principia::integrators::_embedded_explicit_runge_kutta_nyström_integrator;
using namespace principia::integrators::_symplectic_runge_kutta_nyström_integrator;

namespace {
double signed_step() {
  double const h = vf_real("h", 0.25, 1);
  return vf_choose(2, "backward") == 0 ? h : -h;
}

template<typename Integrator, typename ODE>
void adaptive(Integrator const& integrator, int const higher, int const lower, bool const general) {
  SecondOrderSystem const system(general, higher + 1);
  double const h = signed_step();
  ODE equation;
  if constexpr (std::is_same_v<ODE, Special>) {
    equation.compute_acceleration = [&](Instant const& t, std::vector<Length> const& q, std::vector<Acceleration>& g) {
      return system.acceleration(t, q, nullptr, g);
    };
  } else {
    equation.compute_acceleration = [&](Instant const& t, std::vector<Length> const& q, std::vector<Speed> const& v, std::vector<Acceleration>& g) {
      return system.acceleration(t, q, &v, g);
    };
  }
  // Three steps: h, h/2, and h/2 truncated to 3/8 h.
  std::vector<State> states;
  int calls = 0;
  auto const ratio = [&](Time const& step, State const& state, typename State::Error const& error) {
    double const start = calls == 0 ? 0 : calls == 1 ? h : 1.5 * h;
    SecondOrderSystem::near(step, calls == 0 ? h : calls == 1 ? h / 2 : 0.375 * h, "step");
    SecondOrderSystem::near(state.time.value - system.t0, start, "state before the step");
    // When all that precedes is exact, so is the error estimate.
    for (int i = 0; i < system.dimension(); ++i) {
      int const w = system.weight(i);
      if (w <= lower) vf_near(error.position_error[i] / si::Unit<Length>, 0, 1e-9, "position error");
      if (w <= lower + 1) vf_near(error.velocity_error[i] / si::Unit<Speed>, 0, 1e-9, "velocity error");
    }
    ++calls;
    double ratio = 1;
    if (calls > 1) for (int i = 0; i < lower + 1; ++i) ratio *= 2;
    return ratio;
  };
  typename AdaptiveStepSizeIntegrator<ODE>::Parameters const parameters(h * si::Unit<Time>, /*safety_factor=*/0.5, 10, /*last_step_is_exact=*/true);
  auto const instance = integrator.NewInstance({equation, system.initial()}, [&](State const& state) { states.push_back(state); }, ratio, parameters);
  vf_check(instance->Solve(system.t0 + 1.875 * h * si::Unit<Time>).ok(), "status");
  vf_check(states.size() == 3 && calls == 3, "steps");
  system.check(states[0], h, higher);
  system.check(states[1], 1.5 * h, higher);
  system.check(states[2], 1.875 * h, higher);
}

template<typename Integrator>
void fixed(Integrator const& integrator, int const order) {
  SecondOrderSystem const system(false, order + 1);
  double const h = signed_step();
  Special equation;
  equation.compute_acceleration = [&](Instant const& t, std::vector<Length> const& q, std::vector<Acceleration>& g) {
    return system.acceleration(t, q, nullptr, g);
  };
  std::vector<State> states;
  auto const instance = integrator.NewInstance({equation, system.initial()}, [&](State const& state) { states.push_back(state); }, h * si::Unit<Time>);
  vf_check(instance->Solve(system.t0 + 2.5 * h * si::Unit<Time>).ok(), "status");
  vf_check(states.size() == 2, "steps");
  system.check(states[0], h, order);
  system.check(states[1], 2 * h, order);
}

template<typename Method>
void srkn() { fixed(SymplecticRungeKuttaNyströmIntegrator<Method, Special>(), Method::order); }
template<typename Method>
void sprk() {
  if constexpr (Method::first_same_as_last) {
    if (vf_choose(2, "ABA") == 0) fixed(SymplecticRungeKuttaNyströmIntegrator<Method, principia::serialization::FixedStepSizeIntegrator::ABA, Special>(), Method::order);
    else fixed(SymplecticRungeKuttaNyströmIntegrator<Method, principia::serialization::FixedStepSizeIntegrator::BAB, Special>(), Method::order);
  } else {
    fixed(SymplecticRungeKuttaNyströmIntegrator<Method, principia::serialization::FixedStepSizeIntegrator::BA, Special>(), Method::order);
  }
}
}  // namespace

VF_HARNESS(nyström_order) {
  switch (vf_choose(3, "method")) {
    case 0: adaptive<decltype(EmbeddedExplicitRungeKuttaNyströmIntegrator<DormandالمكاوىPrince1986RKN434FM, Special>()), Special>(EmbeddedExplicitRungeKuttaNyströmIntegrator<DormandالمكاوىPrince1986RKN434FM, Special>(), 4, 3, false); break;
    case 1: adaptive<decltype(EmbeddedExplicitRungeKuttaNyströmIntegrator<Fine1987RKNG34, Special>()), Special>(EmbeddedExplicitRungeKuttaNyströmIntegrator<Fine1987RKNG34, Special>(), 4, 3, false); break;
    case 2: adaptive<decltype(EmbeddedExplicitRungeKuttaNyströmIntegrator<Fine1987RKNG45, Special>()), Special>(EmbeddedExplicitRungeKuttaNyströmIntegrator<Fine1987RKNG45, Special>(), 5, 4, false); break;
  }
}

VF_HARNESS(generalized_order) {
  switch (vf_choose(2, "method")) {
    case 0: adaptive<decltype(EmbeddedExplicitGeneralizedRungeKuttaNyströmIntegrator<Fine1987RKNG34, Explicit>()), Explicit>(EmbeddedExplicitGeneralizedRungeKuttaNyströmIntegrator<Fine1987RKNG34, Explicit>(), 4, 3, true); break;
    case 1: adaptive<decltype(EmbeddedExplicitGeneralizedRungeKuttaNyströmIntegrator<Fine1987RKNG45, Explicit>()), Explicit>(EmbeddedExplicitGeneralizedRungeKuttaNyströmIntegrator<Fine1987RKNG45, Explicit>(), 5, 4, true); break;
  }
}

VF_HARNESS(symplectic_nyström_order) {
  switch (vf_choose(8, "method")) {
    case 0: srkn<BlanesMoan2002SRKN6B>(); break;
    case 1: srkn<BlanesMoan2002SRKN11B>(); break;
    case 2: srkn<BlanesMoan2002SRKN14A>(); break;
    case 3: srkn<McLachlan1995SB3A4>(); break;
    case 4: srkn<McLachlan1995SB3A5>(); break;
    case 5: srkn<McLachlanAtela1992Order4Optimal>(); break;
    case 6: srkn<McLachlanAtela1992Order5Optimal>(); break;
    case 7: srkn<OkunborSkeel1994Order6Method13>(); break;
  }
}

VF_HARNESS(symplectic_partitioned_order) {
  switch (vf_choose(23, "method")) {
    case 0: sprk<BlanesMoan2002S6>(); break;
    case 1: sprk<BlanesMoan2002S10>(); break;
    case 2: sprk<CandyRozmus1991ForestRuth1990>(); break;
    case 3: sprk<McLachlan1995S2>(); break;
    case 4: sprk<McLachlan1995S4>(); break;
    case 5: sprk<McLachlan1995S5>(); break;
    case 6: sprk<McLachlan1995SS5>(); break;
    case 7: sprk<McLachlan1995SS9>(); break;
    case 8: sprk<McLachlan1995SS15>(); break;
    case 9: sprk<McLachlan1995SS17>(); break;
    case 10: sprk<McLachlanAtela1992Order2Optimal>(); break;
    case 11: sprk<McLachlanAtela1992Order3Optimal>(); break;
    case 12: sprk<NewtonDelambreStørmerVerletLeapfrog>(); break;
    case 13: sprk<Ruth1983>(); break;
    case 14: sprk<鈴木1990>(); break;
    case 15: sprk<吉田1990Order6A>(); break;
    case 16: sprk<吉田1990Order6B>(); break;
    case 17: sprk<吉田1990Order6C>(); break;
    case 18: sprk<吉田1990Order8A>(); break;
    case 19: sprk<吉田1990Order8B>(); break;
    case 20: sprk<吉田1990Order8C>(); break;
    case 21: sprk<吉田1990Order8D>(); break;
    case 22: sprk<吉田1990Order8E>(); break;
  }
}
