// The order conditions of the methods for first-order equations.
//@ entry embedded_runge_kutta_order mode=real max-seconds=100
//@ entry runge_kutta_order mode=real max-seconds=100
//@ entry adams_bashforth_order mode=real max-seconds=150
//@ src $VERIF/rt/elementary.cc
//@ bound All rooted trees up to weight 6, powers of the time, 3 steps or (Adams-Bashforth) order + 1 steps; with the Runge-Kutta startup of order 4, conditions of order 5 and 6 of Adams-Bashforth are only checked to 1e-5.
//@ assume Real arithmetic instead of rounded floating point (so compensated summation is not observable); the coefficients have the precision that they have in the code.
#include "integrators.h"
#include "integrators/embedded_explicit_runge_kutta_integrator.hpp"
#include "integrators/explicit_linear_multistep_integrator.hpp"
#include "integrators/explicit_runge_kutta_integrator.hpp"

namespace principia::geometry::_point::internal {
std::string DebugString(Instant const&) { return "an instant"; }
}
using namespace vf;
using namespace principia::integrators::_embedded_explicit_runge_kutta_integrator;
using namespace principia::integrators::_explicit_linear_multistep_integrator;
using namespace principia::integrators::_explicit_runge_kutta_integrator;

namespace {
template<int... i>
auto ode(std::integer_sequence<int, i...>) -> ExplicitFirstOrderOrdinaryDifferentialEquation<Instant, decltype(Length() + Length() * i)...>;

// The first tree has weight 1, so is the identity.
template<int max_weight>
struct System {
  // The number of rooted trees, and of the powers of the time.
  static constexpr int trees = max_weight == 2 ? 2 : max_weight == 3 ? 4 : max_weight == 4 ? 8 : max_weight == 5 ? 17 : 37;
  static constexpr int dimension = trees + max_weight - 1;
  using ODE = decltype(ode(std::make_integer_sequence<int, dimension>()));
  using State = typename ODE::State;
  using Variables = typename ODE::DependentVariables;
  using Derivatives = typename ODE::DependentVariableDerivatives;

  Forest forest;
  Instant t0;
  double x;
  System() : forest(1, false, max_weight), t0(Instant() + vf_real("t0", -10, 10) * si::Unit<Time>), x(vf_real("x", -10, 10)) {
    vf_check(forest.size() == trees, "trees");
  }
  ODE equation() const {
    ODE result;
    result.compute_derivative = [this](Instant const& t, Variables const& y, Derivatives& yʹ) {
      double in[dimension], out[dimension];
      int n = 0;
      for_all_of(y).loop([&](Length const& l) { in[n++] = l / si::Unit<Length> - x; });
      for (int i = 0; i < trees; ++i) {
        out[i] = 1;
        for (int const child : forest.trees[i].children) out[i] *= in[child / 2];
      }
      double const s = (t - t0) / si::Unit<Time>;
      for (int i = trees; i < dimension; ++i) out[i] = Forest::power(s, i - trees + 1);
      n = 0;
      for_all_of(yʹ).loop([&](Speed& v) { v = out[n++] * si::Unit<Speed>; });
      return absl::OkStatus();
    };
    return result;
  }
  State initial() const {
    Variables y;
    for_all_of(y).loop([&](Length& l) { l = x * si::Unit<Length>; });
    return State(t0, y);
  }
  int weight(int const i) const { return i < trees ? forest.trees[i].weight : i - trees + 2; }
  double coefficient(int const i) const { return i < trees ? forest.trees[i].coefficient : 1.0 / (i - trees + 2); }
  // If `accurate` is given, heavier trees are only checked with a tolerance of
  // 1e-6.
  void check(State const& state, double const at, int const order, int const accurate = 99) const {
    vf_near((state.s.value - t0) / si::Unit<Time>, at, 1e-9, "time");
    int i = 0;
    for_all_of(state.y).loop([&](DoublePrecision<Length> const& l) {
      int const w = weight(i);
      if (w <= order) vf_near(l.value / si::Unit<Length> - x, coefficient(i) * Forest::power(at, w), w <= accurate ? 1e-9 : 1e-5, "value");
      ++i;
    });
  }
};

double signed_step() {
  double const h = vf_real("h", 0.25, 1);
  return vf_choose(2, "backward") == 0 ? h : -h;
}

template<typename Method>
void adams() {
  System<Method::order> const system;
  using ODE = typename System<Method::order>::ODE;
  double const h = vf_real("h", 0.25, 0.5);
  std::vector<typename ODE::State> states;
  auto const instance = ExplicitLinearMultistepIntegrator<Method, ODE>().NewInstance({system.equation(), system.initial()}, [&](auto const& state) { states.push_back(state); }, h * si::Unit<Time>);
  vf_check(instance->Solve(system.t0 + (Method::order + 1.5) * h * si::Unit<Time>).ok(), "status");
  vf_check(states.size() == Method::order + 1, "steps");
  // The startup has order 4.
  for (int i = 0; i < states.size(); ++i) system.check(states[i], (i + 1) * h, Method::order, 4);
}
}  // namespace

VF_HARNESS(embedded_runge_kutta_order) {
  using Method = DormandPrince1986RK547FC;
  System<Method::higher_order> const system;
  using ODE = System<Method::higher_order>::ODE;
  using State = ODE::State;
  double const h = signed_step();
  // Three steps: h, h/2, and h/2 truncated to 3/8 h.
  std::vector<State> states;
  int calls = 0;
  auto const ratio = [&](Time const& step, State const& state, State::Error const& error) {
    vf_near(step / si::Unit<Time>, calls == 0 ? h : calls == 1 ? h / 2 : 0.375 * h, 1e-9, "step");
    vf_near((state.s.value - system.t0) / si::Unit<Time>, calls == 0 ? 0 : calls == 1 ? h : 1.5 * h, 1e-9, "state before the step");
    int i = 0;
    for_all_of(error).loop([&](Length const& e) {
      if (system.weight(i) <= Method::lower_order) vf_near(e / si::Unit<Length>, 0, 1e-9, "error");
      ++i;
    });
    ++calls;
    return calls > 1 ? 32 : 1;
  };
  AdaptiveStepSizeIntegrator<ODE>::Parameters const parameters(h * si::Unit<Time>, /*safety_factor=*/0.5, 10, /*last_step_is_exact=*/true);
  auto const instance = EmbeddedExplicitRungeKuttaIntegrator<Method, ODE>().NewInstance({system.equation(), system.initial()}, [&](State const& state) { states.push_back(state); }, ratio, parameters);
  vf_check(instance->Solve(system.t0 + 1.875 * h * si::Unit<Time>).ok(), "status");
  vf_check(states.size() == 3 && calls == 3, "steps");
  system.check(states[0], h, 5);
  system.check(states[1], 1.5 * h, 5);
  system.check(states[2], 1.875 * h, 5);
}

VF_HARNESS(runge_kutta_order) {
  using Method = Kutta1901Vσ1;
  System<Method::order> const system;
  using ODE = System<Method::order>::ODE;
  double const h = signed_step();
  std::vector<ODE::State> states;
  auto const instance = ExplicitRungeKuttaIntegrator<Method, ODE>().NewInstance({system.equation(), system.initial()}, [&](ODE::State const& state) { states.push_back(state); }, h * si::Unit<Time>);
  vf_check(instance->Solve(system.t0 + 2.5 * h * si::Unit<Time>).ok(), "status");
  vf_check(states.size() == 2, "steps");
  system.check(states[0], h, 4);
  system.check(states[1], 2 * h, 4);
}

VF_HARNESS(adams_bashforth_order) {
  switch (vf_choose(5, "order")) {
    case 0: adams<AdamsBashforthOrder2>(); break;
    case 1: adams<AdamsBashforthOrder3>(); break;
    case 2: adams<AdamsBashforthOrder4>(); break;
    case 3: adams<AdamsBashforthOrder5>(); break;
    case 4: adams<AdamsBashforthOrder6>(); break;
  }
}
