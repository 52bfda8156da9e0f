// The multistep methods: order conditions, with an exact startup.
//@ entry symmetric_multistep_order mode=real max-seconds=150
//@ entry symmetric_multistep_startup mode=real max-seconds=150
//@ src $VERIF/rt/elementary.cc
//@ bound Symmetric multistep methods of order 8 to 14 with an exact startup: trees up to weight 6, powers of the time up to the order + 1, order + 1 steps; with the actual startup: trees up to weight 6 for Quinlan1999Order8A.
//@ assume Real arithmetic instead of rounded floating point (so compensated summation is not observable); the coefficients have the precision that they have in the code.
#include "integrators.h"
#include "integrators/symmetric_linear_multistep_integrator.hpp"

namespace principia::geometry::_point::internal {
std::string DebugString(Instant const&) { return "an instant"; }
}
using namespace vf;
using namespace principia::base::_not_null;
namespace slms = principia::integrators::_symmetric_linear_multistep_integrator;

namespace {
// An integrator which is exact.
class Exact : public FixedStepSizeIntegrator<Special> {
 public:
  class Instance : public FixedStepSizeIntegrator<Special>::Instance {
   public:
    Instance(InitialValueProblem<Special> const& problem, AppendState const& append_state, Time const& step, Exact const& exact)
        : FixedStepSizeIntegrator<Special>::Instance(problem, append_state, step), exact_(exact) {}
    absl::Status Solve(Instant const& t_final) override {
      State& state = this->current_state_;
      SecondOrderSystem const& system = exact_.system;
      while (state.time.value + this->step_ <= t_final) {
        ++exact_.steps;
        state.time = DoublePrecision<Instant>(state.time.value + this->step_);
        double const at = exact_.steps * (this->step_ / si::Unit<Time>);
        for (int i = 0; i < system.dimension(); ++i) {
          double const c = system.coefficient(i);
          int const w = system.weight(i);
          state.positions[i] = DoublePrecision<Length>((system.x + c * Forest::power(at, w)) * si::Unit<Length>);
          state.velocities[i] = DoublePrecision<Speed>(c * w * Forest::power(at, w - 1) * si::Unit<Speed>);
        }
        this->append_state_(state);
      }
      return absl::OkStatus();
    }
    Exact const& integrator() const override { return exact_; }
    not_null<std::unique_ptr<Integrator<Special>::Instance>> Clone() const override { return std::make_unique<Instance>(*this); }
   private:
    Exact const& exact_;
  };
  explicit Exact(SecondOrderSystem const& system) : system(system) {}
  not_null<std::unique_ptr<Integrator<Special>::Instance>> NewInstance(InitialValueProblem<Special> const& problem, AppendState const& append_state, Time const& step) const override {
    return not_null<std::unique_ptr<Integrator<Special>::Instance>>(std::make_unique<Instance>(problem, append_state, step, *this));
  }
  void WriteToMessage(not_null<principia::serialization::FixedStepSizeIntegrator*>) const override {}

  SecondOrderSystem const& system;
  mutable int steps = 0;
};

template<typename Method>
void order() {
  constexpr int p = Method::order;
  // Trees up to weight 5, powers of the time up to p + 1.
  SecondOrderSystem const system(false, 6, p + 2);
  double const h = vf_real("h", 0.03125, 0.0625);
  Exact const exact(system);
  slms::internal::SymmetricLinearMultistepIntegrator<Method, Special> const integrator(exact);
  std::vector<State> states;
  auto const instance = integrator.NewInstance({system.equation(), system.initial()}, [&](State const& state) { states.push_back(state); }, h * si::Unit<Time>);
  vf_check(instance->Solve(system.t0 + (p + 1.5) * h * si::Unit<Time>).ok(), "status");
  vf_check(states.size() == p + 1, "steps");
  for (int i = 0; i < states.size(); ++i) system.check(states[i], (i + 1) * h, p);
}
}  // namespace

VF_HARNESS(symmetric_multistep_order) {
  switch (vf_choose(6, "method")) {
    case 0: order<Quinlan1999Order8A>(); break;
    case 1: order<Quinlan1999Order8B>(); break;
    case 2: order<QuinlanTremaine1990Order8>(); break;
    case 3: order<QuinlanTremaine1990Order10>(); break;
    case 4: order<QuinlanTremaine1990Order12>(); break;
    case 5: order<QuinlanTremaine1990Order14>(); break;
  }
}

// With the integrator that is offered to the clients.
VF_HARNESS(symmetric_multistep_startup) {
  using Method = Quinlan1999Order8A;
  SecondOrderSystem const system(false, 6, 6);
  double const h = vf_real("h", 0.125, 0.25);
  std::vector<State> states;
  auto const instance = slms::SymmetricLinearMultistepIntegrator<Method, Special>().NewInstance({system.equation(), system.initial()}, [&](State const& state) { states.push_back(state); }, h * si::Unit<Time>);
  vf_check(instance->Solve(system.t0 + 9.5 * h * si::Unit<Time>).ok(), "status");
  vf_check(states.size() == 9, "steps");
  for (int i = 0; i < states.size(); ++i) system.check(states[i], (i + 1) * h, 6);
}
