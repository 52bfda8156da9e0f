// Parts and pile-ups: grouping, mass and forces, motion of the parts, conservation laws.
//@ entry grouping max-seconds=250
//@ entry forces mode=real max-seconds=100
//@ entry construction mode=real max-seconds=150
//@ entry deformation mode=real max-seconds=150
//@ entry rigid mode=real max-seconds=100
//@ entry advance mode=real max-seconds=150
//@ entry pile_up_saved mode=real max-seconds=150
//@ entry part_state mode=real max-seconds=100
//@ entry part_saved mode=real max-seconds=100
//@ src $VERIF/rt/elementary.cc
//@ src base/zfp_compressor.cpp
//@ src ksp_plugin/part.cpp
//@ src base/flags.cpp
//@ bound 4 parts, any pile-ups among them and any 2 collisions (in any order), then again; 2 parts of any masses, forces, torques, lever arms, mass changes, positions, velocities and angular velocities, with diagonal inertias and on the x axis for the deformation; any rotations by the game and by the solution of Euler's equations among 4; 2 steps with or without a force, with up to 2 points of history and 1 of psychohistory.
//@ assume Real arithmetic instead of rounded floating point. The integrations of the ephemeris are replaced by arbitrary points, Euler's equations by an arbitrary rotation that conserves the angular momentum, and the diagonalization and the method of Davenport by what they stand for on the states considered.
#include "quiet_streams.h"
#include "geo.h"
#include <list>
#include <map>
#include <memory>
#include <vector>
#include "geometry/orthogonal_map.hpp"
#include "geometry/rotation.hpp"
#include "geometry/signature.hpp"
#include "ksp_plugin/frames.hpp"
#include "ksp_plugin/identification.hpp"
#include "ksp_plugin/part.hpp"
#include "ksp_plugin/part_subsets.hpp"
#include "ksp_plugin/pile_up.hpp"
#include "numerics/davenport_q_method.hpp"
#include "physics/ephemeris.hpp"
#include "physics/euler_solver.hpp"
#include "physics/rigid_motion.hpp"
#include "physics/tensors.hpp"

using namespace vf;
using namespace principia::base::_disjoint_sets;
using namespace principia::base::_not_null;
using namespace principia::geometry::_orthogonal_map;
using namespace principia::geometry::_r3x3_matrix;
using namespace principia::geometry::_rotation;
using namespace principia::geometry::_signature;
using namespace principia::geometry::_space_transformations;
using namespace principia::ksp_plugin::_frames;
using namespace principia::ksp_plugin::_identification;
using namespace principia::ksp_plugin::_part;
using namespace principia::ksp_plugin::_pile_up;
using namespace principia::physics::_degrees_of_freedom;
using namespace principia::physics::_discrete_trajectory;
using namespace principia::physics::_ephemeris;
using namespace principia::physics::_rigid_motion;
using namespace principia::physics::_tensors;
namespace integrators = principia::integrators::_integrators;
namespace equations = principia::integrators::_ordinary_differential_equations;

namespace principia::geometry::_point::internal {
std::string DebugString(Instant const&) { return "an instant"; }
}

namespace principia::ksp_plugin::_identification::internal {
bool PartByPartIdComparator::operator()(not_null<Part*> const left, not_null<Part*> const right) const { return left->part_id() < right->part_id(); }
}

static Instant at(double t) { return Instant() + t * Second; }
// Some rotations of the axes.
static Quaternion turn(int i) {
  if (i == 1) return Quaternion(0.5, {0.5, 0.5, 0.5});
  if (i == 2) return Quaternion(0, {1, 0, 0});
  if (i == 3) return Quaternion(0.5, {-0.5, 0.5, -0.5});
  return Quaternion(1);
}

// Parts are left-handed.
template<typename From, typename To>
static OrthogonalMap<From, To> attitude(int i) {
  using Mid = Frame<struct MidTag, Arbitrary, Handedness::Right>;
  return Rotation<Mid, To>(turn(i)).template Forget<OrthogonalMap>() * Signature<From, Mid>::CentralInversion().template Forget<OrthogonalMap>();
}

// The rotation of the pile-up by Euler's equations.
static int euler_turn;
static std::vector<Instant> euler_starts;
static std::vector<Instant> euler_ends;
static int game_turn;
static std::vector<double> davenport_weights;
static std::vector<R3Element<double>> davenport_a, davenport_b;

namespace principia::physics::_euler_solver::internal {
using ksp_plugin::_pile_up::NonRotatingPileUp;
using ksp_plugin::_pile_up::PileUpPrincipalAxes;
using Solver = EulerSolver<NonRotatingPileUp, PileUpPrincipalAxes>;
template<> Solver::EulerSolver(InertiaTensor<PileUpPrincipalAxes> const& inertia_tensor,
                               Bivector<AngularMomentum, NonRotatingPileUp> const& initial_angular_momentum,
                               AttitudeRotation const& initial_attitude, Instant const& initial_time)
    : moments_of_inertia_(inertia_tensor.coordinates().Diagonal()),
      serialized_initial_angular_momentum_(initial_angular_momentum),
      initial_attitude_(initial_attitude),
      initial_time_(initial_time),
      G_(),
      ℛ_(Rotation<ℬʹ, NonRotatingPileUp>::Identity()),
      𝒮_(Signature<PileUpPrincipalAxes, PreferredPrincipalAxesFrame>::Identity()) {
  euler_starts.push_back(initial_time);
}
template<> RigidMotion<PileUpPrincipalAxes, NonRotatingPileUp> Solver::MotionAt(
    Instant const& time, DegreesOfFreedom<NonRotatingPileUp> const& linear_motion) const {
  euler_ends.push_back(time);
  Rotation<NonRotatingPileUp, NonRotatingPileUp> const r{::turn(euler_turn)};
  auto const attitude = r * initial_attitude_;
  auto const L = attitude.Inverse()(serialized_initial_angular_momentum_).coordinates();
  auto const& I = moments_of_inertia_;
  AngularVelocity<PileUpPrincipalAxes> const ω(R3Element<double>(vf::num(L.x) / vf::num(I.x), vf::num(L.y) / vf::num(I.y), vf::num(L.z) / vf::num(I.z)) *
                                               (Radian / Second));
  return RigidMotion<PileUpPrincipalAxes, NonRotatingPileUp>(
      RigidTransformation<PileUpPrincipalAxes, NonRotatingPileUp>(PileUpPrincipalAxes::origin, linear_motion.position(),
                                                                  attitude.template Forget<OrthogonalMap>()),
      attitude(ω), linear_motion.velocity());
}
}  // namespace principia::physics::_euler_solver::internal

namespace principia::geometry::_symmetric_bilinear_form::internal {
template<typename Frame>
using Inertia = SymmetricBilinearForm<quantities::_named_quantities::MomentOfInertia, Frame, Bivector>;
using ksp_plugin::_pile_up::ApparentPileUp;
using ksp_plugin::_pile_up::NonRotatingPileUp;
using ksp_plugin::_pile_up::PileUpPrincipalAxes;
template<> template<>
Inertia<NonRotatingPileUp>::Eigensystem<PileUpPrincipalAxes> Inertia<NonRotatingPileUp>::Diagonalize<PileUpPrincipalAxes>() const {
  return {Inertia<PileUpPrincipalAxes>(matrix_), Rotation<PileUpPrincipalAxes, NonRotatingPileUp>(Quaternion(1))};
}
template<> template<>
Inertia<ApparentPileUp>::Eigensystem<PileUpPrincipalAxes> Inertia<ApparentPileUp>::Diagonalize<PileUpPrincipalAxes>() const {
  return {Inertia<PileUpPrincipalAxes>(matrix_), Rotation<PileUpPrincipalAxes, ApparentPileUp>(Quaternion(1))};
}
}  // namespace principia::geometry::_symmetric_bilinear_form::internal

namespace principia::numerics::_davenport_q_method::internal {
template<> Rotation<ksp_plugin::_pile_up::NonRotatingPileUp, ksp_plugin::_frames::Apparent> DavenportQMethod(
    std::vector<Vector<double, ksp_plugin::_pile_up::NonRotatingPileUp>> const& a,
    std::vector<Vector<double, ksp_plugin::_frames::Apparent>> const& b,
    std::vector<quantities::_quantities::Mass> const& weights) {
  for (auto const& v : a) davenport_a.push_back(v.coordinates());
  for (auto const& v : b) davenport_b.push_back(v.coordinates());
  for (auto const& w : weights) davenport_weights.push_back(vf::num(w));
  return Rotation<ksp_plugin::_pile_up::NonRotatingPileUp, ksp_plugin::_frames::Apparent>(::turn(game_turn));
}
}  // namespace principia::numerics::_davenport_q_method::internal

using Sky = Ephemeris<Barycentric>;
using ODE = Sky::NewtonianMotionEquation;
static Sky::FixedStepParameters fixed_parameters();
static Sky::AdaptiveStepParameters adaptive_parameters();
namespace principia::physics::_integration_parameters::internal {
template<> AdaptiveStepParameters<ODE> AdaptiveStepParameters<ODE>::ReadFromMessage(serialization::AdaptiveStepParameters const&) { return adaptive_parameters(); }
template<> FixedStepParameters<ODE> FixedStepParameters<ODE>::ReadFromMessage(serialization::FixedStepParameters const&) { return fixed_parameters(); }
}

#include "ksp_plugin/pile_up.cpp"
#include "ksp_plugin/part_subsets.cpp"

using P = Displacement<Barycentric>;
using V = Velocity<Barycentric>;
using Angular = Bivector<AngularMomentum, NonRotatingPileUp>;

namespace principia::ksp_plugin {
class TestablePileUp : public PileUp {
 public:
  using PileUp::PileUp;
  using PileUp::mass_;
  using PileUp::intrinsic_force_;
  using PileUp::intrinsic_torque_;
  using PileUp::angular_momentum_;
  using PileUp::angular_momentum_change_;
  using PileUp::trajectory_;
  using PileUp::history_;
  using PileUp::psychohistory_;
  using PileUp::actual_part_rigid_motion_;
  using PileUp::DeformPileUpIfNeeded;
  using PileUp::NudgeParts;
};
}  // namespace principia::ksp_plugin
using principia::ksp_plugin::TestablePileUp;

namespace {
struct Fixed : integrators::FixedStepSizeIntegrator<ODE> {
  struct It : integrators::FixedStepSizeIntegrator<ODE>::Instance {
    It(Fixed const& f, Time const& step) : integrators::FixedStepSizeIntegrator<ODE>::Instance({}, [](auto const&) {}, step), f(f) {}
    absl::Status Solve(Instant const&) override { return absl::OkStatus(); }
    integrators::FixedStepSizeIntegrator<ODE> const& integrator() const override { return f; }
    not_null<std::unique_ptr<integrators::Integrator<ODE>::Instance>> Clone() const override { __builtin_trap(); }
    Fixed const& f;
  };
  not_null<std::unique_ptr<integrators::Integrator<ODE>::Instance>> NewInstance(
      equations::InitialValueProblem<ODE> const&, integrators::Integrator<ODE>::AppendState const&, Time const&) const override {
    vf_fail("The ephemeris creates the instances");
    __builtin_trap();
  }
  void WriteToMessage(not_null<principia::serialization::FixedStepSizeIntegrator*>) const override {}
};
struct Adaptive : integrators::AdaptiveStepSizeIntegrator<ODE> {
  not_null<std::unique_ptr<integrators::Integrator<ODE>::Instance>> NewInstance(
      equations::InitialValueProblem<ODE> const&, integrators::Integrator<ODE>::AppendState const&,
      ToleranceToErrorRatio const&, Parameters const&) const override {
    vf_fail("The ephemeris creates the instances");
    __builtin_trap();
  }
  void WriteToMessage(not_null<principia::serialization::AdaptiveStepSizeIntegrator*>) const override {}
};
Fixed const fixed;
Adaptive const adaptive;
}  // namespace
static Sky::FixedStepParameters fixed_parameters() { return Sky::FixedStepParameters(fixed, 1 * Second); }
static Sky::AdaptiveStepParameters adaptive_parameters() { return Sky::AdaptiveStepParameters(adaptive, 7, 1 * Metre, 1 * (Metre / Second)); }

namespace principia::ksp_plugin::_integrators::internal {
Sky::AdaptiveStepParameters DefaultPsychohistoryParameters() { return adaptive_parameters(); }
Sky::FixedStepParameters DefaultHistoryParameters() { return fixed_parameters(); }
}
namespace {
// The points given by the integrations.
struct Point { double t; P p; V v; };
struct Heavens : Sky {
  Heavens() : Sky(fixed) {}
  int instances = 0, flows = 0, adaptive_flows = 0;
  DiscreteTrajectory<Barycentric>* trajectory = nullptr;
  std::vector<Point> fixed_points;
  std::vector<Point> adaptive_points;
  bool accelerated = false;
  Vector<Acceleration, Barycentric> acceleration;
  not_null<std::unique_ptr<integrators::Integrator<ODE>::Instance>> NewInstance(
      std::vector<not_null<DiscreteTrajectory<Barycentric>*>> const& trajectories, IntrinsicAccelerations const& accelerations,
      FixedStepParameters const& parameters) override {
    ++instances;
    vf_check(trajectories.size() == 1 && accelerations.empty(), "One trajectory in free fall");
    trajectory = trajectories[0];
    return not_null<std::unique_ptr<integrators::Integrator<ODE>::Instance>>(std::make_unique<Fixed::It>(fixed, parameters.step()));
  }
  absl::Status FlowWithFixedStep(Instant const& t, integrators::Integrator<ODE>::Instance&) override {
    ++flows;
    for (auto const& p : fixed_points) if (at(p.t) <= t) add(*trajectory, p);
    return absl::OkStatus();
  }
  absl::Status FlowWithAdaptiveStep(not_null<DiscreteTrajectory<Barycentric>*> const trajectory, IntrinsicAcceleration a, Instant const& t,
                                    AdaptiveStepParameters const&, std::int64_t) override {
    ++adaptive_flows;
    accelerated = a != nullptr;
    if (accelerated) acceleration = a(t);
    for (auto const& p : adaptive_points) add(*trajectory, p);
    return absl::OkStatus();
  }
  absl::Status FlowWithAdaptiveStep(not_null<DiscreteTrajectory<Barycentric>*>, GeneralizedIntrinsicAcceleration, Instant const&,
                                    GeneralizedAdaptiveStepParameters const&, std::int64_t) override {
    vf_fail("The acceleration is inertial");
    __builtin_trap();
  }
  static void add(DiscreteTrajectory<Barycentric>& trajectory, Point const& p) {
    vf_check(trajectory.Append(at(p.t), {Barycentric::origin + p.p, p.v}).ok(), "The points are appended in order");
  }
};

InertiaTensor<RigidPart> inertia(double a, double b, double c) {
  auto const k = si::Unit<MomentOfInertia>;
  return InertiaTensor<RigidPart>(R3x3Matrix<MomentOfInertia>::DiagonalMatrix({a * k, b * k, c * k}));
}
RigidMotion<EccentricPart, Barycentric> motion(P const& p, V const& v, AngularVelocity<Barycentric> const& ω, int i) {
  return RigidMotion<EccentricPart, Barycentric>(
      RigidTransformation<EccentricPart, Barycentric>(EccentricPart::origin, Barycentric::origin + p,
                                                      attitude<EccentricPart, Barycentric>(i)),
      ω, v);
}
Angular product(R3Element<Length> const& r, R3Element<Speed> const& v, Mass const& m) {
  return Angular({m * (r.y * v.z - r.z * v.y) * Radian, m * (r.z * v.x - r.x * v.z) * Radian, m * (r.x * v.y - r.y * v.x) * Radian});
}

// A part of any mass, position, etc., and its state.
struct State {
  Mass m;
  P r;
  V v;
  AngularVelocity<Barycentric> ω;
  int i;
  R3Element<double> I;
  std::unique_ptr<Part> part;
  State(std::string const& n, PartId id, bool simple = false) {
    m = vf_real((n + ".m").c_str(), 0.125, 8) * Kilogram;
    r = v_<P>(n + ".r");
    v = v_<V>(n + ".v");
    if (simple) {
      i = 0;
      I = {1, 2, 3};
    } else {
      ω = v_<AngularVelocity<Barycentric>>(n + ".w");
      i = vf_choose(2, (n + ".turn").c_str());
      I = {vf_real((n + ".Ix").c_str(), 0.125, 8), vf_real((n + ".Iy").c_str(), 0.125, 8), vf_real((n + ".Iz").c_str(), 0.125, 8)};
    }
    part = std::make_unique<Part>(id, n, m, EccentricPart::origin, inertia(I.x, I.y, I.z), motion(r, v, ω, i), nullptr);
  }
  template<typename T>
  static T v_(std::string const& n) {
    using S = std::decay_t<decltype(T().coordinates().x)>;
    return T(r3<S>(n.c_str()));
  }
  // The spin about the centre of mass of the part.
  R3Element<double> spin() const { return spin(ω.coordinates(), i); }
  template<typename S>
  R3Element<double> spin(R3Element<S> const& w, int i) const {
    double const x = num(w.x), y = num(w.y), z = num(w.z);
    // The rotation i maps x to y, y to z, etc.
    if (i == 1) return {I.z * x, I.x * y, I.y * z};
    return {I.x * x, I.y * y, I.z * z};
  }
};
Angular to_angular(R3Element<double> const& r) { return Angular({r.x * si::Unit<AngularMomentum>, r.y * si::Unit<AngularMomentum>, r.z * si::Unit<AngularMomentum>}); }
Part make(PartId id) {
  return Part(id, "p", 1 * Kilogram, EccentricPart::origin, inertia(1, 2, 3), motion(P({double(id) * Metre, 0 * Metre, 0 * Metre}), V(), AngularVelocity<Barycentric>(), 0), nullptr);
}
}  // namespace

// Two rounds of collisions among 4 parts.
VF_HARNESS(grouping) {
  Heavens sky;
  constexpr int n = 4;
  static constexpr int pairs[7][2] = {{0, 1}, {2, 3}, {1, 2}, {3, 0}, {2, 0}, {1, 3}, {0, 0}};
  Part parts[n] = {make(11), make(7), make(13), make(5)};
  std::list<PileUp*> pile_ups;
  int group[n] = {};
  PileUp* previous[n] = {};
  int previous_group[n] = {-1, -1, -1, -1};
  for (int round = 0; round < 2; ++round) {
    bool grounded[n] = {};
    for (int i = 0; i < n; ++i) {
      group[i] = i;
      Subset<Part>::MakeSingleton(parts[i], &parts[i]);
    }
    auto unite = [&](int a, int b) {
      Subset<Part>::Unite(Subset<Part>::Find(parts[a]), Subset<Part>::Find(parts[b]));
      int const ga = group[a], gb = group[b];
      for (int i = 0; i < n; ++i) if (group[i] == gb) group[i] = ga;
    };
    int const ground = vf_choose(2, "ground");
    int const first = round == 0 ? 0 : vf_choose(2, "when");
    if (ground && first == 0) Subset<Part>::Find(parts[2]).mutable_properties().Ground();
    if (round == 0) {
      for (int k = 0; k < 3; ++k) if (vf_choose(2, "together")) unite(pairs[k][0], pairs[k][1]);
    } else {
      for (int k = 0; k < 2; ++k) {
        int const c = vf_choose(7, "collision");
        unite(pairs[c][0], pairs[c][1]);
      }
    }
    if (ground && first == 1) Subset<Part>::Find(parts[2]).mutable_properties().Ground();
    for (int i = 0; i < n; ++i)
      vf_check(Subset<Part>::Find(parts[i]).properties().grounded() == (ground && group[i] == group[2]), "The parts on the ground");
    for (int i = 0; i < n; ++i)
      Subset<Part>::Find(parts[i]).mutable_properties().Collect(pile_ups, at(round), adaptive_parameters(), fixed_parameters(), &sky);
    int groups = 0;
    for (int i = 0; i < n; ++i) {
      vf_check(parts[i].is_piled_up(), "Every part is in a pile-up");
      PileUp* const p = parts[i].containing_pile_up();
      int size = 0, itself = 0, first = i;
      for (int j = 0; j < n; ++j) {
        vf_check((parts[j].containing_pile_up() == p) == (group[i] == group[j]), "Parts are in the same pile-up if they touch");
        size += group[i] == group[j];
        if (group[i] == group[j] && j < first) first = j;
      }
      groups += first == i;
      for (auto const q : p->parts()) itself += q == &parts[i];
      vf_check(itself == 1 && static_cast<int>(p->parts().size()) == size, "The pile-up has its parts, once each");
      int listed = 0;
      for (auto const q : pile_ups) listed += q == p;
      vf_check(listed == 1, "The pile-up is in the list, once");
      if (round > 0) {
        bool same = true;
        for (int j = 0; j < n; ++j) same &= (group[i] == group[j]) == (previous_group[i] == previous_group[j]);
        if (same) vf_check(p == previous[i], "A pile-up whose parts don't change is kept");
        // The new one may be where an old one was, so look at its time.
        vf_check((static_cast<TestablePileUp*>(p)->trajectory_.front().time == at(0)) == same, "A pile-up whose parts change is replaced");
      }
    }
    vf_check(static_cast<int>(pile_ups.size()) == groups, "There are no other pile-ups");
    for (int i = 0; i < n; ++i) {
      previous[i] = parts[i].containing_pile_up();
      previous_group[i] = group[i];
    }
  }
  for (int i = 0; i < n; ++i) parts[i].reset_containing_pile_up();
  vf_check(pile_ups.empty(), "A pile-up without parts is destroyed");
}

// The mass, force, torque and loss of angular momentum.
VF_HARNESS(forces) {
  Heavens sky;
  State a("a", 3), b("b", 2, /*simple=*/true);
  int const rocket = vf_choose(2, "rocket"), cleared = vf_choose(3, "cleared");
  auto const f1 = Vector<Force, Barycentric>(r3<Force>("f1")), f2 = Vector<Force, Barycentric>(r3<Force>("f2")), f3 = Vector<Force, Barycentric>(r3<Force>("f3"));
  auto const lever = P(r3<Length>("lever"));
  auto const τ = Bivector<Torque, Barycentric>(r3<Torque>("torque"));
  TestablePileUp p({a.part.get(), b.part.get()}, at(0), adaptive_parameters(), fixed_parameters(), &sky, nullptr);
  Mass const m2 = vf_real("m2", 0.125, 8) * Kilogram;
  Mass const old = a.m;
  P const r0 = (a.r * (a.m / Kilogram) + b.r * (b.m / Kilogram)) / (a.m / Kilogram + b.m / Kilogram);
  V const v0 = (a.v * (a.m / Kilogram) + b.v * (b.m / Kilogram)) / (a.m / Kilogram + b.m / Kilogram);
  a.part->set_mass(m2);
  a.part->set_is_solid_rocket_motor(rocket);
  a.part->apply_intrinsic_force(f1);
  a.part->ApplyIntrinsicForceWithLeverArm(f2, lever);
  a.part->apply_intrinsic_torque(τ);
  b.part->apply_intrinsic_force(f3);
  if (cleared == 1) b.part->clear_intrinsic_force();
  if (cleared == 2) a.part->clear_intrinsic_torque();
  p.RecomputeFromParts();
  auto const fb = cleared == 1 ? Vector<Force, Barycentric>() : f3;
  eq(p.mass_, m2 + b.m, "The mass of the pile-up");
  eq(p.intrinsic_force_.coordinates(), (f1 + f2 + fb).coordinates(), "The force on the pile-up");
  auto const ra = (a.r - r0).coordinates(), rb = (b.r - r0).coordinates(), l = lever.coordinates();
  auto const fa = (f1 + f2).coordinates();
  auto cross = [](auto const& x, auto const& y) {
    return R3Element<Torque>((x.y * y.z - x.z * y.y) * Radian, (x.z * y.x - x.x * y.z) * Radian, (x.x * y.y - x.y * y.x) * Radian);
  };
  auto expected = cross(ra, fa) + cross(rb, fb.coordinates());
  if (cleared != 2) expected = expected + cross(l, f2.coordinates()) + τ.coordinates();
  eq(p.intrinsic_torque_.coordinates(), expected, "The torque about the centre of mass");
  Angular lost;
  if (rocket) {
    Mass const Δm = m2 - old;
    double const k = Δm / m2;
    auto const s = a.spin();
    lost = product(ra, (a.v - v0).coordinates(), Δm) + to_angular({k * s.x, k * s.y, k * s.z});
  }
  eq(p.angular_momentum_change_.coordinates(), lost.coordinates(), "The angular momentum carried by the lost mass");
}

// The state of a new pile-up, and the effect of its motion on its parts.
VF_HARNESS(construction) {
  Heavens sky;
  State a("a", 3), b("b", 2, /*simple=*/true);
  double const t = vf_real("t", -10, 10);
  TestablePileUp p({a.part.get(), b.part.get()}, at(t), adaptive_parameters(), fixed_parameters(), &sky, nullptr);
  double const ka = a.m / (a.m + b.m), kb = b.m / (a.m + b.m);
  P const r0 = a.r * ka + b.r * kb;
  V const v0 = a.v * ka + b.v * kb;
  vf_check(p.trajectory_.size() == 1, "The trajectory has one point");
  vf_check(p.trajectory_.front().time == at(t), "It starts at the time of creation");
  auto const start = p.trajectory_.front().degrees_of_freedom;
  eq((start.position() - Barycentric::origin).coordinates(), r0.coordinates(), "It starts at the centre of mass");
  eq(start.velocity().coordinates(), v0.coordinates(), "It has the velocity of the centre of mass");
  auto const s = a.spin();
  Angular const L = product((a.r - r0).coordinates(), (a.v - v0).coordinates(), a.m) +
                    product((b.r - r0).coordinates(), (b.v - v0).coordinates(), b.m) + to_angular(s);
  eq(p.angular_momentum_.coordinates(), L.coordinates(), "The angular momentum about the centre of mass");
  // Move it.
  P const Δr(r3<Length>("dr"));
  V const Δv(r3<Speed>("dv"));
  p.trajectory_.Append(at(t + 1), {Barycentric::origin + r0 + Δr, v0 + Δv}).IgnoreError();
  p.NudgeParts();
  for (State* const x : {&a, &b}) {
    auto const& m = x->part->rigid_motion();
    auto const d = m({RigidPart::origin, RigidPart::unmoving});
    eq((d.position() - Barycentric::origin).coordinates(), (x->r + Δr).coordinates(), "The parts follow the pile-up");
    eq(d.velocity().coordinates(), (x->v + Δv).coordinates(), "The parts have the velocity of the pile-up");
    eq(m.angular_velocity_of<RigidPart>().coordinates(), x->ω.coordinates(), "The parts keep their angular velocities");
    auto const rotation = attitude<RigidPart, Barycentric>(x->i);
    for (int k = 0; k < 3; ++k) {
      Vector<double, RigidPart> const e({k == 0 ? 1.0 : 0, k == 1 ? 1.0 : 0, k == 2 ? 1.0 : 0});
      eq(m.orthogonal_map()(e).coordinates(), rotation(e).coordinates(), "The parts keep their attitudes");
    }
  }
}

namespace {
RigidMotion<RigidPart, Apparent> apparent(R3Element<double> const& r, R3Element<double> const& v, R3Element<double> const& ω, int i) {
  return RigidMotion<RigidPart, Apparent>(
      RigidTransformation<RigidPart, Apparent>(RigidPart::origin, Apparent::origin + Displacement<Apparent>(r * Metre),
                                               attitude<RigidPart, Apparent>(i)),
      AngularVelocity<Apparent>(ω * (Radian / Second)), Velocity<Apparent>(v * (Metre / Second)));
}
}  // namespace

// The game moves the parts; the conservation laws are enforced.
VF_HARNESS(deformation) {
  Heavens sky;
  State a("a", 3, /*simple=*/true), b("b", 2, /*simple=*/true);
  double const t = vf_real("t", -10, 10), Δt = vf_real("dt", 0.125, 10);
  TestablePileUp p({a.part.get(), b.part.get()}, at(t), adaptive_parameters(), fixed_parameters(), &sky, nullptr);
  auto const L0 = Angular(r3<AngularMomentum>("L0"));
  p.angular_momentum_ = L0;
  p.intrinsic_torque_ = Bivector<Torque, NonRotatingPileUp>(r3<Torque>("torque"));
  p.angular_momentum_change_ = Angular(r3<AngularMomentum>("change"));
  euler_turn = vf_choose(4, "euler");
  game_turn = vf_choose(4, "game");
  // Two parts on the x axis of the game.
  double const ma = num(a.m), mb = num(b.m);
  double const xa = vf_real("xa", -10, 10), xb = vf_real("xb", -10, 10);
  R3Element<double> const va = r3<double>("va"), vb = r3<double>("vb"), wa = r3<double>("wa"), wb = r3<double>("wb");
  int const i = vf_choose(2, "order");
  auto const A = apparent({xa, 1, 2}, va, wa, 0), B = apparent({xb, 1, 2}, vb, wb, 2);
  if (i == 0) {
    p.SetPartApparentRigidMotion(a.part.get(), A);
    p.SetPartApparentRigidMotion(b.part.get(), B);
  } else {
    p.SetPartApparentRigidMotion(b.part.get(), B);
    p.SetPartApparentRigidMotion(a.part.get(), A);
  }
  euler_starts.clear();
  davenport_weights.clear();
  davenport_a.clear();
  davenport_b.clear();
  p.DeformPileUpIfNeeded(at(t + Δt));
  vf_check(euler_starts.size() == 1 && euler_starts[0] == at(t), "Euler's equations are solved from the last time of the pile-up");
  vf_check(euler_ends.size() == 1 && euler_ends[0] == at(t + Δt), "Euler's equations are solved until the time given");
  vf_check(davenport_weights.size() == 6 && davenport_a.size() == 6 && davenport_b.size() == 6, "Three directions for each part");
  for (int k = 0; k < 6; ++k) {
    eq(davenport_weights[k], k < 3 ? ma : mb, "The directions are weighted by the mass");
    double const e[3] = {k % 3 == 0 ? 1.0 : 0, k % 3 == 1 ? 1.0 : 0, k % 3 == 2 ? 1.0 : 0};
    eq(davenport_a[k], R3Element<double>(-e[0], -e[1], -e[2]), "The attitudes before the step");
    // Half a turn around x.
    double const s = k < 3 ? 1 : -1;
    eq(davenport_b[k], R3Element<double>(-e[0], -s * e[1], -s * e[2]), "The attitudes after the step");
  }
  auto const expected = L0 + p.intrinsic_torque_ * (Δt * Second) + p.angular_momentum_change_;
  eq(p.angular_momentum_.coordinates(), expected.coordinates(), "The angular momentum changes by the torque and the loss of mass");
  auto const& actual_a = p.actual_part_rigid_motion_.at(a.part.get());
  auto const& actual_b = p.actual_part_rigid_motion_.at(b.part.get());
  auto const da = actual_a({RigidPart::origin, RigidPart::unmoving}), db = actual_b({RigidPart::origin, RigidPart::unmoving});
  auto const ra = (da.position() - NonRotatingPileUp::origin).coordinates(), rb = (db.position() - NonRotatingPileUp::origin).coordinates();
  auto const ua = da.velocity().coordinates(), ub = db.velocity().coordinates();
  eq(ma * ra + mb * rb, R3Element<Length>(), "The centre of mass is at the origin");
  eq(ma * ua + mb * ub, R3Element<Speed>(), "The centre of mass doesn't move");
  // The geometry is that of the game, but for a rotation.
  Rotation<Apparent, NonRotatingPileUp> const correction =
      Rotation<NonRotatingPileUp, NonRotatingPileUp>(turn(euler_turn)) * Rotation<NonRotatingPileUp, Apparent>(turn(game_turn)).Inverse();
  auto const ab = correction(Displacement<Apparent>({(xb - xa) * Metre, 0 * Metre, 0 * Metre}));
  eq(rb - ra, ab.coordinates(), "The parts are where the game put them, but for a rotation");
  for (int k = 0; k < 3; ++k) {
    Vector<double, RigidPart> const e({k == 0 ? 1.0 : 0, k == 1 ? 1.0 : 0, k == 2 ? 1.0 : 0});
    eq(actual_a.orthogonal_map()(e).coordinates(), correction(A.orthogonal_map()(e)).coordinates(), "The attitudes are those of the game, but for a rotation");
    eq(actual_b.orthogonal_map()(e).coordinates(), correction(B.orthogonal_map()(e)).coordinates(), "The attitudes are those of the game, but for a rotation");
  }
  auto const ωa = actual_a.angular_velocity_of<RigidPart>(), ωb = actual_b.angular_velocity_of<RigidPart>();
  eq((ωb - ωa).coordinates(), correction(AngularVelocity<Apparent>((wb - wa) * (Radian / Second))).coordinates(), "The relative rotation is that of the game");
  // The rotations i below only swap the axes; the inertia about them.
  auto spin = [](RigidMotion<RigidPart, NonRotatingPileUp> const& m, AngularVelocity<NonRotatingPileUp> const& ω) {
    auto const w = m.orthogonal_map().Inverse()(ω).coordinates();
    auto const l = m.orthogonal_map()(Bivector<AngularMomentum, RigidPart>(
        {num(w.x) * 1 * si::Unit<AngularMomentum>, num(w.y) * 2 * si::Unit<AngularMomentum>, num(w.z) * 3 * si::Unit<AngularMomentum>}));
    return l;
  };
  auto const L = product(ra, ua, a.m) + product(rb, ub, b.m) + spin(actual_a, ωa) + spin(actual_b, ωb);
  eq(L.coordinates(), expected.coordinates(), "The parts have the angular momentum of the pile-up");
}

// Without news from the game, the pile-up is rigid.
VF_HARNESS(rigid) {
  Heavens sky;
  State a("a", 3), b("b", 2, /*simple=*/true);
  TestablePileUp p({a.part.get(), b.part.get()}, at(0), adaptive_parameters(), fixed_parameters(), &sky, nullptr);
  euler_turn = vf_choose(4, "euler");
  auto const before_a = p.actual_part_rigid_motion_.at(a.part.get()), before_b = p.actual_part_rigid_motion_.at(b.part.get());
  euler_ends.clear();
  p.DeformPileUpIfNeeded(at(2));
  vf_check(euler_ends.size() == 1 && euler_ends[0] == at(2), "Euler's equations are solved until the time given");
  auto const& after_a = p.actual_part_rigid_motion_.at(a.part.get());
  auto const& after_b = p.actual_part_rigid_motion_.at(b.part.get());
  Rotation<NonRotatingPileUp, NonRotatingPileUp> const r(turn(euler_turn));
  for (int k = 0; k < 4; ++k) {
    Displacement<RigidPart> const e({k == 0 ? 1 * Metre : 0 * Metre, k == 1 ? 1 * Metre : 0 * Metre, k == 2 ? 1 * Metre : 0 * Metre});
    auto const O = NonRotatingPileUp::origin;
    auto moved = [&](auto const& before, auto const& after) {
      auto const x = before.rigid_transformation()(RigidPart::origin + e) - O;
      auto const y = after.rigid_transformation()(RigidPart::origin + e) - O;
      eq(y.coordinates(), r(x).coordinates(), "The parts turn with the pile-up");
    };
    moved(before_a, after_a);
    moved(before_b, after_b);
  }
  auto const ωa = after_a.angular_velocity_of<RigidPart>(), ωb = after_b.angular_velocity_of<RigidPart>();
  eq(ωa.coordinates(), ωb.coordinates(), "The parts turn together");
  auto const da = after_a({RigidPart::origin, RigidPart::unmoving}), db = after_b({RigidPart::origin, RigidPart::unmoving});
  auto const x = (db.position() - da.position()).coordinates();
  auto const v = (db.velocity() - da.velocity()).coordinates();
  auto const w = ωa.coordinates();
  eq(v, R3Element<Speed>((w.y * x.z - w.z * x.y) / Radian, (w.z * x.x - w.x * x.z) / Radian, (w.x * x.y - w.y * x.x) / Radian), "The velocities are those of a rigid body");
}

// The integration of the trajectory and the histories of the parts.
VF_HARNESS(advance) {
  Heavens sky;
  State a("a", 3, /*simple=*/true), b("b", 2, /*simple=*/true);
  TestablePileUp p({a.part.get(), b.part.get()}, at(0), adaptive_parameters(), fixed_parameters(), &sky, nullptr);
  euler_turn = 0;
  double const ka = a.m / (a.m + b.m), kb = b.m / (a.m + b.m);
  P const r0 = a.r * ka + b.r * kb;
  V const v0 = a.v * ka + b.v * kb;
  int total = 0;
  // The last point of the history and of the psychohistory.
  double now = 0, authoritative = 0;
  bool instance = false;
  int instances = 0;
  Point psycho{};
  bool has_psycho = false;
  for (int step = 0; step < 2; ++step) {
    bool const force = vf_choose(2, "force");
    auto const f = force ? Vector<Force, Barycentric>({vf_real("fx", 0.125, 10) * Newton, vf_real("fy", -10, 10) * Newton, 0 * Newton}) : Vector<Force, Barycentric>();
    a.part->clear_intrinsic_force();
    a.part->apply_intrinsic_force(f);
    a.part->ClearHistory();
    b.part->ClearHistory();
    p.RecomputeFromParts();
    double const t = 10 * (step + 1);
    auto point = [&](double t) {
      ++total;
      std::string const n = "p" + std::to_string(total);
      return Point{t, P(r3<Length>((n + ".r").c_str())), V(r3<Speed>((n + ".v").c_str()))};
    };
    sky.fixed_points.clear();
    sky.adaptive_points.clear();
    std::vector<Point> history, psychohistory;
    int const flows = sky.flows, adaptive_flows = sky.adaptive_flows;
    int expected_adaptive = 0;
    if (force) {
      instance = false;
      if (has_psycho) history.push_back(psycho);
      int const n = vf_choose(2, "points");
      for (int k = 0; k <= n; ++k) sky.adaptive_points.push_back(point(k == n ? t : t - 4));
      for (auto const& q : sky.adaptive_points) history.push_back(q);
      expected_adaptive = 1;
      has_psycho = false;
      authoritative = t;
    } else {
      if (!instance) ++instances;
      instance = true;
      // The points before the end of the psychohistory are now computed for good.
      int const n = vf_choose(3, "points");
      if (n > 0) sky.fixed_points.push_back(point(authoritative + 3));
      if (n > 1) sky.fixed_points.push_back(point(t));
      history = sky.fixed_points;
      if (n > 0) authoritative = history.back().t;
      if (n < 2) {
        expected_adaptive = 1;
        sky.adaptive_points.push_back(psycho = point(t));
        psychohistory.push_back(psycho);
        has_psycho = true;
      } else {
        has_psycho = false;
      }
    }
    sky.accelerated = false;
    now = t;
    vf_check(p.DeformAndAdvanceTime(at(t)).ok(), "The pile-up advances");
    vf_check(sky.flows - flows == !force, "Free fall is integrated with a fixed step");
    vf_check(sky.adaptive_flows - adaptive_flows == expected_adaptive, "Burns and the rest of the step are integrated with an adaptive step");
    vf_check(sky.accelerated == force, "The burn is taken into account");
    vf_check(sky.instances == instances, "The integration is resumed if possible");
    if (force) eq((sky.acceleration * (a.m + b.m)).coordinates(), f.coordinates(), "The acceleration is that of the force");
    vf_check(p.history_->back().time == at(authoritative), "The history ends where it is known");
    vf_check(p.psychohistory_->back().time == at(now), "The psychohistory ends at the time");
    vf_check(p.trajectory_.front().time == at(authoritative), "What was given to the parts is forgotten");
    vf_check(static_cast<int>(p.trajectory_.size()) == 1 + static_cast<int>(has_psycho), "What was given to the parts is forgotten");
    auto const centre = history.empty() && psychohistory.empty() ? psycho : psychohistory.empty() ? history.back() : psychohistory.back();
    for (State* const x : {&a, &b}) {
      auto const offset = p.actual_part_rigid_motion_.at(x->part.get())({RigidPart::origin, RigidPart::unmoving});
      P const Δr((offset.position() - NonRotatingPileUp::origin).coordinates());
      V const Δv(offset.velocity().coordinates());
      auto compare = [&](auto it, auto const& end, std::vector<Point> const& points, bool skip) {
        std::size_t k = 0;
        for (; it != end; ++it) {
          if (skip && k == 0 && it->time != at(points.empty() ? 1e9 : points[0].t)) continue;
          vf_check(k < points.size(), "The parts only get the points of the pile-up");
          if (k >= points.size()) return;
          vf_check(it->time == at(points[k].t), "The times of the histories of the parts");
          eq((it->degrees_of_freedom.position() - Barycentric::origin).coordinates(), (points[k].p + Δr).coordinates(), "The parts follow the pile-up");
          eq(it->degrees_of_freedom.velocity().coordinates(), (points[k].v + Δv).coordinates(), "The parts have the velocity of the pile-up");
          ++k;
        }
        vf_check(k == points.size(), "The parts get all the points of the pile-up");
      };
      compare(x->part->history_begin(), x->part->history_end(), history, false);
      // The psychohistory starts with the last point of the history.
      compare(x->part->psychohistory_begin(), x->part->psychohistory_end(), psychohistory, true);
      auto const d = x->part->rigid_motion()({RigidPart::origin, RigidPart::unmoving});
      eq((d.position() - Barycentric::origin).coordinates(), (centre.p + Δr).coordinates(), "The parts are moved to the end of the step");
      eq(d.velocity().coordinates(), (centre.v + Δv).coordinates(), "The parts are moved to the end of the step");
    }
    // A second time, nothing happens.
    int const all = sky.flows + sky.adaptive_flows;
    vf_check(p.DeformAndAdvanceTime(at(t)).ok() && p.DeformAndAdvanceTime(at(t - 1)).ok(), "The pile-up is already there");
    vf_check(sky.flows + sky.adaptive_flows == all, "The pile-up is already there");
  }
  (void)r0; (void)v0;
}

// A pile-up that is read continues like the one that was written.
VF_HARNESS(pile_up_saved) {
  Heavens sky;
  State a("a", 3), b("b", 2, /*simple=*/true);
  Part a2(3, "a", a.m, EccentricPart::origin, inertia(a.I.x, a.I.y, a.I.z), motion(a.r, a.v, a.ω, a.i), nullptr);
  Part b2(2, "b", b.m, EccentricPart::origin, inertia(b.I.x, b.I.y, b.I.z), motion(b.r, b.v, b.ω, b.i), nullptr);
  TestablePileUp p({a.part.get(), b.part.get()}, at(0), adaptive_parameters(), fixed_parameters(), &sky, nullptr);
  euler_turn = vf_choose(2, "euler");
  game_turn = 0;
  Vector<Force, Barycentric> const f({vf_real("fx", 0.125, 10) * Newton, vf_real("fy", -10, 10) * Newton, 0 * Newton});
  bool const force = vf_choose(2, "force");
  if (force) {
    a.part->apply_intrinsic_force(f);
    a2.apply_intrinsic_force(f);
  }
  p.RecomputeFromParts();
  int const when = vf_choose(3, "when");
  sky.fixed_points = {{3, P(r3<Length>("r3")), V(r3<Speed>("v3"))}, {13, P(r3<Length>("r13")), V(r3<Speed>("v13"))}};
  if (when > 0) {
    sky.adaptive_points = {{10, P(r3<Length>("r10")), V(r3<Speed>("v10"))}};
    vf_check(p.DeformAndAdvanceTime(at(10)).ok(), "The pile-up advances");
  }
  if (when > 1) {
    // News from the game are not lost.
    auto const w = r3<double>("w");
    p.SetPartApparentRigidMotion(a.part.get(), apparent({1, 1, 2}, {1, 2, 3}, w, 0));
    p.SetPartApparentRigidMotion(b.part.get(), apparent({4, 1, 2}, {1, -1, 2}, w, 2));
  }
  // This is done at every step.
  p.RecomputeFromParts();
  principia::serialization::PileUp message;
  p.WriteToMessage(&message);
  bool deleted = false;
  {
    auto const read = PileUp::ReadFromMessage(
        message,
        [&](PartId const id) -> not_null<Part*> {
          vf_check(id == 2 || id == 3, "The parts of the pile-up");
          return id == 3 ? &a2 : &b2;
        },
        &sky, [&] { deleted = true; });
    auto& q = *static_cast<TestablePileUp*>(&*read);
    vf_check(q.parts().size() == 2 && q.parts().front() == &a2 && q.parts().back() == &b2, "The parts of the pile-up");
    auto same = [&] {
      vf_check(q.trajectory_.size() == p.trajectory_.size() && q.history_->size() == p.history_->size() &&
                   q.psychohistory_->size() == p.psychohistory_->size(), "The history and psychohistory");
      eq(q.angular_momentum_.coordinates(), p.angular_momentum_.coordinates(), "The angular momentum");
      eq(q.mass_, p.mass_, "The mass");
      eq(q.intrinsic_force_.coordinates(), p.intrinsic_force_.coordinates(), "The force");
      eq(q.intrinsic_torque_.coordinates(), p.intrinsic_torque_.coordinates(), "The torque");
      auto i = q.trajectory_.begin();
      for (auto const& [t, d] : p.trajectory_) {
        vf_check(i->time == t, "The times of the trajectory");
        eq(i->degrees_of_freedom.position(), d.position(), "The positions of the trajectory");
        eq(i->degrees_of_freedom.velocity().coordinates(), d.velocity().coordinates(), "The velocities of the trajectory");
        ++i;
      }
      for (auto const& [x, y] : {std::pair{a.part.get(), &a2}, std::pair{b.part.get(), &b2}}) {
        auto const& mx = p.actual_part_rigid_motion_.at(x);
        auto const& my = q.actual_part_rigid_motion_.at(y);
        auto const dx = mx({RigidPart::origin, RigidPart::unmoving}), dy = my({RigidPart::origin, RigidPart::unmoving});
        eq(dy.position(), dx.position(), "The positions of the parts");
        eq(dy.velocity().coordinates(), dx.velocity().coordinates(), "The velocities of the parts");
        eq(my.angular_velocity_of<RigidPart>().coordinates(), mx.angular_velocity_of<RigidPart>().coordinates(), "The angular velocities of the parts");
        Vector<double, RigidPart> const e({1, 2, 3});
        eq(my.orthogonal_map()(e).coordinates(), mx.orthogonal_map()(e).coordinates(), "The attitudes of the parts");
      }
    };
    same();
    sky.adaptive_points = {{20, P(r3<Length>("r20")), V(r3<Speed>("v20"))}};
    if (when > 0) sky.fixed_points.erase(sky.fixed_points.begin());
    euler_turn = 2;
    auto const fixed_points = sky.fixed_points;
    vf_check(p.DeformAndAdvanceTime(at(20)).ok(), "The pile-up advances");
    sky.trajectory = nullptr;
    vf_check(q.DeformAndAdvanceTime(at(20)).ok(), "The pile-up that was read advances");
    same();
  }
  vf_check(deleted, "The callback is run");
}

// The properties of a part.
VF_HARNESS(part_state) {
  State a("a", 3);
  Part& p = *a.part;
  vf_check(p.part_id() == 3 && p.truthful() && !p.is_piled_up() && !p.is_solid_rocket_motor(), "A new part");
  eq(p.mass_change(), Mass(), "A new part");
  Mass const m1 = vf_real("m1", 0.125, 8) * Kilogram, m2 = vf_real("m2", 0.125, 8) * Kilogram;
  p.set_mass(m1);
  eq(p.mass_change(), m1 - a.m, "The change of mass");
  p.set_mass(m2);
  eq(p.mass(), m2, "The mass");
  eq(p.mass_change(), m2 - m1, "The change of mass");
  // A part whose centre of mass is not the origin of the game.
  Displacement<EccentricPart> const c(r3<Length>("c"));
  Part q(4, "q", m1, EccentricPart::origin + c, inertia(1, 2, 3), motion(a.r, a.v, a.ω, a.i), nullptr);
  auto const d = q.rigid_motion()({RigidPart::origin, RigidPart::unmoving});
  auto const cw = attitude<EccentricPart, Barycentric>(a.i)(c).coordinates();
  auto const w = a.ω.coordinates();
  eq((d.position() - Barycentric::origin).coordinates(), a.r.coordinates() + cw, "The part is at its centre of mass");
  eq(d.velocity().coordinates(), a.v.coordinates() + R3Element<Speed>((w.y * cw.z - w.z * cw.y) / Radian, (w.z * cw.x - w.x * cw.z) / Radian, (w.x * cw.y - w.y * cw.x) / Radian), "The velocity is that of the centre of mass");
  eq(q.rigid_motion().angular_velocity_of<RigidPart>().coordinates(), w, "The angular velocity");
  q.set_centre_of_mass(EccentricPart::origin + c * 2);
  auto const e = q.MakeRigidToEccentricMotion()({RigidPart::origin, RigidPart::unmoving});
  eq((e.position() - EccentricPart::origin).coordinates(), (c * 2).coordinates(), "The centre of mass is where it is set");
  eq(e.velocity().coordinates(), R3Element<Speed>(), "The centre of mass is fixed in the part");
  // Drag.
  double const α = vf_real("drag", -10, 10), Δt = vf_real("dt", 0.125, 10);
  AngularVelocity<RigidPart> const ω(r3<AngularFrequency>("omega"));
  auto const τ = Part::DragTorqueFromAngularVelocity(α / Second, Δt * Second, ω, inertia(a.I.x, a.I.y, a.I.z)).coordinates();
  double const k = α < 0 ? 0 : α * Δt > 1 ? 1 / Δt : α;
  auto const o = ω.coordinates();
  eq(R3Element<double>(num(τ.x), num(τ.y), num(τ.z)), R3Element<double>(-k * a.I.x * num(o.x), -k * a.I.y * num(o.y), -k * a.I.z * num(o.z)), "The drag never reverses the rotation", 1e-5);
}

// A part that is read is the one that was written.
VF_HARNESS(part_saved) {
  State a("a", 0xDEADBEEF);
  Part& p = *a.part;
  Displacement<EccentricPart> const c(r3<Length>("c"));
  p.set_centre_of_mass(EccentricPart::origin + c);
  auto const f = Vector<Force, Barycentric>(r3<Force>("f"));
  auto const τ = Bivector<Torque, Barycentric>(r3<Torque>("torque"));
  p.apply_intrinsic_force(f);
  p.apply_intrinsic_torque(τ);
  int const h = vf_choose(3, "history"), s = vf_choose(2, "psychohistory");
  P const r(r3<Length>("r"));
  V const v(r3<Speed>("v"));
  for (int k = 0; k < h; ++k) p.AppendToHistory(at(k), {Barycentric::origin + r * (k + 1), v});
  if (s) p.AppendToPsychohistory(at(5), {Barycentric::origin - r, v});
  principia::serialization::Part message;
  p.WriteToMessage(&message, [](not_null<PileUp const*>) { return 1; });
  vf_check(!message.has_containing_pile_up(), "Without a pile-up");
  auto const q = Part::ReadFromMessage(message, nullptr);
  vf_check(q->part_id() == 0xDEADBEEF && q->truthful(), "The identity of the part");
  eq(q->mass(), p.mass(), "The mass");
  eq(q->intrinsic_force().coordinates(), f.coordinates(), "The force");
  eq(q->intrinsic_torque().coordinates(), τ.coordinates(), "The torque");
  auto const e = q->MakeRigidToEccentricMotion()({RigidPart::origin, RigidPart::unmoving});
  eq((e.position() - EccentricPart::origin).coordinates(), c.coordinates(), "The centre of mass");
  auto const I = q->inertia_tensor().coordinates().Diagonal();
  eq(R3Element<double>(num(I.x), num(I.y), num(I.z)), a.I, "The inertia");
  auto const d = q->rigid_motion()({RigidPart::origin, RigidPart::unmoving});
  eq((d.position() - Barycentric::origin).coordinates(), a.r.coordinates(), "The position");
  eq(d.velocity().coordinates(), a.v.coordinates(), "The velocity");
  eq(q->rigid_motion().angular_velocity_of<RigidPart>().coordinates(), a.ω.coordinates(), "The angular velocity");
  int n = 0;
  for (auto it = q->history_begin(); it != q->history_end(); ++it, ++n) {
    vf_check(it->time == at(n), "The times of the history");
    eq((it->degrees_of_freedom.position() - Barycentric::origin).coordinates(), (r * (n + 1)).coordinates(), "The positions of the history");
  }
  vf_check(n == h, "The points of the history");
  if (s) {
    auto it = q->psychohistory_end();
    --it;
    vf_check(it->time == at(5), "The psychohistory");
    eq((it->degrees_of_freedom.position() - Barycentric::origin).coordinates(), (-r).coordinates(), "The psychohistory");
  }
}
