// Mechanical systems: centre of mass, angular momentum and inertia.
//@ entry linear mode=real max-seconds=60
//@ entry angular mode=real max-seconds=200
//@ entry inertia mode=real max-seconds=200
//@ src $VERIF/rt/elementary.cc
//@ bound Systems of 1 to 3 rigid bodies (2 for the angular momentum and the inertia), all masses in [0.1, 10], all positions, velocities and angular velocities with coordinates of magnitude at most 10, all attitudes (unit quaternions) of either handedness, all symmetric inertia tensors with elements of magnitude at most 10.
//@ assume Real arithmetic instead of rounded floating point.
#include "geo.h"
#include "geometry/orthogonal_map.hpp"
#include "geometry/rotation.hpp"
#include "geometry/signature.hpp"
#include "geometry/space_transformations.hpp"
#include "geometry/symmetric_bilinear_form.hpp"
#include "physics/degrees_of_freedom.hpp"
#include "physics/mechanical_system.hpp"
#include "physics/rigid_motion.hpp"
#include "physics/tensors.hpp"

using namespace vf;
using namespace principia::geometry::_orthogonal_map;
using namespace principia::geometry::_rotation;
using namespace principia::geometry::_signature;
using namespace principia::geometry::_r3x3_matrix;
using namespace principia::geometry::_space_transformations;
using namespace principia::geometry::_symmetric_bilinear_form;
using namespace principia::physics::_degrees_of_freedom;
using namespace principia::physics::_mechanical_system;
using namespace principia::physics::_rigid_motion;
using namespace principia::physics::_tensors;

using Inert = W1;
using System = W2;
template<int i> struct Tag;
template<int i, Handedness h>
using Body = Frame<Tag<i>, Arbitrary, h>;

static R3Element<double> cross(R3Element<double> const& a, R3Element<double> const& b) {
  return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x};
}
template<typename Q>
static R3Element<double> raw(R3Element<Q> const& a) { return {num(a.x), num(a.y), num(a.z)}; }

struct State {
  double m;
  R3Element<double> r, v, ω;
  // The rotation from the body to the inertial axes, as columns, and the
  // inertia in the body axes.
  R3Element<double> e[3];
  double I[3][3];
  DegreesOfFreedom<Inert> dof() const {
    return {Inert::origin + Displacement<Inert>(r * Metre), Velocity<Inert>(v * (Metre / Second))};
  }
  // The inertia in inertial axes, wrt the centre of mass of the body.
  double Iw(int i, int j) const {
    auto c = [](R3Element<double> const& a, int k) { return k == 0 ? a.x : k == 1 ? a.y : a.z; };
    double s = 0;
    for (int k = 0; k < 3; ++k) for (int l = 0; l < 3; ++l) s += c(e[k], i) * I[k][l] * c(e[l], j);
    return s;
  }
};

template<int i, Handedness h>
static State add(MechanicalSystem<Inert, System>& system, bool rotates, bool tensor) {
  using B = Body<i, h>;
  State s;
  std::string const n = "b" + std::to_string(i);
  s.m = vf_real((n + ".m").c_str(), 0.1, 10);
  s.r = r3<double>((n + ".r").c_str());
  s.v = r3<double>((n + ".v").c_str());
  s.ω = rotates ? r3<double>((n + ".ω").c_str()) : R3Element<double>{};
  for (int k = 0; k < 3; ++k) for (int l = k; l < 3; ++l)
    s.I[k][l] = s.I[l][k] = tensor ? vf_real((n + ".I").c_str(), -10, 10) : k == l ? k + 1 : 0.5;
  OrthogonalMap<B, Inert> const o = [&] {
    using Mid = Frame<struct MidTag, Arbitrary, h>;
    auto const q = tensor ? unit_quaternion((n + ".q").c_str()) : Quaternion(1);
    auto const r = Rotation<B, Mid>(q).template Forget<OrthogonalMap>();
    if constexpr (h == Handedness::Right) return OrthogonalMap<Mid, Inert>::Identity() * r;
    else return Signature<Mid, Inert>::CentralInversion().template Forget<OrthogonalMap>() * r;
  }();
  s.e[0] = o(Vector<double, B>({1, 0, 0})).coordinates();
  s.e[1] = o(Vector<double, B>({0, 1, 0})).coordinates();
  s.e[2] = o(Vector<double, B>({0, 0, 1})).coordinates();
  RigidMotion<B, Inert> const motion(
      RigidTransformation<B, Inert>(B::origin, s.dof().position(), o),
      AngularVelocity<Inert>(s.ω * (Radian / Second)),
      s.dof().velocity());
  system.AddRigidBody<B>(motion, s.m * Kilogram,
      principia::physics::_tensors::InertiaTensor<B>(R3x3Matrix<MomentOfInertia>(
          R3Element<MomentOfInertia>(s.I[0][0] * si::Unit<MomentOfInertia>, s.I[0][1] * si::Unit<MomentOfInertia>, s.I[0][2] * si::Unit<MomentOfInertia>),
          R3Element<MomentOfInertia>(s.I[1][0] * si::Unit<MomentOfInertia>, s.I[1][1] * si::Unit<MomentOfInertia>, s.I[1][2] * si::Unit<MomentOfInertia>),
          R3Element<MomentOfInertia>(s.I[2][0] * si::Unit<MomentOfInertia>, s.I[2][1] * si::Unit<MomentOfInertia>, s.I[2][2] * si::Unit<MomentOfInertia>))));
  return s;
}
struct Barycentre {
  double m = 0;
  R3Element<double> r{}, v{};
  explicit Barycentre(std::vector<State> const& s) {
    for (auto const& b : s) {
      m += b.m;
      r += b.m * b.r;
      v += b.m * b.v;
    }
    r = r / m;
    v = v / m;
  }
};

VF_HARNESS(linear) {
  MechanicalSystem<Inert, System> system;
  int const n = 1 + vf_choose(3, "bodies");
  std::vector<State> bodies;
  bodies.push_back(add<0, Handedness::Right>(system, true, false));
  if (n > 1) bodies.push_back(add<1, Handedness::Right>(system, true, false));
  if (n > 2) bodies.push_back(add<2, Handedness::Right>(system, false, false));
  Barycentre const b(bodies);
  eq(num(system.mass()), b.m, "mass");
  vf::eq(raw((system.centre_of_mass().position() - Inert::origin).coordinates()), b.r, "centre of mass", 1e-3);
  vf::eq(raw(system.centre_of_mass().velocity().coordinates()), b.v, "velocity of the centre of mass", 1e-3);
  auto const M = system.LinearMotion();
  DegreesOfFreedom<System> const d(System::origin + v<Length, System>("q"), v<Speed, System>("v"));
  vf::eq(raw((M(d).position() - Inert::origin).coordinates()), b.r + raw((d.position() - System::origin).coordinates()), "motion of the system", 1e-3);
  vf::eq(raw(M(d).velocity().coordinates()), b.v + raw(d.velocity().coordinates()), "motion of the system", 1e-3);
}

static void both(bool two, std::vector<State>& bodies, MechanicalSystem<Inert, System>& system) {
  if (vf_choose(2, "handedness") == 0) bodies.push_back(add<0, Handedness::Right>(system, true, true));
  else bodies.push_back(add<0, Handedness::Left>(system, true, true));
  if (two) bodies.push_back(add<1, Handedness::Right>(system, true, false));
}

VF_HARNESS(angular) {
  MechanicalSystem<Inert, System> system;
  std::vector<State> bodies;
  both(vf_choose(2, "two"), bodies, system);
  Barycentre const b(bodies);
  R3Element<double> L{};
  for (auto const& s : bodies) {
    L += s.m * cross(s.r - b.r, s.v - b.v);
    L += R3Element<double>(s.Iw(0, 0) * s.ω.x + s.Iw(0, 1) * s.ω.y + s.Iw(0, 2) * s.ω.z,
                           s.Iw(1, 0) * s.ω.x + s.Iw(1, 1) * s.ω.y + s.Iw(1, 2) * s.ω.z,
                           s.Iw(2, 0) * s.ω.x + s.Iw(2, 1) * s.ω.y + s.Iw(2, 2) * s.ω.z);
  }
  vf::eq(raw(system.AngularMomentum().coordinates()), L, "angular momentum", 1e-2);
}

VF_HARNESS(inertia) {
  MechanicalSystem<Inert, System> system;
  std::vector<State> bodies;
  both(vf_choose(2, "two"), bodies, system);
  Barycentre const b(bodies);
  double I[3][3] = {};
  for (auto const& s : bodies) {
    auto const d = s.r - b.r;
    double const x[3] = {d.x, d.y, d.z};
    double const r2 = d.x * d.x + d.y * d.y + d.z * d.z;
    for (int i = 0; i < 3; ++i)
      for (int j = 0; j < 3; ++j) I[i][j] += s.Iw(i, j) + s.m * ((i == j ? r2 : 0) - x[i] * x[j]);
  }
  auto const c = system.InertiaTensor().coordinates();
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) eq(num(c(i, j)), I[i][j], "inertia", 1e-2);
}
