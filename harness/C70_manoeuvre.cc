// Manœuvres: timing, mass, direction and acceleration.
//@ entry timing mode=real max-seconds=100
//@ entry no_intensity mode=real max-seconds=60
//@ entry predicates mode=real max-seconds=60
//@ entry acceleration mode=real max-seconds=100
//@ entry intensity mode=real max-seconds=100
//@ entry permutations mode=real max-seconds=100
//@ entry serialization mode=real max-seconds=100
//@ src $VERIF/rt/elementary.cc
//@ bound All initial masses, thrusts and specific impulses; Δv of any norm in 3 directions, or any Δv in spherical coordinates (with any of the even permutations of the axes); both ways of giving the time; any motion of the frame (unit quaternions), any Frenet frame, any state of the vessel, at any time.
//@ assume Real arithmetic instead of rounded floating point; exponentials and roots are exact and only related by their algebraic properties. The reference frame is replaced by an arbitrary one.
#include "quiet_streams.h"
#include "geo.h"
#include "geometry/orthogonal_map.hpp"
#include "geometry/permutation.hpp"
#include "geometry/rotation.hpp"
#include "ksp_plugin/frames.hpp"
#include "ksp_plugin/manœuvre.hpp"
#include "numerics/elementary_functions.hpp"
#include "physics/discrete_trajectory.hpp"
#include "physics/rigid_motion.hpp"
#include "physics/rigid_reference_frame.hpp"

using namespace vf;
using namespace principia::base::_not_null;
using namespace principia::geometry::_orthogonal_map;
using namespace principia::geometry::_permutation;
using namespace principia::geometry::_rotation;
using namespace principia::geometry::_space_transformations;
using namespace principia::ksp_plugin::_frames;
using namespace principia::ksp_plugin::_manœuvre;
using namespace principia::physics::_degrees_of_freedom;
using namespace principia::physics::_discrete_trajectory;
using namespace principia::physics::_ephemeris;
using namespace principia::physics::_reference_frame;
using namespace principia::physics::_rigid_motion;
using namespace principia::physics::_rigid_reference_frame;
using namespace principia::numerics::_elementary_functions;

namespace principia::geometry::_point::internal {
std::string DebugString(Instant const&) { return ""; }
}  // namespace principia::geometry::_point::internal

using Burnt = Manœuvre<Barycentric, Navigation>;
using Rigid = RigidReferenceFrame<Barycentric, Navigation>;
using NavigationFrenet = Frenet<Navigation>;

namespace {
// A frame in uniform motion, and any Frenet frame.
struct AnyFrame : Rigid {
  Rotation<Barycentric, Navigation> rotation{Quaternion(1)};
  Rotation<NavigationFrenet, Navigation> frenet{Quaternion(1)};
  Displacement<Barycentric> origin;
  Velocity<Barycentric> velocity;
  mutable std::vector<Instant> times;
  mutable std::vector<DegreesOfFreedom<Navigation>> states;
  Instant t_min() const override { return Instant(); }
  Instant t_max() const override { return Instant(); }
  RigidMotion<Barycentric, Navigation> ToThisFrameAtTime(Instant const& t) const override {
    times.push_back(t);
    // The origin moves.
    return RigidMotion<Barycentric, Navigation>(
        RigidTransformation<Barycentric, Navigation>(Barycentric::origin + origin + velocity * (t - Instant()), Navigation::origin,
                                                     rotation.Forget<OrthogonalMap>()),
        AngularVelocity<Barycentric>(), velocity);
  }
  Rotation<NavigationFrenet, Navigation> FrenetFrame(Instant const& t, DegreesOfFreedom<Navigation> const& dof) const override {
    times.push_back(t);
    states.push_back(dof);
    return frenet;
  }
  Vector<Acceleration, Navigation> GravitationalAcceleration(Instant const&, Position<Navigation> const&) const { return {}; }
  void HashValue(absl::HashState) const override {}
  void WriteToMessage(not_null<principia::serialization::ReferenceFrame*> const) const override {}
  Vector<Acceleration, Barycentric> GravitationalAcceleration(Instant const&, Position<Barycentric> const&) const override { return {}; }
  SpecificEnergy GravitationalPotential(Instant const&, Position<Barycentric> const&) const override { return {}; }
  AcceleratedRigidMotion<Barycentric, Navigation> MotionOfThisFrame(Instant const&) const override { std::abort(); }
};
}  // namespace

// Reading a frame gives this.
template<>
not_null<std::unique_ptr<Rigid>> Rigid::ReadFromMessage(principia::serialization::ReferenceFrame const&, not_null<Ephemeris<Barycentric> const*>) {
  return not_null<std::unique_ptr<Rigid>>(std::make_unique<AnyFrame>());
}

namespace {
double positive(char const* n, double lo = 0.1, double hi = 10) { return vf_real(n, lo, hi); }

struct Case {
  double m, F, isp, s, v;  // Mass, thrust, impulse, Δv and its norm.
  R3Element<double> d;     // The direction.
  double t0;
  std::shared_ptr<AnyFrame> frame = std::make_shared<AnyFrame>();
  Burnt::Burn burn(bool half = false, bool fixed = true) {
    R3Element<Speed> const Δv(d.x * v * si::Unit<Speed>, d.y * v * si::Unit<Speed>, d.z * v * si::Unit<Speed>);
    Burnt::Timing timing;
    (half ? timing.time_of_half_Δv : timing.initial_time) = Instant() + t0 * Second;
    return Burnt::Burn{Burnt::Intensity(Δv), timing, F * si::Unit<Force>, isp * si::Unit<SpecificImpulse>,
                       not_null<std::shared_ptr<Rigid const>>(std::shared_ptr<Rigid const>(frame)), fixed};
  }
};
Case make(bool symbolic_direction = true) {
  Case c;
  c.m = positive("m");
  c.F = positive("F");
  c.isp = positive("isp");
  c.s = positive("s");
  c.v = c.s;
  c.t0 = vf_real("t0", -10, 10);
  static double const ds[][3] = {{1, 2, 2}, {-2, 1, -2}, {0, -3, 0}};
  double const* const d = ds[symbolic_direction ? vf_choose(3, "direction") : 0];
  c.v = c.s / 3;
  c.d = R3Element<double>(d[0], d[1], d[2]);
  return c;
}
double sec(Instant const& t) { return (t - Instant()) / Second; }
}  // namespace

// Циолковский.
VF_HARNESS(timing) {
  Case c = make();
  bool const half = vf_choose(2, "half");
  Burnt const b(c.m * Kilogram, c.burn(half));
  double const flow = c.F / c.isp;
  double const remaining = std::exp(-c.s / c.isp);
  eq(num(b.mass_flow()), flow, "The mass flow");
  vf_near(num(b.final_mass()), c.m * remaining, 1e-6, "The final mass is that of the equation of Циолковский");
  vf_near(num(b.duration()), c.m * (1 - remaining) / flow, 1e-6, "The duration is that for which the mass flows");
  // The mass when half the Δv was applied.
  double const until_half = num(b.time_to_half_Δv());
  double const x = 1 - until_half * flow / c.m;
  vf_near(x * x, remaining, 1e-6, "The mass ratio for half of the Δv is the square root of the mass ratio");
  vf_check(x >= -1e-6, "The mass at half of the Δv is not negative");
  vf_near(sec(b.time_of_half_Δv()) - sec(b.initial_time()), until_half, 1e-6, "The initial time and that of half the Δv are consistent");
  vf_near(sec(b.final_time()) - sec(b.initial_time()), num(b.duration()), 1e-6, "The duration is that between the initial and final times");
  vf_near(sec(half ? b.time_of_half_Δv() : b.initial_time()), c.t0, 1e-6, "The time is the one given");
  vf_check(b.timing().initial_time.has_value() == !half && b.timing().time_of_half_Δv.has_value() == half, "The timing is the one given at construction");
  eq(b.Δv().coordinates() / si::Unit<Speed>, c.d * c.v, "The velocity increment");
  eq(b.direction().coordinates() * 3, c.d, "The direction");
  eq(num(b.initial_mass()), c.m, "The initial mass");
  eq(num(b.thrust()), c.F, "The thrust");
  eq(num(b.specific_impulse()), c.isp, "The specific impulse");
  vf_check(!b.IsSingular(), "It is not singular");
}

VF_HARNESS(no_intensity) {
  Case c = make();
  c.v = 0;
  if (vf_choose(2, "no_thrust")) c.F = 0;
  bool const half = vf_choose(2, "half");
  Burnt const b(c.m * Kilogram, c.burn(half));
  eq(num(b.duration()), 0, "A null manœuvre is instantaneous");
  eq(b.direction().coordinates(), R3Element<double>(0, 0, 0), "A null manœuvre has no direction");
  eq(num(b.final_mass()), c.m, "A null manœuvre doesn't change the mass");
  eq(num(b.time_to_half_Δv()), 0, "A null manœuvre is half done at once");
  eq(sec(b.initial_time()), c.t0, "The initial time");
  eq(sec(b.time_of_half_Δv()), c.t0, "The time of half the Δv");
  eq(sec(b.final_time()), c.t0, "The final time");
}

VF_HARNESS(predicates) {
  Case c = make(false);
  Burnt const b(c.m * Kilogram, c.burn());
  double const begin = vf_real("begin", -20, 20), end = vf_real("end", -20, 40);
  double const t1 = sec(b.initial_time()), t2 = sec(b.final_time());
  vf_check(b.IsAfter(Instant() + begin * Second) == (begin < t1), "IsAfter");
  vf_check(b.FitsBetween(Instant() + begin * Second, Instant() + end * Second) == (begin < t1 && t2 < end), "FitsBetween");
}

// The acceleration is along the Frenet frame and is that of the thrust on the remaining mass.
VF_HARNESS(acceleration) {
  Case c = make(false);
  bool const fixed = vf_choose(2, "fixed");
  AnyFrame& f = *c.frame;
  f.rotation = Rotation<Barycentric, Navigation>(unit_quaternion("to_frame"));
  static double const frenets[][4] = {{0.5, 0.5, 0.5, -0.5}, {0.8, 0, 0.6, 0}, {0, 1, 0, 0}};
  double const* const p = frenets[vf_choose(3, "frenet")];
  f.frenet = Rotation<NavigationFrenet, Navigation>(Quaternion(p[0], {p[1], p[2], p[3]}));
  f.origin = v<Length, Barycentric>("origin");
  f.velocity = v<Speed, Barycentric>("velocity");
  Burnt b(c.m * Kilogram, c.burn(false, fixed));
  Instant const t0 = b.initial_time();
  DegreesOfFreedom<Barycentric> const state(Barycentric::origin + v<Length, Barycentric>("q"), v<Speed, Barycentric>("p"));
  DegreesOfFreedom<Barycentric> const other(Barycentric::origin + v<Length, Barycentric>("q2"), v<Speed, Barycentric>("p2"));
  DiscreteTrajectory<Barycentric> trajectory;
  trajectory.Append(t0 - 1 * Second, other);
  trajectory.Append(t0, state);
  trajectory.Append(t0 + 1 * Second, other);
  b.set_coasting_trajectory(trajectory.segments().begin());
  // The time of the evaluation.
  double const flow = c.F / c.isp;
  int const where = vf_choose(4, "where");
  double x = 0, T = num(b.duration());
  vf_assume(T >= 0.01);  // The solver doesn't know that the exponential is monotonic.
  if (where == 0) { x = vf_real("x", -5, -0.01); }
  if (where == 1) { x = vf_real("x", 0, 20); vf_assume(x <= T - 0.01); }
  if (where == 2) { x = vf_real("x", 0, 40); vf_assume(x >= T + 0.01); }
  Instant const t = t0 + x * Second;
  bool const during = where == 1 || where == 3;
  Vector<Acceleration, Barycentric> a;
  f.times.clear();
  f.states.clear();
  if (fixed) {
    a = b.InertialIntrinsicAcceleration()(t);
  } else {
    a = b.FrenetIntrinsicAcceleration()(t, other);
  }
  // The Frenet frame is that of the state at the right time.
  Instant const when = fixed ? t0 : t;
  DegreesOfFreedom<Barycentric> const& at = fixed ? state : other;
  vf_check(f.states.size() == 1, "The Frenet frame is evaluated once");
  for (auto const& time : f.times) eq(sec(time), sec(when), "The Frenet frame is evaluated at the initial time for an inertially fixed manœuvre, at the current time otherwise");
  auto const expected_position = f.rotation((at.position() - Barycentric::origin) - f.origin - f.velocity * (when - Instant()));
  auto const expected_velocity = f.rotation(at.velocity() - f.velocity);
  if (!f.states.empty()) {
    eq(f.states[0].position() - Navigation::origin, expected_position, "The Frenet frame is evaluated at the position in the frame");
    eq(f.states[0].velocity(), expected_velocity, "The Frenet frame is evaluated at the velocity in the frame");
  }
  // The acceleration times the mass, in the reference frame, is the thrust in its direction there.
  auto const rotated = f.rotation(a);
  auto const direction = f.frenet(Vector<double, NavigationFrenet>(c.d / 3));
  double const m = c.m - flow * x;
  for (int i = 0; i < 3; ++i) {
    auto const get = [i](auto const& u) { return i == 0 ? u.x : i == 1 ? u.y : u.z; };
    eq(num(get(rotated.coordinates())) * m, during ? c.F * get(direction.coordinates()) : 0, "The acceleration is the thrust divided by the remaining mass, during the burn");
  }
  if (fixed) {
    eq(f.rotation(b.InertialDirection()), direction, "The inertial direction");
    eq(f.rotation(b.FrenetFrame()(b.direction())), direction, "The Frenet frame at the beginning of the manœuvre");
  }
}

namespace {
EvenPermutation some_permutation() {
  switch (vf_choose(3, "permutation")) {
    case 0: return EvenPermutation::XYZ;
    case 1: return EvenPermutation::YZX;
    default: return EvenPermutation::ZXY;
  }
}
using P = Permutation<PermutedFrenet<Navigation>, NavigationFrenet>;
}  // namespace

VF_HARNESS(intensity) {
  R3Element<Speed> const c = r3<Speed>("dv");
  vf_assume(c.x / si::Unit<Speed> >= 0.5);
  Burnt::Intensity i(c);
  vf_check(!i.has_spherical_coordinates(), "Cartesian coordinates are kept as such");
  eq(i.Δv_cartesian_coordinates(), c, "The coordinates given");
  eq(i.Δv().coordinates(), c, "The velocity increment");
  eq(i.direction().Norm²(), 1, "The direction is a unit vector");
  eq(i.direction() * i.Δv().Norm(), i.Δv() / si::Unit<Speed> * si::Unit<Speed>, "The direction is that of the velocity increment");
  R3Element<Speed> const e = r3<Speed>("new");
  vf_assume(e.y / si::Unit<Speed> >= 0.5);
  i.set_Δv(Velocity<NavigationFrenet>(e));
  vf_check(!i.has_spherical_coordinates(), "The representation is kept");
  eq(i.Δv_cartesian_coordinates(), e, "The coordinates set");
  eq(i.Δv().coordinates(), e, "The velocity increment set");
  eq(i.direction() * i.Δv().Norm(), i.Δv(), "The direction is that of the velocity increment set");
}

VF_HARNESS(permutations) {
  auto const permutation = some_permutation();
  double const r = positive("r", 0.5);
  double const latitude = vf_angle("latitude"), longitude = vf_angle("longitude");
  SphericalCoordinates<Speed> spherical;
  spherical.radius = r * si::Unit<Speed>;
  spherical.latitude = latitude * Radian;
  spherical.longitude = longitude * Radian;
  Burnt::Intensity i(P(permutation), spherical);
  vf_check(i.has_spherical_coordinates(), "Spherical coordinates are kept as such");
  double const x = r * Cos(latitude * Radian) * Cos(longitude * Radian), y = r * Cos(latitude * Radian) * Sin(longitude * Radian), z = r * Sin(latitude * Radian);
  // The coordinates of the image of (x, y, z) by the permutation: XYZ is the identity, YZX reads the coordinates in that order.
  auto const expected = P(permutation)(Vector<double, PermutedFrenet<Navigation>>(R3Element<double>(x, y, z)));
  R3Element<double> const image = permutation == EvenPermutation::XYZ ? R3Element<double>(x, y, z)
                                : permutation == EvenPermutation::YZX ? R3Element<double>(y, z, x)
                                                                                               : R3Element<double>(z, x, y);
  eq(expected.coordinates(), image, "The permutation of the axes");
  eq(i.Δv().coordinates() / si::Unit<Speed>, image, "The velocity increment");
  eq(i.Δv_cartesian_coordinates() / si::Unit<Speed>, image, "The Cartesian coordinates");
  auto const s = i.Δv_spherical_coordinates();
  eq(num(s.radius), r, "The radius given");
  eq(s.latitude / Radian, latitude, "The latitude given");
  eq(s.longitude / Radian, longitude, "The longitude given");
  eq(i.direction().coordinates() * r, image, "The direction");
  // Setting keeps the representation.
  R3Element<double> const e(2, -3, 6);
  double const k = positive("k");
  i.set_Δv(Velocity<NavigationFrenet>(e * k * si::Unit<Speed>));
  vf_check(i.has_spherical_coordinates(), "The representation is kept");
  eq(i.Δv().coordinates() / si::Unit<Speed>, e * k, "The velocity increment set");
  eq(num(i.Δv_spherical_coordinates().radius), 7 * k, "The radius set");
  auto const back = P(permutation)(Vector<double, PermutedFrenet<Navigation>>(i.Δv_spherical_coordinates().ToCartesian() / si::Unit<Speed>));
  eq(back.coordinates(), e * k, "The spherical coordinates set are those of the velocity increment");
  eq(i.direction().coordinates() * 7, e, "The direction set");
  // Serialization.
  principia::serialization::Intensity message;
  i.WriteToMessage(&message);
  auto const read = Burnt::Intensity::ReadFromMessage(message);
  vf_check(read.has_spherical_coordinates(), "The representation is kept by the serialization");
  eq(read.Δv().coordinates() / si::Unit<Speed>, e * k, "The velocity increment read");
}

VF_HARNESS(serialization) {
  Case c = make(false);
  bool const fixed = vf_choose(2, "fixed"), half = vf_choose(2, "half");
  Burnt::Burn burn = c.burn(half, fixed);
  SphericalCoordinates<Speed> spherical;
  spherical.radius = c.s * si::Unit<Speed>;
  spherical.latitude = vf_angle("latitude") * Radian;
  spherical.longitude = vf_angle("longitude") * Radian;
  burn.intensity = Burnt::Intensity(P(EvenPermutation::YZX), spherical);
  Burnt const b(c.m * Kilogram, burn);
  principia::serialization::Manoeuvre message;
  b.WriteToMessage(&message);
  char ephemeris[sizeof(Ephemeris<Barycentric>)];
  auto const r = Burnt::ReadFromMessage(message, reinterpret_cast<Ephemeris<Barycentric>*>(&ephemeris));
  eq(sec(r.initial_time()), sec(b.initial_time()), "The initial time read");
  eq(sec(r.time_of_half_Δv()), sec(b.time_of_half_Δv()), "The time of half the Δv read");
  eq(sec(r.final_time()), sec(b.final_time()), "The final time read");
  eq(num(r.initial_mass()), c.m, "The initial mass read");
  eq(num(r.thrust()), c.F, "The thrust read");
  eq(num(r.specific_impulse()), c.isp, "The specific impulse read");
  eq(r.Δv(), b.Δv(), "The velocity increment read");
  vf_check(r.is_inertially_fixed() == fixed, "Whether it is inertially fixed, read");
}
