// Reference frames: motions, accelerations, potentials.
//@ entry non_rotating mode=real max-seconds=150
//@ entry rotating_centre mode=real max-seconds=150
//@ entry body_surface mode=real max-seconds=150
//@ entry frenet mode=real max-seconds=150
//@ entry body_direction mode=real max-seconds=150
//@ entry target mode=real max-seconds=150
//@ entry direction_anchors mode=real max-seconds=150
//@ entry barycentric mode=real max-seconds=150
//@ entry barycentric_two_bodies mode=real max-seconds=150
//@ entry barycentric_history mode=real max-seconds=150
//@ entry pulsating_motion mode=real max-seconds=150
//@ entry pulsating_acceleration mode=real max-seconds=150
//@ entry identity mode=real max-seconds=150
//@ entry order mode=real max-seconds=150
//@ src $VERIF/rt/elementary.cc
//@ bound Any positions, velocities, accelerations and jerks of the bodies, in 3 orientations of the plane of their relative motion, either direction of it and any distance and velocity; any gravitational field which varies linearly along the axes; any position and velocity of the point; 1 or 2 primaries and secondaries; 2 instants and 2 prior evaluations; for the surface any angle, rate and right ascension of the pole.
//@ assume Quantities are real numbers (the rounding of the operations is not modelled).
//@ assume The ephemeris is replaced by an arbitrary one, whose accelerations need not derive from the masses.
#include "sky.h"
#include "numerics/elementary_functions.hpp"
#include "physics/barycentric_rotating_reference_frame.hpp"
#include "physics/body_centred_body_direction_reference_frame.hpp"
#include "physics/body_centred_non_rotating_reference_frame.hpp"
#include "physics/body_surface_reference_frame.hpp"
#include "physics/reference_frame.hpp"
#include "physics/rigid_reference_frame.hpp"
#include "physics/rotating_pulsating_reference_frame.hpp"

using namespace principia::physics::_barycentric_rotating_reference_frame;
using namespace principia::physics::_body_centred_body_direction_reference_frame;
using namespace principia::physics::_body_centred_non_rotating_reference_frame;
using namespace principia::physics::_body_surface_reference_frame;
using namespace principia::physics::_reference_frame;
using namespace principia::physics::_rigid_motion;
using namespace principia::physics::_rigid_reference_frame;
using namespace principia::physics::_rotating_pulsating_reference_frame;
using namespace principia::physics::_similar_motion;
using namespace principia::numerics::_elementary_functions;

using Local = Frame<principia::serialization::Frame::TestTag, Arbitrary, Handedness::Right, principia::serialization::Frame::TEST2>;
using R3 = R3Element<double>;

// Oracles use numbers in SI units.
template<typename T, typename F, int r>
static R3 n3(Multivector<T, F, r> const& v) {
  auto const c = v.coordinates();
  return {num(c.x), num(c.y), num(c.z)};
}
static double dot(R3 const& a, R3 const& b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
static R3 cross(R3 const& a, R3 const& b) {
  return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x};
}
static R3 sym(char const* n, double m = 10) { return r3<double>(n, m); }
template<typename M> static M from(R3 const& r) {
  using S = std::remove_cvref_t<decltype(M{}.coordinates().x)>;
  return M(R3Element<S>(r.x * si::Unit<S>, r.y * si::Unit<S>, r.z * si::Unit<S>));
}
static void same(R3 const& a, R3 const& b, char const* id) { eq(a, b, id); }

// An orthogonal basis of integral vectors.
struct Basis { R3 f, n, b; double norm; };
static Basis basis() {
  switch (vf_choose(3, "basis")) {
    case 0: return {{0, 2, 0}, {0, 0, 2}, {2, 0, 0}, 2};
    case 1: return {{1, 2, 2}, {2, 1, -2}, {-2, 2, -1}, 3};
    default: return {{-2, 3, 6}, {6, -2, 3}, {3, 6, -2}, 7};
  }
}

// Relative motion for which all the norms are polynomials.
struct Pair {
  Basis e; double ρ, ν, τ;
  R3 r, v, a, j;     // Relative position, etc.
  double sign;
};
static Pair pair(Basis const& e, bool jerk = true) {
  Pair p;
  p.e = e;
  p.ρ = vf_real("ρ", 0.5, 10);
  p.ν = vf_real("ν", -10, 10);
  p.τ = vf_real("τ", -10, 10);
  p.sign = vf_choose(2, "direction") ? 1 : -1;
  vf_assume(p.sign * p.τ > 0.1);
  p.r = p.ρ * e.f;
  p.v = p.ν * e.f + p.τ * e.n;
  p.a = sym("relative.a");
  p.j = jerk ? sym("relative.j") : R3{0, 0, 0};
  return p;
}
// The rotation to the frame: fore, normal, binormal.
static R3 rotate(Pair const& p, R3 const& x) {
  double const n = p.e.norm;
  return {dot(x, p.e.f) / n, p.sign * dot(x, p.e.n) / n, p.sign * dot(x, p.e.b) / n};
}
static R3 ω(Pair const& p) {
  // r² and h in the basis.
  double const n = p.e.norm;
  double const r2 = p.ρ * p.ρ * n * n;
  R3 const h = (p.ρ * p.τ * n) * p.e.b;
  double const h2 = p.ρ * p.τ * n * n * p.ρ * p.τ * n * n;
  return h / r2 + (dot(p.a, h) / h2) * p.r;
}
static R3 α(Pair const& p) {
  double const n = p.e.norm;
  double const r2 = p.ρ * p.ρ * n * n;
  R3 const h = (p.ρ * p.τ * n) * p.e.b;
  double const h2 = p.ρ * p.τ * n * n * p.ρ * p.τ * n * n;
  R3 const ḣ = cross(p.r, p.a);
  double const rv = p.ρ * p.ν * n * n;
  return ḣ / r2 - (2 * rv / (r2 * r2)) * h + (dot(p.a, h) / h2) * p.v + (dot(p.j, h) / h2) * p.r -
         (2 * dot(p.a, h) * dot(h, ḣ) / (h2 * h2)) * p.r;
}

struct Spec { R3 q, v, a, ω, α; };  // Of the origin; ω and α are inertial.

template<typename Rot>
static void motion(RigidMotion<World, Local> const& m, RigidMotion<Local, World> const& inverse, Spec const& s, Rot rot) {
  R3 const x = sym("x"), u = sym("u");
  DegreesOfFreedom<World> const d = {World::origin + from<D>(x), from<V>(u)};
  auto const to = m(d);
  same(n3(to.position() - Local::origin), rot(x - s.q), "ToThisFrameAtTime: positions");
  same(n3(to.velocity()), rot(u - s.v - cross(s.ω, x - s.q)), "ToThisFrameAtTime: velocities");
  auto const back = inverse(to);
  same(n3(back.position() - World::origin), x, "FromThisFrameAtTime inverts positions");
  same(n3(back.velocity()), u, "FromThisFrameAtTime inverts velocities");
}

// The coordinates of the point and velocity in the frame.
template<typename Rot, typename Unrot>
static R3 expected_acceleration(Spec const& s, int k, Rot rot, Unrot unrot, R3 const& x, R3 const& u) {
  R3 const Ω = rot(s.ω), Ω̇ = rot(s.α);
  R3 const g = n3(gravity_at(World::origin + from<D>(s.q + unrot(x)), at(k)));
  return rot(g - s.a) - 2 * cross(Ω, u) - cross(Ω, cross(Ω, x)) - cross(Ω̇, x);
}
static R3 unrotate(Pair const& p, R3 const& x) {
  double const n = p.e.norm;
  return (x.x / n) * p.e.f + (p.sign * x.y / n) * p.e.n + (p.sign * x.z / n) * p.e.b;
}

template<typename F>
static DegreesOfFreedom<Local> local(F const&, R3 const& x, R3 const& u) {
  return {Local::origin + from<Displacement<Local>>(x), from<Velocity<Local>>(u)};
}

template<typename F>
static void gradient(F const& frame, int k) {
  R3 const x = sym("x", 3);
  R3 const a = n3(frame.RotationFreeGeometricAccelerationAtRest(at(k), Local::origin + from<Displacement<Local>>(x)));
  // Central differences are exact for polynomials of degree 2.
  auto const potential = [&](R3 const& y) {
    return num(frame.GeometricPotential(at(k), Local::origin + from<Displacement<Local>>(y)));
  };
  R3 const e[3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}};
  double const c[3] = {a.x, a.y, a.z};
  int const i = vf_choose(3, "axis");
  vf_near(c[i], -(potential(x + e[i]) - potential(x - e[i])) / 2, 1e-6,
          "RotationFreeGeometricAccelerationAtRest is minus the gradient of GeometricPotential");
}

static void gravity(int k) {
  universe.g[k] = from<A>(sym("g"));
  universe.linear[k] = sym("field");
}

struct Setting {
  FakeIntegrator integrator;
  FakeEphemeris ephemeris{integrator};
  MassiveBody b0{3 * si::Unit<GravitationalParameter>}, b1{5 * si::Unit<GravitationalParameter>},
      b2{2 * si::Unit<GravitationalParameter>}, b3{6 * si::Unit<GravitationalParameter>};
  Setting() {
    for (auto b : {&b0, &b1, &b2, &b3}) ephemeris.add(b);
  }
  void set(int k, int i, R3 const& q, R3 const& v, R3 const& a, R3 const& j) {
    universe.state[k][i] = {from<D>(q), from<V>(v), from<A>(a), from<J>(j)};
  }
};

// ---- Body-centred non-rotating.

VF_HARNESS(non_rotating) {
  Setting s;
  R3 const q = sym("q"), v = sym("v"), a = sym("a");
  s.set(1, 1, q, v, a, {0, 0, 0});
  gravity(1);
  BodyCentredNonRotatingReferenceFrame<World, Local> const frame(&s.ephemeris, &s.b1);
  vf_check(frame.centre() == &s.b1, "centre");
  Spec const spec = {q, v, a, {0, 0, 0}, {0, 0, 0}};
  auto const id = [](R3 const& x) { return x; };
  switch (vf_choose(4, "what")) {
    case 0: motion(frame.ToThisFrameAtTime(at(1)), frame.FromThisFrameAtTime(at(1)), spec, id); break;
    case 1: {
      R3 const x = sym("x"), u = sym("u");
      same(n3(frame.GeometricAcceleration(at(1), local(frame, x, u))), expected_acceleration(spec, 1, id, id, x, u),
           "GeometricAcceleration (non-rotating)");
      break;
    }
    case 2: gradient(frame, 1); break;
    case 3: {
      auto const d = frame.ToThisFrameAtTimeSimilarly(at(1))({World::origin + from<D>(q), from<V>(v)});
      same(n3(d.position() - Local::origin), {0, 0, 0}, "the centre is at the origin");
      same(n3(d.velocity()), {0, 0, 0}, "the centre is unmoving");
    }
  }
}

// The Frenet trihedron is determined by the velocity and the acceleration.
VF_HARNESS(frenet) {
  Setting s;
  Basis const e = basis();
  double const speed = vf_real("speed", 0.5, 10), along = vf_real("along", -10, 10), across = vf_real("across", 0.5, 10);
  R3 const a = sym("a");
  s.set(1, 1, {0, 0, 0}, {0, 0, 0}, a, {0, 0, 0});
  universe.g[1] = from<A>(a + along * e.f + across * e.n);
  BodyCentredNonRotatingReferenceFrame<World, Local> const frame(&s.ephemeris, &s.b1);
  auto const trihedron = frame.FrenetFrame(at(1), local(frame, sym("x"), speed * e.f));
  using FrenetV = Vector<double, Frenet<Local>>;
  same(n3(trihedron(FrenetV({1, 0, 0}))), e.f / e.norm, "tangent");
  same(n3(trihedron(FrenetV({0, 1, 0}))), e.n / e.norm, "normal");
  same(n3(trihedron(FrenetV({0, 0, 1}))), e.b / e.norm, "binormal");
}

// With a rotating body the axes are those of its equator; the surface frame rotates with it.
VF_HARNESS(rotating_centre) {
  Setting s;
  Angle const α = vf_angle("right_ascension") * Radian, δ = vf_angle("declination") * Radian;
  R3 const z{Cos(δ) * Cos(α), Cos(δ) * Sin(α), Sin(δ)}, y{-Sin(α), Cos(α), 0}, x = cross(y, z);
  RotatingBody<World> const b(MassiveBody::Parameters(si::Unit<GravitationalParameter>),
                              RotatingBody<World>::Parameters(1 * Metre, Angle{}, at(0), 1 * Radian / Second, α, δ));
  s.ephemeris.add(&b);
  R3 const q = sym("q"), v = sym("v"), a = sym("a");
  s.set(1, 4, q, v, a, {0, 0, 0});
  universe.g[1] = from<A>(sym("g"));
  BodyCentredNonRotatingReferenceFrame<World, Local> const frame(&s.ephemeris, &b);
  auto const rot = [&](R3 const& w) { return R3{dot(w, x), dot(w, y), dot(w, z)}; };
  auto const unrot = [&](R3 const& w) { return w.x * x + w.y * y + w.z * z; };
  Spec const spec = {q, v, a, {0, 0, 0}, {0, 0, 0}};
  if (vf_choose(2, "what") == 0) {
    motion(frame.ToThisFrameAtTime(at(1)), frame.FromThisFrameAtTime(at(1)), spec, rot);
  } else {
    R3 const p = sym("x"), u = sym("u");
    same(n3(frame.GeometricAcceleration(at(1), local(frame, p, u))), expected_acceleration(spec, 1, rot, unrot, p, u),
         "GeometricAcceleration (celestial)");
  }
}

VF_HARNESS(body_surface) {
  Setting s;
  // The pole is in the plane of x and y.
  Angle const α = vf_angle("right_ascension") * Radian, w = vf_angle("angle") * Radian;
  double const rate = vf_real("rate", 0.1, 5) * (vf_choose(2, "retrograde") ? -1 : 1);
  R3 const pole{Cos(α), Sin(α), 0}, node{-Sin(α), Cos(α), 0}, east = cross(pole, node);
  R3 const z = pole, x = Cos(w) * node + Sin(w) * east, y = Cos(w) * east - Sin(w) * node;
  RotatingBody<World> const b(MassiveBody::Parameters(si::Unit<GravitationalParameter>),
                              RotatingBody<World>::Parameters(1 * Metre, w, at(1), rate * Radian / Second, α, Angle{}));
  s.ephemeris.add(&b);
  R3 const q = sym("q"), v = sym("v"), a = sym("a");
  s.set(1, 4, q, v, a, {0, 0, 0});
  universe.g[1] = from<A>(sym("g"));
  BodySurfaceReferenceFrame<World, Local> const frame(&s.ephemeris, &b);
  vf_check(frame.centre() == &b, "centre");
  auto const rot = [&](R3 const& w) { return R3{dot(w, x), dot(w, y), dot(w, z)}; };
  auto const unrot = [&](R3 const& w) { return w.x * x + w.y * y + w.z * z; };
  Spec const spec = {q, v, a, rate * pole, {0, 0, 0}};
  switch (vf_choose(3, "what")) {
    case 0: motion(frame.ToThisFrameAtTime(at(1)), frame.FromThisFrameAtTime(at(1)), spec, rot); break;
    case 1: {
      R3 const p = sym("x"), u = sym("u");
      same(n3(frame.GeometricAcceleration(at(1), local(frame, p, u))), expected_acceleration(spec, 1, rot, unrot, p, u),
           "GeometricAcceleration (surface)");
      break;
    }
    case 2: gradient(frame, 1);
  }
}

// ---- Body-centred body direction.

template<typename F>
static void rigid(F const& frame, Pair const& p, Spec const& spec, int k) {
  auto const rot = [&](R3 const& x) { return rotate(p, x); };
  auto const unrot = [&](R3 const& x) { return unrotate(p, x); };
  switch (vf_choose(3, "what")) {
    case 0: motion(frame.ToThisFrameAtTime(at(k)), frame.FromThisFrameAtTime(at(k)), spec, rot); break;
    case 1: {
      // By linearity it is enough to look at the effects separately.
      bool const position = vf_choose(2, "position");
      R3 const x = position ? sym("x") : R3{0, 0, 0};
      R3 const u = position ? R3{0, 0, 0} : sym("u");
      same(n3(frame.GeometricAcceleration(at(k), local(frame, x, u))), expected_acceleration(spec, k, rot, unrot, x, u),
           "GeometricAcceleration (rotating)");
      break;
    }
    case 2: gradient(frame, k); break;
  }
}

VF_HARNESS(body_direction) {
  Setting s;
  Pair const p = pair(basis());
  R3 const q = sym("q"), v = sym("v"), a = sym("a"), j = sym("j");
  int const primary = vf_choose(2, "primary"), secondary = 1 - primary;
  s.set(1, primary, q, v, a, j);
  s.set(1, secondary, q + p.r, v + p.v, a + p.a, j + p.j);
  gravity(1);
  MassiveBody const* const b[2] = {&s.b0, &s.b1};
  BodyCentredBodyDirectionReferenceFrame<World, Local> const frame(&s.ephemeris, b[primary], b[secondary]);
  vf_check(frame.primary() == b[primary] && frame.secondary() == b[secondary], "primary and secondary");
  rigid(frame, p, {q, v, a, ω(p), α(p)}, 1);
}

// The primary is a massless target.
struct Target : principia::physics::_trajectory::Trajectory<World> {
  State s;
  Instant t_min() const override { return at(-2); }
  Instant t_max() const override { return at(2); }
  Position<World> EvaluatePosition(Instant const& t) const override { when(t); return World::origin + s.q; }
  Velocity<World> EvaluateVelocity(Instant const& t) const override { when(t); return s.v; }
  DegreesOfFreedom<World> EvaluateDegreesOfFreedom(Instant const& t) const override {
    when(t);
    return {World::origin + s.q, s.v};
  }
};
VF_HARNESS(target) {
  Setting s;
  Pair const p = pair(basis());
  R3 const q = sym("q"), v = sym("v"), j = sym("j");
  Target target;
  target.s = {from<D>(q), from<V>(v), {}, {}};
  gravity(1);
  universe.massless_jerk[1] = from<J>(j);
  R3 const a = n3(gravity_at(World::origin + from<D>(q), at(1)));
  s.set(1, 2, q + p.r, v + p.v, a + p.a, j + p.j);
  BodyCentredBodyDirectionReferenceFrame<World, Local> const frame(
      &s.ephemeris, [&target]() -> principia::physics::_trajectory::Trajectory<World> const& { return target; }, &s.b2);
  vf_check(frame.t_min() == at(-2) && frame.t_max() == at(2), "t_min, t_max");
  rigid(frame, p, {q, v, a, ω(p), α(p)}, 1);
}

// The bodies are where the frame says.
VF_HARNESS(direction_anchors) {
  Setting s;
  Pair const p = pair(basis(), false);
  R3 const q = sym("q"), v = sym("v"), a = sym("a");
  s.set(1, 0, q, v, a, {0, 0, 0});
  s.set(1, 1, q + p.r, v + p.v, a + p.a, {0, 0, 0});
  auto const m = BodyCentredBodyDirectionReferenceFrame<World, Local>(&s.ephemeris, &s.b0, &s.b1).ToThisFrameAtTime(at(1));
  auto const d0 = m({World::origin + from<D>(q), from<V>(v)});
  auto const d1 = m({World::origin + from<D>(q + p.r), from<V>(v + p.v)});
  same(n3(d0.position() - Local::origin), {0, 0, 0}, "the primary is at the origin");
  same(n3(d0.velocity()), {0, 0, 0}, "the primary does not move");
  same(n3(d1.position() - Local::origin), {p.ρ * p.e.norm, 0, 0}, "the secondary is on the x axis");
  same(n3(d1.velocity()), {p.ν * p.e.norm, 0, 0}, "the secondary moves along the x axis");
}

// ---- Barycentric rotating and rotating-pulsating.

// Two primaries with barycentre at q, two secondaries with barycentre at q + r.
static void quartet(Setting& s, int k, Pair const& p, R3 const& q, R3 const& v, R3 const& a, R3 const& j) {
  R3 const d = {1, -2, 0.5}, e = {0.25, 1, -1};
  // The masses are 3 and 5; 2 and 6.
  s.set(k, 0, q + 5 * d, v + 5 * e, a + 5 * e, j + 5 * d);
  s.set(k, 1, q - 3 * d, v - 3 * e, a - 3 * e, j - 3 * d);
  s.set(k, 2, q + p.r + 6 * e, v + p.v - 6 * d, a + p.a + 6 * d, j + p.j - 6 * e);
  s.set(k, 3, q + p.r - 2 * e, v + p.v + 2 * d, a + p.a - 2 * d, j + p.j + 2 * e);
}
using Bodies = std::vector<not_null<MassiveBody const*>>;

// Half of the mass is in the secondaries.
static Spec barycentre(Pair const& p, R3 const& q, R3 const& v, R3 const& a) {
  return {q + 0.5 * p.r, v + 0.5 * p.v, a + 0.5 * p.a, ω(p), α(p)};
}

VF_HARNESS(barycentric) {
  Setting s;
  Pair const p = pair(basis());
  R3 const q = sym("q"), v = sym("v"), a = sym("a"), j = sym("j");
  quartet(s, 1, p, q, v, a, j);
  gravity(1);
  BarycentricRotatingReferenceFrame<World, Local> const frame(&s.ephemeris, Bodies{&s.b0, &s.b1}, Bodies{&s.b3, &s.b2});
  vf_check(frame.t_min() == at(-5) && frame.t_max() == at(5), "t_min, t_max");
  rigid(frame, p, barycentre(p, q, v, a), 1);
}

VF_HARNESS(barycentric_two_bodies) {
  Setting s;
  Pair const p = pair(basis());
  R3 const q = sym("q"), v = sym("v"), a = sym("a"), j = sym("j");
  s.set(1, 3, q, v, a, j);
  s.set(1, 2, q + p.r, v + p.v, a + p.a, j + p.j);
  gravity(1);
  BarycentricRotatingReferenceFrame<World, Local> const frame(&s.ephemeris, &s.b3, &s.b2);
  // The masses are 6 and 2.
  rigid(frame, p, {q + 0.25 * p.r, v + 0.25 * p.v, a + 0.25 * p.a, ω(p), α(p)}, 1);
}

// The answers do not depend on what was asked before.
VF_HARNESS(barycentric_history) {
  Setting s;
  Pair const p = pair(basis(), false);
  R3 const q = sym("q"), v = sym("v"), a = sym("a");
  quartet(s, 0, p, q, v, a, {0, 0, 0});
  Pair const p1 = {p.e, 2 * p.ρ, p.ν + 1, p.τ + p.sign, 2 * p.ρ * p.e.f, (p.ν + 1) * p.e.f + (p.τ + p.sign) * p.e.n,
                   p.a + R3{1, 2, 3}, {0, 0, 0}, p.sign};
  R3 const q1 = q + R3{1, 1, 2}, v1 = v + R3{-1, 0, 1}, a1 = a + R3{1, 0, 0};
  quartet(s, 1, p1, q1, v1, a1, {0, 0, 0});
  BarycentricRotatingReferenceFrame<World, Local> const frame(&s.ephemeris, Bodies{&s.b0, &s.b1}, Bodies{&s.b2, &s.b3});
  // What was asked before, at either time.
  for (int i = 0; i < 2; ++i) {
    int const k = vf_choose(2, "before");
    switch (vf_choose(4, "asked")) {
      case 0: frame.template PrimaryDerivative<0>(at(k)); break;
      case 1: frame.template SecondaryDerivative<1>(at(k)); break;
      case 2: frame.template PrimaryDerivative<2>(at(k)); break;
      case 3: frame.ToThisFrameAtTime(at(k)); break;
    }
  }
  auto const rot = [&](R3 const& x) { return rotate(p, x); };
  if (vf_choose(2, "time") == 0) {
    same(n3(frame.template PrimaryDerivative<0>(at(0)) - World::origin), q, "PrimaryDerivative<0>");
    same(n3(frame.template PrimaryDerivative<1>(at(0))), v, "PrimaryDerivative<1>");
    same(n3(frame.template PrimaryDerivative<2>(at(0))), a, "PrimaryDerivative<2>");
    same(n3(frame.template SecondaryDerivative<0>(at(0)) - World::origin), q + p.r, "SecondaryDerivative<0>");
    same(n3(frame.template SecondaryDerivative<1>(at(0))), v + p.v, "SecondaryDerivative<1>");
    same(n3(frame.template SecondaryDerivative<2>(at(0))), a + p.a, "SecondaryDerivative<2>");
    auto const to = frame.ToThisFrameAtTime(at(0))({World::origin + from<D>(q + p.r), from<V>(v + p.v)});
    same(n3(to.position() - Local::origin), {0.5 * p.ρ * p.e.norm, 0, 0}, "the secondary is on the x axis");
    same(n3(to.velocity()), {0.5 * p.ν * p.e.norm, 0, 0}, "the secondary moves along the x axis");
  } else {
    same(n3(frame.template SecondaryDerivative<2>(at(1))), a1 + p1.a, "SecondaryDerivative<2>");
    auto const to = frame.ToThisFrameAtTime(at(1))({World::origin + from<D>(q1), from<V>(v1)});
    same(n3(to.position() - Local::origin), {-0.5 * p1.ρ * p.e.norm, 0, 0}, "the primary is on the x axis");
    same(n3(to.velocity()), {-0.5 * p1.ν * p.e.norm, 0, 0}, "the primary moves along the x axis");
  }
}

// In the pulsating frame the bodies are at fixed points one metre apart.
VF_HARNESS(pulsating_motion) {
  Setting s;
  Pair const p = pair(basis(), false);
  R3 const q = sym("q"), v = sym("v"), a = sym("a");
  quartet(s, 1, p, q, v, a, {0, 0, 0});
  RotatingPulsatingReferenceFrame<World, Local> const frame(&s.ephemeris, Bodies{&s.b0, &s.b1}, Bodies{&s.b2, &s.b3});
  vf_check(frame.t_min() == at(-5) && frame.t_max() == at(5), "t_min, t_max");
  auto const to = frame.ToThisFrameAtTimeSimilarly(at(1));
  auto const d1 = to({World::origin + from<D>(q), from<V>(v)});
  auto const d2 = to({World::origin + from<D>(q + p.r), from<V>(v + p.v)});
  same(n3(d1.position() - Local::origin), {-0.5, 0, 0}, "the primary is at a fixed point");
  same(n3(d2.position() - Local::origin), {0.5, 0, 0}, "the secondary is at a fixed point");
  same(n3(d1.velocity()), {0, 0, 0}, "the primary does not move");
  same(n3(d2.velocity()), {0, 0, 0}, "the secondary does not move");
  // An arbitrary point.
  R3 const x = sym("x"), u = sym("u");
  Spec const spec = barycentre(p, q, v, a);
  double const r = p.ρ * p.e.norm, ṙ = p.ν * p.e.norm;
  R3 const xr = rotate(p, x - spec.q), ur = rotate(p, u - spec.v - cross(spec.ω, x - spec.q));
  auto const d = to({World::origin + from<D>(x), from<V>(u)});
  same(n3(d.position() - Local::origin), xr / r, "ToThisFrameAtTimeSimilarly: positions");
  same(n3(d.velocity()), ur / r - (ṙ / (r * r)) * xr, "ToThisFrameAtTimeSimilarly: velocities");
  auto const back = frame.FromThisFrameAtTimeSimilarly(at(1))(d);
  same(n3(back.position() - World::origin), x, "FromThisFrameAtTimeSimilarly inverts positions");
  same(n3(back.velocity()), u, "FromThisFrameAtTimeSimilarly inverts velocities");
}

VF_HARNESS(pulsating_acceleration) {
  Setting s;
  Pair const p = pair(basis());
  R3 const q = sym("q"), v = sym("v"), a = sym("a"), j = sym("j");
  quartet(s, 1, p, q, v, a, j);
  gravity(1);
  RotatingPulsatingReferenceFrame<World, Local> const frame(&s.ephemeris, Bodies{&s.b1, &s.b0}, Bodies{&s.b2, &s.b3});
  auto const rot = [&](R3 const& x) { return rotate(p, x); };
  auto const unrot = [&](R3 const& x) { return unrotate(p, x); };
  if (vf_choose(2, "what") == 0) {
    bool const position = vf_choose(2, "position");
    R3 const x = position ? sym("x", 3) : R3{0, 0, 0};
    R3 const u = position ? R3{0, 0, 0} : sym("u", 3);
    // In the rotating frame xR = r x, etc.
    double const n2 = p.e.norm * p.e.norm;
    double const r = p.ρ * p.e.norm, ṙ = p.ν * p.e.norm;
    // d²(r²)/2 = v² + r·a = ṙ² + r r̈.
    double const r̈ = ((p.ν * p.ν + p.τ * p.τ) * n2 + dot(p.r, p.a) - ṙ * ṙ) / r;
    R3 const xr = r * x, ur = r * u + ṙ * x;
    R3 const ar = expected_acceleration(barycentre(p, q, v, a), 1, rot, unrot, xr, ur);
    // xR'' = r'' x + 2 r' x' + r x''.
    same(n3(frame.GeometricAcceleration(at(1), local(frame, x, u))), (ar - r̈ * x - (2 * ṙ) * u) / r,
         "GeometricAcceleration (rotating-pulsating)");
  } else {
    gradient(frame, 1);
  }
}

// ---- Comparison and serialization.

template<typename F>
static std::unique_ptr<ReferenceFrame<World, Local>> copy(F const& f, Setting& s) {
  principia::serialization::ReferenceFrame message;
  f.WriteToMessage(&message);
  return std::unique_ptr<ReferenceFrame<World, Local>>(
      ReferenceFrame<World, Local>::ReadFromMessage(message, &s.ephemeris).release());
}

using RF = ReferenceFrame<World, Local>;
static std::unique_ptr<RF> make(Setting& s, int kind) {
  MassiveBody const* const b[4] = {&s.b0, &s.b1, &s.b2, &s.b3};
  switch (kind) {
    case 0: return std::make_unique<BodyCentredNonRotatingReferenceFrame<World, Local>>(&s.ephemeris, b[0]);
    case 1: return std::make_unique<BodyCentredNonRotatingReferenceFrame<World, Local>>(&s.ephemeris, b[1]);
    case 2: return std::make_unique<BodyCentredBodyDirectionReferenceFrame<World, Local>>(&s.ephemeris, b[0], b[1]);
    case 3: return std::make_unique<BodyCentredBodyDirectionReferenceFrame<World, Local>>(&s.ephemeris, b[1], b[0]);
    case 4: return std::make_unique<BodyCentredBodyDirectionReferenceFrame<World, Local>>(&s.ephemeris, b[0], b[2]);
    case 5: return std::make_unique<BarycentricRotatingReferenceFrame<World, Local>>(&s.ephemeris, b[0], b[1]);
    case 6: return std::make_unique<BarycentricRotatingReferenceFrame<World, Local>>(&s.ephemeris, b[1], b[0]);
    case 7: return std::make_unique<BarycentricRotatingReferenceFrame<World, Local>>(&s.ephemeris, Bodies{b[0]}, Bodies{b[1], b[2]});
    case 8: return std::make_unique<BarycentricRotatingReferenceFrame<World, Local>>(&s.ephemeris, Bodies{b[0], b[3]}, Bodies{b[1]});
    case 9: return std::make_unique<RotatingPulsatingReferenceFrame<World, Local>>(&s.ephemeris, b[0], b[1]);
    case 10: return std::make_unique<RotatingPulsatingReferenceFrame<World, Local>>(&s.ephemeris, b[1], b[0]);
    case 11: return std::make_unique<RotatingPulsatingReferenceFrame<World, Local>>(&s.ephemeris, Bodies{b[0]}, Bodies{b[1], b[2]});
    default: return std::make_unique<RotatingPulsatingReferenceFrame<World, Local>>(&s.ephemeris, Bodies{b[3], b[0]}, Bodies{b[1]});
  }
}
VF_HARNESS(identity) {
  Setting s;
  int const i = vf_choose(13, "left"), j = vf_choose(13, "right");
  auto const left = make(s, i), right = make(s, j);
  vf_check((*left == *right) == (i == j), "operator== compares the bodies which define the frames");
  if (i == j) {
    principia::serialization::ReferenceFrame message;
    left->WriteToMessage(&message);
    auto const back = RF::ReadFromMessage(message, &s.ephemeris);
    vf_check(*back == *left, "ReadFromMessage inverts WriteToMessage");
    vf_check(typeid(*back) == typeid(*left), "ReadFromMessage restores the type");
  }
}
VF_HARNESS(order) {
  Setting s;
  vf_check(BarycentricRotatingReferenceFrame<World, Local>(&s.ephemeris, Bodies{&s.b0, &s.b1}, Bodies{&s.b2, &s.b3}) ==
               BarycentricRotatingReferenceFrame<World, Local>(&s.ephemeris, Bodies{&s.b1, &s.b0}, Bodies{&s.b3, &s.b2}),
           "the order of the bodies is irrelevant");
  vf_check(RotatingPulsatingReferenceFrame<World, Local>(&s.ephemeris, Bodies{&s.b0, &s.b1}, Bodies{&s.b2, &s.b3}) ==
               RotatingPulsatingReferenceFrame<World, Local>(&s.ephemeris, Bodies{&s.b1, &s.b0}, Bodies{&s.b3, &s.b2}),
           "the order of the bodies is irrelevant");
}
