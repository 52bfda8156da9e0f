// Massive, rotating and oblate bodies.
//@ entry axes mode=real max-seconds=150
//@ entry surface mode=real max-seconds=150
//@ entry accessors mode=real max-seconds=100
//@ entry massive_message mode=real max-seconds=100
//@ entry rotating_message mode=real max-seconds=100
//@ entry oblate_message mode=real max-seconds=150
//@ entry oblate_from_message mode=real max-seconds=150
//@ entry surface_field mode=real max-seconds=100
//@ src $VERIF/rt/elementary.cc
//@ bound Any orientation of the pole, any reference angle, instant and rate (the angle turned being 0, 1, 2 or -1 times that of one second); oblate bodies of degree up to 4 with any coefficients, any subset of the orders of up to 2 degrees being specified; 3 orientations of the pole and 6 directions for the fields of the vertical.
//@ assume The coordinates and angles are real numbers (the rounding of the operations is not modelled).
#include "sky.h"
#include "physics/body.hpp"
#include "physics/body_surface_frame_field.hpp"
#include "physics/frame_field.hpp"
#include "physics/massless_body.hpp"
#include "physics/oblate_body.hpp"
#include "numerics/elementary_functions.hpp"

using namespace principia::physics::_body;
using namespace principia::physics::_body_surface_frame_field;
using namespace principia::physics::_frame_field;
using namespace principia::physics::_massless_body;
using namespace principia::physics::_oblate_body;
using namespace principia::geometry::_rotation;
using namespace principia::numerics::_elementary_functions;
using R3 = R3Element<double>;
using Surface = Frame<struct SurfaceTag, Arbitrary, Handedness::Right>;
using Celestial = Frame<struct CelestialTag, NonRotating, Handedness::Right>;
using Rotating = RotatingBody<World>;
using Oblate = OblateBody<World>;

static R3 cross(R3 const& a, R3 const& b) {
  return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x};
}
template<typename T, typename F, int r>
static R3 n3(Multivector<T, F, r> const& v) {
  auto const c = v.coordinates();
  return {num(c.x), num(c.y), num(c.z)};
}

struct Pole {
  Angle const α = vf_angle("right_ascension") * Radian;
  Angle const δ = vf_angle("declination") * Radian;
  R3 const z{Cos(δ) * Cos(α), Cos(δ) * Sin(α), Sin(δ)};  // The pole.
  R3 const q{-Sin(α), Cos(α), 0};                        // The node.
};

static Rotating body(Pole const& p, Angle const& w, Instant const& t, AngularFrequency const& ω) {
  return Rotating(MassiveBody::Parameters(3 * si::Unit<GravitationalParameter>),
                  Rotating::Parameters(1 * Metre, w, t, ω, p.α, p.δ));
}

VF_HARNESS(axes) {
  Pole const p;
  AngularFrequency const ω = vf_real("ω", -10, 10) * (Radian / Second);
  vf_assume(ω * Second > 0.1 * Radian || ω * Second < -0.1 * Radian);
  Rotating const b = body(p, 1 * Radian, at(0), ω);
  eq(n3(b.polar_axis()), p.z, "polar_axis");
  eq(n3(b.biequatorial()), p.q, "biequatorial is the ascending node of the equator");
  eq(n3(b.equatorial()), cross(p.q, p.z), "equatorial completes the basis");
  eq(n3(b.angular_velocity()), (ω * Second / Radian) * p.z, "angular_velocity is along the pole");
  auto const to = b.ToCelestialFrame<Celestial>();
  using V0 = Vector<double, World>;
  eq(n3(to(V0(p.z))), R3{0, 0, 1}, "ToCelestialFrame: z");
  eq(n3(to(V0(p.q))), R3{0, 1, 0}, "ToCelestialFrame: y");
  eq(n3(to(V0(cross(p.q, p.z)))), R3{1, 0, 0}, "ToCelestialFrame: x");
}

VF_HARNESS(surface) {
  Pole const p;
  Angle const w = vf_angle("reference_angle") * Radian;
  double const t0 = vf_real("reference_instant", -10, 10);
  Angle const turned = vf_angle("turned") * Radian;
  vf_assume(turned > 0.01 * Radian || turned < -0.01 * Radian);
  int const k = vf_choose(4, "seconds") - 1;
  Rotating const b = body(p, w, at(t0), turned / Second);
  Instant const t = at(t0) + k * Second;
  Angle const W = w + k * turned;
  eq(b.AngleAt(t), W, "AngleAt");
  auto const from = b.FromSurfaceFrame<Surface>(t);
  using V0 = Vector<double, Surface>;
  eq(n3(from(V0({0, 0, 1}))), p.z, "the z axis of the surface frame is the pole");
  eq(n3(from(V0({1, 0, 0}))), Cos(W) * p.q + Sin(W) * cross(p.z, p.q), "the x axis is the prime meridian");
  eq(n3(from(V0({0, 1, 0}))), Cos(W) * cross(p.z, p.q) - Sin(W) * p.q, "the y axis is 90 degrees east");
  auto const to = b.ToSurfaceFrame<Surface>(t);
  R3 const x = r3<double>("x");
  eq(n3(from(to(Vector<double, World>(x)))), x, "FromSurfaceFrame inverts ToSurfaceFrame");
}

static Rotating::Parameters parameters(Pole const& p, bool ocean) {
  return {vf_real("min_radius", 1, 2) * Metre, vf_real("mean_radius", 3, 4) * Metre, vf_real("max_radius", 5, 6) * Metre,
          vf_real("atmosphere", 0, 9) * Metre, ocean, vf_real("angle", -9, 9) * Radian, at(vf_real("instant", -9, 9)),
          vf_real("rate", 1, 2) * (Radian / Second), p.α, p.δ};
}
static void same(Rotating const& a, Rotating const& b, char const* id) {
  eq(a.min_radius(), b.min_radius(), id);
  eq(a.mean_radius(), b.mean_radius(), id);
  eq(a.max_radius(), b.max_radius(), id);
  eq(a.atmosphere_depth(), b.atmosphere_depth(), id);
  vf_check(a.has_ocean() == b.has_ocean(), id);
  eq(a.AngleAt(at(2)), b.AngleAt(at(2)), id);
  eq(a.AngleAt(at(-3)), b.AngleAt(at(-3)), id);
  eq(a.angular_frequency(), b.angular_frequency(), id);
  eq(a.right_ascension_of_pole(), b.right_ascension_of_pole(), id);
  eq(a.declination_of_pole(), b.declination_of_pole(), id);
  eq(a.polar_axis(), b.polar_axis(), id);
  eq(a.gravitational_parameter(), b.gravitational_parameter(), id);
}

VF_HARNESS(accessors) {
  double const min = vf_real("min", 1, 9), mean = vf_real("mean", 1, 9), max = vf_real("max", 1, 9), depth = vf_real("depth", 0, 9);
  bool const ocean = vf_choose(2, "ocean");
  double const μ = vf_real("μ", 0.1, 10), w = vf_real("w", -9, 9), t0 = vf_real("t0", -9, 9), ω = vf_real("ω", 0.1, 9);
  double const α = vf_real("α", -3, 3), δ = vf_real("δ", -1, 1);
  Rotating const b(MassiveBody::Parameters("Terra", μ * si::Unit<GravitationalParameter>),
                   Rotating::Parameters(min * Metre, mean * Metre, max * Metre, depth * Metre, ocean, w * Radian, at(t0),
                                        ω * (Radian / Second), α * Radian, δ * Radian));
  vf_check(b.name() == "Terra", "name");
  eq(b.gravitational_parameter() / si::Unit<GravitationalParameter>, μ, "gravitational_parameter");
  eq(b.mass() * 6.67430e-11 / Kilogram, μ, "mass", 1e-4);
  eq(b.min_radius() / Metre, min, "min_radius");
  eq(b.mean_radius() / Metre, mean, "mean_radius");
  eq(b.max_radius() / Metre, max, "max_radius");
  eq(b.atmosphere_depth() / Metre, depth, "atmosphere_depth");
  vf_check(b.has_ocean() == ocean, "has_ocean");
  eq(b.right_ascension_of_pole() / Radian, α, "right_ascension_of_pole");
  eq(b.declination_of_pole() / Radian, δ, "declination_of_pole");
  eq(b.angular_frequency() * Second / Radian, ω, "angular_frequency");
  vf_check(!b.is_massless() && !b.is_oblate(), "a rotating body is massive and not oblate");
  Oblate const o(MassiveBody::Parameters(Kilogram), Rotating::Parameters(min * Metre, w * Radian, at(t0), ω * (Radian / Second), α * Radian, δ * Radian),
                 Oblate::Parameters(vf_real("j2", 0.1, 1), 2 * Metre));
  eq(o.min_radius() / Metre, min, "min_radius");
  eq(o.max_radius() / Metre, min, "max_radius");
  vf_check(!o.is_massless() && o.is_oblate() && o.is_zonal() && o.geopotential_degree() == 2, "an oblate body is oblate");
  MassiveBody const m(MassiveBody::Parameters(2 * Kilogram));
  MasslessBody const n;
  vf_check(!m.is_massless() && !m.is_oblate() && n.is_massless() && !n.is_oblate(), "massive and massless bodies");
  eq(m.mass() / Kilogram, 2, "mass");
  vf_check(m.is_compatible_with<World>() && b.is_compatible_with<World>() && o.is_compatible_with<World>() &&
               !o.is_compatible_with<Celestial>() && m.is_compatible_with<Celestial>() && !o.is_compatible_with<Surface>() &&
               m.is_compatible_with<Surface>(),
           "is_compatible_with: an oblate body has its frame");
}

VF_HARNESS(massive_message) {
  GravitationalParameter const μ = vf_real("μ", 0.1, 10) * si::Unit<GravitationalParameter>;
  MassiveBody const b(MassiveBody::Parameters("Sol", μ));
  principia::serialization::Body message;
  b.WriteToMessage(&message);
  auto const c = Body::ReadFromMessage(message);
  vf_check(!c->is_massless() && !c->is_oblate(), "a massive body");
  auto const* const d = dynamic_cast<MassiveBody const*>(&*c);
  vf_check(d != nullptr && dynamic_cast<Rotating const*>(d) == nullptr, "not rotating");
  vf_check(d->name() == "Sol", "name");
  eq(d->gravitational_parameter(), μ, "gravitational_parameter");
  MasslessBody const n;
  principia::serialization::Body message2;
  n.WriteToMessage(&message2);
  vf_check(Body::ReadFromMessage(message2)->is_massless(), "a massless body");
}

VF_HARNESS(rotating_message) {
  Pole const p;
  Rotating const b(MassiveBody::Parameters("T", vf_real("μ", 0.1, 10) * si::Unit<GravitationalParameter>),
                   parameters(p, vf_choose(2, "ocean")));
  principia::serialization::Body message;
  b.WriteToMessage(&message);
  auto const c = Body::ReadFromMessage(message);
  auto const* const d = dynamic_cast<Rotating const*>(&*c);
  vf_check(d != nullptr && !d->is_oblate(), "a rotating body in the right frame");
  same(*d, b, "ReadFromMessage inverts WriteToMessage");
  vf_check(d->name() == "T", "name");
  // Messages from before Legendre, del Ferro.
  auto* const r = message.mutable_massive_body()->MutableExtension(principia::serialization::RotatingBody::extension);
  r->clear_atmosphere_depth();
  r->clear_has_ocean();
  {
    auto const e = Body::ReadFromMessage(message);
    auto const* const f = dynamic_cast<Rotating const*>(&*e);
    vf_check(f->has_ocean() && f->atmosphere_depth() == Length{}, "pre-Legendre bodies have no atmosphere and an ocean");
    eq(f->min_radius(), b.min_radius(), "pre-Legendre min_radius");
    eq(f->mean_radius(), b.mean_radius(), "pre-Legendre mean_radius");
    eq(f->max_radius(), b.max_radius(), "pre-Legendre max_radius");
    eq(f->AngleAt(at(1)), b.AngleAt(at(1)), "pre-Legendre angle");
    eq(f->polar_axis(), b.polar_axis(), "pre-Legendre pole");
  }
  r->clear_min_radius();
  r->clear_max_radius();
  {
    auto const e = Body::ReadFromMessage(message);
    auto const* const f = dynamic_cast<Rotating const*>(&*e);
    vf_check(f->has_ocean() && f->atmosphere_depth() == Length{}, "pre-del Ferro bodies have no atmosphere and an ocean");
    eq(f->min_radius(), b.mean_radius(), "pre-del Ferro bodies are spheres");
    eq(f->mean_radius(), b.mean_radius(), "pre-del Ferro bodies are spheres");
    eq(f->max_radius(), b.mean_radius(), "pre-del Ferro bodies are spheres");
    eq(f->AngleAt(at(1)), b.AngleAt(at(1)), "pre-del Ferro angle");
    eq(f->polar_axis(), b.polar_axis(), "pre-del Ferro pole");
  }
}

// The normalization: sqrt((2 - δ0m)(2n + 1)(n - m)!/(n + m)!).
static double const zonal[] = {1, 1.7320508075688772, 2.2360679774997896, 2.6457513110645906, 3};

VF_HARNESS(oblate_message) {
  Pole const p;
  double const j2 = vf_real("j2", 0.1, 1), radius = vf_real("radius", 1, 9);
  Oblate const b(MassiveBody::Parameters("T", vf_real("μ", 0.1, 10) * si::Unit<GravitationalParameter>),
                 parameters(p, vf_choose(2, "ocean")), Oblate::Parameters(j2, radius * Metre));
  eq(b.j2(), j2, "j2");
  eq(num(b.j2_over_μ()), j2 * radius * radius, "j2_over_μ", 1e-4);
  eq(b.cos()(2, 0) * zonal[2], -j2, "normalized cosine");
  vf_check(b.sin()(2, 0) == 0 && b.cos()(2, 1) == 0 && b.cos()(2, 2) == 0 && b.cos()(1, 0) == 0, "other coefficients");
  principia::serialization::Body message;
  b.WriteToMessage(&message);
  auto const c = Body::ReadFromMessage(message);
  auto const* const d = dynamic_cast<Oblate const*>(&*c);
  vf_check(d != nullptr && d->is_oblate() && d->is_zonal() && d->geopotential_degree() == 2, "a zonal oblate body");
  same(*d, b, "ReadFromMessage inverts WriteToMessage (rotating)");
  eq(d->j2(), j2, "ReadFromMessage inverts WriteToMessage (j2)");
  eq(num(d->j2_over_μ()), j2 * radius * radius, "ReadFromMessage inverts WriteToMessage (j2_over_μ)", 1e-4);
  eq(d->reference_radius() / Metre, radius, "ReadFromMessage inverts WriteToMessage (reference radius)");
  eq(d->cos()(2, 0), b.cos()(2, 0), "ReadFromMessage inverts WriteToMessage (cos)");
}

VF_HARNESS(oblate_from_message) {
  Pole const p;
  double const radius = vf_real("radius", 1, 9);
  double const μ = vf_real("μ", 0.1, 10);
  MassiveBody::Parameters const massive("T", μ * si::Unit<GravitationalParameter>);
  Rotating::Parameters const rotating = parameters(p, true);
  // Specified as a geopotential.
  principia::serialization::OblateBody message;
  (radius * Metre).WriteToMessage(message.mutable_reference_radius());
  auto* const geopotential = message.mutable_geopotential();
  double cos[5][5] = {}, sin[5][5] = {};
  int degree = 0;
  bool is_zonal = true;
  int const rows = vf_choose(2, "rows") + 1;
  int last = -1;
  for (int i = 0; i < rows; ++i) {
    int const n = i == 0 ? 2 + vf_choose(2, "degree") : (vf_choose(2, "other degree") ? 4 : 1);
    vf_assume(n != last);
    last = n;
    degree = std::max(degree, n);
    auto* const row = geopotential->add_row();
    row->set_degree(n);
    // Some of the orders, possibly out of order.
    int const m0 = vf_choose(n + 1, "order");
    int const columns = vf_choose(2, "columns") + 1;
    for (int k = 0; k < columns; ++k) {
      int const m = (m0 + k) % (n + 1);
      auto* const column = row->add_column();
      column->set_order(m);
      double const c = vf_real("c", 0.1, 1), s = m == 0 ? 0 : vf_real("s", -1, 1);
      if (m == 0 && vf_choose(2, "j")) {
        column->set_j(c);
        cos[n][m] = -c / zonal[n];
      } else {
        column->set_cos(c);
        cos[n][m] = c;
      }
      column->set_sin(s);
      sin[n][m] = s;
      if (m > 0) is_zonal = false;
    }
  }
  auto const b = Oblate::ReadFromMessage(message, massive, rotating);
  vf_check(b->geopotential_degree() == degree, "the degree is the highest specified");
  vf_check(b->is_zonal() == is_zonal, "is_zonal");
  eq(b->reference_radius() / Metre, radius, "reference_radius");
  for (int n = 0; n <= 4; ++n)
    for (int m = 0; m <= n; ++m) {
      eq(b->cos()(n, m), cos[n][m], "cosines");
      eq(b->sin()(n, m), sin[n][m], "sines");
    }
  eq(b->j2(), -cos[2][0] * zonal[2], "j2");
  eq(num(b->j2_over_μ()), -cos[2][0] * zonal[2] * radius * radius, "j2_over_μ", 1e-4);
  // All the coefficients are written.
  principia::serialization::MassiveBody written;
  b->WriteToMessage(&written);
  auto const c = MassiveBody::ReadFromMessage(written);
  auto const* const d = dynamic_cast<Oblate const*>(&*c);
  vf_check(d != nullptr && d->geopotential_degree() == degree && d->is_zonal() == is_zonal, "degree after a round trip");
  for (int n = 0; n <= 4; ++n)
    for (int m = 0; m <= n; ++m) {
      eq(d->cos()(n, m), cos[n][m], "cosines after a round trip");
      eq(d->sin()(n, m), sin[n][m], "sines after a round trip");
    }
  // Before Diophantos the coefficient included the mass and radius.
  principia::serialization::OblateBody old;
  double const j = vf_real("j", 0.1, 10);
  (j * si::Unit<Degree2SphericalHarmonicCoefficient>).WriteToMessage(old.mutable_pre_diophantos_j2());
  auto const e = Oblate::ReadFromMessage(old, massive, rotating);
  eq(num(e->j2_over_μ()) * μ, j, "pre-Diophantos bodies", 1e-4);
}

// North, east, down.
VF_HARNESS(surface_field) {
  static constexpr double π = 3.14159265358979323846;
  FakeIntegrator integrator;
  FakeEphemeris ephemeris{integrator};
  int const axis = vf_choose(3, "pole");
  Angle const α = axis == 1 ? π / 2 * Radian : Angle{}, δ = axis == 2 ? π / 2 * Radian : Angle{};
  Rotating const b(MassiveBody::Parameters(1 * si::Unit<GravitationalParameter>),
                   Rotating::Parameters(1 * Metre, Angle{}, at(0), 1 * Radian / Second, α, δ));
  ephemeris.add(&b);
  R3 const centre = r3<double>("centre");
  universe.state[1][0].q = D({centre.x * Metre, centre.y * Metre, centre.z * Metre});
  static constexpr int direction[6][3] = {{3, 4, 12}, {-3, 4, 12}, {4, -3, -12}, {12, 9, 8}, {-9, -12, 8}, {-9, 12, -8}};
  int const* const d = direction[axis == 0 ? vf_choose(6, "direction") : 0];
  int const h = d[2] == 12 || d[2] == -12 ? 5 : 15;  // Equatorial.
  int const n = d[2] == 12 || d[2] == -12 ? 13 : 17;
  auto const permute = [&](double x, double y, double z) {
    return axis == 2 ? R3{x, y, z} : axis == 0 ? R3{z, x, y} : R3{y, z, x};
  };
  double const r = vf_real("r", 0.1, 10);
  R3 const q = centre + r * permute(d[0], d[1], d[2]);
  BodySurfaceFrameField<World, Surface> const f(ephemeris, at(1), &b);
  auto const from = f.FromThisFrame(World::origin + D({q.x * Metre, q.y * Metre, q.z * Metre}));
  using V0 = Vector<double, Surface>;
  eq(n3(from(V0({0, 0, 1}))), permute(-double(d[0]) / n, -double(d[1]) / n, -double(d[2]) / n), "z is down");
  eq(n3(from(V0({0, 1, 0}))), permute(-double(d[1]) / h, double(d[0]) / h, 0), "y is east");
  eq(n3(from(V0({1, 0, 0}))), permute(-double(d[0]) * d[2] / (h * n), -double(d[1]) * d[2] / (h * n), double(h) / n), "x is north");
  auto const to = f.ToThisFrame(World::origin + D({q.x * Metre, q.y * Metre, q.z * Metre}));
  R3 const x = r3<double>("x");
  eq(n3(from(to(Vector<double, World>(x)))), x, "ToThisFrame is the inverse of FromThisFrame");
}
