// Keplerian orbits: anomalies and state vectors.
//@ entry elliptic_state mode=real max-seconds=200
//@ entry hyperbolic_state mode=real max-seconds=200
//@ entry circular_state mode=real max-seconds=60
//@ entry elliptic_anomaly mode=real max-seconds=100
//@ entry hyperbolic_anomaly mode=real max-seconds=100
//@ entry elliptic_elements mode=real max-seconds=300
//@ entry hyperbolic_elements mode=real max-seconds=300
//@ src $VERIF/rt/elementary.cc
//@ bound e = (1 - k²)/(1 + k²) for ellipses and (1 + k²)/(1 - k²) for hyperbolas, k in [0.2, 0.9]; semimajor axes in [0.5, 10], mean motions in [0.1, 5]; all orientations and anomalies, up to one revolution away from the periapsis; dates up to 100 s from the epoch.
//@ assume Real arithmetic instead of rounded floating point; Brent's method, when given a bracket of the root, finds it (that is the subject of C21); H ≤ sinh H for positive H.
#include "geo.h"
#include "geometry/rotation.hpp"
#include "geometry/sign.hpp"
#include "numerics/angle_reduction.hpp"
#include "numerics/elementary_functions.hpp"
#include "numerics/root_finders.hpp"
#include "physics/degrees_of_freedom.hpp"
#include "physics/massive_body.hpp"
#include "physics/massless_body.hpp"
#include "base/optional_serialization.hpp"

// The roots that the root finder returns.
static double roots[2];
static int finds;
template<typename F, typename T>
T FindRoot(F const& f, T const& lower, T const& upper) {
  auto const rad = principia::quantities::_si::Radian;
  ++finds;
  double const f0 = f(roots[0] * rad) / rad;
  T const r = -1e-3 < f0 && f0 < 1e-3 ? roots[0] * rad : roots[1] * rad;
  vf_near(f(r) / rad, 0, 1e-5, "Kepler's equation");
  T const ε = 1e-9 * rad;
  vf_check((lower - ε <= r && r <= upper + ε) || (upper - ε <= r && r <= lower + ε), "bracket");
  return r;
}
#define Brent FindRoot
#define Bisect FindRoot
#include "physics/kepler_orbit.hpp"

using namespace vf;
using namespace principia::numerics::_elementary_functions;
using namespace principia::physics::_degrees_of_freedom;
using namespace principia::physics::_kepler_orbit;
using namespace principia::physics::_massive_body;
using namespace principia::physics::_massless_body;
constexpr double π = 3.14159265358979323846;

struct Orientation {
  Angle i, Ω, ω;
  // The directions of the periapsis and of the velocity there.
  Vector<double, W1> P, Q;
  Orientation(Angle i, Angle Ω, Angle ω) : i(i), Ω(Ω), ω(ω) {
    double const ci = cos(i), s_i = sin(i), cΩ = cos(Ω), sΩ = sin(Ω), cω = cos(ω), sω = sin(ω);
    P = Vector<double, W1>({cΩ * cω - sΩ * ci * sω, sΩ * cω + cΩ * ci * sω, s_i * sω});
    Q = Vector<double, W1>({-cΩ * sω - sΩ * ci * cω, -sΩ * sω + cΩ * ci * cω, s_i * cω});
  }
  // Exact for the multiples of π/2.
  static double cos(Angle const& α) { return rounded(Cos(α)); }
  static double sin(Angle const& α) { return rounded(Sin(α)); }
  static double rounded(double x) {
    if (vf_is_symbolic(x) || (x > 1e-9 && x < 1 - 1e-9) || (x < -1e-9 && x > -1 + 1e-9)) return x;
    return x > 0.5 ? 1 : x < -0.5 ? -1 : 0;
  }
};

// An orbit, with the coordinates of the body in the plane of the orbit.
struct Orbit {
  double k, a, n, e, μ, b;
  explicit Orbit(bool hyperbolic) {
    k = vf_real("k", 0.2, 0.9);
    a = vf_real("a", 0.5, 10);
    n = vf_real("n", 0.1, 5);
    μ = n * n * a * a * a;
    double const d = hyperbolic ? 1 - k * k : 1 + k * k;
    e = hyperbolic ? (1 + k * k) / d : (1 - k * k) / d;
    b = a * 2 * k / d;
  }
};

struct State {
  Displacement<W1> q;
  Velocity<W1> v;
};
static State elliptic(Orbit const& o, Orientation const& w, Angle const& E) {
  double const c = Cos(E), s = Sin(E);
  double const Edot = o.n / (1 - o.e * c);
  return {(o.a * (c - o.e) * w.P + o.b * s * w.Q) * Metre,
          (-o.a * s * Edot * w.P + o.b * c * Edot * w.Q) * (Metre / Second)};
}
static State hyperbolic(Orbit const& o, Orientation const& w, double c, double s) {
  double const Hdot = o.n / (o.e * c - 1);
  return {(o.a * (o.e - c) * w.P + o.b * s * w.Q) * Metre,
          (-o.a * s * Hdot * w.P + o.b * c * Hdot * w.Q) * (Metre / Second)};
}
static Orientation orientation(bool full) {
  if (!full) return Orientation(0 * Radian, 0 * Radian, 0 * Radian);
  Angle const i = vf_angle("i") * Radian, Ω = vf_angle("Ω") * Radian, ω = vf_angle("ω") * Radian;
  return Orientation(i, Ω, ω);
}
static KeplerianElements<W1> elements(Orbit const& o, Orientation const& w, bool hyperbolic) {
  KeplerianElements<W1> el;
  el.eccentricity = o.e;
  el.semimajor_axis = (hyperbolic ? -o.a : o.a) * Metre;
  el.inclination = w.i;
  el.longitude_of_ascending_node = w.Ω;
  el.argument_of_periapsis = w.ω;
  return el;
}
static void same(RelativeDegreesOfFreedom<W1> const& actual, State const& expected) {
  eq(actual.displacement(), expected.q, "displacement", 1e-3);
  eq(actual.velocity(), expected.v, "velocity", 1e-3);
}
static KeplerOrbit<W1> orbit(Orbit const& o, KeplerianElements<W1> const& el, Instant const& t0) {
  // The mass of the secondary counts.
  auto const half = o.μ / 2 * si::Unit<GravitationalParameter>;
  if (el.hyperbolic_mean_anomaly || vf_choose(2, "massive")) {
    return KeplerOrbit<W1>(MassiveBody(half), MassiveBody(half), el, t0);
  } else {
    return KeplerOrbit<W1>(MassiveBody(2 * half), MasslessBody{}, el, t0);
  }
}

// Dates that are distinct enough for the roots to be.
static void distinct(double M0, double M1) { vf_assume(M1 - M0 > 0.01 || M0 - M1 > 0.01); }

VF_HARNESS(elliptic_state) {
  vf_sqrt_domain(1);
  Orbit const o(false);
  Orientation const w = orientation(true);
  Angle const E0 = vf_angle("E0") * Radian, E1 = vf_angle("E1") * Radian;
  roots[0] = E0 / Radian;
  roots[1] = E1 / Radian + 2 * π * (vf_choose(3, "revolution") - 1);
  double const M0 = roots[0] - o.e * Sin(E0), M1 = roots[1] - o.e * Sin(E1);
  distinct(M0, M1);
  Instant const t0 = Instant() + vf_real("epoch", -100, 100) * Second;
  auto el = elements(o, w, false);
  el.mean_anomaly = M0 * Radian;
  KeplerOrbit<W1> const k = orbit(o, el, t0);
  vf_near(num(*k.elements_at_epoch().mean_anomaly), M0, 1e-6, "mean anomaly at epoch");
  double const r = 1 - o.e * Cos(E0);
  vf_near(Cos(*k.elements_at_epoch().true_anomaly), (Cos(E0) - o.e) / r, 1e-4, "true anomaly at epoch");
  vf_near(Sin(*k.elements_at_epoch().true_anomaly), o.b / o.a * Sin(E0) / r, 1e-4, "true anomaly at epoch");
  same(k.StateVectors(t0 + (M1 - M0) / o.n * Second), elliptic(o, w, E1));
}

VF_HARNESS(hyperbolic_state) {
  vf_sqrt_domain(1);
  Orbit const o(true);
  Orientation const w = orientation(true);
  // exp(H / 2).
  double const u[2] = {vf_real("u0", 1.01, 4), vf_real("u1", 1.01, 4)};
  double s[2], c[2], M[2];
  for (int i = 0; i < 2; ++i) {
    bool const before = vf_choose(2, "before") == 1;
    double const U = before ? 1 / u[i] : u[i];
    s[i] = (U * U - 1 / (U * U)) / 2;
    c[i] = (U * U + 1 / (U * U)) / 2;
    double const H = 2 * std::log(u[i]);
    vf_assume(H > 0.01 && H <= (u[i] * u[i] - 1 / (u[i] * u[i])) / 2);
    roots[i] = before ? -H : H;
    M[i] = o.e * s[i] - roots[i];
  }
  distinct(M[0], M[1]);
  Instant const t0 = Instant() + vf_real("epoch", -100, 100) * Second;
  auto el = elements(o, w, true);
  el.hyperbolic_mean_anomaly = M[0] * Radian;
  KeplerOrbit<W1> const k = orbit(o, el, t0);
  vf_near(num(*k.elements_at_epoch().hyperbolic_mean_anomaly), M[0], 1e-6, "mean anomaly at epoch");
  double const r = o.e * c[0] - 1;
  vf_near(Cos(*k.elements_at_epoch().true_anomaly), (o.e - c[0]) / r, 1e-4, "true anomaly at epoch");
  vf_near(Sin(*k.elements_at_epoch().true_anomaly), o.b / o.a * s[0] / r, 1e-4, "true anomaly at epoch");
  same(k.StateVectors(t0 + (M[1] - M[0]) / o.n * Second), hyperbolic(o, w, c[1], s[1]));
}

VF_HARNESS(circular_state) {
  vf_sqrt_domain(1);
  double const a = vf_real("a", 0.5, 10), n = vf_real("n", 0.1, 5), μ = n * n * a * a * a;
  Orientation const w = orientation(true);
  Angle const E = vf_angle("E") * Radian;
  double const Δ = vf_real("time", -100, 100);
  KeplerianElements<W1> el;
  el.eccentricity = 0;
  el.semimajor_axis = a * Metre;
  el.inclination = w.i;
  el.longitude_of_ascending_node = w.Ω;
  el.argument_of_periapsis = w.ω;
  el.mean_anomaly = E - n * Δ * Radian;
  MassiveBody const primary(μ * si::Unit<GravitationalParameter>);
  KeplerOrbit<W1> const k(primary, MasslessBody{}, el, Instant());
  double const c = Cos(E), s = Sin(E);
  same(k.StateVectors(Instant() + Δ * Second),
       {a * (c * w.P + s * w.Q) * Metre, a * n * (-s * w.P + c * w.Q) * (Metre / Second)});
}

VF_HARNESS(elliptic_anomaly) {
  vf_sqrt_domain(1);
  Orbit const o(false);
  Angle const E = vf_angle("E") * Radian;
  double const r = 1 - o.e * Cos(E);
  vf_assume(Sin(E) > 0.01 || Sin(E) < -0.01);
  // The true anomaly is given.
  Angle const ν = ArcTan(o.b / o.a * Sin(E) / r, (Cos(E) - o.e) / r);
  auto el = elements(o, orientation(false), false);
  el.true_anomaly = ν;
  auto const x = orbit(o, el, Instant()).elements_at_epoch();
  double M = E / Radian - o.e * Sin(E);
  vf_assume(M > 0.01 || M < -0.01);
  vf_assume((M > 0) == (Sin(E) > 0));  // A fact.
  vf_near(num(*x.mean_anomaly), M < 0 ? M + 2 * π : M, 1e-4, "mean anomaly");
  vf_near(num(*x.true_anomaly), num(ν), 1e-9, "true anomaly");
  vf_check(*x.hyperbolic_mean_anomaly != *x.hyperbolic_mean_anomaly, "hyperbolic mean anomaly");
}

VF_HARNESS(hyperbolic_anomaly) {
  vf_sqrt_domain(1);
  Orbit const o(true);
  double const u = vf_real("u", 1.01, 4);
  double const H = 2 * std::log(u);
  double const c = (u * u + 1 / (u * u)) / 2, s = (u * u - 1 / (u * u)) / 2;
  bool const before = vf_choose(2, "before") == 1;
  double const r = o.e * c - 1;
  Angle const ν = ArcTan((before ? -1 : 1) * o.b / o.a * s / r, (o.e - c) / r);
  auto el = elements(o, orientation(false), true);
  el.true_anomaly = ν;
  auto const x = orbit(o, el, Instant()).elements_at_epoch();
  double const M = o.e * s - H;
  vf_near(num(*x.hyperbolic_mean_anomaly), before ? -M : M, 1e-4, "hyperbolic mean anomaly");
  vf_near(num(*x.true_anomaly), num(ν), 1e-9, "true anomaly");
  vf_check(*x.mean_anomaly != *x.mean_anomaly, "mean anomaly");
}

static void same_angle(Angle const& actual, double s, double c, char const* id) {
  vf_near(Sin(actual), s, 1e-3, id);
  vf_near(Cos(actual), c, 1e-3, id);
}

// Elements from the state vectors.
static void elements(bool hyp) {
  vf_sqrt_domain(1);
  Orbit const o(hyp);
  // One of the angles is arbitrary, the others are multiples of π/2.
  int const arbitrary = vf_choose(3, "arbitrary"), first = vf_choose(4, "first"), second = vf_choose(arbitrary == 0 ? 4 : 1, "second");
  Angle const α = vf_angle("angle") * Radian;
  Orientation const w = arbitrary == 0 ? Orientation(α, first * π / 2 * Radian, second * π / 2 * Radian)
                      : arbitrary == 1 ? Orientation(π / 2 * Radian, α, first * π / 2 * Radian)
                                       : Orientation(π / 2 * Radian, first * π / 2 * Radian, α);
  double const si = w.sin(w.i);
  vf_assume(si > 0.05);
  State st;
  double c, s;
  if (hyp) {
    double const u = vf_real("u", 1.01, 3);
    c = (u * u + 1 / (u * u)) / 2;
    s = (u * u - 1 / (u * u)) / 2;
    if (vf_choose(2, "before") == 1) s = -s;
    st = hyperbolic(o, w, c, s);
  } else {
    Angle const E = vf_angle("E") * Radian;
    c = Cos(E);
    s = Sin(E);
    st = elliptic(o, w, E);
  }
  MassiveBody const primary(o.μ * (principia::quantities::_si::Unit<GravitationalParameter>));
  auto const x = KeplerOrbit<W1>(primary, MasslessBody{}, RelativeDegreesOfFreedom<W1>(st.q, st.v), Instant()).elements_at_epoch();
  double const a = hyp ? -o.a : o.a, ε = -o.μ / (2 * a), h = o.n * o.a * o.b;
  double const r = hyp ? o.e * c - 1 : 1 - o.e * c;
  vf_near(*x.eccentricity, o.e, 1e-3, "eccentricity");
  vf_near(num(*x.semimajor_axis), a, 1e-2, "semimajor axis");
  vf_near(num(*x.specific_energy), ε, 1e-2, "specific energy");
  vf_near(num(*x.specific_angular_momentum), h, 1e-2, "specific angular momentum");
  vf_near(num(*x.periapsis_distance), a * (1 - o.e), 1e-2, "periapsis distance");
  vf_near(num(*x.apoapsis_distance), a * (1 + o.e), 1e-2, "apoapsis distance");
  vf_near(num(hyp ? *x.impact_parameter : *x.semiminor_axis), o.b, 1e-2, "semiminor axis");
  same_angle(x.inclination, si, w.cos(w.i), "inclination");
  same_angle(x.longitude_of_ascending_node, w.sin(w.Ω), w.cos(w.Ω), "longitude of the ascending node");
  same_angle(*x.argument_of_periapsis, w.sin(w.ω), w.cos(w.ω), "argument of periapsis");
  same_angle(*x.true_anomaly, o.b / o.a * s / r, hyp ? (o.e - c) / r : (c - o.e) / r, "true anomaly");
}
VF_HARNESS(elliptic_elements) { elements(false); }
VF_HARNESS(hyperbolic_elements) { elements(true); }
