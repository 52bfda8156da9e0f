// Keplerian elements: the shape of the conic.
//@ entry elliptic mode=real max-seconds=200
//@ entry hyperbolic mode=real max-seconds=200
//@ entry asymptotes mode=real max-seconds=100
//@ entry orientation mode=real max-seconds=60
//@ src $VERIF/rt/elementary.cc
//@ bound All pairs of elements of different categories (each of them, in turn, being given in each of its variants), for elliptic and hyperbolic orbits with e = (1 - k²)/(1 + k²) and e = (1 + k²)/(1 - k²) respectively, k in [0.2, 0.9], semimajor axes of magnitude in [0.5, 10], mean motions in [0.1, 5]; all orientations.
//@ assume Real arithmetic instead of rounded floating point; roots are exact; the square root of a negative number is a NaN.
#include "geo.h"
#include "numerics/elementary_functions.hpp"
#include "physics/kepler_orbit.hpp"
#include "physics/massive_body.hpp"
#include "physics/massless_body.hpp"

using namespace vf;
using namespace principia::numerics::_elementary_functions;
using namespace principia::physics::_kepler_orbit;
using namespace principia::physics::_massive_body;
using namespace principia::physics::_massless_body;
using principia::quantities::_quantities::Infinity;
constexpr double π = 3.14159265358979323846;

// The actual elements.
struct Conic {
  bool hyperbolic;
  double e, a, n, μ, b, l, h, pe, ap, ε;
  explicit Conic(bool hyperbolic) : hyperbolic(hyperbolic) {
    double const k = vf_real("k", 0.2, 0.9);
    double const A = vf_real("a", 0.5, 10);
    n = vf_real("n", 0.1, 5);
    μ = n * n * A * A * A;
    double const d = hyperbolic ? 1 - k * k : 1 + k * k;
    e = hyperbolic ? (1 + k * k) / d : (1 - k * k) / d;
    a = hyperbolic ? -A : A;
    b = A * 2 * k / d;  // The impact parameter.
    l = b * b / A;
    h = n * A * b;
    pe = a * (1 - e);
    ap = a * (1 + e);
    ε = -n * n * A * A * A / (2 * a);
  }
};

static constexpr int variants[6] = {1, 7, 2, 2, 1, 1};
// Returns false if that element is not finite.
static bool set(KeplerianElements<W1>& el, Conic const& c, int category, int variant) {
  Length const m = Metre;
  auto const s = Second;
  switch (category) {
    case 0: el.eccentricity = c.e; return true;
    case 1:
      switch (variant) {
        case 0: el.semimajor_axis = c.a * m; return true;
        case 1: el.specific_energy = c.ε * (m * m / (s * s)); return true;
        case 2: el.characteristic_energy = 2 * c.ε * (m * m / (s * s)); return true;
        case 3: el.mean_motion = c.n * (Radian / s); return !c.hyperbolic;
        case 4: el.period = 2 * π / c.n * s; return !c.hyperbolic;
        case 5: el.hyperbolic_mean_motion = c.n * (Radian / s); return c.hyperbolic;
        case 6: el.hyperbolic_excess_velocity = c.n * -c.a * (m / s); return c.hyperbolic;
      }
      return false;
    case 2:
      if (variant == 0) el.semiminor_axis = c.b * m;
      else el.impact_parameter = c.b * m;
      return c.hyperbolic == (variant == 1);
    case 3:
      if (variant == 0) el.semilatus_rectum = c.l * m;
      else el.specific_angular_momentum = c.h * (m * m / s * Radian);
      return true;
    case 4: el.periapsis_distance = c.pe * m; return true;
    case 5: el.apoapsis_distance = c.ap * m; return true;
  }
  return false;
}

template<typename Q>
static void same(std::optional<Q> const& actual, double expected, char const* id, double tol = 1e-3) {
  vf_check(actual.has_value(), id);
  vf_near(num(*actual), expected, tol, id);
}
template<typename Q>
static void nan(std::optional<Q> const& actual, char const* id) {
  vf_check(actual.has_value() && *actual != *actual, id);
}

static KeplerianElements<W1> complete(KeplerianElements<W1> el, Conic const& c) {
  el.true_anomaly = 0 * Radian;
  MassiveBody const primary(c.μ / 2 * si::Unit<GravitationalParameter>);
  MassiveBody const secondary(c.μ / 2 * si::Unit<GravitationalParameter>);
  return KeplerOrbit<W1>(primary, secondary, el, Instant()).elements_at_epoch();
}

static void conic(bool hyperbolic) {
  vf_sqrt_domain(1);
  int const i = vf_choose(6, "first"), j = vf_choose(6, "second");
  if (i >= j) return;
  int const vi = vf_choose(variants[i], "first_variant"), vj = vf_choose(variants[j], "second_variant");
  Conic const c(hyperbolic);
  KeplerianElements<W1> el;
  el.argument_of_periapsis = 0 * Radian;
  if (!set(el, c, i, vi) || !set(el, c, j, vj)) return;
  auto const r = complete(el, c);
  same(r.eccentricity, c.e, "eccentricity");
  same(r.semimajor_axis, c.a, "semimajor axis");
  same(r.specific_energy, c.ε, "specific energy");
  same(r.characteristic_energy, 2 * c.ε, "characteristic energy");
  same(r.semilatus_rectum, c.l, "semilatus rectum");
  same(r.specific_angular_momentum, c.h, "specific angular momentum");
  same(r.periapsis_distance, c.pe, "periapsis");
  same(r.apoapsis_distance, c.ap, "apoapsis");
  if (hyperbolic) {
    nan(r.mean_motion, "mean motion");
    nan(r.period, "period");
    same(r.hyperbolic_mean_motion, c.n, "hyperbolic mean motion");
    same(r.hyperbolic_excess_velocity, c.n * -c.a, "excess velocity");
    nan(r.semiminor_axis, "semiminor axis");
    same(r.impact_parameter, c.b, "impact parameter");
    vf_near(num(Cos(*r.asymptotic_true_anomaly)) * c.e, -1, 1e-3, "asymptotic true anomaly");
    vf_near(num(Sin(*r.turning_angle / 2)) * c.e, 1, 1e-3, "turning angle");
  } else {
    same(r.mean_motion, c.n, "mean motion");
    same(r.period, 2 * π / c.n, "period");
    nan(r.hyperbolic_mean_motion, "hyperbolic mean motion");
    nan(r.hyperbolic_excess_velocity, "excess velocity");
    same(r.semiminor_axis, c.b, "semiminor axis");
    nan(r.impact_parameter, "impact parameter");
    nan(r.asymptotic_true_anomaly, "asymptotic true anomaly");
    nan(r.turning_angle, "turning angle");
  }
}
VF_HARNESS(elliptic) { conic(false); }
VF_HARNESS(hyperbolic) { conic(true); }

VF_HARNESS(asymptotes) {
  vf_sqrt_domain(1);
  vf_angle_denominator(2);
  Angle const δ = vf_angle("turning") * Radian;
  double const s = Sin(δ / 2), c = Cos(δ / 2);
  vf_assume(s > 0.2 && s < 0.95 && c > 0.05);
  double const e = 1 / s;
  Conic o(true);
  KeplerianElements<W1> el;
  el.argument_of_periapsis = 0 * Radian;
  el.semimajor_axis = o.a * Metre;
  int const which = vf_choose(3, "given");
  if (which == 0) el.turning_angle = δ;
  else if (which == 1) el.asymptotic_true_anomaly = δ / 2 + π / 2 * Radian;
  else el.eccentricity = e;
  auto const r = complete(el, o);
  same(r.eccentricity, e, "eccentricity");
  vf_near(Sin(*r.turning_angle / 2), s, 1e-3, "turning angle");
  vf_near(Cos(*r.turning_angle / 2), c, 1e-3, "turning angle");
  vf_near(Cos(*r.asymptotic_true_anomaly), -s, 1e-3, "asymptotic true anomaly");
  vf_near(Sin(*r.asymptotic_true_anomaly), c, 1e-3, "asymptotic true anomaly");
  same(r.periapsis_distance, o.a * (1 - e), "periapsis");
}

VF_HARNESS(orientation) {
  KeplerianElements<W1> el;
  el.eccentricity = 0.5;
  el.semimajor_axis = vf_real("a", 1, 10) * Metre;
  double const i = vf_real("i", 0, 3), Ω = vf_real("Ω", -7, 7), ω = vf_real("ω", -7, 7);
  el.inclination = i * Radian;
  el.longitude_of_ascending_node = Ω * Radian;
  bool const argument = vf_choose(2, "argument");
  if (argument) el.argument_of_periapsis = ω * Radian;
  else el.longitude_of_periapsis = (ω + Ω) * Radian;
  el.true_anomaly = 0 * Radian;
  MassiveBody const primary(5 * si::Unit<GravitationalParameter>);
  MasslessBody const secondary;
  auto const r = KeplerOrbit<W1>(primary, secondary, el, Instant()).elements_at_epoch();
  vf_near(num(r.inclination), i, 1e-6, "inclination");
  vf_near(num(r.longitude_of_ascending_node), Ω, 1e-6, "longitude of the ascending node");
  same(r.argument_of_periapsis, ω, "argument of periapsis");
  same(r.longitude_of_periapsis, ω + Ω, "longitude of periapsis");
}
