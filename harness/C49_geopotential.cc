// The spherical harmonics of the geopotential.
//@ entry potential mode=real max-seconds=150
//@ entry acceleration mode=real max-seconds=150
//@ entry zonal mode=real max-seconds=150
//@ entry damping mode=real max-seconds=150
//@ entry far mode=real max-seconds=150
//@ entry factors mode=real max-seconds=100
//@ src $VERIF/rt/elementary.cc
//@ bound Degrees up to 7 (9 for zonal bodies) with any coefficients, any position and any time; any damping thresholds in the order that they must have, the position being in any of the intervals that they delimit.
//@ assume The coordinates and angles are real numbers (the rounding of the operations is not modelled).
#include "sky.h"
#include "physics/geopotential.hpp"
#include "physics/harmonic_damping.hpp"
#include "physics/oblate_body.hpp"
#include "numerics/elementary_functions.hpp"
#include "numerics/legendre_normalization_factor.mathematica.h"

using namespace principia::physics::_geopotential;
using namespace principia::physics::_harmonic_damping;
using namespace principia::physics::_oblate_body;
using namespace principia::numerics::_elementary_functions;
using namespace principia::numerics::_legendre_normalization_factor;
using Oblate = OblateBody<World>;
using Field = Geopotential<World>;
using Surface = Frame<struct SurfaceTag, Arbitrary, Handedness::Right>;

// The thresholds.
constexpr int degree_max = 9;
static double inner[degree_max + 1];
static double inner_sectoral;
static int degree;

namespace principia::physics::_geopotential::internal {
template<> Geopotential<World>::Geopotential(not_null<OblateBody<World> const*> body, double) : body_(body) {
  degree_damping_.emplace_back(1e9 * Metre);
  degree_damping_.emplace_back(1e9 * Metre);
  for (int n = 2; n <= degree; ++n) degree_damping_.emplace_back(inner[n] * Metre);
  sectoral_damping_ = HarmonicDamping(inner_sectoral * Metre);
}
}

// When the harmonics are not zonal, the pole is along the first axis of World and the body does half a turn between
// the instants 0 and 1.
namespace principia::physics::_rotating_body::internal {
using principia::geometry::_quaternion::Quaternion;
struct Turn {
  Quaternion q;
  template<typename F> operator Rotation<F, World>() const { return Rotation<F, World>(q); }
};
template<> template<>
Rotation<principia::physics::_geopotential::internal::Geopotential<World>::SurfaceFrame, World>
RotatingBody<World>::FromSurfaceFrame(Instant const& t) const {
  return Turn{when(t) == 0 ? Quaternion(0.5, {0.5, 0.5, 0.5}) : Quaternion(-0.5, {0.5, -0.5, 0.5})};
}
}

// A value and its gradient.
struct Dual {
  double v;
  double d[3];
};
static Dual operator+(Dual const& a, Dual const& b) {
  return {a.v + b.v, {a.d[0] + b.d[0], a.d[1] + b.d[1], a.d[2] + b.d[2]}};
}
static Dual operator*(double a, Dual const& b) { return {a * b.v, {a * b.d[0], a * b.d[1], a * b.d[2]}}; }
static Dual operator*(Dual const& a, Dual const& b) {
  Dual r{a.v * b.v, {}};
  for (int i = 0; i < 3; ++i) r.d[i] = a.v * b.d[i] + b.v * a.d[i];
  return r;
}

static Dual operator/(Dual const& a, double b) { return {a.v / b, {a.d[0] / b, a.d[1] / b, a.d[2] / b}}; }

// The place where the field is measured, in the axes of the body.
struct Place {
  Angle const λ = vf_angle("longitude") * Radian;
  Angle const β = vf_angle("latitude") * Radian;
  double const r = vf_real("r", 1.5, 40);
  double const cos_β = Cos(β);
  double const x[3] = {r * cos_β * Cos(λ), r * cos_β * Sin(λ), r * Sin(β)};
  Place() { vf_assume(cos_β > 0.01); }
};

static double coefficient[2][degree_max + 1][degree_max + 1];

static double σ(int n, int m, double r, double& derivative) {
  double const s = n == 2 && m > 0 ? inner_sectoral : inner[n];
  derivative = 0;
  if (r <= s) return 1;
  if (r >= 3 * s) return 0;
  // The cubic that is 1 at s and 0 at 3 s, where it is flat.
  double const u = (r / s - 1) / 2;
  derivative = (6 * u * u - 6 * u) / (2 * s);
  return 2 * u * u * u - 3 * u * u + 1;
}

// The sum of the harmonics and its gradient, in the axes of the body, for a reference radius a.
static Dual oracle(Place const& p, double a, bool with_orders) {
  Dual x{p.x[0], {1, 0, 0}}, y{p.x[1], {0, 1, 0}}, z{p.x[2], {0, 0, 1}};
  Dual r2{p.r * p.r, {2 * p.x[0], 2 * p.x[1], 2 * p.x[2]}};
  double const ir = 1 / p.r;
  Dual inverse{ir, {-p.x[0] * ir * ir * ir, -p.x[1] * ir * ir * ir, -p.x[2] * ir * ir * ir}};  // 1 / r.
  Dual sum{0, {}};
  Dual c{1, {}}, s{0, {}};  // (x + iy)^m times (2m - 1)!!.
  for (int m = 0; m <= (with_orders ? degree : 0); ++m) {
    if (m > 0) {
      Dual const cc = (2 * m - 1) * (c * x + -1.0 * (s * y));
      s = (2 * m - 1) * (s * x + c * y);
      c = cc;
    }
    Dual h[degree_max + 1][2];
    for (int n = m; n <= degree; ++n) {
      for (int k = 0; k < 2; ++k) {
        if (n == m) h[n][k] = k ? s : c;
        else if (n == m + 1) h[n][k] = (2 * m + 1) * (z * h[m][k]);
        else h[n][k] = ((2 * n - 1.0) * (z * h[n - 1][k]) + -(n + m - 1.0) * (r2 * h[n - 2][k])) / (n - m);
      }
      if (n < 2 || (n == 2 && m == 1)) continue;
      Dual f{1, {}};
      for (int i = 0; i < 2 * n + 1; ++i) f = f * inverse;
      double scale = LegendreNormalizationFactor(n, m);
      for (int i = 0; i < n; ++i) scale *= a;
      double dσ;
      double const damping = σ(n, m, p.r, dσ);
      Dual const d{damping, {dσ * p.x[0] * ir, dσ * p.x[1] * ir, dσ * p.x[2] * ir}};
      sum = sum + scale * (d * (f * (coefficient[0][n][m] * h[n][0] + coefficient[1][n][m] * h[n][1])));
    }
  }
  return sum;
}

// A body whose harmonics are given by `coefficient`.
static Oblate oblate(double a, bool zonal, bool any_pole) {
  Angle const α = (any_pole ? vf_angle("right_ascension") : 0) * Radian;
  Angle const δ = (any_pole ? vf_angle("declination") : 0) * Radian;
  Angle const w = 0 * Radian;
  principia::serialization::OblateBody::Geopotential g;
  for (int n = 2; n <= degree; ++n) {
    auto* const row = g.add_row();
    row->set_degree(n);
    for (int m = 0; m <= (zonal ? 0 : n); ++m) {
      auto* const column = row->add_column();
      column->set_order(m);
      for (int k = 0; k < 2; ++k) coefficient[k][n][m] = k == 1 && m == 0 ? 0 : vf_real(k ? "S" : "C", 0.02, 0.5);
      column->set_cos(coefficient[0][n][m]);
      column->set_sin(coefficient[1][n][m]);
    }
  }
  return Oblate(MassiveBody::Parameters(3 * si::Unit<GravitationalParameter>),
                RotatingBody<World>::Parameters(1 * Metre, w, at(0), 2 * Radian / Second, α, δ),
                Oblate::Parameters::ReadFromMessage(g, a * Metre));
}

using Reduced = Quotient<Acceleration, GravitationalParameter>;
static void judge(Oblate const& b, Place const& p, double a, bool zonal_axes, bool with_orders, bool potential,
                  bool acceleration) {
  Field const f(&b, 0.5);
  Instant const t = at(zonal_axes ? 0 : vf_choose(2, "time"));
  double const sign = t == at(0) ? 1 : -1;
  Vector<double, World> axis[3] = {b.equatorial(), b.biequatorial(), b.polar_axis()};
  if (!zonal_axes) {
    axis[0] = Vector<double, World>({0, sign, 0});
    axis[1] = Vector<double, World>({0, 0, sign});
  }
  D const r = (p.x[0] * axis[0] + p.x[1] * axis[1] + p.x[2] * axis[2]) * Metre;
  Length const norm = p.r * Metre;
  Dual const o = oracle(p, a, with_orders);
  if (potential) {
    auto const v = f.GeneralSphericalHarmonicsPotential(t, r, norm, norm * norm, 1 / (norm * norm * norm));
    vf_near(v * Metre, -o.v, 1e-9, "The potential is the sum of the damped harmonics");
  }
  if (acceleration) {
    auto const g = f.GeneralSphericalHarmonicsAcceleration(t, r, norm, norm * norm, 1 / (norm * norm * norm));
    for (int i = 0; i < 3; ++i)
      vf_near(InnerProduct(g, axis[i]) * Metre * Metre, o.d[i], 1e-9, "The acceleration is minus the gradient of the potential");
  }
}

static void undamped() {
  for (int n = 2; n <= degree; ++n) inner[n] = 100;
  inner_sectoral = 100;
}

VF_HARNESS(potential) {
  degree = vf::range("degree", 2, 7);
  undamped();
  double const a = vf_real("a", 0.5, 1);
  Oblate const b = oblate(a, false, false);
  judge(b, Place(), a, false, true, true, false);
}

VF_HARNESS(acceleration) {
  degree = vf::range("degree", 2, 7);
  undamped();
  double const a = vf_real("a", 0.5, 1);
  Oblate const b = oblate(a, false, false);
  judge(b, Place(), a, false, true, false, true);
}

VF_HARNESS(zonal) {
  degree = vf::range("degree", 2, 9);
  undamped();
  double const a = vf_real("a", 0.5, 1);
  Oblate const b = oblate(a, true, true);
  bool const potential = vf_choose(2, "potential");
  judge(b, Place(), a, true, true, potential, !potential);
}

static void thresholds() {
  double s = vf_real("threshold", 2, 20);
  for (int n = degree; n > 2; --n) {
    inner[n] = s;
    s += vf_real("increase", 0, 5);
  }
  inner_sectoral = s;
  inner[2] = s + vf_real("increase", 0, 5);
}

VF_HARNESS(damping) {
  degree = 3;
  thresholds();
  double const a = vf_real("a", 0.5, 1);
  Oblate const b = oblate(a, false, false);
  Place const p;
  bool const potential = vf_choose(2, "potential");
  vf_assume(p.r < 3 * inner_sectoral - 0.01);
  judge(b, p, a, false, true, potential, !potential);
}

VF_HARNESS(far) {
  degree = 3;
  thresholds();
  double const a = vf_real("a", 0.5, 1);
  Oblate const b = oblate(a, false, true);
  Place const p;
  bool const potential = vf_choose(2, "potential");
  vf_assume(p.r > 3 * inner_sectoral + 0.01);
  judge(b, p, a, true, false, potential, !potential);
}

VF_HARNESS(factors) {
  for (int n = 0; n <= 50; ++n) {
    for (int m = 0; m <= n; ++m) {
      double f = LegendreNormalizationFactor(n, m);
      f *= f;
      // (n + m)! / (n - m)!.
      for (int k = n - m + 1; k <= n + m; ++k) f *= k;
      vf_near(f / ((m == 0 ? 1 : 2) * (2 * n + 1)), 1, 1e-12, "LegendreNormalizationFactor");
    }
  }
}
