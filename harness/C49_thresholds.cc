// The thresholds of the damping of the geopotential.
//@ entry thresholds mode=real max-seconds=150
//@ src $VERIF/rt/elementary.cc
//@ bound Degrees up to 3 with any magnitudes of the harmonics (those that are not zero being of orders 0, 2 for degree 2, and 0, 3 for degree 3), any tolerance.
//@ assume The coordinates are real numbers (the rounding of the operations is not modelled).
#include "sky.h"
#include "physics/geopotential.hpp"
#include "physics/harmonic_damping.hpp"
#include "physics/oblate_body.hpp"
#include "numerics/elementary_functions.hpp"
#include "numerics/max_abs_normalized_associated_legendre_function.mathematica.h"

using namespace principia::physics::_geopotential;
using namespace principia::physics::_harmonic_damping;
using namespace principia::physics::_oblate_body;
using namespace principia::numerics::_max_abs_normalized_associated_legendre_function;
using Oblate = OblateBody<World>;
using Field = Geopotential<World>;

VF_HARNESS(thresholds) {
  int const degree = vf::range("degree", 2, 3);
  double const a = vf_real("a", 0.5, 2);
  double const ε = vf_real("tolerance", 0.01, 1);
  double magnitude[4][4];
  principia::serialization::OblateBody::Geopotential g;
  // Which harmonic is zero.
  int const zero = vf_choose(4, "zero");
  for (int n = 2; n <= degree; ++n) {
    auto* const row = g.add_row();
    row->set_degree(n);
    for (int m = 0; m <= n; ++m) {
      if (m == 1 || (n == 3 && m == 2)) { magnitude[n][m] = 0; continue; }
      int const index = n == 2 ? m : m + 1;
      if (zero == index) { magnitude[n][m] = 0; continue; }
      double const k = vf_real("k", 0.1, 1);
      auto* const column = row->add_column();
      column->set_order(m);
      column->set_cos(m == 0 ? 5 * k : 3 * k);
      column->set_sin(m == 0 ? 0 : 4 * k);
      magnitude[n][m] = 5 * k;
    }
  }
  Oblate const b(MassiveBody::Parameters(3 * si::Unit<GravitationalParameter>),
                 RotatingBody<World>::Parameters(1 * Metre, 0 * Radian, at(0), 2 * Radian / Second, 0 * Radian, 0 * Radian),
                 Oblate::Parameters::ReadFromMessage(g, a * Metre));
  Field const f(&b, ε);
  auto const& damping = f.degree_damping();
  auto const& sectoral = f.sectoral_damping();
  vf_check(int(damping.size()) == degree + 1, "There is a threshold for each degree");
  for (int n = 0; n <= degree; ++n)
    vf_check(damping[n].outer_threshold() == damping[n].inner_threshold() * 3, "The outer threshold is 3 times the inner one");
  vf_check(damping[0].inner_threshold() > 1e100 * Metre && damping[1].inner_threshold() > 1e100 * Metre,
           "Degrees 0 and 1 are not damped");
  if (degree == 3)
    vf_check(damping[3].inner_threshold() <= sectoral.inner_threshold(), "The sectoral harmonics of degree 2 last longer than those of degree 3");
  vf_check(sectoral.inner_threshold() <= damping[2].inner_threshold(), "J2 lasts longer than the sectoral harmonics");
  // The contribution of a harmonic to the radial force is (n + 1) max |P| |C + iS| (a/r)ⁿ times the central one.
  for (int n = 2; n <= degree; ++n) {
    for (int m = 0; m <= n; ++m) {
      if (magnitude[n][m] == 0) continue;
      double const s = num((n == 2 && m == 2 ? sectoral : damping[n]).inner_threshold());
      double power = 1, radius = 1;
      for (int i = 0; i < n; ++i) power *= s, radius *= a;
      double const contribution = (n + 1) * MaxAbsNormalizedAssociatedLegendreFunction(n, m) * magnitude[n][m] * radius;
      vf_check(power * ε >= contribution * (1 - 1e-9), "A harmonic is not damped where its contribution exceeds the tolerance");
    }
  }
}
