// Newhall approximation.
//@ entry newhall_chebyshev mode=real max-seconds=100
//@ entry newhall_monomial mode=real max-seconds=100
//@ entry newhall_bounds mode=real max-seconds=100
//@ src $VERIF/rt/elementary.cc
//@ bound Degrees 3 to 17; all polynomials of that degree (coefficients of magnitude at most 1), any interval of length 0.2 to 20; arbitrary data at the bounds.
//@ assume Real arithmetic instead of rounded floating point, except that the tables of matrices have the precision that they have in the code.
#include "geo.h"
#include "numerics/newhall.hpp"
#include "numerics/polynomial_in_monomial_basis.hpp"
#include "numerics/polynomial_in_чебышёв_basis.hpp"

using namespace vf;
using namespace principia::geometry::_direct_sum;
using namespace principia::numerics::_newhall;
using namespace principia::numerics::_polynomial;
using namespace principia::numerics::_polynomial_evaluators;
using namespace principia::numerics::_polynomial_in_monomial_basis;
using namespace principia::numerics::_polynomial_in_чебышёв_basis;

namespace {
template<typename V>
using QV = DirectSum<V, Variation<V>>;
struct Data {
  double c[18] = {};
  int degree;
  Instant middle;
  Time half;
  Length value(double s) const {
    double p = 0;
    for (int k = degree; k >= 0; --k) p = p * s + c[k];
    return p * si::Unit<Length>;
  }
  Length derivative(double s) const {
    double p = 0;
    for (int k = degree; k >= 1; --k) p = p * s + k * c[k];
    return p * si::Unit<Length>;
  }
  Instant t_min() const { return middle - half; }
  Instant t_max() const { return middle + half; }
};
Data data(int degree, int actual) {
  Data d;
  d.degree = actual;
  for (int i = 0; i <= actual; ++i) d.c[i] = vf_real(("c" + std::to_string(i)).c_str(), -1, 1);
  d.middle = Instant() + q<Time>("t");
  d.half = vf_real("half", 0.1, 10) * si::Unit<Time>;
  return d;
}
// The tables for the higher degrees are less precise.
double tolerance(int degree) { return degree > 12 ? 1e-7 : 1e-9; }
}  // namespace

VF_HARNESS(newhall_chebyshev) {
  int const degree = 3 + vf_choose(15, "degree");
  Data const d = data(degree, degree);
  std::vector<QV<Length>> qvs;
  for (int i = 0; i <= 8; ++i) qvs.emplace_back(d.value((i - 4) / 4.0), d.derivative((i - 4) / 4.0) / d.half);
  Length estimate;
  auto const p = NewhallApproximationInЧебышёвBasis<Length>(degree, qvs, d.t_min(), d.t_max(), estimate);
  vf_check(p->degree() == degree, "degree");
  double const s = vf_real("s", -1, 1);
  eq((*p)(d.middle + s * d.half), d.value(s), "value", tolerance(degree));
  eq(p->EvaluateDerivative(d.middle + s * d.half) * d.half, d.derivative(s), "derivative", 1e3 * tolerance(degree));
  // The estimate is the last coefficient in the Чебышёв basis.
  eq(num(estimate), d.c[degree] / (1 << (degree - 1)), "estimate", tolerance(degree));
}

namespace {
template<int degree>
void fixed(std::vector<QV<Position<W1>>> const& qvs, Data const& d, double s) {
  Displacement<W1> e;
  auto const p = NewhallApproximationInMonomialBasis<Position<W1>, degree, Horner>(qvs, d.t_min(), d.t_max(), e);
  eq((p(d.middle + s * d.half) - W1::origin).coordinates().y, d.value(s), "value with fixed degree", tolerance(degree));
}
}  // namespace

VF_HARNESS(newhall_monomial) {
  int const degree = 3 + vf_choose(15, "degree");
  Data const d = data(degree, degree);
  std::vector<QV<Position<W1>>> qvs;
  for (int i = 0; i <= 8; ++i) {
    double const s = (i - 4) / 4.0;
    qvs.emplace_back(W1::origin + Displacement<W1>({Length(), d.value(s), s * si::Unit<Length>}),
                     Velocity<W1>({Speed(), d.derivative(s) / d.half, si::Unit<Length> / d.half}));
  }
  Displacement<W1> estimate;
  auto const p = NewhallApproximationInMonomialBasis<Position<W1>>(degree, qvs, d.t_min(), d.t_max(), Policy::AlwaysEstrin(), estimate);
  vf_check(p->degree() == degree, "degree");
  double const s = vf_real("s", -1, 1);
  auto const r = ((*p)(d.middle + s * d.half) - W1::origin).coordinates();
  eq(r.x, Length(), "x", tolerance(degree));
  eq(r.y, d.value(s), "y", tolerance(degree));
  eq(r.z, s * si::Unit<Length>, "z", tolerance(degree));
  eq((p->EvaluateDerivative(d.middle + s * d.half) * d.half).coordinates().y, d.derivative(s), "derivative", 1e3 * tolerance(degree));
  eq(num(estimate.coordinates().y), d.c[degree] / (1 << (degree - 1)), "estimate", tolerance(degree));
  if (degree == 3) fixed<3>(qvs, d, s);
  if (degree == 8) fixed<8>(qvs, d, s);
  if (degree == 17) fixed<17>(qvs, d, s);
}

VF_HARNESS(newhall_bounds) {
  // Whatever the data, they are met at the bounds.
  int const degree = 3 + vf_choose(15, "degree");
  Instant const t_min = Instant() + q<Time>("t");
  Time const duration = vf_real("duration", 0.2, 20) * si::Unit<Time>;
  std::vector<QV<Length>> qvs;
  for (int i = 0; i <= 8; ++i) qvs.emplace_back(q<Length>("q", 1), q<Length>("v", 1) / duration);
  Length estimate;
  Policy const policy = Policy::AlwaysEstrinWithoutFMA();
  auto const p = NewhallApproximationInЧебышёвBasis<Length>(degree, qvs, t_min, t_min + duration, estimate);
  auto const m = NewhallApproximationInMonomialBasis<Length>(degree, qvs, t_min, t_min + duration, policy, estimate);
  for (int i : {0, 8}) {
    auto const& [x, v] = qvs[i];
    Instant const t = t_min + i / 8 * duration;
    eq((*p)(t), x, "value at bound", tolerance(degree));
    eq((*m)(t), x, "value at bound in the monomial basis", tolerance(degree));
    eq(p->EvaluateDerivative(t) * duration, v * duration, "derivative at bound", 1e3 * tolerance(degree));
    eq(m->EvaluateDerivative(t) * duration, v * duration, "derivative at bound in the monomial basis", 1e3 * tolerance(degree));
  }
  double const s = vf_real("s", 0, 1);
  eq((*p)(t_min + s * duration), (*m)(t_min + s * duration), "same approximation", 1e4 * tolerance(degree));
}
