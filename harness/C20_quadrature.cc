// Finite differences, quadrature, interpolation and approximation, against
// polynomials, for which they are exact.
//@ entry finite_difference mode=real max-seconds=60
//@ entry gauss_legendre mode=real max-seconds=100
//@ entry clenshaw_curtis mode=real max-seconds=100
//@ entry midpoint mode=real max-seconds=60
//@ entry interpolant mode=real max-seconds=100
//@ entry adaptive_interpolant mode=real max-seconds=100
//@ src $VERIF/rt/elementary.cc
//@ bound Finite differences with 1 to 9 points, Gauss-Legendre with 1 to 12 points, Clenshaw-Curtis with 3, 5, 9 and 17 points, all polynomials of the degree for which they must be exact; midpoint rule with up to 4 intervals; interpolants of quartic polynomials (with up to 3 nonzero coefficients) up to degree 4; adaptive interpolants of quadratic polynomials with up to 4 intervals.
//@ assume Real arithmetic instead of rounded floating point, except that the tables of nodes and weights have the precision that they have in the code.
#include "geo.h"
#include "numerics/approximation.hpp"
#include "numerics/finite_difference.hpp"
#include "numerics/polynomial_in_чебышёв_basis.hpp"
#include "numerics/quadrature.hpp"

using namespace vf;
using namespace principia::numerics::_approximation;
using namespace principia::numerics::_finite_difference;
using namespace principia::numerics::_polynomial_in_чебышёв_basis;
using namespace principia::numerics::_quadrature;

namespace {
template<int n>
void finite() {
  double c[n];
  for (int i = 0; i < n; ++i) c[i] = vf_real(("c" + std::to_string(i)).c_str(), -1, 1);
  Time const h = vf_real("h", 0.1, 2) * si::Unit<Time>;
  for (int offset = 0; offset < n; ++offset) {
    std::array<Length, n> values;
    for (int i = 0; i < n; ++i) {
      double p = 0;
      for (int k = n - 1; k >= 0; --k) p = p * (i - offset) + c[k];
      values[i] = p * si::Unit<Length>;
    }
    eq(FiniteDifference(values, h, offset) * h, (n > 1 ? c[1 % n] : 0) * si::Unit<Length>, "derivative", 1e-6);
  }
  std::array<Position<W1>, n> points;
  for (int i = 0; i < n; ++i) points[i] = W1::origin + Displacement<W1>({1 * si::Metre, (n > 1 ? c[1 % n] : 0) * i * si::Unit<Length>, c[0] * si::Metre});
  eq((FiniteDifference(points, h, n / 2) * h).coordinates(), R3Element<Length>{Length(), (n > 1 ? c[1 % n] : 0) * si::Unit<Length>, Length()}, "derivative of points", 1e-6);
}

// A polynomial about the middle of an interval.
template<int n>
struct Poly {
  double c[n + 1];
  Instant middle;
  Time half;
  Length operator()(Instant const& t) const {
    double const x = (t - middle) / si::Unit<Time>;
    double p = 0;
    for (int k = n; k >= 0; --k) p = p * x + c[k];
    return p * si::Unit<Length>;
  }
  double integral() const {
    double const h = half / si::Unit<Time>;
    double sum = 0, power = h;
    for (int k = 0; k <= n; ++k) {
      if (k % 2 == 0) sum += 2 * c[k] * power / (k + 1);
      power *= h;
    }
    return sum;
  }
  Instant lower() const { return middle - half; }
  Instant upper() const { return middle + half; }
};
template<int n>
Poly<n> poly() {
  Poly<n> p;
  for (int i = 0; i <= n; ++i) p.c[i] = vf_real(("c" + std::to_string(i)).c_str(), -1, 1);
  p.middle = Instant() + q<Time>("t");
  p.half = vf_real("half", 0.1, 1) * si::Unit<Time>;
  return p;
}

template<int n>
void gauss() {
  auto const p = poly<2 * n - 1>();
  eq(num(GaussLegendre<n>(p, p.lower(), p.upper())), p.integral(), "integral", 1e-12);
  if constexpr (n == 3) eq(num(GaussLegendre<n>(p, p.upper(), p.lower())), -p.integral(), "opposite integral", 1e-12);
}
template<int n>
void clenshaw() {
  auto const p = poly<n - 1>();
  eq(num(AutomaticClenshawCurtis<(n + 1) / 2>(p, p.lower(), p.upper(), std::nullopt, n)), p.integral(), "integral", 1e-12);
  if constexpr (n == 5) eq(num(AutomaticClenshawCurtis<3>(p, p.lower(), p.upper(), 0.01, n)), p.integral(), "integral with error", 1e-12);
}
}  // namespace

VF_HARNESS(finite_difference) {
  int const d = vf_choose(9, "points");
  [&]<int... i>(std::integer_sequence<int, i...>) {
    ((d == i ? finite<i + 1>() : void()), ...);
  }(std::make_integer_sequence<int, 9>{});
}

VF_HARNESS(gauss_legendre) {
  int const d = vf_choose(12, "points");
  [&]<int... i>(std::integer_sequence<int, i...>) {
    ((d == i ? gauss<i + 1>() : void()), ...);
  }(std::make_integer_sequence<int, 12>{});
}

VF_HARNESS(clenshaw_curtis) {
  switch (vf_choose(3, "points")) {
    case 0: clenshaw<5>(); break;
    case 1: clenshaw<9>(); break;
    case 2: clenshaw<17>(); break;
  }
}

VF_HARNESS(midpoint) {
  auto const p = poly<1>();
  int const n = 1 + vf_choose(4, "intervals");
  eq(num(Midpoint(p, p.lower(), p.upper(), n)), p.integral(), "integral of an affine function", 1e-9);
  // The error of the quadratic term.
  auto const r = poly<2>();
  double const h = num(r.half);
  eq(num(Midpoint(r, r.lower(), r.upper(), n)) + 2 * r.c[2] * h * h * h / (3 * n * n), r.integral(), "integral of a quadratic function", 1e-9);
}

VF_HARNESS(interpolant) {
  auto p = poly<4>();
  // Few coefficients at a time, their signs are distinguished.
  int const keep[] = {0b00111, 0b01101, 0b11000, 0b10010};
  int const shape = keep[vf_choose(4, "shape")];
  for (int i = 0; i <= 4; ++i) if (!(shape >> i & 1)) p.c[i] = 0;
  Length const max_error = vf_real("max_error", 0.001, 1) * si::Unit<Length>;
  Length estimate;
  auto const i = ЧебышёвPolynomialInterpolant<4>(p, p.lower(), p.upper(), max_error, &estimate);
  double const s = vf_real("s", -1, 1);
  Instant const t = p.middle + s * p.half;
  vf_check(i->degree() == 1 || i->degree() == 2 || i->degree() == 4, "degree");
  vf_check(estimate <= max_error || i->degree() == 4, "maximal degree only if needed");
  eq(i->lower_bound(), p.lower(), "lower bound");
  eq(i->upper_bound(), p.upper(), "upper bound");
  // Interpolation at the bounds.
  eq((*i)(p.lower()), p(p.lower()), "value at the lower bound", 1e-9);
  eq((*i)(p.upper()), p(p.upper()), "value at the upper bound", 1e-9);
  vf_check(estimate >= Length(), "estimate");
  if (i->degree() == 2) eq((*i)(p.middle), p(p.middle), "value in the middle", 1e-9);
  if (i->degree() == 4) {
    eq((*i)(t), p(t), "exact", 1e-9);
    eq(estimate, Length(), "exact estimate", 1e-9);
  }
}

VF_HARNESS(adaptive_interpolant) {
  auto const p = poly<2>();
  Length const max_error = vf_real("max_error", 0.001, 1) * si::Unit<Length>;
  using Interpolant = PolynomialInЧебышёвBasis<Length, Instant>;
  Length estimate;
  int n = 0;
  int const splits = vf_choose(4, "splits");
  auto const subdivide = [&](Interpolant const& i, Length const& e) {
    vf_check(e > max_error, "subdivide only if above the error");
    return n++ < splits;
  };
  // A maximal degree of 1 makes the quadratic term an error.
  auto const is = AdaptiveЧебышёвPolynomialInterpolant<1>(p, p.lower(), p.upper(), max_error, SubdivisionPredicate<Length, Instant>(subdivide), &estimate);
  vf_check(is.size() >= 1 && is.size() <= splits + 1, "number of intervals");
  Instant t = p.lower();
  double const s = vf_real("s", -1, 1);
  for (auto const& i : is) {
    eq(i->lower_bound(), t, "contiguous", 1e-9);
    t = i->upper_bound();
    vf_check(i->lower_bound() < t, "nonempty");
    eq((*i)(t), p(t), "value at bound", 1e-9);
    double const h = num(t - i->lower_bound()) / 2;
    Instant const x = i->lower_bound() + (s + 1) * h * si::Unit<Time>;
    eq((*i)(x) - p(x), p.c[2] * h * h * (1 - s * s) * si::Unit<Length>, "error", 1e-9);
    vf_check(num(estimate) >= p.c[2] * h * h - 1e-9 && num(estimate) >= -p.c[2] * h * h - 1e-9, "estimate");
  }
  eq(t, p.upper(), "covers the interval", 1e-9);
  if (n <= splits) vf_check(estimate <= max_error, "estimate within the error");

  // Streaming.
  n = 0;
  int m = 0;
  Instant last = p.lower();
  int const stop_after = 1 + vf_choose(2, "stop");
  TerminationPredicate<Length, Instant> const stop = [&](auto i) {
    eq(i->lower_bound(), last, "contiguous stream", 1e-9);
    last = i->upper_bound();
    return ++m >= stop_after;
  };
  StreamingAdaptiveЧебышёвPolynomialInterpolant<1>(p, p.lower(), p.upper(), max_error, SubdivisionPredicate<Length, Instant>(subdivide), stop);
  vf_check(m == (is.size() < stop_after ? is.size() : stop_after), "stops");
}
