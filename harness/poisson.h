// Makers of Poisson series with symbolic coefficients.
#pragma once
#include "poly.h"
#include "numerics/poisson_series.hpp"

using namespace principia::numerics::_poisson_series;

namespace {
template<typename V, int a, int p>
using Series = PoissonSeries<V, a, p>;

// The data from which a series is built, and its value according to the
// definition.
template<typename V, int a, int p>
struct Raw {
  using S = PoissonSeries<V, a, p>;
  Instant origin;
  typename S::AperiodicPolynomial::Coefficients ap;
  struct Term {
    AngularFrequency ω;
    typename S::PeriodicPolynomial::Coefficients sin, cos;
  };
  std::vector<Term> terms;

  Raw(char const* n, Instant const& o, std::vector<AngularFrequency> const& ωs) : origin(o) {
    ap = coefficients<typename S::AperiodicPolynomial, a>(std::string(n) + "a");
    for (auto const& ω : ωs) {
      std::string const i = n + std::to_string(terms.size());
      terms.push_back({ω, coefficients<typename S::PeriodicPolynomial, p>(i + "s"),
                       coefficients<typename S::PeriodicPolynomial, p>(i + "c")});
    }
  }
  S series() const {
    typename S::PolynomialsByAngularFrequency periodic;
    for (auto const& t : terms) {
      periodic.emplace_back(t.ω, typename S::Polynomials{
          .sin = typename S::PeriodicPolynomial(t.sin, origin),
          .cos = typename S::PeriodicPolynomial(t.cos, origin)});
    }
    return S(typename S::AperiodicPolynomial(ap, origin), periodic);
  }
  template<int d, typename C>
  static V value(C const& c, Time const& t) {
    V v = get<0>(c);
    double f = num(t), power = 1;
    [&]<int... i>(std::integer_sequence<int, i...>) {
      (([&] { power *= f; v += (power * Pow<i + 1>(si::Unit<Time>)) * get<i + 1>(c); }()), ...);
    }(std::make_integer_sequence<int, d>{});
    return v;
  }
  V operator()(Instant const& t) const {
    Time const τ = t - origin;
    V v = value<a>(ap, τ);
    for (auto const& m : terms) {
      Angle const θ = m.ω * τ;
      v += value<p>(m.sin, τ) * Sin(θ) + value<p>(m.cos, τ) * Cos(θ);
    }
    return v;
  }
};

// A positive frequency.
AngularFrequency frequency(char const* n, double lo = 0.1, double hi = 3) {
  return vf_real(n, lo, hi) * (si::Radian / si::Second);
}
}  // namespace
