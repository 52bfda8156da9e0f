// Inner products and norms of Poisson series, and their bases.
//@ entry inner_product_fast mode=real max-seconds=100
//@ entry inner_product_slow mode=real max-seconds=200
//@ entry basis_aperiodic mode=real max-seconds=60
//@ entry basis_periodic mode=real max-seconds=60
//@ src $VERIF/rt/elementary.cc
//@ bound Inner products and norms over [0 s, 1 s] of series with any coefficients, with fast frequencies (51 and 52 periods) or without any, constant weights; bases up to degree 3 at any frequency and on any interval.
//@ assume Real arithmetic instead of rounded floating point, except for the constants that the code computes in advance; sine and cosine are exact and related by the addition formulæ only.
#include "poisson.h"
#include "numerics/poisson_series_basis.hpp"

using namespace principia::numerics::_poisson_series_basis;
using principia::π;
using principia::numerics::_poisson_series::internal::InnerProduct;

VF_HARNESS(inner_product_fast) {
  // Two orthogonal fast components, over an integral number of periods.
  Instant const t0;
  Instant const t1 = t0 + 1 * si::Second;
  AngularFrequency const ω1 = 51 * 2 * π * si::Radian / si::Second, ω2 = 52 * 2 * π * si::Radian / si::Second;
  int const k = vf_choose(3, "right");
  Raw<Length, 0, 0> const a("a", t0, {ω1});
  Raw<Length, 0, 0> const b("b", t0, {k == 2 ? ω2 : ω1});
  PoissonSeries<double, 0, 0> const w(PoissonSeries<double, 0, 0>::AperiodicPolynomial({vf_real("w", 0.5, 2)}, t0), {});
  auto const v = InnerProduct(a.series(), b.series(), w, t0, t1);
  auto const weight = w(t0);
  double expected = num(get<0>(a.ap)) * num(get<0>(b.ap));
  if (k != 2) expected += (num(get<0>(a.terms[0].sin)) * num(get<0>(b.terms[0].sin)) + num(get<0>(a.terms[0].cos)) * num(get<0>(b.terms[0].cos))) / 2;
  eq(num(v), weight * expected, "inner product", 1e-6);
  eq(num(InnerProduct(b.series(), a.series(), w, t0, t1)), weight * expected, "symmetry", 1e-6);
}

VF_HARNESS(inner_product_slow) {
  // Polynomials only.
  Instant const t0, t1 = t0 + 1 * si::Second;
  PoissonSeries<Length, 1, 0> const a(PoissonSeries<Length, 1, 0>::AperiodicPolynomial({vf_real("a0", 1, 2) * si::Metre, vf_real("a1", 1, 2) * (si::Metre / si::Second)}, t0), {});
  PoissonSeries<double, 0, 0> const w(PoissonSeries<double, 0, 0>::AperiodicPolynomial({1}, t0), {});
  double const a0 = num(a(t0)), a1 = num(a(t1)) - a0;
  double const n2 = a0 * a0 + a0 * a1 + a1 * a1 / 3;
  eq(num(InnerProduct(a, a, w, t0, t1)), n2, "inner product", 1e-6);
  auto const n = a.Norm(w, t0, t1);
  eq(num(n * n), n2, "norm", 1e-6);
}

namespace {
template<int degree>
void aperiodic() {
  using V = Vector<double, W1>;
  using S = PoissonSeries<V, degree, degree>;
  using G = PoissonSeriesBasisGenerator<S, degree>;
  Instant const t0 = instant("t0"), t1 = t0 + vf_real("width", 0.5, 5) * si::Second;
  auto const basis = G::Basis(t0, t1);
  auto const subspaces = G::Subspaces();
  vf_check(basis.size() == 3 * (degree + 1) && subspaces.size() == basis.size(), "size");
  Instant const mid = t0 + (t1 - t0) / 2;
  Time const τ = q<Time>("t");
  Time const half = (t1 - t0) / 2;
  for (int i = 0; i < basis.size(); ++i) {
    V const plus = basis[i](mid + τ), minus = basis[i](mid - τ);
    int const coordinate = i % 3, d = i / 3;
    double const x = num(τ) / num(half);
    double power = 1;
    for (int k = 0; k < d; ++k) power *= x;
    R3Element<double> e{0, 0, 0};
    e[coordinate] = power;
    // The basis is only defined up to scaling.
    R3Element<double> at_end = basis[i](t1).coordinates();
    eq(plus.coordinates(), at_end[coordinate] * e, "element", 1e-6);
    eq(minus.coordinates(), (d % 2 == 0 ? 1 : -1) * plus.coordinates(), "parity", 1e-6);
    for (int j = 0; j < basis.size(); ++j) {
      bool const orthogonal = PoissonSeriesSubspace::orthogonal(subspaces[i], subspaces[j]);
      vf_check(orthogonal == (i % 3 != j % 3 || (i / 3) % 2 != (j / 3) % 2), "orthogonality");
    }
  }
}
}  // namespace

VF_HARNESS(basis_aperiodic) {
  switch (vf_choose(3, "degree")) {
    case 0: aperiodic<0>(); break;
    case 1: aperiodic<1>(); break;
    case 2: aperiodic<3>(); break;
  }
}
namespace {
template<int degree>
void periodic() {
  using V = Vector<double, W1>;
  using S = PoissonSeries<V, degree, degree>;
  using G = PoissonSeriesBasisGenerator<S, degree>;
  Instant const t0 = instant("t0"), t1 = t0 + vf_real("width", 0.5, 5) * si::Second;
  AngularFrequency const ω = frequency("omega");
  auto const basis = G::Basis(ω, t0, t1);
  auto const subspaces = G::Subspaces(ω);
  vf_check(basis.size() == 6 * (degree + 1) && subspaces.size() == basis.size(), "size");
  Instant const mid = t0 + (t1 - t0) / 2;
  Time const τ = q<Time>("t");
  double const x = num(τ) / num((t1 - t0) / 2);
  for (int i = 0; i < basis.size(); ++i) {
    int const coordinate = i % 3, d = i / 6;
    bool const sine = (i / 3) % 2 == 1;
    double power = sine ? Sin(ω * τ) : Cos(ω * τ);
    for (int k = 0; k < d; ++k) power *= x;
    R3Element<double> e{0, 0, 0};
    e[coordinate] = power;
    eq(basis[i](mid + τ).coordinates(), e, "element", 1e-6);
    for (int j = 0; j < basis.size(); ++j) {
      int const parity_i = d + sine, parity_j = j / 6 + (j / 3) % 2;
      bool const orthogonal = PoissonSeriesSubspace::orthogonal(subspaces[i], subspaces[j]);
      vf_check(orthogonal == (i % 3 != j % 3 || (parity_i + parity_j) % 2 != 0), "orthogonality");
    }
  }
}
}  // namespace

VF_HARNESS(basis_periodic) {
  switch (vf_choose(3, "degree")) {
    case 0: periodic<0>(); break;
    case 1: periodic<1>(); break;
    case 2: periodic<3>(); break;
  }
}
