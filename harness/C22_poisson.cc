// Poisson series, pointwise.
//@ entry poisson_normalization mode=real max-seconds=100
//@ entry poisson_frequencies mode=real max-seconds=60
//@ entry poisson_linear mode=real max-seconds=60
//@ entry poisson_product mode=real max-seconds=60
//@ entry poisson_vector mode=real max-seconds=60
//@ entry poisson_at_origin mode=real max-seconds=60
//@ entry poisson_integral mode=real max-seconds=60
//@ entry poisson_windows mode=real max-seconds=60
//@ src $VERIF/rt/elementary.cc
//@ src numerics/apodization.cpp
//@ bound Series with up to 3 periodic terms, aperiodic and periodic polynomials up to degree 2, real and vector values; frequencies that are any multiples in -2 to 2 of a symbolic one, in any order and with repetitions, or two or three symbolic frequencies.
//@ assume Real arithmetic instead of rounded floating point; sine and cosine are exact and related by the addition formulæ only.
#include "poisson.h"
#include "numerics/apodization.hpp"

namespace apo = principia::numerics::_apodization;

VF_HARNESS(poisson_normalization) {
  // Negative, zero and repeated frequencies.
  AngularFrequency const ω = frequency("omega");
  std::vector<AngularFrequency> ωs;
  int const n = vf_choose(4, "terms");
  int max = 0;
  for (int i = 0; i < n; ++i) {
    int const k = vf_choose(5, "multiple") - 2;
    ωs.push_back(k * ω);
    max = std::max(max, std::abs(k));
  }
  Instant const origin = instant("origin");
  Raw<double, 1, 1> const r("r", origin, ωs);
  auto const s = r.series();
  Instant const t = origin + q<Time>("t");
  eq(s(t), r(t), "value", 1e-3);
  eq(s.max_ω(), max * ω, "largest frequency");
  vf_check(s.origin() == origin, "origin");
}

VF_HARNESS(poisson_frequencies) {
  AngularFrequency const ω1 = q<AngularFrequency>("o1", 3), ω2 = q<AngularFrequency>("o2", 3);
  // Equalities are in the entry above.
  vf_assume(ω1 != ω2 && ω1 != -ω2 && ω1 != 0 * ω2 && ω2 != 0 * ω1);
  Instant const origin = instant("origin");
  Raw<Length, 1, 0> const r("r", origin, {ω1, ω2});
  auto const s = r.series();
  Instant const t = origin + q<Time>("t");
  eq(s(t), r(t), "value", 1e-3);
  vf_check(s.max_ω() >= ω1 && s.max_ω() >= ω2 && s.max_ω() >= -ω1 && s.max_ω() >= -ω2, "largest frequency");
}

VF_HARNESS(poisson_linear) {
  AngularFrequency const ω = frequency("omega");
  Instant const origin = instant("origin");
  int const k = vf_choose(4, "left"), l = vf_choose(4, "right");
  auto const pick = [&](int k) {
    std::vector<AngularFrequency> ωs;
    if (k & 1) ωs.push_back(ω);
    if (k & 2) ωs.push_back(2 * ω);
    return ωs;
  };
  Raw<Length, 1, 0> const a("a", origin, pick(k));
  Raw<Length, 2, 1> const b("b", origin, pick(l));
  auto const left = a.series();
  auto const right = b.series();
  Instant const t = origin + q<Time>("t");
  eq((+right)(t), b(t), "plus", 1e-3);
  eq((-right)(t), -b(t), "opposite", 1e-3);
  eq((left + right)(t), a(t) + b(t), "sum", 1e-3);
  eq((right + left)(t), a(t) + b(t), "sum", 1e-3);
  eq((left - right)(t), a(t) - b(t), "difference", 1e-3);
  eq((right - left)(t), b(t) - a(t), "difference", 1e-3);
  Mass const m = vf_real("m", 0.01, 10) * si::Kilogram;
  eq((m * right)(t), m * b(t), "left multiplication", 1e-3);
  eq((right * m)(t), b(t) * m, "right multiplication", 1e-3);
  eq((right / m)(t) * m, b(t), "division", 1e-3);
  auto c = right;
  c += left;
  eq(c(t), a(t) + b(t), "+=", 1e-3);
  c -= left;
  c -= left;
  eq(c(t), b(t) - a(t), "-=", 1e-3);
  auto const higher = static_cast<PoissonSeries<Length, 3, 2>>(right);
  eq(higher(t), b(t), "higher degree", 1e-3);
  vf_check(higher.max_ω() == right.max_ω(), "frequency of higher degree");
  vf_check((left + right).max_ω() == std::max(left.max_ω(), right.max_ω()), "frequency of sum");
}

VF_HARNESS(poisson_product) {
  AngularFrequency const ω = frequency("omega");
  AngularFrequency const ω2 = frequency("omega2");
  vf_assume(ω2 != ω && ω2 != 2 * ω && ω != 2 * ω2);
  Instant const origin = instant("origin");
  std::vector<AngularFrequency> ωl, ωr;
  switch (vf_choose(6, "frequencies")) {
    case 0: ωl = {ω}; ωr = {ω}; break;
    case 1: ωl = {ω}; ωr = {ω2}; break;
    case 2: ωl = {ω, 2 * ω}; ωr = {ω}; break;
    case 3: ωl = {ω}; ωr = {ω, 3 * ω}; break;
    case 4: ωl = {}; ωr = {ω}; break;
    case 5: ωl = {ω}; ωr = {}; break;
  }
  Raw<Length, 1, 1> const a("a", origin, ωl);
  Raw<Mass, 0, 1> const b("b", origin, ωr);
  Instant const t = origin + q<Time>("t");
  auto const c = a.series() * b.series();
  eq(c(t), a(t) * b(t), "product", 1e-2);
  eq((b.series() * a.series())(t), a(t) * b(t), "product", 1e-2);
}

VF_HARNESS(poisson_vector) {
  AngularFrequency const ω = frequency("omega");
  Instant const origin = instant("origin");
  Raw<Displacement<W1>, 0, 0> const a("a", origin, {ω});
  Raw<Displacement<W1>, 0, 0> const b("b", origin, {2 * ω});
  Raw<double, 0, 0> const w("w", origin, {ω});
  Instant const t = origin + q<Time>("t");
  eq(a.series()(t), a(t), "value", 1e-3);
  eq((w.series() * b.series())(t), w(t) * b(t), "scalar times vector", 1e-3);
  eq((b.series() * w.series())(t), w(t) * b(t), "vector times scalar", 1e-3);
  using principia::numerics::_poisson_series::internal::PointwiseInnerProduct;
  eq(PointwiseInnerProduct(a.series(), b.series())(t), InnerProduct(a(t), b(t)), "inner product", 1e-2);
  eq(PointwiseInnerProduct(b.series(), b.series())(t), b(t).Norm²(), "norm", 1e-2);
  eq(b.series().AtOrigin(instant("other"))(t), b(t), "at origin", 1e-2);
}

VF_HARNESS(poisson_at_origin) {
  AngularFrequency const ω = frequency("omega"), ω2 = frequency("omega2");
  vf_assume(ω2 > ω);
  Instant const origin = instant("origin"), other = origin + q<Time>("shift");
  Raw<Length, 2, 1> const a("a", origin, {ω, ω2});
  auto const s = a.series().AtOrigin(other);
  vf_check(s.origin() == other, "origin");
  Instant const t = origin + q<Time>("t");
  eq(s(t), a(t), "value", 1e-2);
  vf_check(s.max_ω() == ω2, "frequency");
}

namespace {
// Primitives of τⁿ sin ωτ and τⁿ cos ωτ.
double psin(int n, double ω, double τ, double s, double c) {
  switch (n) {
    case 0: return -c / ω;
    case 1: return -τ * c / ω + s / (ω * ω);
    default: return -τ * τ * c / ω + 2 * τ * s / (ω * ω) + 2 * c / (ω * ω * ω);
  }
}
double pcos(int n, double ω, double τ, double s, double c) {
  switch (n) {
    case 0: return s / ω;
    case 1: return τ * s / ω + c / (ω * ω);
    default: return τ * τ * s / ω + 2 * τ * c / (ω * ω) - 2 * s / (ω * ω * ω);
  }
}
template<int d>
void integral() {
  AngularFrequency const ω = frequency("omega"), ω2 = 2 * ω;
  Instant const origin = instant("origin");
  Raw<Length, 2, d> const a("a", origin, {ω, ω2});
  auto const s = a.series();
  auto const primitive = [&](Time const& T) {
    double const τ = num(T);
    double v = num(get<0>(a.ap)) * τ + num(get<1>(a.ap)) * τ * τ / 2 + num(get<2>(a.ap)) * τ * τ * τ / 3;
    for (auto const& t : a.terms) {
      double const o = num(t.ω), s = Sin(t.ω * T), c = Cos(t.ω * T);
      [&]<int... i>(std::integer_sequence<int, i...>) {
        ((v += num(get<i>(t.sin)) * psin(i, o, τ, s, c) + num(get<i>(t.cos)) * pcos(i, o, τ, s, c)), ...);
      }(std::make_integer_sequence<int, d + 1>{});
    }
    return v;
  };
  Time const τ1 = q<Time>("t1"), τ2 = q<Time>("t2");
  auto const p = s.Primitive();
  eq(p(origin + τ1) / (si::Metre * si::Second), primitive(τ1), "primitive", 1e-2);
  eq(s.Integrate(origin + τ1, origin + τ2) / (si::Metre * si::Second), primitive(τ2) - primitive(τ1), "integral", 1e-2);
}
}  // namespace

VF_HARNESS(poisson_integral) {
  switch (vf_choose(3, "degree")) {
    case 0: integral<0>(); break;
    case 1: integral<1>(); break;
    case 2: integral<2>(); break;
  }
}

namespace {
// The sum of cosines which defines a window, with τ in [0, 2π].
double window(std::vector<double> const& a, Angle const& θ) {
  double v = 0;
  for (int k = 0; k < a.size(); ++k) v += (k % 2 == 0 ? 1 : -1) * a[k] * Cos(k * θ);
  return v;
}
}  // namespace

VF_HARNESS(poisson_windows) {
  Instant const t_min = instant("t_min");
  Time const duration = vf_real("duration", 0.1, 10) * si::Second;
  Instant const t_max = t_min + duration;
  double const x = vf_real("x", 0, 1);
  Instant const t = t_min + x * duration;
  // Equivalent to 2πx, but from the middle of the interval as in the code.
  Angle const θ = (2 * principia::π * Radian / (t_max - t_min)) * (t - (t_min + 0.5 * (t_max - t_min))) + principia::π * Radian;
  auto const check = [&](PoissonSeries<double, 0, 0> const& w, std::vector<double> const& a, char const* id) {
    eq(w(t), window(a, θ), id, 1e-6);
  };
  switch (vf_choose(9, "window")) {
    case 0: check(apo::Dirichlet(t_min, t_max), {1}, "Dirichlet"); break;
    case 1: {
      // A half-sine.
      eq(apo::Sine(t_min, t_max)(t), Sin(0.5 * θ), "Sine", 1e-6);
      break;
    }
    case 2: check(apo::Hann(t_min, t_max), {0.5, 0.5}, "Hann"); break;
    case 3: check(apo::Hamming(t_min, t_max), {25.0 / 46, 21.0 / 46}, "Hamming"); break;
    case 4: check(apo::Blackman(t_min, t_max), {0.42, 0.5, 0.08}, "Blackman"); break;
    case 5: check(apo::ExactBlackman(t_min, t_max), {7938.0 / 18608, 9240.0 / 18608, 1430.0 / 18608}, "exact Blackman"); break;
    case 6: check(apo::Nuttall(t_min, t_max), {0.355768, 0.487396, 0.144232, 0.012604}, "Nuttall"); break;
    case 7: check(apo::BlackmanNuttall(t_min, t_max), {0.3635819, 0.4891775, 0.1365995, 0.0106411}, "Blackman-Nuttall"); break;
    case 8: check(apo::BlackmanHarris(t_min, t_max), {0.35875, 0.48829, 0.14128, 0.01168}, "Blackman-Harris"); break;
  }
  if (vf_choose(2, "iso") == 1) {
    double const n = 4.63867187;
    check(apo::ISO18431_2(t_min, t_max), {1 / n, 1.93261719 / n, 1.28613281 / n, 0.38769531 / n, 0.03222656 / n}, "ISO 18431-2");
  }
}
