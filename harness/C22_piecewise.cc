// Piecewise Poisson series.
//@ entry piecewise_value mode=real max-seconds=100
//@ entry piecewise_operators mode=real max-seconds=100
//@ entry piecewise_fourier mode=real max-seconds=60
//@ entry piecewise_fourier_history mode=real max-seconds=60
//@ entry piecewise_serialization mode=real max-seconds=60
//@ src $VERIF/rt/elementary.cc
//@ bound Up to 3 pieces of any widths with one frequency each, degrees up to 1, with or without an addend; Fourier transforms of polynomials at the frequency zero and linearity in the pieces at one symbolic frequency; histories of one transform, a copy or none, then an addition or append.
//@ assume Real arithmetic instead of rounded floating point; sine and cosine are exact and related by the addition formulæ only.
#include <optional>
#include "poisson.h"
#include "geometry/interval.hpp"
#include "numerics/piecewise_poisson_series.hpp"

using namespace principia::numerics::_piecewise_poisson_series;
using principia::geometry::_interval::Interval;

namespace {
struct Pieces {
  std::vector<Instant> bounds;
  std::vector<Raw<Length, 1, 0>> raw;
  std::optional<Raw<Length, 1, 0>> addend;
  AngularFrequency ω = frequency("omega");

  explicit Pieces(int n) {
    bounds.push_back(instant("bound"));
    for (int i = 0; i < n; ++i) {
      bounds.push_back(bounds.back() + vf_real("width", 0.1, 3) * si::Second);
      raw.emplace_back(("p" + std::to_string(i)).c_str(), instant("origin"), std::vector<AngularFrequency>{(i + 1) * ω});
    }
  }
  PiecewisePoissonSeries<Length, 1, 0> series() const {
    PiecewisePoissonSeries<Length, 1, 0> s({bounds[0], bounds[1]}, raw[0].series());
    for (int i = 1; i < raw.size(); ++i) s.Append({bounds[i], bounds[i + 1]}, raw[i].series());
    return s;
  }
  Length operator()(Instant const& t) const {
    int i = 0;
    while (i + 1 < raw.size() && t >= bounds[i + 1]) ++i;
    Length v = raw[i](t);
    if (addend) v += (*addend)(t);
    return v;
  }
  // An instant in one of the pieces, possibly one of the bounds.
  Instant any_instant() const {
    int const i = vf_choose(raw.size(), "piece");
    switch (vf_choose(3, "where")) {
      case 0: return bounds[i];
      case 1: return bounds[i + 1];
      default: return bounds[i] + vf_real("fraction", 0.01, 0.99) * (bounds[i + 1] - bounds[i]);
    }
  }
};
}  // namespace

VF_HARNESS(piecewise_value) {
  Pieces p(1 + vf_choose(3, "pieces"));
  auto s = p.series();
  vf_check(s.t_min() == p.bounds.front(), "t_min");
  vf_check(s.t_max() == p.bounds.back(), "t_max");
  eq(s.max_ω(), p.raw.size() * p.ω, "largest frequency");
  Instant const t = p.any_instant();
  eq(s(t), p(t), "value", 1e-3);
  int const k = vf_choose(4, "multiple") + 1;
  Raw<Length, 1, 0> const a("a", instant("a"), {k * p.ω});
  s += a.series();
  eq(s(t), p(t) + a(t), "+=", 1e-3);
  eq(s.max_ω(), std::max<int>(k, p.raw.size()) * p.ω, "largest frequency with addend");
  Raw<Length, 0, 0> const b("b", a.origin, {2 * p.ω});
  s -= b.series();
  eq(s(t), p(t) + a(t) - b(t), "-=", 1e-3);
  auto u = p.series();
  u -= b.series();
  eq(u(t), p(t) - b(t), "-= first", 1e-3);
}

VF_HARNESS(piecewise_operators) {
  Pieces p(2);
  auto s = p.series();
  Instant const o = instant("common");
  if (vf_choose(2, "addend") == 1) {
    p.addend.emplace("d", o, std::vector<AngularFrequency>{3 * p.ω});
    s += p.addend->series();
  }
  Instant const t = p.any_instant();
  eq((+s)(t), p(t), "plus", 1e-3);
  eq((-s)(t), -p(t), "opposite", 1e-3);
  Mass const m = vf_real("m", 0.01, 10) * si::Kilogram;
  eq((m * s)(t), m * p(t), "left multiplication", 1e-3);
  eq((s * m)(t), m * p(t), "right multiplication", 1e-3);
  eq((s / m)(t) * m, p(t), "division", 1e-3);
  Raw<Length, 1, 0> const a("a", o, {2 * p.ω});
  auto const r = a.series();
  eq((r + s)(t), a(t) + p(t), "left sum", 1e-3);
  eq((s + r)(t), a(t) + p(t), "right sum", 1e-3);
  eq((r - s)(t), a(t) - p(t), "left difference", 1e-3);
  eq((s - r)(t), p(t) - a(t), "right difference", 1e-3);
  Raw<double, 0, 0> const w("w", o, {p.ω});
  eq((w.series() * s)(t), w(t) * p(t), "left product", 1e-2);
  eq((s * w.series())(t), w(t) * p(t), "right product", 1e-2);
  vf_check((s * w.series()).t_min() == p.bounds.front() && (w.series() * s).t_max() == p.bounds.back(), "bounds");
}

namespace {
using Affine = PoissonSeries<Length, 1, 0>;
Affine line(Length const& c0, Speed const& c1, Instant const& o) { return Affine(Affine::AperiodicPolynomial({c0, c1}, o), {}); }
// The integral of an affine function.
auto integral(Affine const& f, Instant const& a, Instant const& b) { return f.Integrate(a, b); }
}  // namespace

VF_HARNESS(piecewise_fourier) {
  Instant const t0 = instant("t0"), t1 = t0 + vf_real("width", 0.1, 3) * si::Second,
                t2 = t1 + vf_real("width", 0.1, 3) * si::Second;
  auto const f = line(q<Length>("f0"), q<Speed>("f1"), instant("of"));
  auto const g = line(q<Length>("g0"), q<Speed>("g1"), instant("og"));
  PiecewisePoissonSeries<Length, 1, 0> s({t0, t1}, f);
  s.Append({t1, t2}, g);
  auto const F = s.FourierTransform();
  auto const zero = F(AngularFrequency());
  eq(zero.real_part() / (si::Metre * si::Second), (integral(f, t0, t1) + integral(g, t1, t2)) / (si::Metre * si::Second), "zero frequency", 1e-3);
  eq(zero.imaginary_part() / (si::Metre * si::Second), 0.0, "real", 1e-3);
  // At another frequency the cached values must be the right ones.  The
  // transform is linear in the function.
  AngularFrequency const ω = q<AngularFrequency>("omega", 3);
  auto const first = F(ω);
  PiecewisePoissonSeries<Length, 1, 0> const s2({t0, t2}, f);
  auto fresh = [&](Affine const& f, Affine const& g) {
    PiecewisePoissonSeries<Length, 1, 0> s({t0, t1}, f);
    s.Append({t1, t2}, g);
    return s.FourierTransform()(ω);
  };
  auto const again = fresh(f, g);
  eq(first.real_part() / (si::Metre * si::Second), again.real_part() / (si::Metre * si::Second), "cached values", 1e-3);
  eq(first.imaginary_part() / (si::Metre * si::Second), again.imaginary_part() / (si::Metre * si::Second), "cached values", 1e-3);
  // One point of quadrature: the function is sampled in the middle of pieces.
  Instant const m = t0 + (t2 - t0) / 2;
  Instant const m1 = t0 + (t1 - t0) / 2, m2 = t1 + (t2 - t1) / 2;
  Angle const θ1 = ω * (m1 - m), θ2 = ω * (m2 - m);
  auto const w1 = f(m1) * (t1 - t0), w2 = g(m2) * (t2 - t1);
  eq(first.real_part() / (si::Metre * si::Second), (w1 * Cos(θ1) + w2 * Cos(θ2)) / (si::Metre * si::Second), "real part", 1e-3);
  eq(first.imaginary_part() / (si::Metre * si::Second), (-w1 * Sin(θ1) - w2 * Sin(θ2)) / (si::Metre * si::Second), "imaginary part", 1e-3);
}

VF_HARNESS(piecewise_fourier_history) {
  // Transforms are those of the current function, whatever happened before.
  Instant const t0 = instant("t0"), t1 = t0 + vf_real("width", 0.1, 3) * si::Second,
                t2 = t1 + vf_real("width", 0.1, 3) * si::Second;
  auto const f = line(q<Length>("f0"), q<Speed>("f1"), instant("o"));
  auto const g = line(q<Length>("g0"), q<Speed>("g1"), f.origin());
  auto const h = line(q<Length>("h0"), q<Speed>("h1"), f.origin());
  PiecewisePoissonSeries<Length, 1, 0> s({t0, t1}, f);
  auto const unit = si::Metre * si::Second;
  auto const value = [&](PiecewisePoissonSeries<Length, 1, 0> const& s) { return s.FourierTransform()(AngularFrequency()).real_part() / unit; };
  double expected = integral(f, t0, t1) / unit;
  auto const check = [&](char const* id) { eq(value(s), expected, id, 1e-3); };
  if (vf_choose(2, "evaluated") == 1) check("before");
  PiecewisePoissonSeries<Length, 1, 0> copy = s;
  int const c = vf_choose(3, "extended");
  if (c > 0) {
    copy.Append({t1, t2}, h);
    if (c > 1) eq(value(copy), (integral(f, t0, t1) + integral(h, t1, t2)) / unit, "copy", 1e-3);
  }
  switch (vf_choose(4, "operation")) {
    case 0:
      s.Append({t1, t2}, g);
      expected += integral(g, t1, t2) / unit;
      check("after append");
      break;
    case 1:
      s += g;
      expected += integral(g, t0, t1) / unit;
      check("after addition");
      break;
    case 2:
      s -= g;
      expected -= integral(g, t0, t1) / unit;
      check("after subtraction");
      break;
    case 3:
      copy = s;
      expected = integral(f, t0, t1) / unit;
      check("after assignment");
      break;
  }
  // A product, the sum with a series, etc. are new functions.
  eq(value(2 * s), 2 * expected, "multiple", 1e-3);
  Instant const end = s.t_max();
  eq(value(s + h), expected + integral(h, t0, end) / unit, "sum", 1e-3);
}

VF_HARNESS(piecewise_serialization) {
  Pieces p(1 + vf_choose(3, "pieces"));
  auto s = p.series();
  if (vf_choose(2, "addend") == 1) {
    p.addend.emplace("d", instant("common"), std::vector<AngularFrequency>{2 * p.ω});
    s += p.addend->series();
  }
  principia::serialization::PiecewisePoissonSeries m;
  s.WriteToMessage(&m);
  auto const s2 = PiecewisePoissonSeries<Length, 1, 0>::ReadFromMessage(m);
  Instant const t = p.any_instant();
  eq(s2(t), p(t), "value", 1e-3);
  vf_check(s2.t_min() == s.t_min() && s2.t_max() == s.t_max(), "bounds");
  principia::serialization::PoissonSeries m1;
  auto const s1 = p.raw[0].series();
  s1.WriteToMessage(&m1);
  auto const r1 = PoissonSeries<Length, 1, 0>::ReadFromMessage(m1);
  eq(r1(t), p.raw[0](t), "value of series", 1e-3);
  vf_check(r1.max_ω() == s1.max_ω() && r1.origin() == s1.origin(), "frequency and origin");
}
