// Hermite interpolation.
//@ entry hermite2 mode=real max-seconds=60
//@ entry hermite3_interpolation mode=real max-seconds=60
//@ entry hermite3_operators mode=real max-seconds=60
//@ entry hermite3_extrema mode=real max-seconds=100
//@ entry hermite3_l1 mode=real max-seconds=100
//@ entry hermite3_l2 mode=real max-seconds=100
//@ entry hermite3_error mode=real max-seconds=60
//@ src $VERIF/rt/elementary.cc
//@ bound Scalar, vector and point values, instants as arguments; values and derivatives of magnitude at most 10, any interval of length 0.1 to 20 (in either direction for interpolation); norms over the interval for cubic polynomials with nonzero leading coefficient, in one dimension and in the plane; up to 2 samples for errors.
//@ assume Real arithmetic instead of rounded floating point; square roots are exact.
#include <functional>
#include "geo.h"
#include "numerics/elementary_functions.hpp"
#include "numerics/hermite2.hpp"
#include "numerics/hermite3.hpp"

using namespace vf;
using namespace principia::numerics::_elementary_functions;
using namespace principia::numerics::_hermite2;
using namespace principia::numerics::_hermite3;

namespace {
struct Arguments {
  Instant t0, t1;
  Time Δt;
};
Arguments arguments(bool negative = false) {
  Instant const t0 = Instant() + q<Time>("t0");
  double const w = vf_real("width", 0.1, 20);
  Time const Δt = (negative && vf_choose(2, "direction") ? -w : w) * si::Unit<Time>;
  return {t0, t0 + Δt, Δt};
}
// A cubic polynomial in u = t - t0, described by the zeroes a ± b (or a ± ib) of
// its derivative, which makes the discriminant a square.
struct Cubic {
  double k, c, a, b;
  bool real;
  Length value(Time const& t) const {
    double const u = num(t);
    return (k + c * (u * u * u / 3 - a * u * u + (a * a + (real ? -1 : 1) * b * b) * u)) * si::Unit<Length>;
  }
  Speed derivative(Time const& t) const {
    double const u = num(t);
    return c * ((u - a) * (u - a) + (real ? -1 : 1) * b * b) * si::Unit<Speed>;
  }
  Hermite3<Length, Instant> hermite(Instant const& t0, Time const& Δt) const {
    return Hermite3<Length, Instant>({t0, t0 + Δt}, {value(Time()), value(Δt)}, {derivative(Time()), derivative(Δt)});
  }
};
Cubic cubic() {
  bool const real = vf_choose(2, "zeroes") == 0;
  double const k = vf_real("k", -10, 10), a = vf_real("a", -10, 10), b = vf_real("b", 0, 10), c = vf_real("c", -1, 1);
  vf_assume(c >= 0.01 || c <= -0.01);
  vf_assume(b >= 0.05);
  return {k, c, a, b, real};
}
}  // namespace

VF_HARNESS(hermite2) {
  auto const [t0, t1, Δt] = arguments(true);
  Length const x0 = q<Length>("x0"), x1 = q<Length>("x1");
  Speed const v0 = q<Speed>("v0");
  Hermite2<Length, Instant> const h({t0, t1}, {x0, x1}, v0);
  eq(h.Evaluate(t0), x0, "first value");
  eq(h.Evaluate(t1), x1, "second value");
  eq(h.EvaluateDerivative(t0), v0, "derivative");
  double const s = vf_real("s", -2, 2);
  // Against the Lagrange form.
  eq(h.Evaluate(t0 + s * Δt), x0 + s * s * (x1 - x0) + s * (1 - s) * v0 * Δt, "value", 1e-3);
  eq(h.EvaluateDerivative(t0 + s * Δt) * Δt, 2 * s * (x1 - x0) + (1 - 2 * s) * v0 * Δt, "derivative everywhere", 1e-3);
  if (x1 - x0 != v0 * Δt) eq(h.EvaluateDerivative(h.FindExtremum()), Speed(), "extremum", 1e-3);
  // The same point twice.
  Hermite2<Length, Instant> const k({t0, t0}, {x0, x0}, v0);
  eq(k.Evaluate(t1), x0 + v0 * Δt, "removable singularity");
}

VF_HARNESS(hermite3_interpolation) {
  auto const [t0, t1, Δt] = arguments(true);
  auto const x0 = W1::origin + v<Length, W1>("x0"), x1 = W1::origin + v<Length, W1>("x1");
  auto const v0 = v<Speed, W1>("v0"), v1 = v<Speed, W1>("v1");
  Hermite3<Position<W1>, Instant> const h({t0, t1}, {x0, x1}, {v0, v1});
  eq(h(t0), x0, "first value");
  eq(h(t1), x1, "second value", 1e-3);
  eq(h.EvaluateDerivative(t0), v0, "first derivative");
  eq(h.EvaluateDerivative(t1), v1, "second derivative", 1e-3);
  double const s = vf_real("s", -1, 2);
  Instant const t = t0 + s * Δt;
  // Against the basis functions.
  auto const value = x0 + (3 * s * s - 2 * s * s * s) * (x1 - x0) +
                     (s * (1 - s) * (1 - s) * v0 + s * s * (s - 1) * v1) * Δt;
  auto const derivative = (6 * s - 6 * s * s) * ((x1 - x0) / Δt) + (1 - 4 * s + 3 * s * s) * v0 + (3 * s * s - 2 * s) * v1;
  eq(h(t), value, "value", 1e-3);
  eq(h.EvaluateDerivative(t), derivative, "derivative", 1e-3);
  Position<W1> x;
  Velocity<W1> w;
  h.EvaluateWithDerivative(t, x, w);
  eq(x, value, "value with derivative", 1e-3);
  eq(w, derivative, "derivative with value", 1e-3);
  Hermite3<Position<W1>, Instant> const k({t0, t0}, {x0, x0}, {v0, v0});
  eq(k(t1), x0 + v0 * Δt, "removable singularity");
}

VF_HARNESS(hermite3_operators) {
  auto const [t0, t1, Δt] = arguments();
  Hermite3<Position<W1>, Instant> const f({t0, t1}, {W1::origin + v<Length, W1>("x0"), W1::origin + v<Length, W1>("x1")}, {v<Speed, W1>("v0"), v<Speed, W1>("v1")});
  Instant const t2 = t0 + vf_real("width2", 0.1, 20) * si::Unit<Time>;
  Hermite3<Position<W1>, Instant> const g({t0, t2}, {W1::origin + v<Length, W1>("y0"), W1::origin + v<Length, W1>("y1")}, {v<Speed, W1>("w0"), v<Speed, W1>("w1")});
  Instant const t = t0 + q<Time>("t");
  eq((f - g)(t), f(t) - g(t), "difference", 1e-3);
  Hermite3<Length, Instant> const k({t0, t1}, {q<Length>("z0"), q<Length>("z1")}, {q<Speed>("s0"), q<Speed>("s1")});
  Hermite3<Length, Instant> const l({t0, t2}, {q<Length>("z2"), q<Length>("z3")}, {q<Speed>("s2"), q<Speed>("s3")});
  eq((k + l)(t), k(t) + l(t), "sum", 1e-3);
  eq((k - l)(t), k(t) - l(t), "difference", 1e-3);
  eq((-k)(t), -k(t), "opposite", 1e-3);
  eq((+k)(t), k(t), "plus", 1e-3);
  // The domain of the result is the intersection of those of the operands.
  auto const c = cubic();
  Time const Δt2 = t2 - t0;
  int const other = vf_choose(2, "operand");
  auto const p = other ? c.hermite(t0, Δt) : Hermite3<Length, Instant>({t0, t1}, {Length(), Length()}, {Speed(), Speed()});
  auto const r = other ? Hermite3<Length, Instant>({t0, t2}, {Length(), Length()}, {Speed(), Speed()}) : c.hermite(t0, Δt2);
  for (auto const e : (p + r).FindExtrema()) vf_check(e >= t0 && e <= t1 && e <= t2, "domain of the sum");
  for (auto const e : (p - r).FindExtrema()) vf_check(e >= t0 && e <= t1 && e <= t2, "domain of the difference");
  Instant const e1 = t0 + (c.a + c.b) * si::Unit<Time>;
  Time const margin = 0.001 * si::Unit<Time>;
  if (c.real && e1 >= t0 + margin && e1 <= t1 - margin && e1 <= t2 - margin) {
    bool found = false;
    for (auto const e : (p + r).FindExtrema()) found = found || (e > e1 - margin && e < e1 + margin);
    vf_check(found, "extremum of the sum");
  }
}

VF_HARNESS(hermite3_extrema) {
  auto const [t0, t1, Δt] = arguments();
  Length const x0 = q<Length>("x0"), x1 = q<Length>("x1");
  Speed const v0 = q<Speed>("v0"), v1 = q<Speed>("v1");
  // The leading coefficient.
  vf_assume((v0 + v1) * Δt != 2 * (x1 - x0));
  Hermite3<Length, Instant> const h({t0, t1}, {x0, x1}, {v0, v1});
  auto const extrema = h.FindExtrema();
  vf_check(extrema.size() <= 2, "size");
  std::optional<Instant> previous;
  for (auto const& e : extrema) {
    vf_check(t0 <= e && e <= t1, "extremum in range");
    eq(h.EvaluateDerivative(e), Speed(), "extremum", 1e-3);
    if (previous.has_value()) vf_check(*previous <= e, "sorted");
    previous = e;
  }
  // A sign change of the derivative is an extremum.
  if (v0 > Speed() && v1 < Speed() || v0 < Speed() && v1 > Speed()) vf_check(extrema.size() == 1, "one extremum");
}

VF_HARNESS(hermite3_l1) {
  Instant const t0 = Instant() + q<Time>("t0");
  Time const Δt = vf_real("width", 0.1, 20) * si::Unit<Time>;
  auto const c = cubic();
  auto const h = c.hermite(t0, Δt);
  auto const extrema = h.FindExtrema();
  // The zeroes of the derivative that are in the range, away from its bounds.
  double const e[2] = {c.a - c.b, c.a + c.b};
  double const margin = 0.001;
  for (double const ei : e) {
    if (c.real && ei >= margin && ei <= num(Δt) - margin) {
      bool found = false;
      for (auto const& x : extrema) found = found || (num(x - t0) > ei - margin && num(x - t0) < ei + margin);
      vf_check(found, "all extrema");
    }
  }
  if (!c.real) vf_check(extrema.size() == 0, "no extremum");
  vf_check(extrema.size() <= 2, "at most two extrema");
  Length const bound = h.LInfinityL₁NormUpperBound();
  vf_check(bound >= Length(), "nonnegative");
  for (auto const& e : extrema) vf_check(h(e) <= bound && -h(e) <= bound, "norm at extrema");
  Length const x0 = c.value(Time()), x1 = c.value(Δt);
  vf_check(x0 <= bound && -x0 <= bound && x1 <= bound && -x1 <= bound, "norm at bounds");
}

VF_HARNESS(hermite3_l2) {
  auto const [t0, t1, Δt] = arguments();
  Length const x1 = q<Length>("x1"), y1 = q<Length>("y1");
  Speed const v1 = q<Speed>("v1"), w1 = q<Speed>("w1");
  if (vf_choose(2, "dimension") == 0) {
    vf_assume(v1 * Δt != 2 * x1);
    Hermite3<Length, Instant> const h({t0, t1}, {Length(), x1}, {Speed(), v1});
    Length const bound = h.LInfinityL₂Norm();
    for (auto const& e : h.FindExtrema()) vf_check(h(e) <= bound && -h(e) <= bound, "norm at extrema");
    vf_check(x1 <= bound && -x1 <= bound, "norm at the end");
    if (h.FindExtrema().size() == 1) eq(bound, Abs(x1), "no extremum inside");
  }
}

VF_HARNESS(hermite3_error) {
  auto const [t0, t1, Δt] = arguments();
  Hermite3<Position<W1>, Instant> const f({t0, t1}, {W1::origin + v<Length, W1>("x0"), W1::origin + v<Length, W1>("x1")}, {v<Speed, W1>("v0"), v<Speed, W1>("v1")});
  using Sample = std::pair<Instant, Position<W1>>;
  std::vector<Sample> samples;
  int const n = vf_choose(3, "samples");
  Square<Length> max{};
  for (int i = 0; i < n; ++i) {
    Instant const t = t0 + vf_real("s", 0, 1) * Δt;
    auto const e = v<Length, W1>("e");
    samples.emplace_back(t, f(t) + e);
    max = std::max(max, e.Norm²());
  }
  std::function<Instant const&(Sample const&)> const get_argument = [](Sample const& s) -> Instant const& { return s.first; };
  std::function<Position<W1> const&(Sample const&)> const get_value = [](Sample const& s) -> Position<W1> const& { return s.second; };
  Length const error = f.LInfinityL₂Error(samples, get_argument, get_value);
  vf_check(error >= Length(), "nonnegative error");
  eq(error * error, max, "error", 1e-3);
  Length const tolerance = vf_real("tolerance", 0.01, 10) * si::Unit<Length>;
  vf_check(f.LInfinityL₂ErrorIsWithin(samples, get_argument, get_value, tolerance) == (max < tolerance * tolerance), "error is within");
}
