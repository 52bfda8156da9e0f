// Root finding and one-dimensional extrema.
//@ entry bisect mode=ieee max-seconds=60
//@ entry brent_root mode=ieee max-seconds=60
//@ entry golden_section mode=ieee max-seconds=60
//@ entry brent_extremum mode=real max-seconds=60
//@ entry quadratic mode=real max-seconds=60
//@ entry quadratic_double_root mode=real max-seconds=60
//@ src $VERIF/rt/elementary.cc
//@ bound Intervals of 2 to 64 machine numbers (16 for golden-section search), close to 0, 1 (on both sides), -1 and 10^9, with the sign change (or the exact zero, or the extremum) anywhere in the interval, increasing or decreasing functions; Brent's search of an extremum on intervals where it takes up to about 10 steps, for parabolas with their extremum anywhere; all quadratic equations with distinct or complex roots, and equations with a double root that is a power of two.
//@ assume The functions are step functions (root) or have a single extremum; DoubleBrent is outside of the bounds.
#include <optional>
#include "geo.h"
#include "numerics/root_finders.hpp"

using namespace vf;
using namespace principia::numerics::_root_finders;

namespace {
// An interval of n consecutive machine numbers: x(0), ..., x(n - 1).
struct Grid {
  double start;
  int n;
  double x(int i) const {
    double r = start;
    for (; i > 0; --i) r = std::bit_cast<double>(std::bit_cast<std::uint64_t>(r) + (r < 0 ? -1 : 1));
    return r;
  }
};
Grid grid(int sizes = 4) {
  int const n = 2 << vf_choose(sizes, "size");
  switch (vf_choose(4, "start")) {
    case 0: return {1, n};
    case 1: return {0.99999999999999944488848768742172978818416595458984375, n};
    case 2: return {-1.0000000000000017763568394002504646778106689453125, n};
    default: return {1e9, n};
  }
}
}  // namespace

VF_HARNESS(bisect) {
  Grid const g = grid(6);
  double const lower = g.x(0), upper = g.x(g.n - 1);
  // The function is negative below r and positive above, and zero at r if
  // exact.
  int const i = vf::range("root", 0, g.n - 1);
  bool const exact = vf_choose(2, "exact") == 0;
  double const sign = vf_choose(2, "sign") == 0 ? 1 : -1;
  auto index = [&](double x) {
    int k = 0;
    while (g.x(k) < x) ++k;
    return k;
  };
  vf_assume(exact || i > 0);
  int evaluations = 0;
  auto f = [&](Instant const& t) -> Length {
    double const x = (t - Instant()) / si::Unit<Time>;
    vf_check(lower <= x && x <= upper, "evaluated in the interval");
    vf_check(++evaluations < 100, "number of evaluations");
    int const k = index(x);
    return (vf_concretize(k < i) ? -1 : (exact && vf_concretize(k == i)) ? 0 : 1) * sign * si::Unit<Length>;
  };
  double const r = (Bisect(f, Instant() + lower * si::Unit<Time>, Instant() + upper * si::Unit<Time>) - Instant()) / si::Unit<Time>;
  vf_check(lower <= r && r <= upper, "in the interval");
  int const k = index(r);
  if (exact && f(Instant() + r * si::Unit<Time>) == Length()) vf_check(k == i, "zero");
  // The sign changes between r and one of its neighbours.
  vf_check(exact ? k - i >= -1 && k - i <= 1 : k == i || k == i - 1, "adjacent to the sign change");
}

VF_HARNESS(brent_root) {
  Grid const g = grid(6);
  double const lower = g.x(0), upper = g.x(g.n - 1);
  int const i = vf::range("root", 0, g.n - 1);
  bool const exact = vf_choose(2, "exact") == 0;
  double const sign = vf_choose(2, "sign") == 0 ? 1 : -1;
  bool const swapped = vf_choose(2, "swapped");
  double const below = vf_choose(2, "asymmetric") == 0 ? 1 : 1000;
  auto index = [&](double x) {
    int k = 0;
    while (g.x(k) < x) ++k;
    return k;
  };
  vf_assume(exact || i > 0);
  int evaluations = 0;
  auto f = [&](double const x) -> Length {
    vf_check(lower <= x && x <= upper, "evaluated in the interval");
    vf_check(++evaluations < 200, "number of evaluations");
    int const k = index(x);
    return (vf_concretize(k < i) ? -below : (exact && vf_concretize(k == i)) ? 0 : 1) * sign * si::Unit<Length>;
  };
  double const r = swapped ? Brent(f, upper, lower) : Brent(f, lower, upper);
  vf_check(lower <= r && r <= upper, "in the interval");
  int const k = index(r);
  // [Bre73] guarantees an error of 6ϵ|r|, i.e., 3 to 6 machine numbers.
  vf_check(k - i >= -6 && k - i <= 6, "close to the sign change");
}

VF_HARNESS(golden_section) {
  Grid const g = grid();
  double const lower = g.x(0), upper = g.x(g.n - 1);
  int const i = vf::range("extremum", 0, g.n - 1);
  bool const maximum = vf_choose(2, "maximum");
  auto index = [&](double x) {
    int k = 0;
    while (g.x(k) < x) ++k;
    return k;
  };
  int evaluations = 0;
  auto f = [&](double const x) -> Length {
    vf_check(lower <= x && x <= upper, "evaluated in the interval");
    vf_check(++evaluations < 200, "number of evaluations");
    int const d = index(x) - i;
    return (maximum ? -1 : 1) * static_cast<double>(d < 0 ? -d : d) * si::Unit<Length>;
  };
  double const r = maximum ? GoldenSectionSearch(f, lower, upper, std::greater<>()) : GoldenSectionSearch(f, lower, upper, std::less<>());
  vf_check(lower <= r && r <= upper, "in the interval");
  int const k = index(r);
  vf_check(k - i >= -3 && k - i <= 3, "close to the extremum");
}

VF_HARNESS(brent_extremum) {
  double const r = vf_real("extremum", 1, 2);
  bool const maximum = vf_choose(2, "maximum");
  double const eps = 1.0 / (8 << vf_choose(4, "eps"));
  int evaluations = 0;
  auto f = [&](double const x) {
    vf_check(1 <= x && x <= 2, "evaluated in the interval");
    vf_check(++evaluations < 100, "number of evaluations");
    return (maximum ? -1 : 1) * (x - r) * (x - r);
  };
  double const x = maximum ? Brent(f, 1.0, 2.0, std::greater<>(), eps) : Brent(f, 1.0, 2.0, std::less<>(), eps);
  vf_check(1 <= x && x <= 2, "in the interval");
  vf_check(x - r <= 3.1 * eps * x && r - x <= 3.1 * eps * x, "close to the extremum");
}

VF_HARNESS(quadratic) {
  // c ((x - a)² - b²) or c ((x - a)² + b²).
  double const a = vf_real("a", -10, 10), b = vf_real("b", 0.05, 10), c = vf_real("c", -1, 1);
  vf_assume(c >= 0.01 || c <= -0.01);
  Instant const origin = Instant() + q<Time>("origin");
  bool const real = vf_choose(2, "zeroes") == 0;
  Length const a0 = c * (a * a + (real ? -1 : 1) * b * b) * si::Unit<Length>;
  Speed const a1 = -2 * c * a * si::Unit<Speed>;
  Acceleration const a2 = c * si::Unit<Acceleration>;
  auto const roots = SolveQuadraticEquation<Instant, Length>(origin, a0, a1, a2);
  vf_check(roots.size() == (real ? 2 : 0), "number of roots");
  if (real) {
    eq(roots.front() - origin, (a - b) * si::Unit<Time>, "first root", 1e-3);
    eq(roots.back() - origin, (a + b) * si::Unit<Time>, "second root", 1e-3);
    vf_check(roots.front() <= roots.back(), "sorted");
  }
}

VF_HARNESS(quadratic_double_root) {
  // Powers of two, so that the discriminant is zero in double precision too.
  double const a = (vf_choose(2, "sign") ? -1 : 1) * (0.25 * (1 << vf_choose(6, "exponent")));
  double const c = vf_real("c", -1, 1);
  vf_assume(c >= 0.01 || c <= -0.01);
  auto const roots = SolveQuadraticEquation<double, double>(0.0, c * a * a, -2 * c * a, c);
  vf_check(roots.size() == 1, "one root");
  eq(roots.front(), a, "double root");
}
