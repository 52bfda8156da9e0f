// Polynomials in the Чебышёв basis.
//@ entry cheb_evaluate mode=real max-seconds=60
//@ entry cheb_companion mode=real max-seconds=60
//@ entry cheb_may_have_roots mode=real max-seconds=120
//@ entry cheb_real_roots mode=real max-seconds=60
//@ entry cheb_serialization mode=real max-seconds=60
//@ src $VERIF/rt/elementary.cc
//@ bound Degrees 0 to 12 and 20 for evaluation, 1 to 8 for the companion matrix, 0 to 4 for the existence of roots, 1 for the roots; any coefficients of magnitude at most 10, any interval of length 0.1 to 20 and any argument in it.
//@ assume Real arithmetic instead of rounded floating point; the convergence of the eigenvalue iteration is outside of the bounds.
#include "geo.h"
#include "numerics/polynomial_in_чебышёв_basis.hpp"

using namespace vf;
using principia::base::_algebra::Derivative;
using namespace principia::numerics::_polynomial;
using namespace principia::numerics::_polynomial_in_чебышёв_basis;

namespace {
struct Bounds {
  Instant lower, upper;
  Time width;
};
Bounds bounds() {
  Instant const lower = Instant() + q<Time>("lower");
  double const w = vf_real("width", 0.1, 20);
  return {lower, lower + w * si::Unit<Time>, w * si::Unit<Time>};
}
// The value of Tₖ and its derivative.
void chebyshev(double x, int n, double* t, double* d) {
  t[0] = 1;
  d[0] = 0;
  t[1] = x;
  d[1] = 1;
  for (int k = 2; k <= n; ++k) {
    t[k] = 2 * x * t[k - 1] - t[k - 2];
    d[k] = 2 * t[k - 1] + 2 * x * d[k - 1] - d[k - 2];
  }
}

template<int n, typename V>
void evaluate() {
  using Poly = PolynomialInЧебышёвBasis<V, Instant, n>;
  typename Poly::Coefficients c;
  for (int i = 0; i <= n; ++i) {
    if constexpr (scalar<V>) c[i] = q<V>(("c" + std::to_string(i)).c_str());
    else c[i] = v<Length, W1>(("c" + std::to_string(i)).c_str());
  }
  auto const [lower, upper, width] = bounds();
  Poly const p(c, lower, upper);
  double const s = vf_real("s", 0, 1);
  Instant const t = lower + s * width;
  double T[n + 2], D[n + 2];
  chebyshev(2 * s - 1, n + 1, T, D);
  V value{};
  V derivative{};
  for (int i = 0; i <= n; ++i) {
    value += c[i] * T[i];
    derivative += c[i] * D[i];
  }
  eq(p(t), value, "value", 1e-3);
  eq(p.EvaluateDerivative(t) * (width / 2), derivative, "derivative", 1e-3);
  V pv;
  Derivative<V, Instant> pd;
  p.EvaluateWithDerivative(t, pv, pd);
  eq(pv, value, "value with derivative", 1e-3);
  eq(pd * (width / 2), derivative, "derivative with value", 1e-3);
  PolynomialInЧебышёвBasis<V, Instant> const& b = p;
  vf_check(b.degree() == n, "degree");
  vf_check(b.lower_bound() == lower && b.upper_bound() == upper, "bounds");
  eq(b(t), value, "virtual value", 1e-3);
  eq(b.EvaluateDerivative(t) * (width / 2), derivative, "virtual derivative", 1e-3);
  b.EvaluateWithDerivative(t, pv, pd);
  eq(pv, value, "virtual value with derivative", 1e-3);
  eq(pd * (width / 2), derivative, "virtual derivative with value", 1e-3);
}
}  // namespace

VF_HARNESS(cheb_evaluate) {
  int const d = vf_choose(15, "degree");
  [&]<int... i>(std::integer_sequence<int, i...>) {
    ((d == i ? evaluate<i == 13 ? 20 : i, Length>() : void()), ...);
  }(std::make_integer_sequence<int, 14>{});
  if (d == 14) evaluate<5, Displacement<W1>>();
}

namespace {
template<int n>
void companion() {
  using Poly = PolynomialInЧебышёвBasis<Length, Instant, n>;
  typename Poly::Coefficients c{};
  auto const [lower, upper, width] = bounds();
  double const s = vf_real("s", 0, 1), x = 2 * s - 1;
  double T[n + 2], D[n + 2];
  chebyshev(x, n + 1, T, D);
  for (int i = 1; i <= n; ++i) {
    c[i] = q<Length>(("c" + std::to_string(i)).c_str());
    c[0] -= c[i] * T[i];
  }
  vf_assume(c[n] != Length());
  Poly const p(c, lower, upper);
  eq(p(lower + s * width), Length(), "root", 1e-3);
  // The basis at the root is an eigenvector of the companion matrix.
  auto const A = p.FrobeniusCompanionMatrix();
  for (int i = 0; i < n; ++i) {
    double sum = 0;
    for (int j = 0; j < n; ++j) sum += A(i, j) * T[j];
    eq(sum * num(c[n]), x * T[i] * num(c[n]), "eigenvector of the companion matrix", 1e-3);
  }
}
}  // namespace

VF_HARNESS(cheb_companion) {
  int const d = 1 + vf_choose(8, "degree");
  [&]<int... i>(std::integer_sequence<int, i...>) {
    ((d == i + 1 ? companion<i + 1>() : void()), ...);
  }(std::make_integer_sequence<int, 8>{});
}

namespace {
template<int n>
void may_have_roots() {
  using Poly = PolynomialInЧебышёвBasis<Length, Instant, n>;
  typename Poly::Coefficients c;
  for (int i = 0; i <= n; ++i) c[i] = q<Length>(("c" + std::to_string(i)).c_str());
  auto const [lower, upper, width] = bounds();
  Poly const p(c, lower, upper);
  double const e = vf_real("e", 0, 10);
  PolynomialInЧебышёвBasis<Length, Instant> const& b = p;
  if (!b.MayHaveRealRoots(e * si::Unit<Length>)) {
    double const x = vf_real("x", -1, 1);
    double T[n + 2], D[n + 2];
    chebyshev(x, n + 1, T, D);
    // A lemma, for the benefit of the solver.
    double value = 0, bound = 0;
    for (int i = 0; i <= n; ++i) {
      vf_check(T[i] <= 1 && T[i] >= -1, "lemma");
    }
    for (int i = 1; i <= n; ++i) {
      double const t = vf_real("t", -1, 1);
      value += num(c[i]) * t;
    }
    value += num(c[0]);
    vf_check(value > e || value < -e, "no root");
  }
  if (!b.MayHaveRealRoots()) vf_check(c[0] != Length(), "no root without error");
  double dominant = num(c[0] >= Length() ? c[0] : -c[0]) - e;
  for (int i = 1; i <= n; ++i) dominant -= num(c[i] >= Length() ? c[i] : -c[i]);
  if (dominant > 0) vf_check(!b.MayHaveRealRoots(e * si::Unit<Length>), "the constant dominates");
}
}  // namespace

VF_HARNESS(cheb_may_have_roots) {
  int const d = vf_choose(5, "degree");
  [&]<int... i>(std::integer_sequence<int, i...>) {
    ((d == i ? may_have_roots<i>() : void()), ...);
  }(std::make_integer_sequence<int, 5>{});
}

VF_HARNESS(cheb_real_roots) {
  using Poly = PolynomialInЧебышёвBasis<Length, Instant, 1>;
  Poly::Coefficients const c{q<Length>("c0"), q<Length>("c1")};
  vf_assume(c[1] != Length());
  auto const [lower, upper, width] = bounds();
  Poly const p(c, lower, upper);
  auto const roots = p.RealRoots(1e-10);
  bool const has_root = (c[0] <= c[1] && c[0] >= -c[1]) || (c[0] >= c[1] && c[0] <= -c[1]);
  vf_check((roots.size() == 1) == has_root, "number of roots");
  if (has_root) {
    Instant const r = *roots.begin();
    vf_check(lower <= r && r <= upper, "root in interval");
    eq(p(r), Length(), "root", 1e-3);
  }
}

using S1 = Frame<principia::serialization::Frame::TestTag, NonRotating, Handedness::Right, principia::serialization::Frame::TEST>;
VF_HARNESS(cheb_serialization) {
  auto const [lower, upper, width] = bounds();
  using P = PolynomialInЧебышёвBasis<Displacement<S1>, Instant, 3>;
  P::Coefficients c;
  for (auto& ci : c) ci = v<Length, S1>("c");
  P const p(c, lower, upper);
  principia::serialization::Polynomial m;
  p.WriteToMessage(&m);
  vf_check(P::ReadFromMessage(m) == p, "round trip");
  using Q = PolynomialInЧебышёвBasis<Length, Instant, 2>;
  Q const r({q<Length>("d0"), q<Length>("d1"), q<Length>("d2")}, lower, upper);
  principia::serialization::Polynomial m2;
  r.WriteToMessage(&m2);
  vf_check(Q::ReadFromMessage(m2) == r, "round trip of lengths");

  // The old format.
  principia::serialization::ЧебышёвSeries old;
  for (auto const& ci : c) ci.WriteToMessage(old.add_coefficient()->mutable_multivector());
  lower.WriteToMessage(old.mutable_lower_bound());
  upper.WriteToMessage(old.mutable_upper_bound());
  auto const o = PolynomialInЧебышёвBasis<Displacement<S1>, Instant>::ReadFromMessage(old);
  vf_check(o->degree() == 3, "degree of the old format");
  auto const* const op = dynamic_cast<P const*>(&*o);
  vf_check(op != nullptr && *op == p, "old format");
}
