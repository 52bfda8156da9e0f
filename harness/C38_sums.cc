// Complexifications and direct sums.
//@ entry complexification mode=real max-seconds=60
//@ entry complexification_vectors mode=real max-seconds=60
//@ entry direct_sum mode=real max-seconds=60
//@ src $VERIF/rt/elementary.cc
//@ bound All complex numbers and vectors with coordinates of magnitude at most 10, divisors of magnitude at least 0.1.
//@ assume Real arithmetic instead of rounded floating point; square roots are exact.
#include "geo.h"
#include "geometry/complexification.hpp"
#include "geometry/direct_sum.hpp"
#include "geometry/hilbert.hpp"

using namespace vf;
using namespace principia::geometry::_complexification;
using namespace principia::geometry::_direct_sum;
using C = Complexification<double>;

static void eqc(C const& a, double re, double im, char const* id, double t = 1e-3) {
  eq(a.real_part(), re, id, t);
  eq(a.imaginary_part(), im, id, t);
}

VF_HARNESS(complexification) {
  double const a = vf_real("a", -10, 10), b = vf_real("b", -10, 10), c = vf_real("c", -10, 10), d = vf_real("d", -10, 10), r = vf_real("r", -10, 10);
  C const z(a, b), w(c, d);
  eqc(z + w, a + c, b + d, "sum");
  eqc(z - w, a - c, b - d, "difference");
  eqc(z + r, a + r, b, "sum with a real");
  eqc(r + z, a + r, b, "sum with a real");
  eqc(z - r, a - r, b, "difference with a real");
  eqc(r - z, r - a, -b, "difference with a real");
  eqc(+z, a, b, "plus");
  eqc(-z, -a, -b, "negation");
  eqc(z * w, a * c - b * d, a * d + b * c, "product");
  eqc(r * z, r * a, r * b, "product with a real");
  eqc(z * r, r * a, r * b, "product with a real");
  eqc(z.Conjugate(), a, -b, "conjugate");
  eqc(C(r), r, 0, "real number");
  eq(z.Norm²(), a * a + b * b, "square of the norm");
  eq(z.Norm() * z.Norm(), a * a + b * b, "norm");
  eqc(InnerProduct(z, w), a * c + b * d, b * c - a * d, "Hermitian product");
  C y = z; y += w; eqc(y, a + c, b + d, "sum");
  y = z; y -= w; eqc(y, a - c, b - d, "difference");
  y = z; y *= w; eqc(y, a * c - b * d, a * d + b * c, "product");
  y = z; y *= r; eqc(y, a * r, b * r, "product");
  vf_check((z == w) == (a == c && b == d), "equality");
  vf_check((z != w) == !(a == c && b == d), "equality");
  vf_assume(r >= 0.1 || r <= -0.1);
  eqc(z / r * r, a, b, "quotient by a real");
  vf_assume(c * c + d * d >= 0.01);
  eqc(z / w * w, a, b, "quotient", 1e-2);
  eqc(r / w * w, r, 0, "quotient of a real", 1e-2);
  y = z; y /= w; eqc(y * w, a, b, "quotient", 1e-2);
}

VF_HARNESS(complexification_vectors) {
  using V = Complexification<Vector<Length, W1>>;
  auto const a = v<Length, W1>("a"), b = v<Length, W1>("b");
  auto const c = v<Speed, W1>("c"), d = v<Speed, W1>("d");
  V const z(a, b);
  Complexification<Vector<Speed, W1>> const w(c, d);
  double const p = vf_real("p", -10, 10), q = vf_real("q", -10, 10);
  C const s(p, q);
  auto const m = s * z;
  eq(m.real_part(), p * a - q * b, "product", 1e-3);
  eq(m.imaginary_part(), p * b + q * a, "product", 1e-3);
  auto const i = InnerProduct(z, w);
  eq(i.real_part(), InnerProduct(a, c) + InnerProduct(b, d), "Hermitian product", 1e-3);
  eq(i.imaginary_part(), InnerProduct(b, c) - InnerProduct(a, d), "Hermitian product", 1e-3);
  eq(z.Norm²(), a.Norm²() + b.Norm²(), "norm", 1e-3);
  auto const j = InnerProduct(s * z, w);
  eq(j.real_part(), p * i.real_part() - q * i.imaginary_part(), "linear in the first argument", 1e-2);
  eq(j.imaginary_part(), p * i.imaginary_part() + q * i.real_part(), "linear in the first argument", 1e-2);
}

VF_HARNESS(direct_sum) {
  using D = DirectSum<Length, Vector<Length, W1>, Length>;
  Length const a = q<Length>("a"), b = q<Length>("b"), a2 = q<Length>("a2"), b2 = q<Length>("b2");
  auto const u = v<Length, W1>("u"), u2 = v<Length, W1>("u2");
  double const k = vf_real("k", -10, 10), n = vf_real("n", 0.1, 10);
  D const x(a, u, b), y(a2, u2, b2);
  auto check = [](D const& d, Length const& l, Vector<Length, W1> const& w, Length const& m, char const* id) {
    eq(get<0>(d), l, id, 1e-4);
    eq(get<1>(d), w, id, 1e-4);
    eq(get<2>(d), m, id, 1e-4);
  };
  check(x + y, a + a2, u + u2, b + b2, "sum");
  check(x - y, a - a2, u - u2, b - b2, "difference");
  check(-x, -a, -u, -b, "negation");
  check(+x, a, u, b, "plus");
  check(k * x, k * a, k * u, k * b, "left product");
  check(x * k, k * a, k * u, k * b, "right product");
  check(x / n, a / n, u / n, b / n, "quotient");
  D z = x; z += y; check(z, a + a2, u + u2, b + b2, "sum");
  z = x; z -= y; check(z, a - a2, u - u2, b - b2, "difference");
  z = x; z *= k; check(z, k * a, k * u, k * b, "product");
  z = x; z /= n; check(z, a / n, u / n, b / n, "quotient");
  eq(InnerProduct(x, y), a * a2 + InnerProduct(u, u2) + b * b2, "inner product", 1e-3);
  eq(x.Norm²(), a * a + u.Norm²() + b * b, "square of the norm", 1e-3);
  eq(x.Norm() * x.Norm(), a * a + u.Norm²() + b * b, "norm", 1e-3);
  // An affine sum.
  DirectSum<Position<W1>, Length> const p(W1::origin + u, a), r(W1::origin + u2, a2);
  auto const δ = p - r;
  eq(get<0>(δ), u - u2, "difference");
  eq(get<1>(δ), a - a2, "difference");
  auto const o = r + δ;
  eq(get<0>(o), get<0>(p), "affine", 1e-4);
  eq(get<1>(o), get<1>(p), "affine", 1e-4);
}
