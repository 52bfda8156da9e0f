// Symmetric bilinear forms on vectors and bivectors.
//@ entry form_algebra mode=real max-seconds=60
//@ entry form_products mode=real max-seconds=60
//@ entry form_solve mode=real max-seconds=60
//@ entry form_anticommutator mode=real max-seconds=60
//@ entry form_diagonal mode=real max-seconds=60
//@ entry form_serialization mode=real max-seconds=60
//@ src $VERIF/rt/elementary.cc
//@ bound All symmetric 3 by 3 matrices, vectors and bivectors with coordinates of magnitude at most 10; division by invertible forms with determinant of magnitude at least 0.1; diagonalization of diagonal forms in any order.
//@ assume Real arithmetic instead of rounded floating point; square roots are exact. Diagonalization of forms that are not diagonal is an iteration outside of the bounds.
#include "geo.h"
#include "geometry/r3x3_matrix.hpp"
#include "geometry/rotation.hpp"
#include "geometry/symmetric_bilinear_form.hpp"

using namespace vf;
using namespace principia::geometry::_r3x3_matrix;
using namespace principia::geometry::_rotation;
using namespace principia::geometry::_symmetric_bilinear_form;

template<typename Q> using VForm = SymmetricBilinearForm<Q, W1, Vector>;
template<typename Q> using BForm = SymmetricBilinearForm<Q, W1, Bivector>;

template<typename Q>
R3x3Matrix<Q> sym(char const* n, double m = M) {
  std::string s = n;
  Q const a = q<Q>((s + "00").c_str(), m), b = q<Q>((s + "01").c_str(), m), c = q<Q>((s + "02").c_str(), m),
          d = q<Q>((s + "11").c_str(), m), e = q<Q>((s + "12").c_str(), m), f = q<Q>((s + "22").c_str(), m);
  return R3x3Matrix<Q>({a, b, c}, {b, d, e}, {c, e, f});
}
template<typename Q>
void eqm(R3x3Matrix<Q> const& a, R3x3Matrix<Q> const& b, char const* id, double t = tol) {
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) eq(a(i, j), b(i, j), id, t);
}
template<typename F>
void symmetric(F const& f) {
  auto const& m = f.coordinates();
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < i; ++j) eq(m(i, j), m(j, i), "symmetric");
}

template<template<typename, typename> typename MV>
void algebra() {
  auto const A = sym<Length>("A"), B = sym<Length>("B");
  SymmetricBilinearForm<Length, W1, MV> const f(A), g(B);
  double const k = vf_real("k", -10, 10);
  double const n = vf_real("n", 0.1, 10);
  MV<Speed, W1> const u(r3<Speed>("u"));
  MV<Mass, W1> const w(r3<Mass>("w")), w2(r3<Mass>("w2"));
  auto value = [&](R3x3Matrix<Length> const& m) {
    Product<Length, Product<Speed, Mass>> s{};
    for (int i = 0; i < 3; ++i)
      for (int j = 0; j < 3; ++j) s += m(i, j) * u.coordinates()[i] * w.coordinates()[j];
    return s;
  };
  eqm(f.coordinates(), A, "coordinates");
  eq(f(u, w), value(A), "value", 1e-3);
  eq(f(w, u), value(A), "symmetric", 1e-3);
  eq(f(u, w + w2), f(u, w) + f(u, w2), "bilinear", 1e-3);
  eq((f + g)(u, w), value(A) + value(B), "sum", 1e-3);
  eq((f - g)(u, w), value(A) - value(B), "difference", 1e-3);
  eq((+f)(u, w), value(A), "plus", 1e-3);
  eq((-f)(u, w), -value(A), "negation", 1e-3);
  eq((k * f)(u, w), k * value(A), "left product", 1e-3);
  eq((f * k)(u, w), k * value(A), "right product", 1e-3);
  eq((f / n)(u, w), value(A) / n, "quotient", 1e-3);
  auto h = f; h += g; eqm(h.coordinates(), (f + g).coordinates(), "sum");
  h = f; h -= g; eqm(h.coordinates(), (f - g).coordinates(), "difference");
  h = f; h *= k; eqm(h.coordinates(), (f * k).coordinates(), "product");
  h = f; h /= n; eqm(h.coordinates(), (f / n).coordinates(), "quotient");
  // The dual action.
  MV<double, W1> const e(r3<double>("e"));
  eq(InnerProduct(e, f * w), f(e, w), "action", 1e-3);
  eq(InnerProduct(e * f, w), f(e, w), "action", 1e-3);
  eq((InnerProductForm<W1, MV>())(u, w), InnerProduct(u, w), "inner product form", 1e-3);
}
VF_HARNESS(form_algebra) {
  if (vf_choose(2, "bivectors")) algebra<Bivector>();
  else algebra<Vector>();
}

VF_HARNESS(form_products) {
  auto const a = v<Length, W1>("a");
  auto const b = v<Speed, W1>("b");
  auto const u = v<Mass, W1>("u");
  auto const w = v<double, W1>("w");
  auto const s = SymmetricProduct(a, b);
  symmetric(s);
  eq(s(u, w), (InnerProduct(a, u) * InnerProduct(b, w) + InnerProduct(b, u) * InnerProduct(a, w)) / 2, "symmetric product", 1e-2);
  auto const t = SymmetricSquare(a);
  eq(t(u, w), InnerProduct(a, u) * InnerProduct(a, w), "symmetric square", 1e-2);
}

VF_HARNESS(form_solve) {
  auto const A = sym<Length>("A", 2);
  auto const det = num(A.Determinant());
  vf_assume(det != 0);
  if (vf_choose(2, "bivectors")) {
    auto const y = bv<Speed, W1>("y");
    BForm<Length> const f(A);
    auto const x = y / f;
    eq((f * x), y, "solution", 1e-3);
    eq((x * f), y, "solution", 1e-3);
  } else {
    auto const y = v<Speed, W1>("y");
    VForm<Length> const f(A);
    auto const x = y / f;
    eq((f * x), y, "solution", 1e-3);
  }
}

VF_HARNESS(form_anticommutator) {
  VForm<Length> const f(sym<Length>("A"));
  auto const a = bv<Speed, W1>("a"), b = bv<Speed, W1>("b");
  auto const u = v<Length, W1>("u"), w = v<Length, W1>("w");
  auto const c = f.Anticommutator();
  symmetric(c);
  eq(c * Wedge(u, w), Wedge(f * u, w) + Wedge(u, f * w), "commutator", 1e-3);
  eq(c * b, Anticommutator(f, b), "anticommutator", 1e-4);
  eq(c(a, b), InnerProduct(a, Anticommutator(f, b)), "anticommutator", 1e-3);
  eqm(c.AnticommutatorInverse().coordinates(), f.coordinates(), "inverse of the anticommutator");
  BForm<Length> const g(sym<Length>("B"));
  eqm(g.AnticommutatorInverse().Anticommutator().coordinates(), g.coordinates(), "inverse of the anticommutator");
}

VF_HARNESS(form_diagonal) {
  auto const d = r3<Length>("d");
  VForm<Length> const f(R3x3Matrix<Length>::DiagonalMatrix(d));
  vf_assume(num(d.x) * num(d.x) + num(d.y) * num(d.y) + num(d.z) * num(d.z) > 0);
  auto const s = f.Diagonalize<W2>();
  vf_check(s.form.IsDiagonalized(), "diagonalized");
  eqm(s.form.coordinates(), R3x3Matrix<Length>::DiagonalMatrix({s.form.coordinates()(0, 0), s.form.coordinates()(1, 1), s.form.coordinates()(2, 2)}), "diagonal");
  vf_check(s.form.coordinates()(0, 0) <= s.form.coordinates()(1, 1), "increasing");
  vf_check(s.form.coordinates()(1, 1) <= s.form.coordinates()(2, 2), "increasing");
  auto const u = v<Speed, W1>("u"), w = v<Speed, W1>("w");
  auto const r = s.rotation.Inverse();
  eq(s.form(r(u), r(w)), f(u, w), "same form", 1e-2);
  eq(InnerProduct(r(u), r(w)), InnerProduct(u, w), "isometry", 1e-3);
  eq(r(Wedge(u, w)), Wedge(r(u), r(w)), "direct", 1e-3);
}

using S1 = Frame<principia::serialization::Frame::TestTag, NonRotating, Handedness::Right, principia::serialization::Frame::TEST>;
VF_HARNESS(form_serialization) {
  SymmetricBilinearForm<Length, S1, Bivector> const f(sym<Length>("A"));
  principia::serialization::SymmetricBilinearForm m;
  f.WriteToMessage(&m);
  auto const g = SymmetricBilinearForm<Length, S1, Bivector>::ReadFromMessage(m);
  eqm(g.coordinates(), f.coordinates(), "round trip", 0);
}
