// Triples of coordinates and three by three matrices.
//@ entry triples mode=real max-seconds=60
//@ entry spherical mode=real max-seconds=60
//@ entry spherical_inverse mode=real max-seconds=60
//@ entry matrices mode=real max-seconds=60
//@ entry matrix_solve mode=real max-seconds=60
//@ entry matrix_qr mode=real max-seconds=60
//@ entry triple_serialization mode=real max-seconds=60
//@ src $VERIF/rt/elementary.cc
//@ bound All triples and matrices with entries of magnitude at most 10; all nonsingular systems of three equations; QR decomposition of nonsingular matrices with a strictly lower part of one nonzero element.
//@ assume Real arithmetic instead of rounded floating point; square roots are exact.
#include "geo.h"
#include "geometry/r3x3_matrix.hpp"
#include "numerics/elementary_functions.hpp"

using namespace vf;
using namespace principia::geometry::_r3x3_matrix;
using principia::numerics::_elementary_functions::Cos;
using principia::numerics::_elementary_functions::Sin;

template<typename Q>
R3x3Matrix<Q> mat(char const* n, double m = M) {
  std::string s = n;
  return R3x3Matrix<Q>(r3<Q>((s + "0").c_str(), m), r3<Q>((s + "1").c_str(), m), r3<Q>((s + "2").c_str(), m));
}
template<typename Q>
void eqm(R3x3Matrix<Q> const& a, R3x3Matrix<Q> const& b, char const* id, double t = tol) {
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) eq(a(i, j), b(i, j), id, t);
}

VF_HARNESS(triples) {
  auto const a = r3<Length>("a"), b = r3<Length>("b");
  auto const c = r3<Speed>("c");
  double const k = vf_real("k", -10, 10), n = vf_real("n", 0.1, 10);
  Time const t = q<Time>("t");
  for (int i = 0; i < 3; ++i) {
    vf_check(num(a[0]) == num(a.x) && num(a[1]) == num(a.y) && num(a[2]) == num(a.z), "indexing");
    eq((a + b)[i], a[i] + b[i], "sum");
    eq((a - b)[i], a[i] - b[i], "difference");
    eq((+a)[i], a[i], "plus");
    eq((-a)[i], -a[i], "negation");
    eq((k * a)[i], k * a[i], "left product");
    eq((a * k)[i], k * a[i], "right product");
    eq((t * c)[i], t * c[i], "left product");
    eq((c * t)[i], t * c[i], "right product");
    eq((a / n)[i], a[i] / n, "quotient");
    eq((c / (n * Second))[i], c[i] / (n * Second), "quotient");
    int const j = (i + 1) % 3, l = (i + 2) % 3;
    eq(Cross(a, c)[i], a[j] * c[l] - a[l] * c[j], "cross product", 1e-4);
    for (int m = 0; m < 3; ++m) eq(BasisVector(i)[m], i == m ? 1 : 0, "basis");
  }
  auto d = a; d += b; eq(d, a + b, "sum");
  d = a; d -= b; eq(d, a - b, "difference");
  d = a; d *= k; eq(d, k * a, "product");
  d = a; d /= n; eq(d, a / n, "quotient");
  eq(Dot(a, c), a.x * c.x + a.y * c.y + a.z * c.z, "dot product", 1e-4);
  eq(a.Norm²(), Dot(a, a), "square of the norm", 1e-4);
  eq(a.Norm() * a.Norm(), Dot(a, a), "norm", 1e-4);
  vf_check(a.Norm() >= Length{}, "nonnegative");
  vf_check((a == b) == (num(a.x) == num(b.x) && num(a.y) == num(b.y) && num(a.z) == num(b.z)), "equality");
  vf_check((a != b) == !(a == b), "inequality");
  vf_assume(num(c.x) * num(c.x) + num(c.y) * num(c.y) + num(c.z) * num(c.z) >= 0.01);
  auto const u = Normalize(c);
  eq(u * c.Norm(), c, "direction", 1e-4);
  eq(u.Norm²(), 1, "unit");
  auto const o = a.OrthogonalizationAgainst(c);
  eq(Dot(o, c), Product<Length, Speed>{}, "orthogonal", 1e-3);
  eq(Cross(a - o, u), R3Element<Length>{}, "coplanar", 1e-3);
}

VF_HARNESS(spherical) {
  Length const r = vf_real("r", 0.1, 10) * Metre;
  Angle const φ = vf_angle("latitude") * Radian;
  Angle const λ = vf_angle("longitude") * Radian;
  auto const c = RadiusLatitudeLongitude(r, φ, λ).ToCartesian();
  eq(c.x, r * Cos(φ) * Cos(λ), "x");
  eq(c.y, r * Cos(φ) * Sin(λ), "y");
  eq(c.z, r * Sin(φ), "z");
  eq(c.Norm²(), r * r, "radius", 1e-4);
}

VF_HARNESS(spherical_inverse) {
  auto const c = r3<Length>("c");
  vf_assume(num(c.x) * num(c.x) + num(c.y) * num(c.y) >= 0.01);
  auto const s = c.ToSpherical();
  eq(s.radius * s.radius, c.Norm²(), "radius", 1e-4);
  vf_check(s.radius > Length{}, "radius");
  eq(Sin(s.latitude) * s.radius, c.z, "latitude", 1e-4);
  vf_check(Cos(s.latitude) >= 0, "latitude");
  auto const e = s.ToCartesian();
  eq(e, c, "round trip", 1e-3);
}

VF_HARNESS(matrices) {
  auto const A = mat<Length>("A"), B = mat<Length>("B");
  auto const C = mat<Speed>("C");
  auto const u = r3<Mass>("u"), w = r3<Mass>("w");
  double const k = vf_real("k", -10, 10), n = vf_real("n", 0.1, 10);
  eq((A + B) * u, A * u + B * u, "sum", 1e-4);
  eq((A - B) * u, A * u - B * u, "difference", 1e-4);
  eqm(+A, A, "plus");
  eq((-A) * u, -(A * u), "negation", 1e-4);
  eq((k * A) * u, k * (A * u), "left product", 1e-3);
  eq((A * k) * u, k * (A * u), "right product", 1e-3);
  eq((A / n) * u, (A * u) / n, "quotient", 1e-3);
  eq((A * C) * u, A * (C * u), "product", 1e-2);
  eq(u * A, A.Transpose() * u, "left action", 1e-4);
  eq(Dot(w, A * u), Dot(A.Transpose() * w, u), "transpose", 1e-3);
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) {
      eq((A * BasisVector(j))[i], A(i, j), "elements");
      eq(KroneckerProduct(u, C.row_y())(i, j), u[i] * C(1, j), "Kronecker product", 1e-4);
      eq(R3x3Matrix<double>::Identity()(i, j), i == j ? 1 : 0, "identity");
      eq(R3x3Matrix<Mass>::DiagonalMatrix(u)(i, j), i == j ? u[i] : Mass{}, "diagonal matrix");
    }
  for (int j = 0; j < 3; ++j) {
    eq(A.row_x()[j], A(0, j), "row");
    eq(A.row_y()[j], A(1, j), "row");
    eq(A.row_z()[j], A(2, j), "row");
  }
  eq(A.Determinant(), Dot(A.row_x(), Cross(A.row_y(), A.row_z())), "determinant", 1e-2);
  eq(A.Trace(), A(0, 0) + A(1, 1) + A(2, 2), "trace");
  eq(A.Diagonal(), R3Element<Length>(A(0, 0), A(1, 1), A(2, 2)), "diagonal");
  auto const f = A.FrobeniusNorm();
  eq(f * f, (A * A.Transpose()).Trace(), "norm", 1e-3);
  vf_check(f >= Length{}, "norm");
  auto D = A; D += B; eqm(D, A + B, "sum");
  D = A; D -= B; eqm(D, A - B, "difference");
  D = A; D *= k; eqm(D, A * k, "product");
  D = A; D /= n; eqm(D, A / n, "quotient");
  D = A; D(1, 2) = B(0, 1);
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) eq(D(i, j), i == 1 && j == 2 ? B(0, 1) : A(i, j), "assignment");
  bool diagonal = true, same = true;
  int const p = vf_choose(9, "position");
  R3x3Matrix<Length> E = R3x3Matrix<Length>::DiagonalMatrix(A.row_x());
  E(p / 3, p % 3) = A(1, 1);
  vf_check(E.IsDiagonalMatrix() == (p / 3 == p % 3 || num(A(1, 1)) == 0), "diagonal");
  R3x3Matrix<Length> F = E;
  F(p / 3, p % 3) = A(2, 2);
  vf_check((E == F) == (num(A(1, 1)) == num(A(2, 2))), "equality");
  vf_check((E != F) == (num(A(1, 1)) != num(A(2, 2))), "equality");
}

VF_HARNESS(matrix_solve) {
  // Eight of the elements are arbitrary.
  auto A = mat<Length>("A");
  auto const b = r3<Speed>("b");
  vf_assume(num(A.Determinant()) != 0);
  auto const x = A.Solve(b);
  eq(A * x, b, "solution", 1e-3);
}

VF_HARNESS(matrix_qr) {
  auto A = mat<Length>("A");
  A(1, 0) = Length{};
  A(2, 0) = Length{};
  int const p = vf_choose(2, "lower");
  if (p == 0) A(2, 1) = Length{};
  vf_assume(num(A(0, 0)) >= 0.1 || num(A(0, 0)) <= -0.1);
  vf_assume(num(A.Determinant()) >= 0.1 || num(A.Determinant()) <= -0.1);
  R3x3Matrix<double> Q;
  R3x3Matrix<Length> R;
  A.QRDecomposition(Q, R);
  eqm(Q * R, A, "product", 1e-3);
  eqm(Q.Transpose() * Q, R3x3Matrix<double>::Identity(), "orthogonal", 1e-3);
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < i; ++j) eq(R(i, j), Length{}, "triangular");
  for (int i = 0; i < 3; ++i) vf_check(R(i, i) >= Length{}, "nonnegative diagonal");
}

VF_HARNESS(triple_serialization) {
  auto const A = mat<Length>("A");
  principia::serialization::R3x3Matrix m;
  A.WriteToMessage(&m);
  eqm(R3x3Matrix<Length>::ReadFromMessage(m), A, "round trip", 0);
  auto const a = r3<double>("a");
  principia::serialization::R3Element n;
  a.WriteToMessage(&n);
  eq(R3Element<double>::ReadFromMessage(n), a, "round trip", 0);
  auto const s = RadiusLatitudeLongitude(q<Length>("r"), q<Angle>("latitude"), q<Angle>("longitude"));
  principia::serialization::SphericalCoordinates o;
  s.WriteToMessage(&o);
  auto const t = SphericalCoordinates<Length>::ReadFromMessage(o);
  eq(t.radius, s.radius, "radius", 0);
  eq(t.latitude, s.latitude, "latitude", 0);
  eq(t.longitude, s.longitude, "longitude", 0);
}
