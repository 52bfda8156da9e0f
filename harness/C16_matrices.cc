// Decompositions and solutions of linear systems.
//@ entry matrix_solve mode=real max-seconds=100
//@ entry matrix_substitution mode=real max-seconds=60
//@ entry matrix_cholesky mode=real max-seconds=60
//@ entry matrix_rdr mode=real max-seconds=60
//@ entry matrix_gram_schmidt mode=real max-seconds=60
//@ entry matrix_unitriangular mode=real max-seconds=60
//@ entry matrix_hessenberg mode=real max-seconds=60
//@ entry matrix_rayleigh mode=real max-seconds=60
//@ entry matrix_jacobi mode=real max-seconds=60
//@ src $VERIF/rt/elementary.cc
//@ bound Fixed and unbounded matrices; all nonsingular systems of 2 and 3 equations, all triangular systems of 4 equations; Cholesky, RDR and unitriangular decompositions of 3 by 3 matrices, orthonormalization of 2 by 2 and upper triangular 3 by 3 matrices; Hessenberg form of 3 by 3 matrices; eigensystems of diagonal matrices and of matrices obtained from a diagonal one by one rotation of the axes.
//@ assume Real arithmetic instead of rounded floating point; square roots are exact. The convergence of the iterative eigenvalue algorithms is outside of the bounds.
#include "arrays.h"

using namespace vf;

template<typename K, int n>
void solve() {
  auto const A = fill(K::template mat<Length, n, n>(), "A");
  auto const b = fillv(K::template vec<Speed, n>(), "b");
  double det;
  auto a = [&](int i, int j) { return num(A(i, j)); };
  if constexpr (n == 2) det = a(0, 0) * a(1, 1) - a(0, 1) * a(1, 0);
  else det = a(0, 0) * (a(1, 1) * a(2, 2) - a(1, 2) * a(2, 1)) - a(0, 1) * (a(1, 0) * a(2, 2) - a(1, 2) * a(2, 0)) + a(0, 2) * (a(1, 0) * a(2, 1) - a(1, 1) * a(2, 0));
  vf_assume(det != 0);
  auto const x = Solve(A, b);
  vf_check(x.size() == n, "size");
  is_vector(A * x, n, [&](int i) { return b[i]; }, "solution", 1e-3);
}
VF_HARNESS(matrix_solve) {
  switch (vf_choose(3, "kind")) {
    case 0: solve<Fixed<false>, 2>(); break;
    case 1: solve<Fixed<false>, 3>(); break;
    case 2: solve<Unbounded, 2>(); break;
  }
}

template<typename K>
void substitution() {
  constexpr int n = 4;
  auto const U = fill_upper(K::template upper<Length, n>(), "U");
  auto const L = fill_lower(K::template lower<Length, n>(), "L");
  auto const b = fillv(K::template vec<Speed, n>(), "b");
  for (int i = 0; i < n; ++i) {
    vf_assume(num(U(i, i)) != 0);
    vf_assume(num(L(i, i)) != 0);
  }
  using M = typename K::template M<Length, n, n>;
  auto const x = BackSubstitution(U, b);
  is_vector(M(U) * x, n, [&](int i) { return b[i]; }, "back substitution", 1e-3);
  auto const y = ForwardSubstitution(L, b);
  is_vector(M(L) * y, n, [&](int i) { return b[i]; }, "forward substitution", 1e-3);
}
VF_HARNESS(matrix_substitution) {
  if (vf_choose(2, "kind")) substitution<Unbounded>();
  else substitution<Fixed<false>>();
}

template<typename K>
void cholesky() {
  constexpr int n = 3;
  // A positive definite matrix.
  auto const S = fill_upper(K::template upper<Length, n>(), "S", 3);
  for (int i = 0; i < n; ++i) vf_assume(num(S(i, i)) >= 0.1);
  auto A = K::template upper<Square<Length>, n>();
  for (int i = 0; i < n; ++i)
    for (int j = i; j < n; ++j)
      for (int k = 0; k <= i; ++k) A(i, j) += S(k, i) * S(k, j);
  auto const R = CholeskyDecomposition(A);
  for (int i = 0; i < n; ++i)
    for (int j = i; j < n; ++j) eq(R(i, j), S(i, j), "unique factor", 1e-3);
}
VF_HARNESS(matrix_cholesky) {
  if (vf_choose(2, "kind")) cholesky<Unbounded>();
  else cholesky<Fixed<false>>();
}

template<typename K>
void rdr() {
  constexpr int n = 3;
  auto const A = fill_upper(K::template upper<double, n>(), "A");
  vf_assume(A(0, 0) != 0);
  vf_assume(A(0, 0) * A(1, 1) - A(0, 1) * A(0, 1) != 0);
  using V = decltype(K::template vec<double, n>());
  auto const s = ᵗRDRDecomposition<V>(A);
  for (int i = 0; i < n; ++i) {
    eq(s.R(i, i), 1, "unit diagonal");
    for (int j = i; j < n; ++j) {
      double x = 0;
      for (int k = 0; k <= i; ++k) x += s.R(k, i) * s.D[k] * s.R(k, j);
      eq(x, A(i, j), "product", 1e-3);
    }
  }
}
VF_HARNESS(matrix_rdr) {
  if (vf_choose(2, "kind")) rdr<Unbounded>();
  else rdr<Fixed<false>>();
}

template<typename M>
void qr(M const& A, int n) {
  auto const s = ClassicalGramSchmidt(A);
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j) {
      Length x{};
      for (int k = 0; k <= j; ++k) x += s.Q(i, k) * s.R(k, j);
      eq(x, A(i, j), "product", 1e-3);
      double d = 0;
      for (int k = 0; k < n; ++k) d += s.Q(k, i) * s.Q(k, j);
      eq(d, i == j ? 1 : 0, "orthogonal", 1e-3);
    }
}
template<typename K>
void gram_schmidt() {
  if (vf_choose(2, "triangular")) {
    auto const U = fill_upper(K::template mat<Length, 3, 3>(), "U");
    for (int i = 0; i < 3; ++i) vf_assume(num(U(i, i)) != 0);
    qr(U, 3);
  } else {
    auto const A = fill(K::template mat<Length, 2, 2>(), "A");
    vf_assume(num(A(0, 0)) * num(A(1, 1)) - num(A(0, 1)) * num(A(1, 0)) != 0);
    vf_assume(num(A(0, 0)) * num(A(0, 0)) + num(A(1, 0)) * num(A(1, 0)) != 0);
    qr(A, 2);
  }
}
VF_HARNESS(matrix_gram_schmidt) {
  if (vf_choose(2, "kind")) gram_schmidt<Unbounded>();
  else gram_schmidt<Fixed<false>>();
}

template<typename K>
void unitriangular() {
  auto const A = fill(K::template mat<Length, 3, 2>(), "A");
  vf_assume(num(A(0, 0)) * num(A(0, 0)) + num(A(1, 0)) * num(A(1, 0)) + num(A(2, 0)) * num(A(2, 0)) != 0);
  auto const s = UnitriangularGramSchmidt(A);
  for (int i = 0; i < 2; ++i) eq(s.R(i, i), 1, "unit diagonal");
  for (int i = 0; i < 3; ++i) {
    eq(s.Q(i, 0), A(i, 0), "product", 1e-3);
    eq(s.Q(i, 1) + s.R(0, 1) * s.Q(i, 0), A(i, 1), "product", 1e-3);
  }
  eq(s.Q(0, 0) * s.Q(0, 1) + s.Q(1, 0) * s.Q(1, 1) + s.Q(2, 0) * s.Q(2, 1), Square<Length>{}, "orthogonal", 1e-3);
}
VF_HARNESS(matrix_unitriangular) {
  if (vf_choose(2, "kind")) unitriangular<Unbounded>();
  else unitriangular<Fixed<false>>();
}

VF_HARNESS(matrix_hessenberg) {
  auto const A = fill(FixedMatrix<double, 3, 3>(), "A");
  vf_assume(A(1, 0) * A(1, 0) + A(2, 0) * A(2, 0) != 0);
  auto const H = HessenbergDecomposition(A).H;
  eq(H(2, 0), 0, "Hessenberg", 1e-3);
  eq(H(1, 0) * H(1, 0), A(1, 0) * A(1, 0) + A(2, 0) * A(2, 0), "norm", 1e-2);
  // Similar matrices have the same characteristic polynomial.
  auto trace = [](auto const& M) { return M(0, 0) + M(1, 1) + M(2, 2); };
  auto minors = [](auto const& M) {
    return M(0, 0) * M(1, 1) - M(0, 1) * M(1, 0) + M(0, 0) * M(2, 2) - M(0, 2) * M(2, 0) + M(1, 1) * M(2, 2) - M(1, 2) * M(2, 1);
  };
  auto det = [](auto const& M) {
    return M(0, 0) * (M(1, 1) * M(2, 2) - M(1, 2) * M(2, 1)) - M(0, 1) * (M(1, 0) * M(2, 2) - M(1, 2) * M(2, 0)) + M(0, 2) * (M(1, 0) * M(2, 1) - M(1, 1) * M(2, 0));
  };
  eq(trace(H), trace(A), "trace", 1e-3);
  eq(minors(H), minors(A), "second coefficient", 1e-2);
  eq(det(H), det(A), "determinant", 1e-1);
}

VF_HARNESS(matrix_rayleigh) {
  auto const A = fill(FixedMatrix<Length, 3, 3>(), "A");
  auto const x = fillv(FixedVector<double, 3>(), "x");
  double const n = x[0] * x[0] + x[1] * x[1] + x[2] * x[2];
  vf_assume(n != 0);
  Length s{};
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) s += x[i] * A(i, j) * x[j];
  eq(RayleighQuotient(A, x) * n, s, "quotient", 1e-3);
  auto const B = fill(UnboundedMatrix<Length>(2, 2), "B");
  auto const y = fillv(UnboundedVector<double>(2), "y");
  vf_assume(y[0] * y[0] + y[1] * y[1] != 0);
  eq(RayleighQuotient(B, y) * (y[0] * y[0] + y[1] * y[1]), B(0, 0) * y[0] * y[0] + (B(0, 1) + B(1, 0)) * y[0] * y[1] + B(1, 1) * y[1] * y[1], "quotient", 1e-3);
}

VF_HARNESS(matrix_jacobi) {
  // The eigenvalues are given, as is the rotation.
  FixedMatrix<double, 3, 3> A;
  double const l[3] = {vf_real("l0", -10, 10), vf_real("l1", -10, 10), vf_real("l2", -10, 10)};
  double c = 1, s = 0;
  int const p = vf_choose(3, "p");
  int const q = (p + 1) % 3;
  if (vf_choose(2, "rotated")) {
    c = 0.8;
    s = 0.6;
    vf_assume(l[p] - l[q] >= 0.1);
  }
  int const r = 3 - p - q;
  A(r, r) = l[r];
  A(p, p) = c * c * l[p] + s * s * l[q];
  A(q, q) = s * s * l[p] + c * c * l[q];
  A(p, q) = A(q, p) = c * s * (l[p] - l[q]);
  vf_assume(l[0] * l[0] + l[1] * l[1] + l[2] * l[2] >= 0.01);
  auto const e = ClassicalJacobi(A, 1);
  for (int j = 0; j < 3; ++j)
    for (int i = 0; i < 3; ++i) {
      double x = 0, d = 0;
      for (int k = 0; k < 3; ++k) {
        x += A(i, k) * e.rotation(k, j);
        d += e.rotation(k, i) * e.rotation(k, j);
      }
      eq(x, e.rotation(i, j) * e.eigenvalues[j], "eigenvectors", 1e-3);
      eq(d, i == j ? 1 : 0, "orthogonal", 1e-3);
    }
}
