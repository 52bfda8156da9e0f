// Fixed and unbounded vectors and matrices, and views thereof.
//@ entry fixed_operators mode=real max-seconds=60
//@ entry heap_operators mode=real max-seconds=60
//@ entry unbounded_operators mode=real max-seconds=60
//@ entry triangular mode=real max-seconds=60
//@ entry views mode=real max-seconds=60
//@ entry resizing mode=real max-seconds=60
//@ entry copies mode=real max-seconds=60
//@ src $VERIF/rt/elementary.cc
//@ bound Vectors of 2, 3 and 5 elements, matrices of 2 by 3, 3 by 2, 3 by 3 and 4 by 4 elements, in fixed (on the stack and on the heap) and unbounded form, all elements of magnitude at most 10; all blocks and columns of a 3 by 4 matrix.
//@ assume Real arithmetic instead of rounded floating point; square roots are exact.
#include "arrays.h"

using namespace vf;

template<typename K>
void operators() {
  auto const u = fillv(K::template vec<Length, 3>(), "u"), u2 = fillv(K::template vec<Length, 3>(), "v");
  auto const s = fillv(K::template vec<Speed, 3>(), "s");
  auto const w = fillv(K::template vec<Speed, 2>(), "w");
  auto const A = fill(K::template mat<Length, 2, 3>(), "A"), A2 = fill(K::template mat<Length, 2, 3>(), "X");
  auto const B = fill(K::template mat<Mass, 3, 2>(), "B");
  auto const S = fill(K::template mat<double, 3, 3>(), "S");
  double const k = vf_real("k", -10, 10), n = vf_real("n", 0.1, 10);
  Time const t = q<Time>("t");
  is_vector(u + u2, 3, [&](int i) { return u[i] + u2[i]; }, "sum of vectors");
  is_vector(u - u2, 3, [&](int i) { return u[i] - u2[i]; }, "difference of vectors");
  is_vector(+u, 3, [&](int i) { return u[i]; }, "plus");
  is_vector(-u, 3, [&](int i) { return -u[i]; }, "negation");
  is_vector(t * s, 3, [&](int i) { return t * s[i]; }, "left product");
  is_vector(s * t, 3, [&](int i) { return t * s[i]; }, "right product");
  is_vector(s / n, 3, [&](int i) { return s[i] / n; }, "quotient");
  auto x = u; x += u2; is_vector(x, 3, [&](int i) { return u[i] + u2[i]; }, "sum of vectors");
  x = u; x -= u2; is_vector(x, 3, [&](int i) { return u[i] - u2[i]; }, "difference of vectors");
  x = u; x *= k; is_vector(x, 3, [&](int i) { return k * u[i]; }, "product");
  x = u; x /= n; is_vector(x, 3, [&](int i) { return u[i] / n; }, "quotient");
  auto const dot = u[0] * s[0] + u[1] * s[1] + u[2] * s[2];
  eq(InnerProduct(u, s), dot, "inner product", 1e-3);
  eq(TransposedView{u} * s, dot, "inner product", 1e-3);
  eq(u.Norm²(), u[0] * u[0] + u[1] * u[1] + u[2] * u[2], "norm", 1e-3);
  vf_check(u.Norm() >= Length{}, "norm");
  eq(u.Norm() * u.Norm(), u.Norm²(), "norm", 1e-3);
  is_matrix(A + A2, 2, 3, [&](int i, int j) { return A(i, j) + A2(i, j); }, "sum of matrices");
  is_matrix(A - A2, 2, 3, [&](int i, int j) { return A(i, j) - A2(i, j); }, "difference of matrices");
  is_matrix(+A, 2, 3, [&](int i, int j) { return A(i, j); }, "plus");
  is_matrix(-A, 2, 3, [&](int i, int j) { return -A(i, j); }, "negation");
  is_matrix(t * A, 2, 3, [&](int i, int j) { return t * A(i, j); }, "left product");
  is_matrix(A * t, 2, 3, [&](int i, int j) { return t * A(i, j); }, "right product");
  is_matrix(A / n, 2, 3, [&](int i, int j) { return A(i, j) / n; }, "quotient");
  auto X = A; X += A2; is_matrix(X, 2, 3, [&](int i, int j) { return A(i, j) + A2(i, j); }, "sum of matrices");
  X = A; X -= A2; is_matrix(X, 2, 3, [&](int i, int j) { return A(i, j) - A2(i, j); }, "difference of matrices");
  X = A; X *= k; is_matrix(X, 2, 3, [&](int i, int j) { return A(i, j) * k; }, "product");
  X = A; X /= n; is_matrix(X, 2, 3, [&](int i, int j) { return A(i, j) / n; }, "quotient");
  is_matrix(A * B, 2, 2, [&](int i, int j) { return A(i, 0) * B(0, j) + A(i, 1) * B(1, j) + A(i, 2) * B(2, j); }, "matrix product", 1e-3);
  is_matrix(B * A, 3, 3, [&](int i, int j) { return B(i, 0) * A(0, j) + B(i, 1) * A(1, j); }, "matrix product", 1e-3);
  is_vector(A * s, 2, [&](int i) { return A(i, 0) * s[0] + A(i, 1) * s[1] + A(i, 2) * s[2]; }, "matrix and vector", 1e-3);
  is_vector(TransposedView{A} * w, 3, [&](int j) { return A(0, j) * w[0] + A(1, j) * w[1]; }, "row vector and matrix", 1e-3);
  is_matrix(s * TransposedView{w}, 3, 2, [&](int i, int j) { return s[i] * w[j]; }, "exterior product", 1e-3);
  is_matrix(S * S, 3, 3, [&](int i, int j) { return S(i, 0) * S(0, j) + S(i, 1) * S(1, j) + S(i, 2) * S(2, j); }, "square", 1e-3);
  auto Z = S; Z *= S; is_matrix(Z, 3, 3, [&](int i, int j) { return S(i, 0) * S(0, j) + S(i, 1) * S(1, j) + S(i, 2) * S(2, j); }, "square", 1e-3);
  eq(S(u, s), InnerProduct(u, S * s), "bilinear form", 1e-2);
  is_matrix(SymmetricSquare(u), 3, 3, [&](int i, int j) { return u[i] * u[j]; }, "symmetric square", 1e-3);
  is_matrix(SymmetricProduct(u, s), 3, 3, [&](int i, int j) { return (u[i] * s[j] + u[j] * s[i]) / 2; }, "symmetric product", 1e-3);
  auto const f = A.FrobeniusNorm();
  eq(f * f, A(0, 0) * A(0, 0) + A(0, 1) * A(0, 1) + A(0, 2) * A(0, 2) + A(1, 0) * A(1, 0) + A(1, 1) * A(1, 1) + A(1, 2) * A(1, 2), "Frobenius norm", 1e-3);
  vf_assume(num(u[0]) * num(u[0]) + num(u[1]) * num(u[1]) + num(u[2]) * num(u[2]) >= 0.01);
  auto const nu = u.Normalize();
  is_vector(nu * u.Norm(), 3, [&](int i) { return u[i]; }, "normalized", 1e-3);
  // A single difference is noticed.
  int const p = vf_choose(3, "p"), r = vf_choose(2, "r");
  auto y = u;
  y[p] = u2[p];
  vf_check((y == u) == (num(u[p]) == num(u2[p])), "equality of vectors");
  vf_check((y != u) == (num(u[p]) != num(u2[p])), "equality of vectors");
  auto Y = A;
  Y(r, p) = A2(r, p);
  vf_check((Y == A) == (num(A(r, p)) == num(A2(r, p))), "equality of matrices");
}
VF_HARNESS(fixed_operators) {
  operators<Fixed<false>>();
  is_matrix(FixedMatrix<double, 3, 3>::Identity(), 3, 3, [&](int i, int j) { return i == j ? 1.0 : 0.0; }, "identity");
  FixedMatrix<Length, 2, 3> const A({1 * Metre, 2 * Metre, 3 * Metre, 4 * Metre, 5 * Metre, 6 * Metre});
  is_matrix(A, 2, 3, [](int i, int j) { return (3 * i + j + 1) * Metre; }, "order of the elements");
  for (int i = 0; i < 2; ++i)
    for (int j = 0; j < 3; ++j) vf_check(A.row(i)[j] == A(i, j), "row");
  auto const u = fillv(FixedVector<Speed, 3>(), "ru");
  for (int i = 0; i < 2; ++i)
    eq(A.row(i) * u, A(i, 0) * u[0] + A(i, 1) * u[1] + A(i, 2) * u[2], "product of a row");
  std::array<Speed, 3> const a(u);
  for (int i = 0; i < 3; ++i) eq(a[i], u[i], "as an array");
  int i = 0;
  for (auto const& x : u) eq(x, u[i++], "iteration");
  vf_check(i == 3, "iteration");
}
VF_HARNESS(heap_operators) { operators<Fixed<true>>(); }
VF_HARNESS(unbounded_operators) {
  operators<Unbounded>();
  is_matrix(UnboundedMatrix<double>::Identity(3, 3), 3, 3, [&](int i, int j) { return i == j ? 1.0 : 0.0; }, "identity");
  UnboundedMatrix<Length> const A(2, 3, {1 * Metre, 2 * Metre, 3 * Metre, 4 * Metre, 5 * Metre, 6 * Metre});
  is_matrix(A, 2, 3, [](int i, int j) { return (3 * i + j + 1) * Metre; }, "order of the elements");
  UnboundedMatrix<double> const B({1, 2, 3, 4});
  is_matrix(B, 2, 2, [](int i, int j) { return double(2 * i + j + 1); }, "square matrix");
}

template<typename K>
void triangles() {
  auto const U = fill_upper(K::template upper<Length, 4>(), "U");
  auto const L = fill_lower(K::template lower<Length, 4>(), "L");
  auto const T = fill_upper(K::template supper<Length, 4>(), "T", 10, 1);
  using M = typename K::template M<Length, 4, 4>;
  is_matrix(M(U), 4, 4, [&](int i, int j) { return i <= j ? U(i, j) : Length{}; }, "upper");
  is_matrix(M(L), 4, 4, [&](int i, int j) { return i >= j ? L(i, j) : Length{}; }, "lower");
  is_matrix(M(T), 4, 4, [&](int i, int j) { return i < j ? T(i, j) : Length{}; }, "strictly upper");
  using UT = std::decay_t<decltype(U)>;
  using LT = std::decay_t<decltype(L)>;
  LT const Lu(TransposedView{U});
  UT const Ul(TransposedView{L});
  is_matrix(M(Lu), 4, 4, [&](int i, int j) { return i >= j ? U(j, i) : Length{}; }, "transpose of upper");
  is_matrix(M(Ul), 4, 4, [&](int i, int j) { return i <= j ? L(j, i) : Length{}; }, "transpose of lower");
  auto V = U;
  int const p = vf_choose(4, "p");
  V(p, 3) = L(3, p);
  vf_check((V == U) == (num(L(3, p)) == num(U(p, 3))), "equality");
}
VF_HARNESS(triangular) {
  switch (vf_choose(3, "kind")) {
    case 0: triangles<Fixed<false>>(); break;
    case 1: triangles<Fixed<true>>(); break;
    case 2: triangles<Unbounded>(); break;
  }
  // Row-major order.
  FixedUpperTriangularMatrix<double, 3> const U({1, 2, 3, 4, 5, 6});
  vf_check(U(0, 0) == 1 && U(0, 1) == 2 && U(0, 2) == 3 && U(1, 1) == 4 && U(1, 2) == 5 && U(2, 2) == 6, "order");
  FixedLowerTriangularMatrix<double, 3> const L({1, 2, 3, 4, 5, 6});
  vf_check(L(0, 0) == 1 && L(1, 0) == 2 && L(1, 1) == 3 && L(2, 0) == 4 && L(2, 1) == 5 && L(2, 2) == 6, "order");
  FixedStrictlyLowerTriangularMatrix<double, 4> const T({1, 2, 3, 4, 5, 6});
  vf_check(T(1, 0) == 1 && T(2, 0) == 2 && T(2, 1) == 3 && T(3, 0) == 4 && T(3, 1) == 5 && T(3, 2) == 6, "order");
  FixedStrictlyUpperTriangularMatrix<double, 4> const S({1, 2, 3, 4, 5, 6});
  vf_check(S(0, 1) == 1 && S(0, 2) == 2 && S(0, 3) == 3 && S(1, 2) == 4 && S(1, 3) == 5 && S(2, 3) == 6, "order");
  UnboundedUpperTriangularMatrix<double> const UU({1, 2, 3, 4, 5, 6});
  vf_check(UU(0, 0) == 1 && UU(0, 1) == 2 && UU(0, 2) == 3 && UU(1, 1) == 4 && UU(1, 2) == 5 && UU(2, 2) == 6, "order");
  UnboundedStrictlyUpperTriangularMatrix<double> const SS({1, 2, 3, 4, 5, 6});
  vf_check(SS(0, 1) == 1 && SS(0, 2) == 2 && SS(0, 3) == 3 && SS(1, 2) == 4 && SS(1, 3) == 5 && SS(2, 3) == 6, "order");
}

template<typename K>
void test_views() {
  auto A = fill(K::template mat<Length, 3, 4>(), "A");
  auto const A0 = A;
  using M = std::decay_t<decltype(A)>;
  double const k = vf_real("k", -10, 10);
  int const c = vf_choose(4, "column"), d = vf_choose(4, "other"), f = vf_choose(2, "first"), l = f + 1;
  ColumnView<M> col{.matrix = A, .first_row = f, .last_row = l, .column = c};
  ColumnView<M> col2{.matrix = A, .first_row = f, .last_row = l, .column = d};
  auto inside = [&](int i, int j, int c) { return i >= f && i <= l && j == c; };
  is_vector(col, 2, [&](int i) { return A0(f + i, c); }, "column");
  eq(col.Norm²(), A0(f, c) * A0(f, c) + A0(l, c) * A0(l, c), "norm", 1e-3);
  eq(TransposedView{col} * col2, A0(f, c) * A0(f, d) + A0(l, c) * A0(l, d), "inner product", 1e-3);
  col *= k;
  is_matrix(A, 3, 4, [&](int i, int j) { return inside(i, j, c) ? A0(i, j) * k : A0(i, j); }, "scaling of a column", 1e-3);
  A = A0;
  SwapColumns(col, col2);
  is_matrix(A, 3, 4, [&](int i, int j) { return inside(i, j, c) ? A0(i, d) : inside(i, j, d) ? A0(i, c) : A0(i, j); }, "swap of columns");
  A = A0;
  auto const w = fillv(K::template vec<Length, 2>(), "w");
  col += w;
  is_matrix(A, 3, 4, [&](int i, int j) { return inside(i, j, c) ? A0(i, j) + w[i - f] : A0(i, j); }, "addition to a column");
  A = A0;
  col -= w;
  is_matrix(A, 3, 4, [&](int i, int j) { return inside(i, j, c) ? A0(i, j) - w[i - f] : A0(i, j); }, "subtraction from a column");
  A = A0;
  col = w;
  is_matrix(A, 3, 4, [&](int i, int j) { return inside(i, j, c) ? w[i - f] : A0(i, j); }, "assignment to a column");
  A = A0;
  int const c1 = vf_choose(3, "first_column");
  BlockView<M> block{.matrix = A, .first_row = f, .last_row = l, .first_column = c1, .last_column = c1 + 1};
  auto in = [&](int i, int j) { return i >= f && i <= l && j >= c1 && j <= c1 + 1; };
  is_matrix(block, 2, 2, [&](int i, int j) { return A0(f + i, c1 + j); }, "block");
  auto const B = fill(K::template mat<Length, 2, 2>(), "B");
  block += B;
  is_matrix(A, 3, 4, [&](int i, int j) { return in(i, j) ? A0(i, j) + B(i - f, j - c1) : A0(i, j); }, "addition to a block");
  A = A0;
  block -= B;
  is_matrix(A, 3, 4, [&](int i, int j) { return in(i, j) ? A0(i, j) - B(i - f, j - c1) : A0(i, j); }, "subtraction from a block");
  A = A0;
  block = B;
  is_matrix(A, 3, 4, [&](int i, int j) { return in(i, j) ? B(i - f, j - c1) : A0(i, j); }, "assignment to a block");
  A = A0;
  block *= k;
  is_matrix(A, 3, 4, [&](int i, int j) { return in(i, j) ? k * A0(i, j) : A0(i, j); }, "scaling of a block", 1e-3);
}
VF_HARNESS(views) {
  if (vf_choose(2, "kind")) test_views<Unbounded>();
  else test_views<Fixed<false>>();
}

VF_HARNESS(resizing) {
  auto const v = fillv(UnboundedVector<Length>(3), "v");
  int const n = vf_choose(3, "size");
  auto x = v;
  x.Extend(n);
  is_vector(x, 3 + n, [&](int i) { return i < 3 ? v[i] : Length{}; }, "extended vector");
  x = v;
  x.Extend({1 * Metre, 2 * Metre});
  is_vector(x, 5, [&](int i) { return i < 3 ? v[i] : (i - 2) * Metre; }, "extended vector");
  x.EraseToEnd(n);
  is_vector(x, n, [&](int i) { return v[i]; }, "erased vector");
  auto const L = fill_lower(UnboundedLowerTriangularMatrix<Length>(3), "L");
  auto const U = fill_upper(UnboundedUpperTriangularMatrix<Length>(3), "U");
  auto const T = fill_upper(UnboundedStrictlyUpperTriangularMatrix<Length>(3), "T", 10, 1);
  using M = UnboundedMatrix<Length>;
  auto l = L; auto u = U; auto t = T;
  l.Extend(n); u.Extend(n); t.Extend(n);
  is_matrix(M(l), 3 + n, 3 + n, [&](int i, int j) { return i < 3 && j <= i ? L(i, j) : Length{}; }, "extended lower matrix");
  is_matrix(M(u), 3 + n, 3 + n, [&](int i, int j) { return j < 3 && i <= j ? U(i, j) : Length{}; }, "extended upper matrix");
  is_matrix(M(t), 3 + n, 3 + n, [&](int i, int j) { return j < 3 && i < j ? T(i, j) : Length{}; }, "extended strictly upper matrix");
  l = L; u = U; t = T;
  l.EraseToEnd(n); u.EraseToEnd(n); t.EraseToEnd(n);
  is_matrix(M(l), n, n, [&](int i, int j) { return j <= i ? L(i, j) : Length{}; }, "erased lower matrix");
  is_matrix(M(u), n, n, [&](int i, int j) { return i <= j ? U(i, j) : Length{}; }, "erased upper matrix");
  is_matrix(M(t), n, n, [&](int i, int j) { return i < j ? T(i, j) : Length{}; }, "erased strictly upper matrix");
  l = L; u = U;
  Length const a = q<Length>("a"), b = q<Length>("b"), c = q<Length>("c"), d = q<Length>("d");
  l.Extend({a, b, c, d});
  is_matrix(M(l), 4, 4, [&](int i, int j) { return j > i ? Length{} : i < 3 ? L(i, j) : j == 0 ? a : j == 1 ? b : j == 2 ? c : d; }, "extended lower matrix");
  u.Extend({a, b, c, d});
  is_matrix(M(u), 4, 4, [&](int i, int j) { return j < i ? Length{} : j < 3 ? U(i, j) : i == 0 ? a : i == 1 ? b : i == 2 ? c : d; }, "extended upper matrix");
}

VF_HARNESS(copies) {
  // Copies between the stack and the heap are independent of their originals.
  auto const A = fill(FixedMatrix<Length, 3, 2>(), "A");
  std::array<std::array<Length, 2>, 3> a;
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 2; ++j) a[i][j] = A(i, j);
  Length const x = q<Length>("x"), y = q<Length>("y");
  FixedMatrix<Length, 3, 2, true> H(A);
  H(1, 1) = x;
  FixedMatrix<Length, 3, 2, true> H2(H);
  H2(0, 1) = y;
  FixedMatrix<Length, 3, 2> A2(H2);
  is_matrix(A, 3, 2, [&](int i, int j) { return a[i][j]; }, "original");
  is_matrix(H, 3, 2, [&](int i, int j) { return i == 1 && j == 1 ? x : A(i, j); }, "copy to the heap");
  is_matrix(A2, 3, 2, [&](int i, int j) { return i == 1 && j == 1 ? x : i == 0 && j == 1 ? y : A(i, j); }, "copy of a copy");
  FixedMatrix<Length, 3, 2, true> H3(std::move(H2));
  is_matrix(H3, 3, 2, [&](int i, int j) { return A2(i, j); }, "move");
  H = H3;
  is_matrix(H, 3, 2, [&](int i, int j) { return A2(i, j); }, "assignment");
  FixedMatrix<Length, 2, 3> const T(TransposedView{A});
  is_matrix(T, 2, 3, [&](int i, int j) { return A(j, i); }, "transpose");
  auto const u = fillv(FixedVector<Length, 3>(), "u");
  FixedVector<Length, 3, true> h(u);
  FixedVector<Length, 3, true> h2 = h;
  h2[1] = x;
  is_vector(h, 3, [&](int i) { return u[i]; }, "copy to the heap");
  is_vector(h2, 3, [&](int i) { return i == 1 ? x : u[i]; }, "copy of a copy");
  UnboundedVector<Length> const ub(u);
  is_vector(ub, 3, [&](int i) { return u[i]; }, "unbounded copy");
  auto const UM = fill(UnboundedMatrix<Length>(3, 2), "M");
  UnboundedMatrix<Length> const UT(TransposedView{UM});
  is_matrix(UT, 2, 3, [&](int i, int j) { return UM(j, i); }, "transpose");
}
