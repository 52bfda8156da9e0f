// Makers of fixed and unbounded arrays with symbolic elements.
#pragma once
#include "geo.h"
#include "numerics/fixed_arrays.hpp"
#include "numerics/matrix_computations.hpp"
#include "numerics/matrix_views.hpp"
#include "numerics/transposed_view.hpp"
#include "numerics/unbounded_arrays.hpp"

using namespace principia::numerics::_fixed_arrays;
using namespace principia::numerics::_matrix_computations;
using namespace principia::numerics::_matrix_views;
using namespace principia::numerics::_transposed_view;
using namespace principia::numerics::_unbounded_arrays;
using idx = std::int64_t;

template<bool heap>
struct Fixed {
  template<typename S, int n> static FixedVector<S, n, heap> vec() { return FixedVector<S, n, heap>(); }
  template<typename S, int r, int c> static FixedMatrix<S, r, c, heap> mat() { return FixedMatrix<S, r, c, heap>(); }
  template<typename S, int n> static FixedUpperTriangularMatrix<S, n, heap> upper() { return FixedUpperTriangularMatrix<S, n, heap>(); }
  template<typename S, int n> static FixedLowerTriangularMatrix<S, n, heap> lower() { return FixedLowerTriangularMatrix<S, n, heap>(); }
  template<typename S, int n> static FixedStrictlyUpperTriangularMatrix<S, n, heap> supper() { return FixedStrictlyUpperTriangularMatrix<S, n, heap>(); }
  template<typename S, int r, int c> using M = FixedMatrix<S, r, c, heap>;
};
struct Unbounded {
  template<typename S, int n> static UnboundedVector<S> vec() { return UnboundedVector<S>(n); }
  template<typename S, int r, int c> static UnboundedMatrix<S> mat() { return UnboundedMatrix<S>(r, c); }
  template<typename S, int n> static UnboundedUpperTriangularMatrix<S> upper() { return UnboundedUpperTriangularMatrix<S>(n); }
  template<typename S, int n> static UnboundedLowerTriangularMatrix<S> lower() { return UnboundedLowerTriangularMatrix<S>(n); }
  template<typename S, int n> static UnboundedStrictlyUpperTriangularMatrix<S> supper() { return UnboundedStrictlyUpperTriangularMatrix<S>(n); }
  template<typename S, int r, int c> using M = UnboundedMatrix<S>;
};

namespace vf {
inline std::string name(char const* n, int i, int j = -1) {
  return j < 0 ? std::string(n) + std::to_string(i) : std::string(n) + std::to_string(i) + std::to_string(j);
}
template<typename V>
V fillv(V v, char const* n, double m = M) {
  for (idx i = 0; i < v.size(); ++i) v[i] = q<typename V::Scalar>(name(n, i).c_str(), m);
  return v;
}
template<typename A>
A fill(A a, char const* n, double m = M) {
  for (idx i = 0; i < a.rows(); ++i)
    for (idx j = 0; j < a.columns(); ++j) a(i, j) = q<typename A::Scalar>(name(n, i, j).c_str(), m);
  return a;
}
template<typename A>
A fill_upper(A a, char const* n, double m = M, int strict = 0) {
  for (idx i = 0; i < a.rows(); ++i)
    for (idx j = i + strict; j < a.columns(); ++j) a(i, j) = q<typename A::Scalar>(name(n, i, j).c_str(), m);
  return a;
}
template<typename A>
A fill_lower(A a, char const* n, double m = M) {
  for (idx i = 0; i < a.rows(); ++i)
    for (idx j = 0; j <= i; ++j) a(i, j) = q<typename A::Scalar>(name(n, i, j).c_str(), m);
  return a;
}
template<typename A, typename F>
void is_matrix(A const& a, idx rows, idx columns, F f, char const* id, double t = 1e-4) {
  vf_check(a.rows() == rows && a.columns() == columns, id);
  for (idx i = 0; i < rows; ++i)
    for (idx j = 0; j < columns; ++j) eq(a(i, j), f(i, j), id, t);
}
template<typename V, typename F>
void is_vector(V const& v, idx size, F f, char const* id, double t = 1e-4) {
  vf_check(v.size() == size, id);
  for (idx i = 0; i < size; ++i) eq(v[i], f(i), id, t);
}
}  // namespace vf
