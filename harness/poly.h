// Makers of polynomials with symbolic coefficients.
#pragma once
#include "geo.h"
#include "numerics/elementary_functions.hpp"
#include "numerics/polynomial.hpp"
#include "numerics/polynomial_evaluators.hpp"
#include "numerics/polynomial_in_monomial_basis.hpp"
#include "quantities/tuples.hpp"

using namespace vf;
using namespace principia::numerics::_polynomial;
using namespace principia::numerics::_polynomial_evaluators;
using namespace principia::numerics::_polynomial_in_monomial_basis;
using namespace principia::quantities::_tuples;
using namespace principia::numerics::_elementary_functions;
using principia::base::_algebra::Derivative;

template<int d, template<typename, typename, int> typename E = DefaultEvaluator>
using P = PolynomialInMonomialBasis<Length, Time, d, E>;
template<int d>
using PI = PolynomialInMonomialBasis<Length, Instant, d>;
template<int d>
using PV = PolynomialInMonomialBasis<Displacement<W1>, Instant, d>;
template<int d>
using PP = PolynomialInMonomialBasis<Position<W1>, Instant, d>;

namespace {
template<typename Q>
Q any(std::string const& n) {
  if constexpr (scalar<Q>) return q<Q>(n.c_str());
  else if constexpr (requires(Q x) { x.coordinates(); }) return Q(r3<std::remove_cvref_t<decltype(Q{}.coordinates().x)>>(n.c_str()));
  else return Q{} + any<decltype(Q{} - Q{})>(n);
}
template<typename Poly, int d>
auto coefficients(std::string const& n) {
  typename Poly::Coefficients c;
  [&]<int... i>(std::integer_sequence<int, i...>) {
    ((get<i>(c) = any<std::remove_cvref_t<decltype(get<i>(c))>>(n + std::to_string(i))), ...);
  }(std::make_integer_sequence<int, d + 1>{});
  return c;
}
Instant instant(char const* n) { return Instant() + q<Time>(n); }

}  // namespace
