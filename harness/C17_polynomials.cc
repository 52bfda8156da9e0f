// Polynomials in the monomial basis.
//@ entry poly_evaluate mode=real max-seconds=100
//@ entry poly_affine mode=real max-seconds=60
//@ entry poly_algebra mode=real max-seconds=60
//@ entry poly_vector mode=real max-seconds=60
//@ entry poly_at_origin mode=real max-seconds=60
//@ entry poly_calculus mode=real max-seconds=60
//@ entry poly_compose mode=real max-seconds=60
//@ src $VERIF/rt/elementary.cc
//@ bound Evaluation of the polynomials of degrees 0 to 17 and 24 by each evaluator; operators on degrees up to 4; composition up to degrees 3 and 2; real, vector and affine values; scalar arguments and instants with any origin; coefficients and arguments of magnitude at most 10.
//@ assume Real arithmetic instead of rounded floating point; the processor has no fused multiply-add.
#include "poly.h"

namespace {
// The value and derivative of a polynomial at a distance t from its origin.
template<int d, typename C>
auto value(C const& c, Time const& t) {
  auto v = get<0>(c);
  Time p = t;
  double f = num(t), power = 1;
  [&]<int... i>(std::integer_sequence<int, i...>) {
    (([&] { power *= f; v += (power * Pow<i + 1>(si::Unit<Time>)) * get<i + 1>(c); }()), ...);
  }(std::make_integer_sequence<int, d>{});
  return v;
}
template<int d, typename C>
auto derivative(C const& c, Time const& t) {
  double f = num(t), power = 1;
  decltype((get<0>(c) - get<0>(c)) / t) v{};
  [&]<int... i>(std::integer_sequence<int, i...>) {
    (([&] { v += ((i + 1) * power * Pow<i>(si::Unit<Time>)) * get<i + 1>(c); power *= f; }()), ...);
  }(std::make_integer_sequence<int, d>{});
  return v;
}

template<int d, template<typename, typename, int> typename E>
void evaluate() {
  auto const c = coefficients<P<d, E>, d>("c");
  P<d, E> const p(c);
  Time const t = q<Time>("t");
  eq(p(t), value<d>(c, t), "value", 1e-3);
  eq(p.EvaluateDerivative(t), derivative<d>(c, t), "derivative", 1e-3);
  Length l;
  Speed s;
  p.EvaluateWithDerivative(t, l, s);
  eq(l, value<d>(c, t), "value with derivative", 1e-3);
  eq(s, derivative<d>(c, t), "derivative with value", 1e-3);
  Polynomial<Length, Time> const& v = p;
  eq(v(t), value<d>(c, t), "virtual value", 1e-3);
  eq(v.EvaluateDerivative(t), derivative<d>(c, t), "virtual derivative", 1e-3);
  v.EvaluateWithDerivative(t, l, s);
  eq(l, value<d>(c, t), "virtual value with derivative", 1e-3);
  eq(s, derivative<d>(c, t), "virtual derivative with value", 1e-3);
  vf_check(v.degree() == d, "degree");
}
template<int d>
void evaluate_all() {
  switch (vf_choose(4, "evaluator")) {
    case 0: evaluate<d, Horner>(); break;
    case 1: evaluate<d, Estrin>(); break;
    case 2: evaluate<d, HornerWithoutFMA>(); break;
    case 3: evaluate<d, EstrinWithoutFMA>(); break;
  }
}
}  // namespace

VF_HARNESS(poly_evaluate) {
  int const d = vf_choose(19, "degree");
  [&]<int... i>(std::integer_sequence<int, i...>) {
    ((d == i ? evaluate_all<i == 18 ? 24 : i>() : void()), ...);
  }(std::make_integer_sequence<int, 19>{});
}

VF_HARNESS(poly_affine) {
  // Positions, as polynomials in an instant.
  auto const c = coefficients<PP<3>, 3>("c");
  Instant const origin = instant("origin");
  PP<3> const p(c, origin);
  Instant const t = instant("t");
  eq(p(t), value<3>(c, t - origin), "value", 1e-3);
  eq(p.EvaluateDerivative(t), derivative<3>(c, t - origin), "derivative", 1e-3);
  vf_check(p.origin() == origin, "origin");
  Instant const o2 = instant("o2");
  auto const p5 = PP<5>(p);
  eq(p5(t), p(t), "higher degree", 1e-3);
  eq(p5.EvaluateDerivative(t), p.EvaluateDerivative(t), "derivative of higher degree", 1e-3);
  eq(p.Derivative()(t), derivative<3>(c, t - origin), "derivative polynomial", 1e-3);
  eq(p.Derivative<2>()(t), p.Derivative().Derivative()(t), "second derivative", 1e-3);

  // Affine operators.
  auto const cv = coefficients<PV<2>, 2>("d");
  PV<2> const v(cv, origin);
  auto const cp = coefficients<PP<2>, 2>("e");
  PP<2> const pp(cp, origin);
  eq((p + v)(t), p(t) + v(t), "point plus vector", 1e-3);
  eq((v + p)(t), p(t) + v(t), "vector plus point", 1e-3);
  eq((p - pp)(t), p(t) - pp(t), "point minus point", 1e-3);
  eq((pp - p)(t), pp(t) - p(t), "point minus point", 1e-3);
  eq((v + p(o2))(t), v(t) + p(o2), "vector plus constant", 1e-3);
  eq((p(o2) + v)(t), v(t) + p(o2), "constant plus vector", 1e-3);
  eq((p - pp(o2))(t), p(t) - pp(o2), "minus constant", 1e-3);
  eq((pp(o2) - p)(t), pp(o2) - p(t), "constant minus", 1e-3);
}

VF_HARNESS(poly_algebra) {
  auto const c = coefficients<PI<2>, 2>("c");
  auto const d = coefficients<PI<4>, 4>("d");
  Instant const origin = instant("origin");
  PI<2> const p(c, origin);
  PI<4> const r(d, origin);
  Instant const t = instant("t");
  eq((+p)(t), p(t), "plus", 1e-3);
  eq((-r)(t), -r(t), "opposite", 1e-3);
  eq((p + r)(t), p(t) + r(t), "sum", 1e-3);
  eq((r + p)(t), p(t) + r(t), "sum", 1e-3);
  eq((p - r)(t), p(t) - r(t), "difference", 1e-3);
  eq((r - p)(t), r(t) - p(t), "difference", 1e-3);
  eq((p * r)(t), p(t) * r(t), "product", 1e-3);
  eq((r * p)(t), p(t) * r(t), "product", 1e-3);
  Mass const m = q<Mass>("m");
  eq((m * r)(t), m * r(t), "left multiplication", 1e-3);
  eq((r * m)(t), r(t) * m, "right multiplication", 1e-3);
  vf_assume(num(m) >= 0.01 || num(m) <= -0.01);
  eq((r / m)(t) * m, r(t), "division", 1e-3);
  Length const l = q<Length>("l");
  eq((r + l)(t), r(t) + l, "plus constant", 1e-3);
  eq((l + r)(t), r(t) + l, "constant plus", 1e-3);
  eq((r - l)(t), r(t) - l, "minus constant", 1e-3);
  eq((l - r)(t), l - r(t), "constant minus", 1e-3);
  auto a = r;
  PI<4> const b(coefficients<PI<4>, 4>("e"), origin);
  a += b;
  eq(a(t), r(t) + b(t), "+=", 1e-3);
  a -= r;
  eq(a(t), b(t), "-=", 1e-3);
  a *= num(m);
  eq(a(t), b(t) * num(m), "*=", 1e-3);
  a /= num(m);
  eq(a(t), b(t), "/=", 1e-3);
  vf_check(PI<2>({Length(), Speed(), Acceleration()}, origin).is_zero(), "zero");
  if (p.is_zero()) eq(p(t), Length(), "zero is zero");
  bool const same = get<0>(c) == get<0>(d) && get<1>(c) == get<1>(d) && get<2>(c) == get<2>(d);
  PI<2> const s({get<0>(d), get<1>(d), get<2>(d)}, origin);
  vf_check((p == s) == same, "equality");
  vf_check((p != s) == !same, "inequality");
}

VF_HARNESS(poly_vector) {
  PV<2> const p(coefficients<PV<2>, 2>("c"), instant("origin"));
  PV<1> const r(coefficients<PV<1>, 1>("d"), p.origin());
  PI<2> const s(coefficients<PI<2>, 2>("s"), p.origin());
  Instant const t = instant("t");
  eq(PointwiseInnerProduct(p, r)(t), InnerProduct(p(t), r(t)), "inner product", 1e-3);
  eq(PointwiseInnerProduct(r, p)(t), InnerProduct(p(t), r(t)), "inner product", 1e-3);
  eq((s * p)(t), s(t) * p(t), "scalar times vector", 1e-3);
  eq((p * s)(t), p(t) * s(t), "vector times scalar", 1e-3);
  eq((p + r)(t), p(t) + r(t), "sum", 1e-3);
  eq((r - p)(t), r(t) - p(t), "difference", 1e-3);
}

VF_HARNESS(poly_at_origin) {
  auto const c = coefficients<PV<4>, 4>("c");
  PV<4> const p(c, instant("origin"));
  Instant const t = instant("t"), o2 = instant("o2");
  auto const p2 = p.AtOrigin(o2);
  eq(p2.origin() - Instant(), o2 - Instant(), "new origin");
  eq(p2(t), p(t), "at origin", 1e-3);
  eq(p2.EvaluateDerivative(t), p.EvaluateDerivative(t), "derivative at origin", 1e-3);
}

VF_HARNESS(poly_calculus) {
  auto const c = coefficients<PI<4>, 4>("c");
  Instant const origin = instant("origin");
  PI<4> const p(c, origin);
  Instant const t = instant("t"), u = instant("u");
  auto const primitive = p.Primitive();
  eq(primitive(origin), Length() * si::Unit<Time>, "primitive at origin");
  eq(primitive.Derivative()(t), p(t), "derivative of primitive", 1e-3);
  eq(p.Integrate(t, u), primitive(u) - primitive(t), "integral", 1e-3);
  eq(primitive.EvaluateDerivative(u), p(u), "derivative of primitive", 1e-3);
  // The second and third derivatives.
  Time const x = t - origin;
  eq(p.Derivative<2>()(t), 2 * get<2>(c) + 6 * get<3>(c) * x + 12 * get<4>(c) * x * x, "second derivative", 1e-3);
  eq(p.Derivative<3>()(t), 6 * get<3>(c) + 24 * get<4>(c) * x, "third derivative", 1e-3);
  eq(p.Derivative<4>()(t), 24 * get<4>(c), "fourth derivative", 1e-3);
}

VF_HARNESS(poly_compose) {
  PolynomialInMonomialBasis<Mass, Length, 3> const p(
      coefficients<PolynomialInMonomialBasis<Mass, Length, 3>, 3>("c"), q<Length>("o1", 3));
  PI<2> const r(coefficients<PI<2>, 2>("d"), instant("origin"));
  Instant const t = instant("t");
  auto const f = Compose(p, r);
  eq(f(t), p(r(t)), "composition", 1e-3);
  vf_check(f.degree() == 6, "degree");
  PolynomialInMonomialBasis<Mass, Length, 0> const p0({q<Mass>("e")}, q<Length>("o2"));
  eq(Compose(p0, r)(t), p0(r(t)), "composition with a constant", 1e-3);
  PolynomialInMonomialBasis<Mass, Length, 1> const p1({q<Mass>("e0"), any<decltype(Mass() / Length())>("e1")}, q<Length>("o3"));
  eq(Compose(p1, r)(t), p1(r(t)), "composition with a binomial", 1e-3);
}

