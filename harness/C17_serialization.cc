// Serialization of polynomials.
//@ entry poly_serialization mode=real max-seconds=60
//@ entry poly_virtual_serialization mode=real max-seconds=60
//@ src $VERIF/rt/elementary.cc
//@ bound Serialization of vector-valued and point-valued polynomials of degrees 2 and 3 with any coefficients and origin; dispatch to degrees 1, 4, 5, 17 and 24 and to every evaluator.
#include "poly.h"

using S1 = Frame<principia::serialization::Frame::TestTag, NonRotating, Handedness::Right, principia::serialization::Frame::TEST>;
template<int d>
using SV = PolynomialInMonomialBasis<Displacement<S1>, Instant, d>;
template<int d>
using SP = PolynomialInMonomialBasis<Position<S1>, Instant, d>;

VF_HARNESS(poly_serialization) {
  SV<3> const p(coefficients<SV<3>, 3>("c"), instant("origin"));
  principia::serialization::Polynomial m;
  p.WriteToMessage(&m);
  auto const p2 = SV<3>::ReadFromMessage(m);
  vf_check(p2 == p, "round trip");

  SP<2> const pp(coefficients<SP<2>, 2>("d"), instant("origin2"));
  principia::serialization::Polynomial m2;
  pp.WriteToMessage(&m2);
  vf_check(SP<2>::ReadFromMessage(m2) == pp, "affine round trip");
}

namespace {
template<int d, template<typename, typename, int> typename E>
void dispatch() {
  using Poly = PolynomialInMonomialBasis<Length, Instant, d, E>;
  Poly const p(coefficients<Poly, d>("c"), instant("origin"));
  principia::serialization::Polynomial m;
  p.WriteToMessage(&m);
  auto const p2 = Polynomial<Length, Instant>::ReadFromMessage(m);
  vf_check(p2->degree() == d, "degree");
  auto const* const p3 = dynamic_cast<Poly const*>(&*p2);
  vf_check(p3 != nullptr, "evaluator");
  vf_check(*p3 == p, "virtual round trip");
  Instant const t = instant("t");
  eq((*p2)(t), p(t), "value", 1e-3);
}
template<int d>
void policy() {
  using Poly = PI<d>;
  Poly const p(coefficients<Poly, d>("c"), instant("origin"));
  Policy policy = Policy::AlwaysEstrin();
  int const n = vf_choose(2, "policy");
  if (n == 1) policy = Policy::AlwaysEstrinWithoutFMA();
  principia::serialization::PolynomialInMonomialBasis::Policy m;
  policy.WriteToMessage(&m);
  auto const p2 = Policy::ReadFromMessage(m).WithEvaluator(Poly(p));
  vf_check((dynamic_cast<PolynomialInMonomialBasis<Length, Instant, d, Estrin> const*>(&*p2) != nullptr) == (n == 0), "policy");
  vf_check((dynamic_cast<PolynomialInMonomialBasis<Length, Instant, d, EstrinWithoutFMA> const*>(&*p2) != nullptr) == (n == 1), "policy");
  Instant const t = instant("t");
  eq((*p2)(t), p(t), "value with policy", 1e-3);
}
}  // namespace

VF_HARNESS(poly_virtual_serialization) {
  switch (vf_choose(10, "case")) {
    case 0: dispatch<1, Horner>(); break;
    case 1: dispatch<1, HornerWithoutFMA>(); break;
    case 2: dispatch<3, Estrin>(); break;
    case 3: dispatch<3, EstrinWithoutFMA>(); break;
    case 4: dispatch<5, Estrin>(); break;
    case 5: dispatch<4, Horner>(); break;
    case 6: dispatch<17, EstrinWithoutFMA>(); break;
    case 7: dispatch<24, HornerWithoutFMA>(); break;
    case 8: policy<3>(); break;
    case 9: policy<6>(); break;
  }
}
