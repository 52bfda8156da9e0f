// Exterior algebra.
//@ entry grassmann_wedge mode=real max-seconds=60
//@ entry grassmann_actions mode=real max-seconds=60
//@ entry grassmann_operators mode=real max-seconds=60
//@ entry grassmann_norms mode=real max-seconds=60
//@ entry grassmann_angles mode=real max-seconds=90
//@ src $VERIF/rt/elementary.cc
//@ bound All vectors, bivectors, trivectors and scalars with real coordinates of magnitude at most 10.
//@ assume Real arithmetic instead of rounded floating point; square roots and arc tangents are exact; the portable (SSE-free) accessors observe the coordinates.
#include "geo.h"

using namespace vf;

VF_HARNESS(grassmann_wedge) {
  auto const u = v<Length, W1>("u");
  auto const w = v<Speed, W1>("w");
  auto const b = bv<Force, W1>("b");
  auto const uw = Wedge(u, w);
  auto const& a = u.coordinates();
  auto const& c = w.coordinates();
  eq(uw.coordinates().x, a.y * c.z - a.z * c.y, "wedge x");
  eq(uw.coordinates().y, a.z * c.x - a.x * c.z, "wedge y");
  eq(uw.coordinates().z, a.x * c.y - a.y * c.x, "wedge z");
  eq(Wedge(w, u), -uw, "wedge of vectors is antisymmetric");
  eq(Wedge(u, u), Bivector<Area, W1>{}, "wedge of a vector with itself");
  // u ∧ b for rank 2 is symmetric, and given by the contraction of coordinates.
  eq(Wedge(u, b), Wedge(b, u), "wedge with a bivector is symmetric");
  eq(Wedge(u, b).coordinates(), a.x * b.coordinates().x + a.y * b.coordinates().y + a.z * b.coordinates().z, "wedge with a bivector");
  // Associativity.
  auto const t = v<Length, W1>("t");
  eq(Wedge(Wedge(u, w), t), Wedge(u, Wedge(w, t)), "associative");
  // Cauchy-Binet (Lagrange).
  eq(InnerProduct(uw, uw), InnerProduct(u, u) * InnerProduct(w, w) - InnerProduct(u, w) * InnerProduct(u, w), "Lagrange", 1e-5);
  // Linear in each argument.
  double const k = vf_real("k", -10, 10);
  eq(Wedge(k * u + t, w), k * Wedge(u, w) + Wedge(t, w), "linear");
}

VF_HARNESS(grassmann_actions) {
  auto const u = v<Length, W1>("u");
  auto const w = v<Length, W1>("w");
  auto const a = bv<double, W1>("a");
  auto const b = bv<double, W1>("b");
  auto const c = bv<double, W1>("c");
  auto const t = tv<double, W1>("t");
  // The commutator is a Lie bracket, and the action of bivectors on vectors is
  // a representation of it, by antisymmetric maps.
  eq(Commutator(a, b), -Commutator(b, a), "antisymmetric commutator");
  eq(Commutator(a, Commutator(b, c)) + Commutator(b, Commutator(c, a)) + Commutator(c, Commutator(a, b)), Bivector<double, W1>{}, "Jacobi identity");
  eq(a * (b * u) - b * (a * u), Commutator(a, b) * u, "representation");
  eq(InnerProduct(a * u, w), -InnerProduct(u, a * w), "left action is antisymmetric");
  eq(u * a, -(a * u), "right action");
  auto const& x = a.coordinates();
  auto const& y = u.coordinates();
  eq((a * u).coordinates().x, x.y * y.z - x.z * y.y, "left action");
  eq((a * u).coordinates().y, x.z * y.x - x.x * y.z, "left action");
  eq((a * u).coordinates().z, x.x * y.y - x.y * y.x, "left action");
  // The trivector acts as the Hodge dual.
  eq((a * t).coordinates(), x * t.coordinates(), "trivector on bivector");
  eq((t * a).coordinates(), x * t.coordinates(), "trivector on bivector");
  eq((u * t).coordinates(), y * t.coordinates(), "trivector on vector");
  eq((t * u).coordinates(), y * t.coordinates(), "trivector on vector");
}

VF_HARNESS(grassmann_operators) {
  auto const u = v<Length, W1>("u");
  auto const w = v<Length, W1>("w");
  auto const a = bv<Length, W1>("a");
  auto const b = bv<Length, W1>("b");
  auto const s = tv<Length, W1>("s");
  auto const t = tv<Length, W1>("t");
  double const k = vf_real("k", 0.1, 10);
  Time const q = vf_real("q", 0.1, 10) * Second;
  auto test = [&](auto const& x, auto const& y) {
    using V = std::decay_t<decltype(x)>;
    auto const at = [](auto const& z, int i) {
      if constexpr (requires { z.coordinates().x; }) return num(z.coordinates()[i]);
      else return num(z.coordinates());
    };
    auto l = x;
    auto m = x;
    auto n = x;
    auto o = x;
    l += y; m -= y; n *= k; o /= k;
    for (int i = 0; i < V::dimension; ++i) {
      eq(at(x + y, i), at(x, i) + at(y, i), "+");
      eq(at(l, i), at(x, i) + at(y, i), "+=");
      eq(at(x - y, i), at(x, i) - at(y, i), "-");
      eq(at(m, i), at(x, i) - at(y, i), "-=");
      eq(at(-x, i), -at(x, i), "unary -");
      eq(at(+x, i), at(x, i), "unary +");
      eq(at(n, i), at(x, i) * k, "*=");
      eq(at(o, i) * k, at(x, i), "/=");
      eq(at(x * q, i), at(x, i) * num(q), "*");
      eq(at(q * x, i), at(x, i) * num(q), "*");
      eq(at(x / q, i) * num(q), at(x, i), "/");
    }
    vf_check((x == y) == !(x != y), "equality");
  };
  switch (vf_choose(3, "rank")) {
    case 0: test(u, w); break;
    case 1: test(a, b); break;
    case 2: test(s, t); break;
  }
}

VF_HARNESS(grassmann_norms) {
  auto const u = v<Length, W1>("u");
  auto const w = v<Speed, W1>("w");
  auto const a = bv<Length, W1>("a");
  auto const b = bv<Speed, W1>("b");
  auto const t = tv<Length, W1>("t");
  auto const& x = u.coordinates();
  auto const& y = w.coordinates();
  eq(InnerProduct(u, w), x.x * y.x + x.y * y.y + x.z * y.z, "inner product");
  eq(InnerProduct(a, b), Dot(a.coordinates(), b.coordinates()), "inner product of bivectors");
  eq(InnerProduct(t, t), t.coordinates() * t.coordinates(), "inner product of trivectors");
  eq(u.Norm²(), InnerProduct(u, u), "squared norm");
  eq(a.Norm²(), InnerProduct(a, a), "squared norm");
  eq(t.Norm²(), InnerProduct(t, t), "squared norm");
  vf_check(u.Norm() >= 0 * Metre && a.Norm() >= 0 * Metre && t.Norm() >= 0 * Metre, "nonnegative norm");
  eq(u.Norm() * u.Norm(), u.Norm²(), "norm");
  eq(a.Norm() * a.Norm(), a.Norm²(), "norm");
  eq(t.Norm() * t.Norm(), t.Norm²(), "norm");
  if (u.Norm²() > 1e-2 * Metre * Metre) {
    auto const n = Normalize(u);
    eq(n * u.Norm(), u, "normalized");
    eq(NormalizeOrZero(u), n, "normalized or zero");
    // Gram-Schmidt.
    auto const o = w.OrthogonalizationAgainst(u);
    eq(num(InnerProduct(o, u)), 0, "orthogonal", 1e-4);
    eq(Wedge(o, u), Wedge(w, u), "moved along the vector", 1e-4);
  }
  eq(NormalizeOrZero(Vector<Length, W1>{}), Vector<double, W1>{}, "normalization of zero");
  eq(NormalizeOrZero(Bivector<Length, W1>{}), Bivector<double, W1>{}, "normalization of zero");
  if (a.Norm²() > 1e-2 * Metre * Metre) {
    eq(Normalize(a) * a.Norm(), a, "normalized");
    auto const o = b.OrthogonalizationAgainst(a);
    eq(num(InnerProduct(o, a)), 0, "orthogonal", 1e-4);
    eq(Commutator(o, a), Commutator(b, a), "moved along the bivector", 1e-4);
  }
}

VF_HARNESS(grassmann_angles) {
  // Vectors in an arbitrary plane, at arbitrary angles.
  Angle const α = vf_angle("α") * Radian;
  int const axis = vf_choose(3, "axis");
  Length const l = vf_real("l", 0.1, 10) * Metre;
  Speed const s = vf_real("s", 0.1, 10) * Metre / Second;
  auto const at = [axis](double a, double b) {
    R3Element<double> r;
    r[axis] = 0;
    r[(axis + 1) % 3] = a;
    r[(axis + 2) % 3] = b;
    return r;
  };
  R3Element<double> p(axis == 0, axis == 1, axis == 2);
  double const c = principia::numerics::_elementary_functions::Cos(α), d = principia::numerics::_elementary_functions::Sin(α);
  Vector<Length, W1> const u(at(1, 0) * l);
  Vector<Speed, W1> const w(at(c, d) * s);
  Bivector<double, W1> const positive(p);
  auto const β = OrientedAngleBetween(u, w, positive);
  auto const γ = AngleBetween(u, w);
  using namespace principia::numerics::_elementary_functions;
  eq(Cos(β), c, "oriented angle");
  eq(Sin(β), d, "oriented angle");
  eq(Cos(γ), c, "angle");
  vf_check(Sin(γ) >= -1e-9, "the angle is in [0, π]");
  Bivector<Length, W1> const bu(at(1, 0) * l);
  Bivector<Speed, W1> const bw(at(c, d) * s);
  auto const δ = OrientedAngleBetween(bu, bw, positive);
  eq(Cos(δ), c, "oriented angle of bivectors");
  eq(Sin(δ), d, "oriented angle of bivectors");
  eq(Cos(AngleBetween(bu, bw)), c, "angle of bivectors");
}
