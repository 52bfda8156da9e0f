// Quaternions and rotations.
//@ entry quaternion_algebra mode=real max-seconds=60
//@ entry rotation_action mode=real max-seconds=60
//@ entry rotation_composition mode=real max-seconds=60
//@ entry rotation_axis_angle mode=real max-seconds=100
//@ entry rotation_euler mode=real max-seconds=100
//@ entry rotation_basis mode=real max-seconds=100
//@ entry rotation_exp mode=real max-seconds=60
//@ src $VERIF/rt/elementary.cc
//@ bound All quaternions with components of magnitude at most 10, all unit quaternions, all angles, all axes (unit vectors), all vectors with coordinates of magnitude at most 10.
//@ assume Real arithmetic instead of rounded floating point; square roots, sines and cosines are exact.
#include "geo.h"
#include "geometry/rotation.hpp"
#include "numerics/elementary_functions.hpp"

using namespace vf;
using namespace principia::geometry::_rotation;
using namespace principia::numerics::_elementary_functions;

static Quaternion any_quaternion(char const* n) {
  std::string const s = n;
  return Quaternion(vf_real((s + ".w").c_str(), -10, 10), r3<double>(n));
}
static void eq(Quaternion const& a, Quaternion const& b, char const* id) {
  vf::eq(a.real_part(), b.real_part(), id, 1e-6);
  vf::eq(a.imaginary_part(), b.imaginary_part(), id, 1e-6);
}
static double det(R3Element<double> const& a, R3Element<double> const& b, R3Element<double> const& c) {
  return a.x * (b.y * c.z - b.z * c.y) - a.y * (b.x * c.z - b.z * c.x) + a.z * (b.x * c.y - b.y * c.x);
}

VF_HARNESS(quaternion_algebra) {
  auto const a = any_quaternion("a"), b = any_quaternion("b"), c = any_quaternion("c");
  double const k = vf_real("k", 0.1, 10);
  Quaternion const i(0, {1, 0, 0}), j(0, {0, 1, 0}), l(0, {0, 0, 1}), one(1);
  eq(i * j, l, "ij = k");
  eq(j * l, i, "jk = i");
  eq(l * i, j, "ki = j");
  eq(j * i, -l, "ji = -k");
  eq(i * i, -one, "i² = -1");
  eq(j * j, -one, "j² = -1");
  eq(l * l, -one, "k² = -1");
  eq((a * b) * c, a * (b * c), "associative");
  eq(a * (b + c), a * b + a * c, "distributive");
  eq((a - b) * c, a * c - b * c, "distributive");
  eq(one * a, a, "unit");
  eq(a * k, k * a, "scalar");
  eq(k * a, Quaternion(k) * a, "scalar");
  eq((a / k) * k, a, "division by a scalar");
  eq((a * b).Conjugate(), b.Conjugate() * a.Conjugate(), "conjugate of a product");
  vf::eq((a * b).Norm²(), a.Norm²() * b.Norm²(), "multiplicative norm", 1e-4);
  eq(a * a.Conjugate(), Quaternion(a.Norm²()), "norm from the conjugate");
  vf::eq(a.Norm() * a.Norm(), a.Norm²(), "norm");
  auto d = a; d += b; eq(d, a + b, "+=");
  d = a; d -= b; eq(d, a - b, "-=");
  d = a; d *= b; eq(d, a * b, "*=");
  d = a; d *= k; eq(d, a * k, "*= scalar");
  d = a; d /= k; eq(d, a / k, "/= scalar");
  vf_assume(b.Norm²() > 0.01);
  eq(b * b.Inverse(), one, "inverse");
  eq((a / b) * b, a, "quotient");
  d = a; d /= b; eq(d, a / b, "/=");
  eq(Normalize(b) * b.Norm(), b, "normalized");
}

VF_HARNESS(rotation_action) {
  Rotation<W1, W2> const R(unit_quaternion("q"));
  auto const u = v<Length, W1>("u");
  auto const w = v<Speed, W1>("w");
  auto const b = bv<Force, W1>("b");
  auto const t = tv<Energy, W1>("t");
  double const k = vf_real("k", -10, 10);
  vf_check(R.Determinant().is_positive(), "determinant");
  eq(InnerProduct(R(u), R(w)), InnerProduct(u, w), "isometry", 1e-5);
  eq(R(Wedge(u, w)), Wedge(R(u), R(w)), "exterior product", 1e-5);
  eq(R(Wedge(u, b)), Wedge(R(u), R(b)), "exterior product", 1e-5);
  eq(R(t).coordinates(), t.coordinates(), "trivector");
  auto const u2 = v<Length, W1>("u2");
  eq(R(k * u + u2), k * R(u) + R(u2), "linear", 1e-5);
  eq(R(b * u), R(b) * R(u), "action of bivectors", 1e-5);
  // The columns form a direct orthonormal basis.
  R3Element<double> c[3];
  for (int i = 0; i < 3; ++i) {
    R3Element<double> e(i == 0, i == 1, i == 2);
    c[i] = R(Vector<double, W1>(e)).coordinates();
  }
  eq(det(c[0], c[1], c[2]), 1, "direct");
  // The usual matrix of a unit quaternion.
  auto const& p = R.quaternion();
  double const s = p.real_part(), x = p.imaginary_part().x, y = p.imaginary_part().y, z = p.imaginary_part().z;
  eq(c[0], R3Element<double>(1 - 2 * (y * y + z * z), 2 * (x * y + s * z), 2 * (x * z - s * y)), "first column");
  eq(c[1], R3Element<double>(2 * (x * y - s * z), 1 - 2 * (x * x + z * z), 2 * (y * z + s * x)), "second column");
  eq(c[2], R3Element<double>(2 * (x * z + s * y), 2 * (y * z - s * x), 1 - 2 * (x * x + y * y)), "third column");
}

VF_HARNESS(rotation_composition) {
  Rotation<W1, W2> const R(unit_quaternion("q"));
  Rotation<W2, W3> const S(unit_quaternion("r"));
  auto const u = v<Length, W1>("u");
  auto const b = bv<Length, W1>("b");
  eq((S * R)(u), S(R(u)), "composition", 1e-5);
  eq((S * R)(b), S(R(b)), "composition", 1e-5);
  eq(R.Inverse()(R(u)), u, "inverse", 1e-5);
  auto const y = v<Length, W2>("y");
  eq(R(R.Inverse()(y)), y, "inverse", 1e-5);
  eq(InnerProduct(R.Inverse()(y), u), InnerProduct(y, R(u)), "the inverse is the transpose", 1e-5);
  eq((Rotation<W1, W1>::Identity())(u), u, "identity");
}

VF_HARNESS(rotation_axis_angle) {
  Angle const α = vf_angle("α") * Radian;
  // An arbitrary unit axis.
  double const x = vf_real("x", -1, 1), y = vf_real("y", -1, 1), z = vf_real("z", -1, 1);
  vf_assume_eq(x * x, 1 - y * y - z * z);
  R3Element<double> const n(x, y, z);
  double const c = Cos(α), s = Sin(α);
  auto const u = v<Length, W1>("u");
  auto const& r = u.coordinates();
  // Rodrigues.
  R3Element<Length> const active = c * r + s * Cross(n, r) + (1 - c) * Dot(n, r) * n;
  R3Element<Length> const passive = c * r - s * Cross(n, r) + (1 - c) * Dot(n, r) * n;
  Rotation<W1, W1> const A(α, Bivector<double, W1>(n));
  eq(A(u).coordinates(), active, "active rotation", 1e-5);
  Rotation<W1, W2> const P(α, Bivector<double, W1>(n), DefinesFrame<W2>{});
  eq(P(u).coordinates(), passive, "rotation which defines the destination frame", 1e-5);
  Rotation<W1, W2> const Q(α, Bivector<double, W2>(n), DefinesFrame<W1>{});
  eq(Q(u).coordinates(), active, "rotation which defines the source frame", 1e-5);
  // The angle is recovered modulo 2π, up to the sign of the axis.
  auto const p = A.quaternion();
  if (p.real_part() > 0.01 || p.real_part() < -0.01) {
    Angle const β = A.RotationAngle();
    eq(Cos(β), c, "rotation angle");
  }
}

// Column of an elementary rotation.
static R3Element<double> turn(int axis, double c, double s, R3Element<double> const& v) {
  R3Element<double> r;
  int const i = axis, j = (axis + 1) % 3, k = (axis + 2) % 3;
  r[i] = v[i];
  r[j] = c * v[j] - s * v[k];
  r[k] = s * v[j] + c * v[k];
  return r;
}

VF_HARNESS(rotation_euler) {
  Angle const α = vf_angle("α") * Radian;
  Angle const β = vf_angle("β") * Radian;
  Angle const γ = vf_angle("γ") * Radian;
  static constexpr EulerAngles euler[] = {EulerAngles::ZXZ, EulerAngles::XYX, EulerAngles::YZY, EulerAngles::ZYZ, EulerAngles::XZX, EulerAngles::YXY};
  static constexpr int e[6][3] = {{2, 0, 2}, {0, 1, 0}, {1, 2, 1}, {2, 1, 2}, {0, 2, 0}, {1, 0, 1}};
  static constexpr CardanoAngles cardano[] = {CardanoAngles::XYZ, CardanoAngles::YZX, CardanoAngles::ZXY, CardanoAngles::XZY, CardanoAngles::ZYX, CardanoAngles::YXZ};
  static constexpr int d[6][3] = {{0, 1, 2}, {1, 2, 0}, {2, 0, 1}, {0, 2, 1}, {2, 1, 0}, {1, 0, 2}};
  int const k = vf_choose(6, "convention");
  bool const is_euler = vf_choose(2, "euler");
  bool const from = vf_choose(2, "from");
  auto const& axes = is_euler ? e[k] : d[k];
  // The frame being defined is obtained by rotating successively about the
  // current axes; so the coordinates of its vectors in the other frame are
  // obtained by the rotations in the opposite order.
  auto const to_parent = [&](R3Element<double> const& v) {
    return turn(axes[0], Cos(α), Sin(α), turn(axes[1], Cos(β), Sin(β), turn(axes[2], Cos(γ), Sin(γ), v)));
  };
  int const i = vf_choose(3, "basis");
  R3Element<double> const b(i == 0, i == 1, i == 2);
  if (from) {
    Rotation<W1, W2> const R = is_euler ? Rotation<W1, W2>(α, β, γ, euler[k], DefinesFrame<W1>{}) : Rotation<W1, W2>(α, β, γ, cardano[k], DefinesFrame<W1>{});
    eq(R(Vector<double, W1>(b)).coordinates(), to_parent(b), "defines the source frame");
  } else {
    Rotation<W1, W2> const R = is_euler ? Rotation<W1, W2>(α, β, γ, euler[k], DefinesFrame<W2>{}) : Rotation<W1, W2>(α, β, γ, cardano[k], DefinesFrame<W2>{});
    eq(R.Inverse()(Vector<double, W2>(b)).coordinates(), to_parent(b), "defines the destination frame");
  }
}

VF_HARNESS(rotation_basis) {
  // Any direct orthonormal basis is the image of the canonical one.
  Quaternion const q = unit_quaternion("q");
  double const s = q.real_part(), x = q.imaginary_part().x, y = q.imaginary_part().y, z = q.imaginary_part().z;
  R3Element<double> const c[3] = {R3Element<double>(1 - 2 * (y * y + z * z), 2 * (x * y + s * z), 2 * (x * z - s * y)),
                                  R3Element<double>(2 * (x * y - s * z), 1 - 2 * (x * x + z * z), 2 * (y * z + s * x)),
                                  R3Element<double>(2 * (x * z + s * y), 2 * (y * z - s * x), 1 - 2 * (x * x + y * y))};
  int const i = vf_choose(3, "basis");
  R3Element<double> const e(i == 0, i == 1, i == 2);
  if (vf_choose(2, "direction")) {
    Rotation<W1, W2> const R{Vector<double, W2>(c[0]), Vector<double, W2>(c[1]), Bivector<double, W2>(c[2])};
    eq(R(Vector<double, W1>(e)).coordinates(), c[i], "axes of the source frame");
  } else {
    Rotation<W1, W2> const R{Vector<double, W1>(c[0]), Vector<double, W1>(c[1]), Bivector<double, W1>(c[2])};
    eq(R(Vector<double, W1>(c[i])).coordinates(), e, "axes of the destination frame");
  }
}

VF_HARNESS(rotation_exp) {
  Angle const α = vf_angle("α") * Radian;
  vf_assume(α != 0 * Radian);
  int const axis = vf_choose(3, "axis");
  R3Element<double> const n(axis == 0, axis == 1, axis == 2);
  auto const R = Exp(Bivector<Angle, W1>(n * α));
  auto const u = v<double, W1>("u");
  eq(R(u).coordinates(), turn(axis, Cos(α), Sin(α), u.coordinates()), "exponential");
  eq(Exp(Bivector<Angle, W1>{})(u), u, "exponential of zero");
}
