// Rigid and similar motions.
//@ entry degrees_of_freedom mode=real max-seconds=60
//@ entry rigid_action mode=real max-seconds=60
//@ entry rigid_inverse mode=real max-seconds=100
//@ entry rigid_composition mode=real max-seconds=100
//@ entry rigid_other_constructor mode=real max-seconds=100
//@ entry rigid_special mode=real max-seconds=60
//@ entry rigid_serialization mode=real max-seconds=60
//@ entry similar_action mode=real max-seconds=100
//@ entry similar_inverse mode=real max-seconds=100
//@ entry similar_composition mode=real max-seconds=100
//@ entry similar_special mode=real max-seconds=60
//@ src $VERIF/rt/elementary.cc
//@ bound All rigid and similar motions (unit quaternions, either handedness, scales in [0.1, 10], dilatation rates of magnitude at most 5), all origins, positions, velocities and angular velocities with coordinates of magnitude at most 10.
//@ assume Real arithmetic instead of rounded floating point; roots are exact.
#include "geo.h"
#include "geometry/affine_map.hpp"
#include "geometry/conformal_map.hpp"
#include "geometry/homothecy.hpp"
#include "geometry/orthogonal_map.hpp"
#include "geometry/rotation.hpp"
#include "geometry/signature.hpp"
#include "geometry/space_transformations.hpp"
#include "physics/degrees_of_freedom.hpp"
#include "physics/rigid_motion.hpp"
#include "physics/similar_motion.hpp"

using namespace vf;
using namespace principia::geometry::_conformal_map;
using namespace principia::geometry::_homothecy;
using namespace principia::geometry::_orthogonal_map;
using namespace principia::geometry::_rotation;
using namespace principia::geometry::_signature;
using namespace principia::geometry::_space_transformations;
using namespace principia::physics::_degrees_of_freedom;
using namespace principia::physics::_rigid_motion;
using namespace principia::physics::_similar_motion;

template<typename F>
static Position<F> pos(char const* n) { return F::origin + v<Length, F>(n); }
template<typename F>
static DegreesOfFreedom<F> dof(char const* n) {
  return {pos<F>((std::string(n) + ".q").c_str()), v<Speed, F>((std::string(n) + ".v").c_str())};
}
template<typename F>
static void eq(DegreesOfFreedom<F> const& a, DegreesOfFreedom<F> const& b, char const* id, double t = 1e-3) {
  vf::eq(a.position(), b.position(), id, t);
  vf::eq(a.velocity(), b.velocity(), id, t);
}
// From one frame to the other, with the same or the opposite handedness.
template<typename F, typename T>
static OrthogonalMap<F, T> orthogonal(char const* n) {
  using Mid = Frame<struct MidTag, NonRotating, F::handedness>;
  auto const r = Rotation<F, Mid>(unit_quaternion(n)).template Forget<OrthogonalMap>();
  if constexpr (F::handedness == T::handedness) return OrthogonalMap<Mid, T>::Identity() * r;
  else return Signature<Mid, T>::CentralInversion().template Forget<OrthogonalMap>() * r;
}
template<typename F, typename T>
struct Motion {
  OrthogonalMap<F, T> l;
  Position<F> o;          // Where the origin of T is.
  Position<T> image;
  AngularVelocity<F> ω;
  Velocity<F> u;
  explicit Motion(std::string const& n)
      : l(orthogonal<F, T>((n + ".q").c_str())), o(pos<F>((n + ".o").c_str())), ω(bv<AngularFrequency, F>((n + ".ω").c_str())), u(v<Speed, F>((n + ".u").c_str())) {}
  RigidMotion<F, T> rigid() const { return RigidMotion<F, T>(RigidTransformation<F, T>(o, T::origin, l), ω, u); }
  // The derivative of the rigid transformation at an arbitrary time: a point
  // comoving with T has velocity u + ω × (q - o).
  DegreesOfFreedom<T> operator()(DegreesOfFreedom<F> const& d) const {
    auto const r = d.position() - o;
    auto const w = d.velocity() - u;
    auto const a = ω.coordinates();
    auto const c = r.coordinates();
    R3Element<Speed> const drag((a.y * c.z - a.z * c.y) / Radian, (a.z * c.x - a.x * c.z) / Radian, (a.x * c.y - a.y * c.x) / Radian);
    return {T::origin + l(r), l(w - Velocity<F>(drag))};
  }
};

VF_HARNESS(degrees_of_freedom) {
  auto const a = dof<W1>("a"), b = dof<W1>("b");
  RelativeDegreesOfFreedom<W1> const d(v<Length, W1>("d.q"), v<Speed, W1>("d.v")), e(v<Length, W1>("e.q"), v<Speed, W1>("e.v"));
  double const k = vf_real("k", 0.1, 10);
  eq(a + (b - a), b, "difference");
  eq((a + d) - d, a, "translation");
  vf::eq((b - a).displacement(), b.position() - a.position(), "displacement");
  vf::eq((b - a).velocity(), b.velocity() - a.velocity(), "velocity");
  vf::eq((d + k * e).displacement(), d.displacement() + k * e.displacement(), "linear");
  vf::eq((d + k * e).velocity(), d.velocity() + k * e.velocity(), "linear");
  vf::eq((d - e * k).velocity(), d.velocity() - k * e.velocity(), "linear");
  vf::eq((-d / k * k).velocity(), -d.velocity(), "division");
  vf::eq((-d / k * k).displacement(), -d.displacement(), "division");
  auto c = a;
  c += d;
  eq(c, a + d, "+=");
  vf::eq(c.position(), a.position() + d.displacement(), "+=");
  vf::eq(c.velocity(), a.velocity() + d.velocity(), "+=");
  c -= e;
  eq(c, a + (d - e), "-=");
  vf_check(c == c, "equal");
  auto f = d;
  f += e;
  vf::eq(f.velocity(), d.velocity() + e.velocity(), "relative +=");
  vf::eq(f.displacement(), d.displacement() + e.displacement(), "relative +=");
  f -= e;

  vf::eq(f.velocity(), d.velocity(), "relative -=");
  vf::eq(f.displacement(), d.displacement(), "relative -=");
}

template<typename F, typename T>
static void action() {
  Motion<F, T> const m("m");
  auto const M = m.rigid();
  auto const a = dof<F>("a"), b = dof<F>("b");
  eq(M(a), m(a), "action");
  // The distances vary as the velocities say, in either frame.
  auto const d = b - a;
  auto const e = M(b) - M(a);
  vf::eq(InnerProduct(d.displacement(), d.velocity()), InnerProduct(e.displacement(), e.velocity()), "rigid", 1e-2);
  eq(M({m.o, m.u}), DegreesOfFreedom<T>(T::origin, T::unmoving), "origin of the target frame");
  vf::eq(M.template velocity_of_origin_of<T>(), m.u, "velocity of the origin");
  vf::eq(M.template angular_velocity_of<T>(), m.ω, "angular velocity");
  vf::eq(M.orthogonal_map()(d.displacement()), m.l(d.displacement()), "linear part");
  vf::eq(M.rigid_transformation()(a.position()), M(a).position(), "transformation");
}
VF_HARNESS(rigid_action) {
  if (vf_choose(2, "handedness") == 0) action<W1, W2>();
  else action<W1, L1>();
}

template<typename F, typename T>
static void inverse() {
  Motion<F, T> const m("m");
  auto const M = m.rigid();
  auto const N = M.Inverse();
  auto const a = dof<F>("a");
  auto const b = dof<T>("b");
  eq(N(M(a)), a, "inverse on the left", 1e-2);
  eq(M(N(b)), b, "inverse on the right", 1e-2);
  vf::eq(M.template velocity_of_origin_of<F>(), M({F::origin, F::unmoving}).velocity(), "velocity of the other origin");
  vf::eq(N.template velocity_of_origin_of<F>(), M.template velocity_of_origin_of<F>(), "velocity of the other origin");
  vf::eq(N.template velocity_of_origin_of<T>(), m.u, "velocity of the origin", 1e-3);
  vf::eq(N.template angular_velocity_of<T>(), m.ω, "angular velocity", 1e-3);
  vf::eq(M.template angular_velocity_of<F>(), N.template angular_velocity_of<F>(), "angular velocity");
}
VF_HARNESS(rigid_inverse) {
  if (vf_choose(2, "handedness") == 0) inverse<W1, W2>();
  else inverse<W1, L1>();
}

VF_HARNESS(rigid_composition) {
  Motion<W1, W2> const m("m");
  auto const M = m.rigid();
  auto const a = dof<W1>("a");
  if (vf_choose(2, "handedness") == 0) {
    Motion<W2, W3> const n("n");
    auto const N = n.rigid();
    auto const P = N * M;
    eq(P(a), n(m(a)), "composition", 1e-1);
    vf::eq(P.template angular_velocity_of<W3>(), M.template angular_velocity_of<W2>() + M.orthogonal_map().Inverse()(N.template angular_velocity_of<W3>()), "angular velocities", 1e-2);
  } else {
    Motion<W2, L1> const n("n");
    auto const N = n.rigid();
    eq((N * M)(a), n(m(a)), "composition", 1e-1);
  }
}

VF_HARNESS(rigid_other_constructor) {
  Motion<W2, W1> const m("m");  // Describes W1 in W2.
  RigidMotion<W1, W2> const M(RigidTransformation<W2, W1>(m.o, W1::origin, m.l).Inverse(), m.ω, m.u);
  auto const a = dof<W2>("a");
  eq(M(m(a)), a, "inverse", 1e-2);
  vf::eq(M.template angular_velocity_of<W1>(), m.ω, "angular velocity", 1e-2);
  vf::eq(M.template velocity_of_origin_of<W1>(), m.u, "velocity of the origin", 1e-2);
  eq(M({W1::origin, W1::unmoving}), DegreesOfFreedom<W2>(m.o, m.u), "origin", 1e-2);
}

VF_HARNESS(rigid_special) {
  auto const a = dof<W1>("a");
  auto const I = RigidMotion<W1, W2>::Identity();
  vf::eq((I(a).position() - W2::origin).coordinates(), (a.position() - W1::origin).coordinates(), "identity");
  vf::eq(I(a).velocity().coordinates(), a.velocity().coordinates(), "identity");
  // Opposite handedness: the y and z axes are exchanged.
  auto const p = dof<L1>("p");
  auto const L = RigidMotion<W1, L1>::MakeNonRotatingMotion(p);
  auto const r = (a.position() - W1::origin).coordinates();
  auto const s = a.velocity().coordinates();
  vf::eq((L(a).position() - p.position()).coordinates(), R3Element<Length>(r.x, r.z, r.y), "nonrotating, opposite handedness");
  vf::eq((L(a).velocity() - p.velocity()).coordinates(), R3Element<Speed>(s.x, s.z, s.y), "nonrotating, opposite handedness");
  vf_check(IsFinite(L), "finite");
  Motion<W1, W2> const m("m");
  auto const α = bv<AngularAcceleration, W1>("α");
  auto const γ = v<Acceleration, W1>("γ");
  AcceleratedRigidMotion<W1, W2> const A(m.rigid(), α, γ);
  eq(A.rigid_motion()(a), m(a), "accelerated motion");
  vf_check(A.template angular_acceleration_of<W2>() == α, "angular acceleration");
  vf_check(A.template acceleration_of_origin_of<W2>() == γ, "acceleration");
}

using S1 = Frame<principia::serialization::Frame::TestTag, NonRotating, Handedness::Right, principia::serialization::Frame::TEST1>;
using S2 = Frame<principia::serialization::Frame::TestTag, NonRotating, Handedness::Right, principia::serialization::Frame::TEST2>;
VF_HARNESS(rigid_serialization) {
  Motion<S1, S2> const m("m");
  principia::serialization::RigidMotion message;
  m.rigid().WriteToMessage(&message);
  auto const M = RigidMotion<S1, S2>::ReadFromMessage(message);

  auto const a = dof<S1>("c");
  eq(M(a), m(a), "image");
  vf_check(M.template angular_velocity_of<S2>() == m.ω, "angular velocity");
  principia::serialization::Pair pair;
  a.WriteToMessage(&pair);
  vf_check(DegreesOfFreedom<S1>::ReadFromMessage(pair) == a, "degrees of freedom");
  auto const d = a - dof<S1>("d");
  principia::serialization::Pair relative;
  d.WriteToMessage(&relative);
  vf_check(RelativeDegreesOfFreedom<S1>::ReadFromMessage(relative) == d, "relative degrees of freedom");
}

// A rigid motion followed by a dilatation about the origin.
template<typename F, typename T>
struct Similar {
  using Mid = Frame<struct ScaleTag, NonRotating, F::handedness>;
  Motion<F, Mid> m;
  double k;
  Variation<double> rate;
  explicit Similar(std::string const& n)
      : m(n + ".m"), k(vf_real((n + ".k").c_str(), 0.1, 10)), rate(vf_real((n + ".rate").c_str(), -5, 5) / Second) {}
  SimilarMotion<F, T> similar() const {
    return SimilarMotion<Mid, T>::DilatationAboutOrigin(Homothecy<double, Mid, T>(k), rate) * m.rigid().template Forget<SimilarMotion>();
  }
  DegreesOfFreedom<T> operator()(DegreesOfFreedom<F> const& a) const {
    auto const b = m(a);
    auto const r = (b.position() - Mid::origin).coordinates();
    auto const w = b.velocity().coordinates();
    return {T::origin + Displacement<T>(k * r), Velocity<T>(k * w + rate * (k * r))};
  }
};

VF_HARNESS(similar_action) {
  Similar<W1, W2> const s("s");
  auto const S = s.similar();
  auto const a = dof<W1>("a");
  eq(S(a), s(a), "action", 1e-2);
  eq(S({s.m.o, s.m.u}), DegreesOfFreedom<W2>(W2::origin, W2::unmoving), "origin of the target frame", 1e-2);
  vf::eq(S.template angular_velocity_of<W2>(), s.m.ω, "angular velocity", 1e-2);
  vf::eq(S.template velocity_of_origin_of<W2>(), s.m.u, "velocity of the origin", 1e-2);
  vf::eq(S.conformal_map().scale(), s.k, "scale");
  vf::eq(S.similarity()(a.position()), S(a).position(), "similarity");
  // A rigid motion is similar.
  auto const R = s.m.rigid().template Forget<SimilarMotion>();
  eq(R(a), s.m(a), "rigid", 1e-2);
}

VF_HARNESS(similar_inverse) {
  Similar<W1, W2> const s("s");
  auto const S = s.similar();
  auto const a = dof<W1>("a");
  eq(S.Inverse()(s(a)), a, "inverse", 1e-1);
  vf::eq(S.template velocity_of_origin_of<W1>(), s({W1::origin, W1::unmoving}).velocity(), "velocity of the other origin", 1e-2);
  vf::eq(S.Inverse().template velocity_of_origin_of<W2>(), s.m.u, "velocity of the origin", 1e-2);
  vf::eq(S.Inverse().template angular_velocity_of<W2>(), s.m.ω, "angular velocity", 1e-2);
  vf::eq(S.Inverse().template angular_velocity_of<W1>(), S.template angular_velocity_of<W1>(), "angular velocity of the source", 1e-2);
}

VF_HARNESS(similar_composition) {
  Similar<W1, W2> const s("s");
  auto const a = dof<W1>("a");
  double const k = vf_real("k2", 0.1, 10);
  Variation<double> const rate = vf_real("rate2", -5, 5) / Second;
  auto const D = SimilarMotion<W2, W3>::DilatationAboutOrigin(Homothecy<double, W2, W3>(k), rate);
  auto const b = s(a);
  auto const r = (b.position() - W2::origin).coordinates();
  DegreesOfFreedom<W3> const expected(W3::origin + Displacement<W3>(k * r), Velocity<W3>(k * b.velocity().coordinates() + k * rate * r));
  eq((D * s.similar())(a), expected, "dilatation after a motion", 1);
  Motion<W2, W3> const n("n");
  auto const N = n.rigid().template Forget<SimilarMotion>();
  eq((N * s.similar())(a), n(s(a)), "rigid motion after a dilatation", 1);
}

VF_HARNESS(similar_special) {
  auto const a = dof<W1>("a");
  auto const I = SimilarMotion<W1, W2>::Identity();
  vf::eq((I(a).position() - W2::origin).coordinates(), (a.position() - W1::origin).coordinates(), "identity");
  vf::eq(I(a).velocity().coordinates(), a.velocity().coordinates(), "identity");
}
