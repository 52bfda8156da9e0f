// Affine, conformal and homothetic maps.
//@ entry affine_rotation mode=real max-seconds=60
//@ entry affine_similarity mode=real max-seconds=60
//@ entry conformal mode=real max-seconds=60
//@ entry homothecy mode=real max-seconds=60
//@ src $VERIF/rt/elementary.cc
//@ bound All rotations (unit quaternions), either handedness, scales in [0.1, 10], points and vectors with coordinates of magnitude at most 10.
//@ assume Real arithmetic instead of rounded floating point; roots are exact.
#include "geo.h"
#include "geometry/affine_map.hpp"
#include "geometry/conformal_map.hpp"
#include "geometry/homothecy.hpp"
#include "geometry/orthogonal_map.hpp"
#include "geometry/rotation.hpp"
#include "geometry/signature.hpp"
#include "geometry/space_transformations.hpp"

using namespace vf;
using namespace principia::geometry::_affine_map;
using namespace principia::geometry::_conformal_map;
using namespace principia::geometry::_homothecy;
using namespace principia::geometry::_orthogonal_map;
using namespace principia::geometry::_rotation;
using namespace principia::geometry::_signature;
using namespace principia::geometry::_space_transformations;

template<typename F>
Position<F> pos(char const* n) { return F::origin + v<Length, F>(n); }

VF_HARNESS(affine_rotation) {
  OrthogonalMap<W1, W2> const l = Rotation<W1, W2>(unit_quaternion("q")).Forget<OrthogonalMap>();
  OrthogonalMap<W2, L1> const m = Signature<W2, L1>::CentralInversion().Forget<OrthogonalMap>();
  auto const a = pos<W1>("a"), p = pos<W1>("p"), q = pos<W1>("p2");
  auto const b = pos<W2>("b"), y = pos<W2>("y");
  auto const c = pos<L1>("c");
  RigidTransformation<W1, W2> const f(a, b, l);
  RigidTransformation<W2, L1> const g(y, c, m);
  eq(f(a), b, "image of the origin");
  eq(f(p) - f(q), l(p - q), "linear part", 1e-5);
  eq((g * f)(p), g(f(p)), "composition", 1e-5);
  eq(f.Inverse()(f(p)), p, "inverse", 1e-5);
  eq(f(f.Inverse()(y)), y, "inverse", 1e-5);
  eq((f(p) - f(q)).Norm²(), (p - q).Norm²(), "rigid", 1e-4);
  eq(((RigidTransformation<W1, W2>::Identity())(p) - W2::origin).coordinates(), (p - W1::origin).coordinates(), "identity");
  eq(f.linear_map()(p - q), l(p - q), "linear map");
  // Forgetting that it is rigid.
  auto const s = f.Forget<Similarity>();
  eq(s(p), f(p), "as a similarity", 1e-5);
}

VF_HARNESS(affine_similarity) {
  double const k = vf_real("k", 0.1, 10);
  auto const l = Homothecy<double, W2, W3>(k).Forget<ConformalMap>() * Rotation<W1, W2>(unit_quaternion("q")).Forget<ConformalMap>();
  auto const a = pos<W1>("a"), p = pos<W1>("p"), q = pos<W1>("p2");
  auto const b = pos<W3>("b");
  Similarity<W1, W3> const f(a, b, l);
  eq(f(a), b, "image of the origin");
  eq((f(p) - f(q)).Norm²(), k * k * (p - q).Norm²(), "scale", 1e-3);
  eq(f.Inverse()(f(p)), p, "inverse", 1e-4);
  eq((f.Inverse() * f)(p), p, "inverse", 1e-4);
}

VF_HARNESS(conformal) {
  double const k = vf_real("k", 0.1, 10);
  double const n = vf_real("n", 0.1, 10);
  Rotation<W1, W2> const R(unit_quaternion("q"));
  Homothecy<double, W2, W3> const H(k);
  auto const m = H.Forget<ConformalMap>() * R.Forget<ConformalMap>();
  auto const u = v<Length, W1>("u"), w = v<Length, W1>("w");
  eq(m(u), Vector<Length, W3>(R(u).coordinates() * k), "action", 1e-4);
  eq(m.scale(), k, "scale");
  eq(m.Determinant(), k * k * k, "determinant");
  eq(InnerProduct(m(u), m(w)), k * k * InnerProduct(u, w), "conformal", 1e-3);
  eq(m.Inverse()(m(u)), u, "inverse", 1e-4);
  eq(m.Inverse().scale() * k, 1, "scale of the inverse");
  // Composition with an inversion and another scale.
  auto const c = Signature<W3, L1>::CentralInversion().Forget<ConformalMap>();
  auto const d = c * m;
  eq(d(u).coordinates(), -m(u).coordinates(), "composition", 1e-4);
  eq(d.scale(), k, "scale of a composition");
  auto const e = Homothecy<double, W3, W1>(n).Forget<ConformalMap>() * m;
  eq(e.scale(), k * n, "scale of a composition", 1e-4);
  eq(e(u).coordinates(), n * m(u).coordinates(), "composition", 1e-3);
  eq((d.Inverse() * d)(u), u, "inverse", 1e-4);
  // The orthogonal part.
  eq(m.orthogonal_map¹₁()(u).coordinates(), R(u).coordinates(), "orthogonal part", 1e-4);
  eq((ConformalMap<double, W1, W2>::Identity())(u).coordinates(), u.coordinates(), "identity");
  // Angular velocities are not scaled.
  AngularVelocity<W1> const ω = bv<AngularFrequency, W1>("ω");
  eq(m(ω).coordinates(), R(ω).coordinates(), "angular velocity", 1e-4);
}

VF_HARNESS(homothecy) {
  double const k = vf_real("k", 0.1, 10);
  Frequency const n = vf_real("n", 0.1, 10) / Second;
  Homothecy<double, W1, W2> const h(k);
  Homothecy<Frequency, W2, W3> const g(n);
  auto const u = v<Length, W1>("u");
  eq(h(u).coordinates(), u.coordinates() * k, "action");
  eq((g * h)(u), g(h(u)), "composition", 1e-4);
  eq(h.Inverse()(h(u)), u, "inverse");
  eq(g.Inverse()(g(h(u))), h(u), "inverse", 1e-4);
  eq(h.Determinant(), k * k * k, "determinant");
  eq((Homothecy<double, W1, W2>::Identity())(u).coordinates(), u.coordinates(), "identity");
  AngularVelocity<W1> const ω = bv<AngularFrequency, W1>("ω");
  eq(h(ω).coordinates(), ω.coordinates(), "angular velocity");
  eq(h.Forget<ConformalMap>()(u), h(u), "as a conformal map", 1e-4);
}
