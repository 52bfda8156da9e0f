// The pinhole camera and hiding by spheres.
//@ entry camera mode=real max-seconds=60
//@ entry focal_plane mode=real max-seconds=60
//@ entry hidden mode=real max-seconds=100
//@ src $VERIF/rt/elementary.cc
//@ bound All cameras obtained by a rotation, a translation and a scaling, all points with coordinates of magnitude at most 10; hiding by any sphere of radius at most 3 around a centre on the axis of the camera at distance at most 10, for any point of the meridian plane.
//@ assume Real arithmetic instead of rounded floating point; roots are exact.
#include "geo.h"
#include "geometry/conformal_map.hpp"
#include "geometry/homothecy.hpp"
#include "geometry/perspective.hpp"
#include "geometry/rotation.hpp"
#include "geometry/space_transformations.hpp"
#include "geometry/sphere.hpp"

using namespace vf;
using namespace principia::geometry::_conformal_map;
using namespace principia::geometry::_homothecy;
using namespace principia::geometry::_perspective;
using namespace principia::geometry::_rotation;
using namespace principia::geometry::_rp2_point;
using namespace principia::geometry::_space_transformations;
using namespace principia::geometry::_sphere;

template<typename F>
Position<F> pos(char const* n) { return F::origin + v<Length, F>(n); }

struct Camera {
  Position<W1> at;
  R3Element<double> ex, ey, ez;
  double scale;
  Perspective<W1, W2> perspective;
};
static Camera camera_(Length const& focal, bool scaled) {
  double const k = scaled ? vf_real("scale", 0.2, 5) : 1;
  Rotation<W3, W2> const R(unit_quaternion("q"));
  auto const l = Homothecy<double, W2, W2>(k).Forget<ConformalMap>() * R.Forget<ConformalMap>() *
                 Homothecy<double, W1, W3>(1).Forget<ConformalMap>();
  auto const at = pos<W1>("at");
  auto const i = R.Inverse();
  auto e = [&](double x, double y, double z) { return i(Vector<double, W2>({x, y, z})).coordinates(); };
  Similarity<W1, W2> const s(at, W2::origin, l);
  if (vf_choose(2, "from_camera"))
    return {at, e(1, 0, 0), e(0, 1, 0), e(0, 0, 1), k, Perspective<W1, W2>(s.Inverse(), focal)};
  return {at, e(1, 0, 0), e(0, 1, 0), e(0, 0, 1), k, Perspective<W1, W2>(s, focal)};
}

VF_HARNESS(camera) {
  Length const f = vf_real("f", 0.1, 10) * Metre;
  auto const c = camera_(f, true);
  eq(c.perspective.camera(), c.at, "camera", 1e-4);
  eq(c.perspective.focal(), f, "focal");
  auto const p = pos<W1>("p"), p2 = pos<W1>("p2");
  auto const d = (p - c.at).coordinates();
  Length const z = Dot(d, c.ez);
  auto const i = c.perspective(p);
  if (i.is_at_infinity()) {
    vf_check(num(z) == 0, "at infinity");
    return;
  }
  vf_assume(num(z) >= 0.1 || num(z) <= -0.1);
  eq(num(i.x()) * num(z), num(f) * num(Dot(d, c.ex)), "abscissa", 1e-2);
  eq(num(i.y()) * num(z), num(f) * num(Dot(d, c.ey)), "ordinate", 1e-2);
  eq(c.perspective.SquaredDistanceFromCamera(p), d.Norm²(), "distance", 1e-3);
  auto const d2 = (p2 - c.at).coordinates();
  double const inner = num(Dot(d, d2));
  vf_assume(inner >= 1 || inner <= -1);
  eq(c.perspective.Tan²AngularDistance(p, p2) * inner * inner, num(d.Norm²()) * num(d2.Norm²()) - inner * inner, "angular distance", 1e-1);
}

VF_HARNESS(focal_plane) {
  Length const f = vf_real("f", 0.1, 10) * Metre;
  auto const c = camera_(f, false);
  auto const a = pos<W1>("a"), b = pos<W1>("b");
  Length const za = Dot((a - c.at).coordinates(), c.ez), zb = Dot((b - c.at).coordinates(), c.ez);
  bool const sa = za >= f, sb = zb >= f;
  auto const s = c.perspective.SegmentBehindFocalPlane({a, b});
  vf_check(s.has_value() == (sa || sb), "visibility");
  if (!s.has_value()) return;
  if (sa) eq(s->first, a, "first extremity", 1e-4);
  if (sb) eq(s->second, b, "second extremity", 1e-4);
  if (sa != sb) {
    auto const i = sa ? s->second : s->first;
    auto const k = (za - zb) * (i - a).coordinates() - (za - f) * (b - a).coordinates();
    eq(k, R3Element<Square<Length>>{}, "intercept", 1e-3);
  }
}

VF_HARNESS(hidden) {
  // In the plane of the camera, the centre and the point.
  Similarity<W1, W2> const s = Similarity<W1, W2>::Identity();
  Perspective<W1, W2> const p(s, 1 * Metre);
  double const d = vf_real("d", 0.1, 10), r = vf_real("r", 0.05, 3), x = vf_real("x", -10, 10), z = vf_real("z", -10, 10);
  vf_assume(d > r);
  Sphere<W1> const sphere(W1::origin + Displacement<W1>({0 * Metre, 0 * Metre, d * Metre}), r * Metre);
  auto const point = W1::origin + Displacement<W1>({x * Metre, 0 * Metre, z * Metre});
  bool const hidden = p.IsHiddenBySphere(point, sphere);
  // The point nearest to the centre on the segment from the camera to the point.
  double const n = x * x + z * z;
  vf_assume(n > 0);
  bool expected;
  if (z * d >= n) expected = x * x + (z - d) * (z - d) < r * r;
  else if (z * d <= 0) expected = false;
  else expected = x * x * d * d < r * r * n;
  vf_check(hidden == expected, "hidden");
  double const sin² = p.SphereSin²HalfAngle(sphere);
  eq(sin² * d * d, r * r, "half angle");
  Sphere<W1> const around(W1::origin + Displacement<W1>({0 * Metre, 0 * Metre, r * Metre / 2}), r * Metre);
  eq(p.SphereSin²HalfAngle(around), 1, "half angle from within");
}
