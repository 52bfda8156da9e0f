// Symbolic vectors and comparisons for the real-number harnesses.
#pragma once
#include <string>
#include "base/algebra.hpp"
#include "geometry/frame.hpp"
#include "geometry/grassmann.hpp"
#include "geometry/instant.hpp"
#include "geometry/quaternion.hpp"
#include "geometry/r3_element.hpp"
#include "geometry/space.hpp"
#include "quantities/quantities.hpp"
#include "quantities/named_quantities.hpp"
#include "quantities/si.hpp"
#include "serialization/geometry.pb.h"
#include "vf.h"

using namespace principia::base::_algebra;
using namespace principia::geometry::_frame;
using namespace principia::geometry::_grassmann;
using namespace principia::geometry::_instant;
using namespace principia::geometry::_quaternion;
using namespace principia::geometry::_r3_element;
using namespace principia::geometry::_space;
using namespace principia::quantities::_quantities;
using namespace principia::quantities::_named_quantities;
using namespace principia::quantities::_si;
namespace si = principia::quantities::_si;

using W1 = Frame<struct W1Tag, NonRotating, Handedness::Right>;
using W2 = Frame<struct W2Tag, NonRotating, Handedness::Right>;
using W3 = Frame<struct W3Tag, NonRotating, Handedness::Right>;
using L1 = Frame<struct L1Tag, NonRotating, Handedness::Left>;
using L2 = Frame<struct L2Tag, NonRotating, Handedness::Left>;

namespace vf {
constexpr double M = 10;
template<typename Q>
Q q(char const* n, double m = M) {
  if constexpr (std::is_same_v<Q, double>) return vf_real(n, -m, m);
  else return vf_real(n, -m, m) * si::Unit<Q>;
}
template<typename Q>
R3Element<Q> r3(char const* n, double m = M) {
  std::string s = n;
  return R3Element<Q>(q<Q>((s + ".x").c_str(), m), q<Q>((s + ".y").c_str(), m), q<Q>((s + ".z").c_str(), m));
}
template<typename Q, typename F>
Vector<Q, F> v(char const* n, double m = M) { return Vector<Q, F>(r3<Q>(n, m)); }
template<typename Q, typename F>
Bivector<Q, F> bv(char const* n, double m = M) { return Bivector<Q, F>(r3<Q>(n, m)); }
template<typename Q, typename F>
Trivector<Q, F> tv(char const* n, double m = M) { return Trivector<Q, F>(q<Q>(n, m)); }

template<typename Q>
double num(Q const& x) {
  if constexpr (std::is_same_v<Q, double>) return x;
  else return x / si::Unit<Q>;
}
constexpr double tol = 1e-6;
template<typename Q> concept scalar = requires(Q q) { { num(q) } -> std::convertible_to<double>; } &&
    (std::is_same_v<Q, double> || requires(Q q) { q / si::Unit<Q>; });
inline void eq(double a, double b, char const* id, double t = tol) { vf_near(a, b, t, id); }
template<typename D>
void eq(Quantity<D> const& a, Quantity<D> const& b, char const* id, double t = tol) { vf_near(num(a), num(b), t, id); }
template<typename Q>
void eq(R3Element<Q> const& a, R3Element<Q> const& b, char const* id, double t = tol) {
  eq(a.x, b.x, id, t);
  eq(a.y, b.y, id, t);
  eq(a.z, b.z, id, t);
}
template<typename Q, typename F, int r>
void eq(Multivector<Q, F, r> const& a, Multivector<Q, F, r> const& b, char const* id, double t = tol) {
  eq(a.coordinates(), b.coordinates(), id, t);
}
template<typename V>
void eq(principia::geometry::_point::Point<V> const& a, principia::geometry::_point::Point<V> const& b, char const* id, double t = tol) {
  eq(a - b, V{}, id, t);
}
// A unit quaternion.
inline Quaternion unit_quaternion(char const* n) {
  std::string s = n;
  double const w = vf_real((s + ".w").c_str(), -1, 1), x = vf_real((s + ".i").c_str(), -1, 1),
               y = vf_real((s + ".j").c_str(), -1, 1), z = vf_real((s + ".k").c_str(), -1, 1);
  vf_assume_eq(w * w, 1 - x * x - y * y - z * z);
  return Quaternion(w, {x, y, z});
}
}  // namespace vf
