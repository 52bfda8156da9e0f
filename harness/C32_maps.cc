// Permutations, signatures, orthogonal maps and identities.
//@ entry map_permutation mode=real max-seconds=60
//@ entry map_permutation_composition mode=real max-seconds=60
//@ entry map_signature mode=real max-seconds=60
//@ entry map_orthogonal mode=real max-seconds=60
//@ entry map_orthogonal_composition mode=real max-seconds=60
//@ entry map_identity mode=real max-seconds=60
//@ src $VERIF/rt/elementary.cc
//@ bound All even and odd permutations, all eight signatures, all rotations combined with them, between frames of either handedness, all vectors, bivectors and trivectors with coordinates of magnitude at most 10.
//@ assume Real arithmetic instead of rounded floating point; square roots are exact.
#include "geo.h"
#include "geometry/identity.hpp"
#include "geometry/orthogonal_map.hpp"
#include "geometry/permutation.hpp"
#include "geometry/rotation.hpp"
#include "geometry/signature.hpp"
#include "geometry/sign.hpp"

using namespace vf;
using namespace principia::geometry::_identity;
using namespace principia::geometry::_orthogonal_map;
using namespace principia::geometry::_permutation;
using namespace principia::geometry::_rotation;
using namespace principia::geometry::_sign;
using namespace principia::geometry::_signature;

template<typename F, typename T, typename Map>
void isometry(Map const& m) {
  auto const u = v<Length, F>("u");
  auto const w = v<Speed, F>("w");
  auto const b = bv<Force, F>("b");
  auto const t = tv<Energy, F>("t");
  double const k = vf_real("k", -10, 10);
  eq(InnerProduct(m(u), m(w)), InnerProduct(u, w), "isometry", 1e-5);
  eq(m(Wedge(u, w)), Wedge(m(u), m(w)), "exterior product of vectors", 1e-5);
  eq(m(Wedge(u, b)), Wedge(m(u), m(b)), "exterior product with a bivector", 1e-5);
  eq(m(u * k), m(u) * k, "linear", 1e-5);
  eq(m(b * u), m(b) * m(u), "action of bivectors", 1e-5);
  int const d = m.Determinant();
  vf_check(d == (F::handedness == T::handedness ? 1 : -1), "determinant");
  eq(m(t).coordinates(), d * t.coordinates(), "trivector");
  auto const n = m.Inverse();
  vf_check(static_cast<int>(n.Determinant()) == d, "determinant of the inverse");
  eq(n(m(u)), u, "inverse on vectors", 1e-5);
  eq(n(m(b)), b, "inverse on bivectors", 1e-5);
  eq(n(m(t)), t, "inverse on trivectors", 1e-5);
}
template<typename F, typename T, typename Map, typename Other>
void same(Map const& m, Other const& n, char const* id) {
  auto const u = v<Length, F>("su");
  auto const b = bv<Force, F>("sb");
  auto const t = tv<Energy, F>("st");
  eq(m(u), n(u), id, 1e-5);
  eq(m(b), n(b), id, 1e-5);
  eq(m(t), n(t), id, 1e-5);
  vf_check(static_cast<int>(m.Determinant()) == static_cast<int>(n.Determinant()), id);
}

static constexpr EvenPermutation even[] = {EvenPermutation::XYZ, EvenPermutation::YZX, EvenPermutation::ZXY};
static constexpr OddPermutation odd[] = {OddPermutation::XZY, OddPermutation::ZYX, OddPermutation::YXZ};
static constexpr int evens[3][3] = {{0, 1, 2}, {1, 2, 0}, {2, 0, 1}};
static constexpr int odds[3][3] = {{0, 2, 1}, {2, 1, 0}, {1, 0, 2}};

VF_HARNESS(map_permutation) {
  int const i = vf_choose(3, "permutation");
  auto const r = r3<Length>("p");
  if (vf_choose(2, "odd")) {
    Permutation<W1, L1> const p(odd[i]);
    isometry<W1, L1>(p);
    auto const s = p(Vector<Length, W1>(r)).coordinates();
    for (int j = 0; j < 3; ++j) eq(s[j], r[odds[i][j]], "coordinates");
    same<W1, L1>(p.Forget<OrthogonalMap>(), p, "as an orthogonal map");
  } else {
    Permutation<W1, W2> const p(even[i]);
    isometry<W1, W2>(p);
    auto const s = p(Vector<Length, W1>(r)).coordinates();
    for (int j = 0; j < 3; ++j) eq(s[j], r[evens[i][j]], "coordinates");
    same<W1, W2>(p.Forget<OrthogonalMap>(), p, "as an orthogonal map");
  }
}

template<typename A, typename B, typename C>
void compose_permutations() {
  auto make = [](auto* tag, char const* n) {
    using P = std::remove_pointer_t<decltype(tag)>;
    int const i = vf_choose(3, n);
    if constexpr (std::is_same_v<typename P::CoordinatePermutation, EvenPermutation>) return P(even[i]);
    else return P(odd[i]);
  };
  auto const p = make(static_cast<Permutation<A, B>*>(nullptr), "p");
  auto const q = make(static_cast<Permutation<B, C>*>(nullptr), "q");
  auto const pq = q * p;
  auto const u = v<Length, A>("u");
  auto const b = bv<Length, A>("b");
  eq(pq(u), q(p(u)), "composition");
  eq(pq(b), q(p(b)), "composition on bivectors");
}

VF_HARNESS(map_permutation_composition) {
  switch (vf_choose(4, "handedness")) {
    case 0: compose_permutations<W1, W2, W3>(); break;
    case 1: compose_permutations<W1, L1, W3>(); break;
    case 2: compose_permutations<W1, W2, L2>(); break;
    case 3: compose_permutations<W1, L1, L2>(); break;
  }
  auto const u = v<Length, W1>("iu");
  eq((Permutation<W1, W2>::Identity())(u).coordinates(), u.coordinates(), "identity");
}

static Sign sign(char const* n) { return vf_choose(2, n) ? Sign::Negative() : Sign::Positive(); }

template<typename T>
Signature<W1, T> any_signature(Sign& a, Sign& b, Sign& c, char const* n) {
  using S = Signature<W1, T>;
  using D = typename S::DeduceSign;
  a = sign("first"), b = sign("second");
  Sign const d = W1::handedness == T::handedness ? a * b : -(a * b);
  switch (vf_choose(3, n)) {
    case 0: c = d; return S(a, b, D{});
    case 1: { Sign const y = b; c = y; b = d; return S(a, D{}, y); }
    default: { Sign const x = a; c = b; b = x; a = d; return S(D{}, x, c); }
  }
}

template<typename T>
void test_signature() {
  Sign a = Sign::Positive(), b = a, c = a;
  auto const s = any_signature<T>(a, b, c, "deduced");
  auto const r = r3<Length>("r");
  auto const t = s(Vector<Length, W1>(r)).coordinates();
  eq(t, R3Element<Length>(a * r.x, b * r.y, c * r.z), "coordinates");
  isometry<W1, T>(s);
  same<W1, T>(s.template Forget<OrthogonalMap>(), s, "as an orthogonal map");
  // Composition with itself is the identity.
  Signature<T, W1> const i = s.Inverse();
  eq((i * s)(Vector<Length, W1>(r)).coordinates(), r, "composition");
}

VF_HARNESS(map_signature) {
  if (vf_choose(2, "handedness")) test_signature<W2>();
  else test_signature<L1>();
  auto const r = r3<Length>("i");
  eq((Signature<W1, W2>::Identity())(Vector<Length, W1>(r)).coordinates(), r, "identity");
  eq((Signature<W1, L1>::CentralInversion())(Vector<Length, W1>(r)).coordinates(), -r, "central inversion");
}

VF_HARNESS(map_orthogonal) {
  Rotation<W1, W2> const R(unit_quaternion("q"));
  if (vf_choose(2, "direct")) {
    auto const m = R.Forget<OrthogonalMap>();
    isometry<W1, W2>(m);
    same<W1, W2>(m, R, "as an orthogonal map");
    same<W1, W2>(m.AsRotation(), R, "as a rotation");
  } else {
    Sign a = Sign::Positive(), b = a, c = a;
    Signature<W2, L1> const s = Signature<W2, L1>::CentralInversion();
    auto const m = s.Forget<OrthogonalMap>() * R.Forget<OrthogonalMap>();
    isometry<W1, L1>(m);
    auto const u = v<Length, W1>("cu");
    auto const w = bv<Length, W1>("cb");
    eq(m(u), s(R(u)), "composition of a rotation and an inversion", 1e-5);
    eq(m(w), s(R(w)), "composition of a rotation and an inversion", 1e-5);
  }
}

// A family of rotations about an axis of the triad, by an angle with the given
// (unnormalized) half-angle quaternion.
template<typename F, typename T>
Rotation<F, T> about(char const* n) {
  std::string s = n;
  double const w = vf_real((s + ".w").c_str(), -1, 1), x = vf_real((s + ".v").c_str(), -1, 1);
  vf_assume_eq(w * w, 1 - x * x);
  R3Element<double> v(0, 0, 0);
  switch (vf_choose(3, (s + ".axis").c_str())) {
    case 0: v.x = x; break;
    case 1: v.y = x; break;
    case 2: v.z = x; break;
  }
  return Rotation<F, T>(Quaternion(w, v));
}

template<typename A, typename B, typename C>
void compose_orthogonal() {
  auto make = [](auto const* tag_a, auto const* tag_b, char const* n) {
    using F = std::decay_t<decltype(*tag_a)>;
    using T = std::decay_t<decltype(*tag_b)>;
    if constexpr (F::handedness == T::handedness) {
      return about<F, T>(n).template Forget<OrthogonalMap>();
    } else {
      using M = Frame<struct MTag, NonRotating, F::handedness>;
      return Signature<M, T>::CentralInversion().template Forget<OrthogonalMap>() *
             about<F, M>(n).template Forget<OrthogonalMap>();
    }
  };
  auto const f = make((A*)nullptr, (B*)nullptr, "f");
  auto const g = make((B*)nullptr, (C*)nullptr, "g");
  auto const u = v<Length, A>("u");
  auto const b = bv<Length, A>("b");
  auto const t = tv<Length, A>("t");
  eq((g * f)(u), g(f(u)), "composition", 1e-5);
  eq((g * f)(b), g(f(b)), "composition", 1e-5);
  eq((g * f)(t), g(f(t)), "composition", 1e-5);
  auto const h = (g * f).Inverse();
  auto const k = f.Inverse() * g.Inverse();
  auto const y = v<Length, C>("y");
  eq(h(y), k(y), "inverse of a composition", 1e-5);
}

VF_HARNESS(map_orthogonal_composition) {
  switch (vf_choose(4, "handedness")) {
    case 0: compose_orthogonal<W1, W2, W3>(); break;
    case 1: compose_orthogonal<W1, L1, W3>(); break;
    case 2: compose_orthogonal<W1, W2, L2>(); break;
    case 3: compose_orthogonal<W1, L1, L2>(); break;
  }
}

VF_HARNESS(map_identity) {
  Identity<W1, W2> const i;
  Identity<W2, W3> const j;
  isometry<W1, W2>(i);
  auto const u = v<Length, W1>("iu");
  auto const b = bv<Length, W1>("ib");
  auto const t = tv<Length, W1>("it");
  eq(i(u).coordinates(), u.coordinates(), "identity");
  eq(i(b).coordinates(), b.coordinates(), "identity");
  eq(i(t).coordinates(), t.coordinates(), "identity");
  eq((j * i)(u).coordinates(), u.coordinates(), "composition");
  same<W1, W2>(i.Forget<OrthogonalMap>(), i, "as an orthogonal map");
  eq((OrthogonalMap<W1, W2>::Identity())(u).coordinates(), u.coordinates(), "identity");
}
