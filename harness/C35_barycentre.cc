// Barycentres, intervals, signs, planes and projective points.
//@ entry barycentre mode=real max-seconds=60
//@ entry interval mode=real max-seconds=60
//@ entry sign mode=ieee max-seconds=60
//@ entry plane mode=real max-seconds=60
//@ entry rp2 mode=real max-seconds=60
//@ src $VERIF/rt/elementary.cc
//@ bound Up to 4 points with weights of either sign (total weight at least 0.1), all intervals, all signs and all double-precision numbers, all planes and projective points with finite coordinates of magnitude at most 10.
//@ assume Real arithmetic instead of rounded floating point (except for signs); square roots are exact; infinities of projective points are outside of the bounds.
#include "geo.h"
#include "geometry/barycentre_calculator.hpp"
#include "geometry/interval.hpp"
#include "geometry/plane.hpp"
#include "geometry/rp2_point.hpp"
#include "geometry/sign.hpp"

using namespace vf;
using namespace principia::geometry::_barycentre_calculator;
using namespace principia::geometry::_interval;
using namespace principia::geometry::_plane;
using namespace principia::geometry::_rp2_point;
using namespace principia::geometry::_sign;

VF_HARNESS(barycentre) {
  int const n = 1 + vf_choose(4, "points");
  BarycentreCalculator<Position<W1>, Mass> c;
  BarycentreCalculator<Velocity<W1>, Mass> cv;
  R3Element<Product<Mass, Length>> sum{};
  R3Element<Product<Mass, Speed>> sumv{};
  Mass total{};
  std::vector<Position<W1>> ps;
  std::vector<double> ws;
  for (int i = 0; i < n; ++i) {
    auto const r = r3<Length>("r");
    auto const s = v<Speed, W1>("v");
    Mass const m = q<Mass>("m", 5);
    c.Add(W1::origin + Displacement<W1>(r), m);
    cv.Add(s, m);
    sum += m * r;
    sumv += m * s.coordinates();
    total += m;
    ps.push_back(W1::origin + Displacement<W1>(r));
    ws.push_back(num(m));
    eq(c.weight(), total, "weight");
  }
  vf_assume(num(total) >= 0.1 || num(total) <= -0.1);
  eq((c.Get() - W1::origin).coordinates(), sum / total, "barycentre", 1e-3);
  eq(cv.Get().coordinates(), sumv / total, "barycentre of vectors", 1e-3);
  if (n == 2) {
    eq(Barycentre({ps[0], ps[1]}, {ws[0], ws[1]}), c.Get(), "two points", 1e-3);
    eq((Barycentre({ps[0], ps[1]}) - W1::origin) * 2, (ps[0] - W1::origin) + (ps[1] - W1::origin), "unweighted");
  } else if (n == 3) {
    eq(Barycentre({ps[0], ps[1], ps[2]}, {ws[0], ws[1], ws[2]}), c.Get(), "three points", 1e-3);
    eq((Barycentre({ps[0], ps[1], ps[2]}) - W1::origin) * 3, (ps[0] - W1::origin) + (ps[1] - W1::origin) + (ps[2] - W1::origin), "unweighted");
  }
}

VF_HARNESS(interval) {
  Interval<Instant> a;
  Instant const t0;
  vf_check(a.empty(), "default interval is empty");
  vf_check(a.measure() == Time{}, "default interval has no measure");
  int const n = 1 + vf_choose(3, "points");
  double lo = 0, hi = 0;
  for (int i = 0; i < n; ++i) {
    double const x = vf_real("x", -10, 10);
    a.Include(t0 + x * Second);
    lo = i == 0 || x < lo ? x : lo;
    hi = i == 0 || x > hi ? x : hi;
  }
  eq((a.min - t0) / Second, lo, "min");
  eq((a.max - t0) / Second, hi, "max");
  eq(a.measure() / Second, hi - lo, "measure");
  eq((a.midpoint() - t0) / Second, (lo + hi) / 2, "midpoint");
  vf_check(a.empty() == (hi - lo <= 0), "empty");
  Interval<Instant> const b{.min = t0 + vf_real("b.min", -10, 10) * Second, .max = t0 + vf_real("b.max", -10, 10) * Second};
  auto const c = Intersection(a, b);
  Instant const t = t0 + vf_real("t", -10, 10) * Second;
  auto in = [&](Interval<Instant> const& i) { return i.min <= t && t <= i.max; };
  vf_check(in(c) == (in(a) && in(b)), "intersection");
  vf_check(b.empty() == (b.max <= b.min), "empty");
  vf_check((b.measure() == Time{}) == b.empty(), "empty and measure");
}

VF_HARNESS(sign) {
  double const x = vf_double("x");
  vf_assume(x == x);
  Sign const s(x);
  bool const negative = vf::bits(x) >> 63;
  vf_check(s.is_negative() == negative, "sign of a number");
  vf_check(s.is_positive() == !negative, "sign of a number");
  vf_check(static_cast<int>(s) == (negative ? -1 : 1), "as an integer");
  vf_check(vf::bits(s * x) == (vf::bits(x) & 0x7fff'ffff'ffff'ffff), "magnitude");
  Sign const r(x * Metre);
  vf_check(r == s, "sign of a quantity");
  bool const other = vf_choose(2, "other");
  Sign const t = other ? Sign::Negative() : Sign::Positive();
  vf_check((s * t).is_negative() == (negative != other), "product");
  vf_check((-s).is_negative() == !negative, "opposite");
  vf_check((+s) == s, "plus");
  int const n = vf_bits("n", 32);
  if (n != 0) vf_check(Sign::OfNonZero(n).is_negative() == (n < 0), "sign of an integer");
  principia::serialization::Sign m;
  s.WriteToMessage(&m);
  vf_check(Sign::ReadFromMessage(m) == s, "round trip");
}

VF_HARNESS(plane) {
  auto const r = r3<Length>("n");
  vf_assume(num(r.x) * num(r.x) + num(r.y) * num(r.y) + num(r.z) * num(r.z) >= 0.01);
  Plane<W1> const p = vf_choose(2, "binormal") ? Plane<W1>::OrthogonalTo(Bivector<Length, W1>(r)) : Plane<W1>::OrthogonalTo(Vector<Length, W1>(r));
  auto const u = v<Speed, W1>("u");
  auto const s = Projection(u, p);
  Vector<Length, W1> const n(r);
  eq(InnerProduct(s, n), Product<Speed, Length>{}, "in the plane", 1e-3);
  eq(Wedge(u - s, n).coordinates(), R3Element<Product<Speed, Length>>{}, "orthogonal", 1e-3);
  eq(Projection(s, p), s, "idempotent", 1e-3);
  auto const ns = p.UnitNormals();
  auto const bs = p.UnitBinormals();
  for (int i = 0; i < 2; ++i) {
    eq(ns[i].Norm²(), 1, "unit normal");
    eq(Wedge(ns[i], n).coordinates(), R3Element<Length>{}, "normal", 1e-3);
    eq(bs[i].coordinates(), ns[i].coordinates(), "binormal");
  }
  eq(ns[0], -ns[1], "opposite normals");
}

VF_HARNESS(rp2) {
  Length const x = q<Length>("x"), y = q<Length>("y");
  double const z = vf_real("z", -10, 10);
  double const k = vf_real("k", -10, 10);
  vf_assume(k != 0);
  RP2Point<Length, W1> const p(x, y, z);
  RP2Point<Length, W1> const p2(k * x, k * y, k * z);
  vf_check(p == p2, "homogeneous");
  vf_check(!(p != p2), "homogeneous");
  vf_check(p.is_at_infinity() == (z == 0), "infinity");
  Length const x1 = q<Length>("x1"), y1 = q<Length>("y1");
  double const z1 = vf_real("z1", -10, 10);
  RP2Point<Length, W1> const o(x1, y1, z1);
  bool const zero = num(x) == 0 && num(y) == 0 && z == 0;
  bool const zero1 = num(x1) == 0 && num(y1) == 0 && z1 == 0;
  if (!zero && !zero1) {
    bool const same = num(x) * num(y1) == num(x1) * num(y) && num(x) * z1 == num(x1) * z && num(y) * z1 == num(y1) * z;
    vf_check((p == o) == same, "equality");
  } else {
    vf_check((p == o) == (zero == zero1), "degenerate point");
  }
  if (z != 0) {
    eq(num(p.x()) * z, num(x), "abscissa");
    eq(num(p.y()) * z, num(y), "ordinate");
  }
}
