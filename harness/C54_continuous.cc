// The continuous trajectories.
//@ entry continuous_span mode=real split max-seconds=150
//@ entry continuous_lookup mode=real split max-seconds=150
//@ entry continuous_degrees mode=real max-seconds=200
//@ entry continuous_prepend mode=real split max-seconds=150
//@ entry continuous_motion mode=real max-seconds=150
//@ entry continuous_checkpoint mode=real max-seconds=150
//@ entry continuous_saved mode=real max-seconds=150
//@ src $VERIF/rt/elementary.cc
//@ src base/flags.cpp
//@ bound Up to 41 points (5 polynomials) and any times of evaluation, in any order for 2 of them; degrees 3 to 17, ages up to 200, all the error estimates and tolerances in [1e-3, 1e9]; prefixes of up to 2 polynomials; checkpoints in a trajectory of 3 polynomials.
//@ assume Real arithmetic instead of rounded floating point; the steps are powers of 2 and the times of the points are concrete; the error estimates are not 0.
#include "quiet_streams.h"
#include "geo.h"
#include <functional>
#include <memory>
#include <vector>
#include "physics/continuous_trajectory.hpp"
#include "physics/degrees_of_freedom.hpp"

using namespace vf;
using namespace principia::base::_not_null;
using namespace principia::numerics::_polynomial;
using namespace principia::numerics::_polynomial_evaluators;
using namespace principia::numerics::_polynomial_in_monomial_basis;
using namespace principia::physics::_continuous_trajectory;
using namespace principia::physics::_degrees_of_freedom;

namespace principia::geometry::_point::internal {
std::string DebugString(Instant const&) { return "an instant"; }
}

namespace {
using World = Frame<principia::serialization::Frame::TestTag, Inertial, Handedness::Right, principia::serialization::Frame::TEST1>;
using D = Displacement<World>;
using V = Velocity<World>;
using Message = principia::serialization::ContinuousTrajectory;

Instant at(double t) { return Instant() + t * Second; }
D metres(double x) { return D({x * Metre, 0 * Metre, 0 * Metre}); }
V speed(double x) { return V({x * (Metre / Second), 0 * (Metre / Second), 0 * (Metre / Second)}); }
DegreesOfFreedom<World> dof(double x, double v) { return {World::origin + metres(x), speed(v)}; }
double x(Position<World> const& p) { return num((p - World::origin).coordinates().x); }
double x(V const& v) { return num(v.coordinates().x); }
constexpr double step = 0.5;

// A polynomial that is recognizable.
class Fake : public Polynomial<Position<World>, Instant> {
 public:
  Fake(int degree, double a, double b) : degree_(degree), a_(a), b_(b) {}
  int degree() const override { return degree_; }
  bool is_zero() const override { return false; }
  void WriteToMessage(not_null<principia::serialization::Polynomial*>) const override { vf_fail("Not written"); }

 protected:
  Position<World> VirtualEvaluate(Instant t) const override { return World::origin + metres(a_ + b_ * num(t - Instant())); }
  Derivative<Position<World>, Instant> VirtualEvaluateDerivative(Instant) const override { return speed(b_); }
  void VirtualEvaluateWithDerivative(Instant t, Position<World>& value, Derivative<Position<World>, Instant>& derivative) const override {
    value = VirtualEvaluate(t);
    derivative = VirtualEvaluateDerivative(t);
  }

 private:
  int degree_;
  double a_, b_;
};

// The approximations that are requested.
struct Request {
  int degree;
  double first, last;  // The positions at the bounds.
  Instant t_min, t_max;
};
class Scripted : public ContinuousTrajectory<World> {
 public:
  std::function<double(Request const&)> error = [](Request const&) { return 1.0 / 16; };
  mutable std::vector<Request> requests;
  Scripted(Time const& step, Length const& tolerance) : ContinuousTrajectory(step, tolerance) {}
  // The values of the polynomial of rank n.
  static double a(int n) { return 10 + n * n; }
  static double b(int n) { return n + 1; }

  not_null<std::unique_ptr<Polynomial<Position<World>, Instant>>> NewhallApproximationInMonomialBasis(
      int degree, std::vector<DegreesOfFreedom<World>> const& all, Instant const& t_min, Instant const& t_max,
      Displacement<World>& error_estimate) const override {
    vf_check(all.size() == 9, "An approximation uses 9 points");
    for (int i = 0; i < 9; ++i) {
      eq(x(all[i].position()), x(all[0].position()) + i, "The positions of the points");
      eq(x(all[i].velocity()), -x(all[i].position()), "The velocities of the points");
    }
    Request const r{degree, x(all[0].position()), x(all[8].position()), t_min, t_max};
    requests.push_back(r);
    error_estimate = metres(error(r));
    int const n = requests.size() - 1;
    return not_null<std::unique_ptr<Polynomial<Position<World>, Instant>>>(std::make_unique<Fake>(degree, a(n), b(n)));
  }
};
// Appends points from..to; the point i is at i * step.
void append(Scripted& s, int from, int to, double t0 = 0) {
  for (int i = from; i <= to; ++i) {
    auto const status = s.Append(at(t0 + i * step), dof(i, -i));
    vf_check(status.ok(), "The points are appended");
  }
}
}  // namespace

VF_HARNESS(continuous_span) {
  Scripted s(step * Second, 1 * Metre);
  double const t0 = vf_choose(2, "start") == 0 ? 0 : -8;
  vf_check(s.empty() && s.average_degree() == 0, "A new trajectory is empty");
  vf_check(s.t_min() == InfiniteFuture && s.t_max() == InfinitePast, "The times of an empty trajectory");
  for (int i = 0; i <= 33; ++i) {
    append(s, i, i, t0);
    int const polynomials = i / 8;
    vf_check(static_cast<int>(s.requests.size()) == polynomials, "A polynomial for 8 steps");
    vf_check(s.empty() == (polynomials == 0), "A trajectory is empty until it can be evaluated");
    if (polynomials == 0) {
      vf_check(s.t_min() == InfiniteFuture && s.t_max() == InfinitePast && s.t_min_locked() == InfiniteFuture && s.t_max_locked() == InfinitePast, "The times of an empty trajectory");
    } else {
      vf_check(s.t_min() == at(t0) && s.t_min_locked() == at(t0), "The first time is that of the first point");
      vf_check(s.t_max() == at(t0 + polynomials * 8 * step) && s.t_max_locked() == s.t_max(), "The last time is that of the last polynomial");
      eq(s.average_degree(), 3, "The average degree");
    }
  }
  for (int p = 0; p < 4; ++p) {
    Request const& r = s.requests[p];
    vf_check(r.t_min == at(t0 + 8 * p * step) && r.t_max == at(t0 + 8 * (p + 1) * step), "The intervals of the polynomials");
    vf_check(r.first == 8 * p && r.last == 8 * (p + 1), "The points of the polynomials");
    vf_check(r.degree == 3, "The lowest degree is enough");
  }
}

VF_HARNESS(continuous_lookup) {
  Scripted s(step * Second, 1 * Metre);
  append(s, 0, 41);
  vf_check(s.requests.size() == 5, "There are 5 polynomials");
  auto const look = [&](char const* name) {
    double const t = vf_real(name, 0, 20);
    int n = 0;
    // The polynomial of rank n holds until 4 n + 4.
    while (t > 4 * n + 4) ++n;
    double const expected = s.a(n) + s.b(n) * t;
    switch (vf_choose(3, "function")) {
      case 0:
        eq(x(s.EvaluatePosition(at(t))), expected, "The position");
        break;
      case 1:
        eq(x(s.EvaluateVelocity(at(t))), s.b(n), "The velocity");
        break;
      case 2: {
        auto const d = s.EvaluateDegreesOfFreedom(at(t));
        eq(x(d.position()), expected, "The position of the degrees of freedom");
        eq(x(d.velocity()), s.b(n), "The velocity of the degrees of freedom");
      }
    }
  };
  look("t1");
  look("t2");
  vf_check(s.t_min() == at(0) && s.t_max() == at(20), "The bounds don't depend on the evaluations");
}

// The choice of the degree for one polynomial, from any state.
VF_HARNESS(continuous_degrees) {
  double const tolerance = vf_real("tolerance", 1e-3, 100);
  Scripted s(step * Second, tolerance * Metre);
  // Put the trajectory in any state.
  double adjusted = vf_real("adjusted_tolerance", 1e-3, 100);
  vf_assume(adjusted >= tolerance);
  bool unstable = vf_choose(2, "unstable");
  int degree = 3 + vf_choose(15, "degree");
  int const ages[] = {0, 1, 57, 99, 100, 101, 200};
  int age = ages[vf_choose(7, "age")];
  {
    Message::Checkpoint checkpoint;
    at(0).WriteToMessage(checkpoint.mutable_time());
    (adjusted * Metre).WriteToMessage(checkpoint.mutable_adjusted_tolerance());
    checkpoint.set_is_unstable(unstable);
    checkpoint.set_degree(degree);
    checkpoint.set_degree_age(age);
    for (int i = 0; i < 8; ++i) {
      auto* const p = checkpoint.add_last_point();
      at(i * step).WriteToMessage(p->mutable_instant());
      dof(i, -i).WriteToMessage(p->mutable_degrees_of_freedom());
    }
    vf_check(s.MakeCheckpointerReader()(checkpoint).ok(), "The checkpoint is read");
  }
  std::vector<double> errors;
  s.error = [&](Request const&) {
    double const e = vf_real("error", 1e-3, 1e9);
    errors.push_back(e);
    return e;
  };
  auto const status = s.Append(at(8 * step), dof(8, -8));

  // What should have been done.
  double const initial = adjusted;
  std::vector<int> degrees;
  std::size_t used = 0;
  auto const attempt = [&] {
    degrees.push_back(degree);
    vf_check(used < errors.size(), "The approximation is tried with the degree needed");
    return errors[used++];
  };
  if (age >= 100) {
    unstable = false;
    adjusted = tolerance;
    degree = 3;
    age = 0;
  }
  double e = attempt();
  if (unstable && e > adjusted) {
    unstable = false;
    adjusted = tolerance;
    degree = 3;
    age = 0;
    e = attempt();
  }
  while (e > adjusted && degree < 17) {
    double const previous = e;
    ++degree;
    e = attempt();
    if (e >= previous) {
      // It doesn't improve.
      unstable = true;
      if (previous > adjusted) adjusted = previous;
      --degree;
      break;
    }
  }
  ++age;
  vf_check(used == errors.size(), "No more degrees are tried than necessary");
  for (std::size_t i = 0; i < used && i < s.requests.size(); ++i) {
    vf_check(s.requests[i].degree == degrees[i], "The degrees increase from the current one, or from the lowest one after a restart");
    vf_check(s.requests[i].t_min == at(0) && s.requests[i].t_max == at(4), "The interval of the approximations");
  }
  Message::Checkpoint checkpoint;
  s.MakeCheckpointerWriter()(&checkpoint);
  vf_check(checkpoint.degree() == degree, "The degree to be used next");
  vf_check(checkpoint.degree_age() == age, "The age of the degree");
  vf_check(checkpoint.is_unstable() == unstable, "Whether the approximations are unstable");
  eq(num(Length::ReadFromMessage(checkpoint.adjusted_tolerance())), adjusted, "The tolerance adjusted to what can be reached");
  vf_check(status.ok() == (adjusted < 1e6 * initial), "An explosion of the error is reported");
  if (!status.ok()) vf_check(absl::IsInvalidArgument(status), "The status for an explosion");
  // The last approximation is used in any case.
  int const last = s.requests.size() - 1;
  eq(x(s.EvaluateVelocity(at(2))), s.b(last), "The polynomial used is the last one");
  eq(s.average_degree(), degrees.back(), "The degree of the polynomial");
  vf_check(checkpoint.last_point_size() == 1, "The last point starts the next polynomial");
  vf_check(Instant::ReadFromMessage(checkpoint.last_point(0).instant()) == at(4), "The time of the last point");
}

VF_HARNESS(continuous_prepend) {
  int const pieces1 = vf_choose(3, "prefix"), pieces2 = vf_choose(3, "suffix");
  int const start = 8 * pieces1;
  Scripted prefix(step * Second, 1 * Metre);
  Scripted s(step * Second, 1 * Metre);
  // The prefix may have more points than necessary.
  append(prefix, 0, start + 3);
  bool const pointless = pieces2 == 0 && vf_choose(2, "points") == 0;
  if (!pointless) append(s, start, start + 8 * pieces2 + 2);
  bool const evaluated = vf_choose(2, "evaluated");
  if (evaluated && pieces1 > 0) prefix.EvaluatePosition(at(4.0 * pieces1));
  if (evaluated && pieces2 > 0) s.EvaluatePosition(at(4.0 * (pieces1 + pieces2)));
  s.Prepend(std::move(prefix));
  int const pieces = pieces1 + pieces2;
  vf_check(s.empty() == (pieces == 0), "The emptiness after prepending");
  if (pieces == 0) return;
  vf_check(s.t_min() == at(4 * (pieces1 == 0 ? pieces1 : 0)), "The first time is that of the prefix");
  vf_check(s.t_max() == at(4 * pieces), "The last time doesn't change");
  double const t = vf_real("t", 0, 4 * pieces);
  int n = 0;
  while (t > 4 * n + 4) ++n;
  int const rank = n < pieces1 ? n : n - pieces1;
  eq(x(s.EvaluatePosition(at(t))), s.a(rank) + s.b(rank) * t, "The positions come from the prefix or from the trajectory");
  // The trajectory may still be appended to.
  int const next = pieces2 == 0 ? start + 4 : start + 8 * pieces2 + 3;
  s.requests.clear();
  append(s, next, 8 * (pieces + 1));
  vf_check(s.t_max() == at(4 * (pieces + 1)), "The trajectory is extended after prepending");
  vf_check(s.requests.size() == 1 && s.requests[0].t_min == at(4 * pieces) && s.requests[0].t_max == at(4 * (pieces + 1)), "The extension is contiguous");
}

namespace {
// A motion of degree 3.
struct Cubic {
  double c[3][4];
  Cubic() {
    for (auto& d : c) for (double& e : d) e = vf_real("c", -1, 1);
  }
  Position<World> position(double t) const {
    double p[3];
    for (int i = 0; i < 3; ++i) p[i] = ((c[i][3] * t + c[i][2]) * t + c[i][1]) * t + c[i][0];
    return World::origin + D({p[0] * Metre, p[1] * Metre, p[2] * Metre});
  }
  V velocity(double t) const {
    double p[3];
    for (int i = 0; i < 3; ++i) p[i] = (3 * c[i][3] * t + 2 * c[i][2]) * t + c[i][1];
    return V({p[0] * (Metre / Second), p[1] * (Metre / Second), p[2] * (Metre / Second)});
  }
  DegreesOfFreedom<World> operator()(double t) const { return {position(t), velocity(t)}; }
};
void close(DegreesOfFreedom<World> const& actual, DegreesOfFreedom<World> const& expected, char const* id) {
  auto const a = (actual.position() - World::origin).coordinates(), e = (expected.position() - World::origin).coordinates();
  auto const v = actual.velocity().coordinates(), w = expected.velocity().coordinates();
  vf_near(num(a.x), num(e.x), 1e-8, id);
  vf_near(num(a.y), num(e.y), 1e-8, id);
  vf_near(num(a.z), num(e.z), 1e-8, id);
  vf_near(num(v.x), num(w.x), 1e-8, id);
  vf_near(num(v.y), num(w.y), 1e-8, id);
  vf_near(num(v.z), num(w.z), 1e-8, id);
}
}  // namespace

// With the true approximations.
VF_HARNESS(continuous_motion) {
  ContinuousTrajectory<World> s(0.125 * Second, 1 * Metre);
  Cubic const c;
  double const t0 = -1;
  for (int i = 0; i <= 16; ++i) vf_check(s.Append(at(t0 + 0.125 * i), c(t0 + 0.125 * i)).ok(), "The points are appended");
  double const t = vf_real("t", -1, 1);
  close(s.EvaluateDegreesOfFreedom(at(t)), c(t), "A cubic motion is reproduced");
  close({s.EvaluatePosition(at(t)), s.EvaluateVelocity(at(t))}, c(t), "A cubic motion is reproduced by the position and the velocity");
}

// Going back to a state that was written.
VF_HARNESS(continuous_checkpoint) {
  Scripted s(step * Second, 1 * Metre);
  int const points = vf_choose(25, "points");  // The number of points at the checkpoint.
  if (points > 0) append(s, 0, points - 1);
  Message::Checkpoint before, after;
  s.MakeCheckpointerWriter()(&before);
  int const in_polynomials = points == 0 ? 0 : (points - 1) / 8;
  vf_check(before.last_point_size() == (points == 0 ? 0 : points - 8 * in_polynomials), "The points that are not in a polynomial are written");
  for (int i = 0; i < before.last_point_size(); ++i) {
    int const n = 8 * in_polynomials + i;
    vf_check(Instant::ReadFromMessage(before.last_point(i).instant()) == at(step * n), "The times of the last points");
    auto const d = DegreesOfFreedom<World>::ReadFromMessage(before.last_point(i).degrees_of_freedom());
    vf_check(x(d.position()) == n && x(d.velocity()) == -n, "The degrees of freedom of the last points");
  }
  bool const fresh = vf_choose(2, "fresh");
  if (!fresh) {
    int const to = points + vf_choose(10, "more") - 1;
    append(s, points, to);
    if (!s.empty()) s.EvaluatePosition(s.t_max());
    vf_check(s.MakeCheckpointerReader()(before).ok(), "The checkpoint is read");
    s.MakeCheckpointerWriter()(&after);
    vf_check(after.last_point_size() == before.last_point_size() && after.degree() == before.degree() && after.degree_age() == before.degree_age() &&
             after.is_unstable() == before.is_unstable(), "The state is restored");
    vf_check(s.empty() == (in_polynomials == 0), "The polynomials after the checkpoint are dropped");
    if (in_polynomials > 0) {
      vf_check(s.t_min() == at(0) && s.t_max() == at(4 * in_polynomials), "The times after going back");
      double const t = vf_real("t", 0, 4 * in_polynomials);
      int n = 0;
      while (t > 4 * n + 4) ++n;
      eq(x(s.EvaluatePosition(at(t))), s.a(n) + s.b(n) * t, "The polynomials before the checkpoint remain");
    }
    s.requests.clear();
    append(s, points, 8 * (in_polynomials + 1));
    vf_check(s.requests.size() == 1 && s.requests[0].t_min == at(4 * in_polynomials), "The trajectory is extended from the checkpoint");
    vf_check(s.t_min() == at(0) && s.t_max() == at(4 * (in_polynomials + 1)), "The extended trajectory");
  } else {
    // In an empty trajectory, only what follows the checkpoint can be rebuilt.
    Scripted r(step * Second, 1 * Metre);
    vf_check(r.MakeCheckpointerReader()(before).ok(), "The checkpoint is read in another trajectory");
    vf_check(r.empty(), "There are no polynomials yet");
    append(r, points, 8 * (in_polynomials + 1));
    vf_check(r.requests.size() == 1 && r.t_min() == at(4 * in_polynomials) && r.t_max() == at(4 * (in_polynomials + 1)), "The rebuilt trajectory starts at the checkpoint");
    eq(x(r.EvaluateVelocity(at(4 * in_polynomials + 2))), r.b(0), "The rebuilt polynomial");
  }
}

// Written and read.
VF_HARNESS(continuous_saved) {
  Cubic const c;
  double const h = 0.125;
  ContinuousTrajectory<World> s(h * Second, 0.5 * Metre);
  auto const add = [&](ContinuousTrajectory<World>& s, int from, int to) {
    for (int i = from; i <= to; ++i) vf_check(s.Append(at(h * i), c(h * i)).ok(), "The points are appended");
  };
  // The oldest checkpoint, and possibly another one.
  int const oldest = vf_choose(2, "oldest") == 0 ? 0 : 11;
  int const newest = vf_choose(2, "newest") == 0 ? 19 : oldest;
  add(s, 0, oldest);
  s.WriteToCheckpoint(at(h * oldest));
  add(s, oldest + 1, 19);
  if (newest != oldest) s.WriteToCheckpoint(at(h * newest));
  add(s, 20, 26);
  Message message;
  s.WriteToMessage(&message);
  vf_check(message.instant_polynomial_pair_size() == oldest / 8, "The polynomials until the oldest checkpoint are written");
  vf_check(message.checkpoint_size() == (newest == oldest ? 1 : 2), "All the checkpoints are written");
  int const desired = vf_choose(2, "desired") == 0 ? oldest : newest;
  auto const r = ContinuousTrajectory<World>::ReadFromMessage(at(h * desired), message);
  int const start = desired / 8;
  // The polynomials that are known at once are those until the oldest checkpoint.
  vf_check(r->empty() == (oldest / 8 == 0), "The polynomials that are read");
  if (desired == oldest) {
    add(*r, oldest + 1, 25);
    vf_check(r->t_min() == at(0) && r->t_max() == at(3), "The trajectory is rebuilt");
    double const t = vf_real("t", 0, 3);
    close(r->EvaluateDegreesOfFreedom(at(t)), c(t), "The motion is the same after reading");
  } else {
    if (r->empty()) {
      add(*r, newest + 1, 25);
      vf_check(r->t_min() == at(2) && r->t_max() == at(3), "The trajectory is rebuilt from the checkpoint");
      double const t = vf_real("t", 2, 3);
      close(r->EvaluateDegreesOfFreedom(at(t)), c(t), "The motion is the same after reading");
    }
  }
  vf_check(num(Time::ReadFromMessage(message.step())) == h && num(Length::ReadFromMessage(message.tolerance())) == 0.5, "The parameters are written");
  Message again;
  r->WriteToMessage(&again);
  vf_check(again.checkpoint_size() == message.checkpoint_size() && again.instant_polynomial_pair_size() == message.instant_polynomial_pair_size(),
           "The trajectory is written again as it was read");
  vf_check(num(Time::ReadFromMessage(again.step())) == h && num(Length::ReadFromMessage(again.tolerance())) == 0.5, "The parameters are read");
}
