// Discrete trajectories: downsampling and evaluation.
//@ entry downsampling mode=real split max-seconds=300
//@ entry evaluation mode=real split max-seconds=200
//@ src $VERIF/rt/elementary.cc
//@ bound Segments with a tolerance in [0.1, 10] to which 4 points with any degrees of freedom (along one axis) are appended, then forgotten, moved, detached, attached, merged or serialized, then 2 more points are appended; evaluation at any time, of trajectories of 2 segments.
//@ assume Real arithmetic instead of rounded floating point; the norm of the difference of two interpolations is replaced with an arbitrary upper bound (it is the object of C19); zfp is lossless; the points are at fixed times.
#include "downsampling.h"

VF_HARNESS(downsampling) {
  double const τ = vf_real("tolerance", 0.1, 10);
  int const operation = vf_choose(7, "operation");
  Trajectory trajectory;
  Segment m;
  trajectory.segments().begin()->SetDownsampling({.tolerance = τ * Metre});
  int const first = operation >= 5 ? 2 : 4;
  for (int i = 0; i < first; ++i) append(trajectory, m, τ, times[i], true);
  if (operation == 1) {
    // Forget a suffix.
    int const n = vf_choose(m.n, "remaining") + 1;
    trajectory.ForgetAfter(at(m.points[n - 1].t + 0.5));
    m.n = n;
  } else if (operation == 2) {
    Trajectory moved = std::move(trajectory);
    trajectory = std::move(moved);
  } else if (operation == 3) {
    // Split then join again.
    Trajectory before;
    P const p = m.points[0];
    vf_check(before.Append(at(p.t - 1), dof<World>({p.t - 1, 0, 0})).ok(), "Append");
    vf_check(before.Append(at(p.t), dof<World>(p)).ok(), "Append");
    auto const it = before.AttachSegments(std::move(trajectory));
    if (vf_choose(2, "detach") == 1) {
      trajectory = before.DetachSegments(it);
    } else {
      trajectory = std::move(before);
    }
  } else if (operation == 4) {
    // Into an empty trajectory.
    Trajectory target;
    target.Merge(std::move(trajectory));
    trajectory = std::move(target);
  } else if (operation >= 5) {
    Trajectory later;
    later.segments().begin()->SetDownsampling({.tolerance = τ * Metre});
    Segment l;
    int const n = 1 + vf_choose(3, "later");
    for (int i = 0; i < n; ++i) append(later, l, τ, times[2 + i], true);
    if (operation == 5) {
      trajectory.Merge(std::move(later));
    } else {
      later.Merge(std::move(trajectory));
      trajectory = std::move(later);
    }
    for (int i = 0; i < l.n; ++i) {
      m.points[m.n] = l.points[i];
      m.errors[m.n++] = i == 0 ? 0 : l.errors[i];
    }
  }
  for (int i = 5; i < 7; ++i) append(trajectory, m, τ, times[i], true);
  verify(trajectory, m);
}

VF_HARNESS(evaluation) {
  // Positions and velocities in three dimensions, arbitrary times.
  Trajectory trajectory;
  Instant t[4];
  DegreesOfFreedom<World> d[4] = {{World::origin, Velocity<World>()}, {World::origin, Velocity<World>()}, {World::origin, Velocity<World>()}, {World::origin, Velocity<World>()}};
  double time = vf_real("t0", -100, 100);
  int const split = vf_choose(4, "split");
  for (int i = 0; i < 4; ++i) {
    if (i > 0) time += vf_real("step", 0.1, 10);
    t[i] = at(time);
    d[i] = {World::origin + v<Length, World>("q"), v<Speed, World>("v")};
    vf_check(trajectory.Append(t[i], d[i]).ok(), "Append");
    if (i == split) trajectory.NewSegment();
  }
  int const i = vf_choose(4, "point");
  if (vf_choose(2, "exact") == 1) {
    vf_check(trajectory.EvaluatePosition(t[i]) == d[i].position() && trajectory.EvaluateVelocity(t[i]) == d[i].velocity() &&
             trajectory.EvaluateDegreesOfFreedom(t[i]) == d[i], "at a point");
    return;
  }
  vf_assume(i < 3);
  double const h = num(t[i + 1] - t[i]), u = vf_real("u", 0.01, 0.99);
  Instant const s = t[i] + h * u * Second;
  auto const q = trajectory.EvaluatePosition(s);
  auto const p = trajectory.EvaluateVelocity(s);
  auto const b = trajectory.EvaluateDegreesOfFreedom(s);
  auto const q0 = d[i].position() - World::origin, q1 = d[i + 1].position() - World::origin;
  auto const v0 = d[i].velocity(), v1 = d[i + 1].velocity();
  eq(q - World::origin, q0 * ((1 + 2 * u) * (1 - u) * (1 - u)) + v0 * (u * (1 - u) * (1 - u) * h * Second) +
         q1 * (u * u * (3 - 2 * u)) + v1 * (u * u * (u - 1) * h * Second), "position");
  eq(p, (q1 - q0) * (6 * u * (1 - u) / h) / Second + v0 * ((1 - u) * (1 - 3 * u)) + v1 * (u * (3 * u - 2)), "velocity");
  eq(b.position(), q, "position");
  eq(b.velocity(), p, "velocity");
}
