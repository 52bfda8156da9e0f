// Serialization of discrete trajectories: structure and exact points.
//@ entry range mode=real split max-seconds=300
//@ entry lossy mode=real split max-seconds=300
//@ entry pre_hamilton mode=real split max-seconds=200
//@ src $VERIF/rt/elementary.cc
//@ src base/zfp_compressor.cpp
//@ bound Trajectories of 1 to 3 segments to which 0 to 3 points (2 for the last ones) were appended, the beginning of which was forgotten or not at an arbitrary instant, some segments having downsampling parameters; all pairs of bounds, tracked segments and exact points; then points appended and a segment added; all errors of the lossy compression within its accuracy.
//@ assume zfp is replaced with a stand-in which adds an arbitrary error within the accuracy that it is given; no point is dropped by downsampling (see the other harness); the points are at integral times.
#include "geo.h"
#include "numerics/hermite3.hpp"
#include "geometry/instant.hpp"
using World = principia::geometry::_frame::Frame<principia::serialization::Frame::TestTag, principia::geometry::_frame::NonRotating, principia::geometry::_frame::Handedness::Right, principia::serialization::Frame::TEST1>;
using HermiteDifference = principia::numerics::_hermite3::internal::Hermite3<principia::geometry::_space::Displacement<World>, principia::geometry::_instant::Instant>;
// No point is dropped.
template<>
principia::quantities::_quantities::Length HermiteDifference::LInfinityL₂Norm() const { return 1e3 * principia::quantities::_si::Metre; }
#include "trajectory.h"

using Message = principia::serialization::DiscreteTrajectory;

// Downsampling parameters of the segments.
static double tolerances[3];
static void parameters(Trajectory& trajectory, Model& m) {
  int const which = vf_choose(4, "tolerances");
  int k = 0;
  auto it = trajectory.segments().begin();
  for (; k < m.n; ++k, ++it)
    if (it->size() <= 1) {
      tolerances[k] = which == 3 ? k % 2 * 0.25 : which * 0.25;
      if (tolerances[k] != 0) it->SetDownsampling({.tolerance = tolerances[k] * Metre});
    } else {
      tolerances[k] = 0;
    }
}

static double tolerance_of(Message const& message, int k) {
  for (auto const& e : message.leading_empty_segments()) {
    if (k < e.count()) return e.has_downsampling_parameters() ? e.downsampling_parameters().tolerance().magnitude() : 0;
    k -= e.count();
  }
  vf_check(k < message.segment_size(), "number of segments");
  auto const& s = message.segment(k);
  return s.has_downsampling_parameters() ? s.downsampling_parameters().tolerance().magnitude() : 0;
}

static void check(Trajectory& read, Model& m, std::vector<Trajectory::SegmentIterator> const& tracked, std::vector<int> const& expected) {
  Message again;
  read.WriteToMessage(&again, tracked, {});
  for (int k = 0; k < m.n; ++k) vf_check(tolerance_of(again, k) == tolerances[k], "downsampling parameters");
  for (int i = 0; i < (int)tracked.size(); ++i) {
    if (expected[i] >= m.n) {
      vf_check(tracked[i] == read.segments().end(), "missing tracked segment");
    } else {
      auto it = read.segments().begin();
      for (int k = 0; k < expected[i]; ++k) ++it;
      vf_check(tracked[i] == it, "tracked segment");
    }
  }
  use(read, m);
}

VF_HARNESS(range) {
  Trajectory trajectory;
  Model m;
  make(trajectory, m, true);
  parameters(trajectory, m);
  // All the segments and the end, in reverse order, and the first one again.
  std::vector<Trajectory::SegmentIterator> tracked;
  std::vector<int> expected;
  for (int i = m.n; i >= -1; --i) {
    int const t = i < 0 ? 0 : i;
    auto it = trajectory.segments().begin();
    for (int k = 0; k < t; ++k) ++it;
    tracked.push_back(it);
    expected.push_back(t);
  }
  int const b = m.begin() + vf_choose(m.size() + 1, "begin"), e = b + vf_choose(m.end() - b + 1, "end");
  Message message;
  if (b == m.begin() && e == m.end()) {
    trajectory.WriteToMessage(&message, tracked, {});
  } else {
    trajectory.WriteToMessage(&message, trajectory.begin() + (b - m.begin()), e == m.end() ? trajectory.end() : trajectory.begin() + (e - m.begin()), tracked, {});
  }
  verify(trajectory, m);
  // The segments after the range are dropped, the ones before it are empty.
  int n = 0;
  bool seen = false;
  for (int k = 0; k < m.n; ++k) {
    if (!m.void_(k)) {
      if (m.first[k] < b) m.first[k] = b;
      if (m.last[k] >= e) m.last[k] = e - 1;
    }
    if (m.void_(k)) {
      m.first[k] = 0;
      m.last[k] = -1;
      if (seen) break;
    } else {
      seen = true;
    }
    n = k + 1;
  }
  m.n = n;
  std::vector<Trajectory::SegmentIterator> restored(tracked.size());
  std::vector<Trajectory::SegmentIterator*> pointers;
  for (auto& r : restored) pointers.push_back(&r);
  Trajectory read = Trajectory::ReadFromMessage(message, pointers);
  check(read, m, restored, expected);
}

// The error of the compression is an arbitrary one within the accuracy.
static double accuracies[8];
static int accurate;
static double error(double const accuracy) {
  return accuracy * vf_real("error", -1, 1);
}

VF_HARNESS(lossy) {
  double const τ = vf_choose(2, "downsampling") == 1 ? vf_real("tolerance", 0.1, 10) : 0;
  double const step = vf_real("step", 1, 3);
  Trajectory trajectory;
  DegreesOfFreedom<World> d[6] = {{World::origin, Velocity<World>()}, {World::origin, Velocity<World>()}, {World::origin, Velocity<World>()}, {World::origin, Velocity<World>()}, {World::origin, Velocity<World>()}, {World::origin, Velocity<World>()}};
  double times[6] = {0, 1, 1 + step, 2 + step, 4 + step, 4.5 + step};
  if (τ != 0) trajectory.segments().begin()->SetDownsampling({.tolerance = τ * Metre});
  int const split = 3 + vf_choose(2, "split");
  for (int i = 0; i < 6; ++i) {
    d[i] = {World::origin + v<Length, World>("q"), v<Speed, World>("v")};
    vf_check(trajectory.Append(at(times[i]), d[i]).ok(), "Append");
    if (i == split) trajectory.NewSegment();
  }
  int const exact = vf_choose(6, "exact");
  Message message;
  vf_zfp_error = &error;
  trajectory.WriteToMessage(&message, {}, {trajectory.find(at(times[exact]))});
  Trajectory read = Trajectory::ReadFromMessage(message, {});
  vf_check(read.size() == 6 && read.segments().size() == 2, "size");
  double max_step = 1;
  for (int i = 1; i <= split; ++i) if (times[i] - times[i - 1] > max_step) max_step = times[i] - times[i - 1];
  int i = 0;
  for (auto const& [t, p] : read) {
    vf_check(t == at(times[i]), "time");
    // The second segment has no downsampling.
    if (τ == 0 || i == exact || i == 0 || i >= split) {
      vf_check(p == d[i], "exact point");
    } else {
      auto const Δq = (p.position() - d[i].position()).coordinates();
      auto const Δv = (p.velocity() - d[i].velocity()).coordinates();
      for (auto x : {Δq.x, Δq.y, Δq.z}) vf_check(x <= τ * Metre && x >= -τ * Metre, "position within the tolerance");
      for (auto x : {Δv.x, Δv.y, Δv.z}) vf_check(x * (max_step * Second) <= τ * Metre && x * (max_step * Second) >= -τ * Metre, "velocity within the tolerance");
    }
    ++i;
  }
}

VF_HARNESS(pre_hamilton) {
  // A message of the old form: each trajectory has its own points, without the one of the fork.
  Model m;
  int const segments = 1 + vf_choose(3, "segments");
  bool const zfp = vf_choose(2, "zfp") == 1;
  std::vector<Message> messages(segments);
  int t = 0;
  int const which = vf_choose(3, "tolerances");
  for (int k = 0; k < segments; ++k) {
    if (k > 0) m.new_segment();
    int const points = (k == 0 ? 1 : 0) + vf_choose(3, "points");
    Message& message = messages[k];
    if (zfp) {
      Trajectory part;
      for (int i = 0; i < points; ++i) vf_check(part.Append(at(t + i), dof(t + i)).ok(), "Append");
      Message modern;
      principia::serialization::DiscreteTrajectory* const p = &modern;
      part.WriteToMessage(p, {}, {});
      if (points == 0) {
        *message.mutable_zfp() = principia::serialization::DiscreteTrajectorySegment::Zfp();
        message.mutable_zfp()->set_codec_version(ZFP_CODEC);
        message.mutable_zfp()->set_library_version(ZFP_VERSION);
        message.mutable_zfp()->set_timeline_size(0);
        message.mutable_zfp()->set_timeline("");
      } else {
        *message.mutable_zfp() = modern.segment(0).zfp();
        *message.mutable_exact() = modern.segment(0).exact();
      }
      message.mutable_zfp()->clear_is_lefschetz_timeline();
    } else {
      for (int i = 0; i < points; ++i) {
        auto* const point = message.add_timeline();
        at(t + i).WriteToMessage(point->mutable_instant());
        dof(t + i).WriteToMessage(point->mutable_degrees_of_freedom());
      }
    }
    for (int i = 0; i < points; ++i) m.append(t++);
    tolerances[k] = which == 0 ? 0 : which == 1 ? 0.25 : k % 2 * 0.25;
    if (tolerances[k] != 0) (tolerances[k] * Metre).WriteToMessage(message.mutable_downsampling()->mutable_tolerance());
  }
  int const tracked = segments > 1 ? vf_choose(segments, "tracked") : 0;
  for (int k = segments - 2; k >= 0; --k) {
    auto* const child = messages[k].add_children();
    at(m.last[k]).WriteToMessage(child->mutable_fork_time());
    *child->add_trajectories() = messages[k + 1];
    if (tracked == k + 1) messages[k].add_fork_position(0);
  }
  Trajectory::SegmentIterator r;
  Trajectory read = Trajectory::ReadFromMessage(messages[0], {&r});
  verify(read, m);
  if (tracked > 0) {
    auto it = read.segments().begin();
    for (int k = 0; k < tracked; ++k) ++it;
    vf_check(r == it, "tracked segment");
  }
  Message again;
  read.WriteToMessage(&again, {}, {});
  for (int k = 0; k < m.n; ++k) vf_check(tolerance_of(again, k) == tolerances[k], "downsampling parameters");
  // The interpolations are all there.
  if (m.size() > 1) {
    double const s = vf_real("time", 0, 20);
    vf_assume(s <= m.end() - 1);
    auto const q = (read.EvaluatePosition(at(s)) - World::origin).coordinates();
    vf_check(q.x >= 0 * Metre && q.x <= m.end() * Metre, "evaluation");
  }
  use(read, m);
}
