// Serialization of discrete trajectories: downsampling.
//@ entry after_deserialization mode=real split max-seconds=300
//@ src $VERIF/rt/elementary.cc
//@ src base/zfp_compressor.cpp
//@ bound Segments with a tolerance in [0.1, 10] to which 2 to 4 points with any degrees of freedom (along one axis) are appended, written and read (up to a point which is not the first), then 3 more points are appended.
//@ assume Real arithmetic instead of rounded floating point; the norm of the difference of two interpolations is replaced with an arbitrary upper bound (it is the object of C19); zfp is lossless; the points are at fixed times.
#include "downsampling.h"

VF_HARNESS(after_deserialization) {
  double const τ = vf_real("tolerance", 0.1, 10);
  Trajectory trajectory;
  Segment m;
  trajectory.segments().begin()->SetDownsampling({.tolerance = τ * Metre});
  int const first = 2 + vf_choose(3, "points");
  for (int i = 0; i < first; ++i) append(trajectory, m, τ, times[i], true);
  principia::serialization::DiscreteTrajectory message;
  if (vf_choose(2, "range") == 0) {
    trajectory.WriteToMessage(&message, {}, {});
  } else {
    // The last points are not written.
    int const n = 2 + vf_choose(m.n - 1, "remaining");
    trajectory.WriteToMessage(&message, trajectory.begin(), n == m.n ? trajectory.end() : trajectory.begin() + n, {}, {});
    m.n = n;
  }
  Trajectory read = Trajectory::ReadFromMessage(message, {});
  for (int i = 4; i < 7; ++i) append(read, m, τ, times[i], true);
  verify(read, m);
}
