// Discrete trajectories: structure.
//@ entry forget_after mode=real split max-seconds=300
//@ entry forget_before mode=real split max-seconds=300
//@ entry detach_attach mode=real split max-seconds=300
//@ entry delete_segments mode=real split max-seconds=300
//@ entry iterators mode=real split max-seconds=300
//@ entry attach mode=real split max-seconds=300
//@ entry merge mode=real split max-seconds=300
//@ src $VERIF/rt/elementary.cc
//@ bound Trajectories of 1 to 3 segments to which 0 to 3 points (2 for the last ones) were appended, the beginning of which was forgotten or not at an arbitrary instant; then one operation, then points appended and a segment added; lookups, operations at all instants (64-bit floating-point numbers).
//@ assume The points are at integral times.
#include "trajectory.h"

VF_HARNESS(forget_after) {
  Trajectory trajectory;
  Model m;
  make(trajectory, m, true);
  double const s = vf_real("t", -50, 50);
  vf_assume(s > -100 && s < 100);
  trajectory.ForgetAfter(at(s));
  if (m.empty() || s < m.begin()) {
    m = Model();
  } else {
    for (int k = 0; k < m.n; ++k) {
      // A segment that has several points keeps the one that starts the next one.
      bool const keep = k < m.n - 1 && m.last[k] > m.first[k] && m.last[k] == s;
      if (m.void_(k) || keep) continue;
      while (!m.void_(k) && m.last[k] >= s) --m.last[k];
      if (m.void_(k)) {
        m.n = k == 0 ? 1 : k;
        if (k == 0) m.first[0] = 0, m.last[0] = -1;
        break;
      }
    }
  }
  use(trajectory, m);
}

VF_HARNESS(forget_before) {
  Trajectory trajectory;
  Model m;
  make(trajectory, m, true);
  double const s = vf_real("t", -50, 50);
  vf_assume(s > -100 && s < 100);
  before(trajectory, m, s);
  use(trajectory, m);
}

VF_HARNESS(detach_attach) {
  Trajectory trajectory;
  Model m;
  make(trajectory, m, true);
  vf_assume(m.n > 1);
  int const k = 1 + vf_choose(m.n - 1, "segment");
  vf_assume(!m.void_(k) || m.empty());
  auto it = trajectory.segments().begin();
  for (int i = 0; i < k; ++i) ++it;
  Trajectory detached = trajectory.DetachSegments(it);
  Model d;
  d.n = m.n - k;
  for (int i = 0; i < d.n; ++i) {
    d.first[i] = m.first[k + i];
    d.last[i] = m.last[k + i];
  }
  m.n = k;
  verify(trajectory, m);
  verify(detached, d);
  // The iterator is still valid.
  vf_check(it->size() == d.last[0] - d.first[0] + 1, "iterator");
  if (d.empty()) {
    use(detached, d);
    use(trajectory, m);
    return;
  }
  vf_check(it->front().time == at(d.first[0]), "iterator");
  int const gap = vf_choose(3, "gap");
  if (gap > 0 && !m.empty()) {
    // Forget the end of the first trajectory, without changing its segments, or the beginning of the detached one.
    if (gap == 1) {
      vf_assume(m.last[k - 1] > m.first[k - 1]);
      --m.last[k - 1];
      trajectory.ForgetAfter(at(m.last[k - 1] + 1));
    } else {
      vf_assume(d.last[0] > d.first[0]);
      ++d.first[0];
      detached.ForgetBefore(at(d.first[0]));
    }
    verify(trajectory, m);
    verify(detached, d);
    // A point is prepended.
    --d.first[0];
    vf_assume(gap != 1 || d.first[0] == m.last[k - 1]);
  }
  bool const nothing = m.empty();
  auto const attached = trajectory.AttachSegments(std::move(detached));
  vf_check(attached->size() == d.last[0] - d.first[0] + 1, "attached");
  if (nothing) {
    m = d;
  } else {
    for (int i = 0; i < d.n; ++i) {
      m.first[k + i] = d.first[i];
      m.last[k + i] = d.last[i];
    }
    m.n = k + d.n;
  }
  use(trajectory, m);
}

VF_HARNESS(delete_segments) {
  Trajectory trajectory;
  Model m;
  make(trajectory, m, true);
  int const k = vf_choose(m.n + 1, "segment");
  if (k == 0) {
    auto const first = trajectory.segments().begin();
    trajectory.clear();
    m = Model();
    vf_check(first == trajectory.segments().begin() && first->empty(), "iterator to the first segment");
  } else {
    auto it = trajectory.segments().begin();
    for (int i = 0; i < k; ++i) ++it;
    trajectory.DeleteSegments(it);
    vf_check(it == trajectory.segments().end(), "iterator is past the end");
    m.n = k;
    if (m.empty()) {
      // The new segments may be added only if the trajectory is empty.
      verify(trajectory, m);
    }
  }
  // Moving does not change anything.
  Trajectory moved = std::move(trajectory);
  use(moved, m);
}

VF_HARNESS(iterators) {
  Trajectory trajectory;
  Model m;
  make(trajectory, m, true);
  vf_assume(!m.empty());
  int const b = m.begin(), e = m.end();
  for (int i = b; i <= e; ++i) {
    // From the beginning or from the point found.
    auto const it = i == e ? trajectory.end() : trajectory.find(at(i));
    for (int j = b; j <= e; ++j) {
      auto const jt = j == e ? trajectory.end() : trajectory.find(at(j));
      auto const kt = it + (j - i), lt = it - (i - j);
      vf_check(kt == jt && lt == jt, "sum");
      if (j < e) vf_check(kt->time == at(j) && lt->time == at(j) && it[j - i].time == at(j), "sum");
      if (j >= i) vf_check(jt - it == j - i && kt - it == j - i, "difference");
      vf_check((it == jt) == (i == j) && (it != jt) == (i != j), "equality");
      vf_check((it < jt) == (i < j) && (it > jt) == (i > j) && (it <= jt) == (i <= j) && (it >= jt) == (i >= j), "order");
    }
  }
  // Starting at the beginning of each segment.
  int k = 0;
  for (auto const& segment : trajectory.segments()) {
    if (!m.void_(k))
      for (int j = b; j <= e; ++j) {
        auto const kt = segment.begin() + (j - m.first[k]);
        vf_check(j == e ? kt == trajectory.end() : kt->time == at(j), "sum from segment");
        vf_check(j < m.first[k] || kt - segment.begin() == j - m.first[k], "difference from segment");
        auto const lt = segment.end() - (m.last[k] + 1 - j);
        vf_check(j == e ? lt == trajectory.end() : lt->time == at(j), "difference from end of segment");
      }
    ++k;
  }
}

VF_HARNESS(attach) {
  Trajectory other;
  Model d;
  make(other, d, true, 5);
  vf_assume(!d.empty() && !d.void_(0));
  Trajectory trajectory;
  Model m;
  int const segments = vf_choose(3, "segments_before"), join = vf_choose(2, "joins");
  int t = d.first[0] - 3 + join;
  for (int k = 0; k < segments; ++k) {
    if (k > 0) {
      trajectory.NewSegment();
      m.new_segment();
    } else {
      append(trajectory, m, t++);
    }
    append(trajectory, m, t++);
    if (segments == 1) append(trajectory, m, t++);
  }
  bool const nothing = m.empty();
  auto const attached = trajectory.AttachSegments(std::move(other));
  if (nothing) {
    m = d;
  } else {
    if (join == 0) --d.first[0];
    for (int i = 0; i < d.n; ++i) {
      m.first[m.n + i] = d.first[i];
      m.last[m.n + i] = d.last[i];
    }
    m.n += d.n;
  }
  vf_check(attached->size() == d.last[0] - d.first[0] + 1, "attached");
  use(trajectory, m);
}

// A trajectory is split at an instant, and the parts are merged again.
VF_HARNESS(merge) {
  Trajectory first, second;
  Model m;
  make(first, m, false);
  for (int k = 0; k < m.n; ++k) {
    if (k > 0) second.NewSegment();
    for (int i = k == 0 || m.void_(k - 1) ? m.first[k] : m.first[k] + 1; i <= m.last[k]; ++i) vf_check(second.Append(at(i), dof(i)).ok(), "Append");
  }
  double const s = vf_real("split", -50, 50);
  bool const overlap = vf_choose(2, "overlap") == 1;
  first.ForgetAfter(at(s));
  if (overlap) {
    // The parts have a point in common.
    vf_assume(s > 0 && s < 50);
    if (first.empty()) {
      second.ForgetBefore(at(s));
    } else {
      second.ForgetBefore(first.back().time);
    }
  } else {
    second.ForgetBefore(at(s));
  }
  if (vf_choose(2, "merge_in_second") == 1) {
    second.Merge(std::move(first));
    use(second, m);
  } else {
    first.Merge(std::move(second));
    use(first, m);
  }
}
