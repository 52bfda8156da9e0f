// Checkpointers, protectors and clienteles: histories.
//@ entry checkpoints mode=real split max-seconds=200
//@ entry if_needed mode=real split max-seconds=100
//@ entry message mode=real split max-seconds=100
//@ entry protector mode=real split max-seconds=200
//@ entry clientele mode=real split max-seconds=100
//@ src physics/protector.cpp
//@ src base/flags.cpp
//@ src $VERIF/rt/elementary.cc
//@ flags -DVF_BTREE_INVALIDATION
//@ bound Up to 3 checkpoints, at any times in any order, and any query; messages of up to 3 checkpoints, rewritten or not; 2 protections and 3 callbacks at any times, in any order of protection, of registration and of removal; up to 3 clients with any keys.
//@ assume The times are 64-bit floating-point numbers without rounding.
#include "vf.h"
#include "geometry/instant.hpp"
#include "physics/checkpointer.hpp"
#include "physics/clientele.hpp"
#include "physics/protector.hpp"
#include "quantities/si.hpp"
#include "serialization/testing_utilities.pb.h"
using namespace principia::base::_not_null;
using namespace principia::geometry::_instant;
using namespace principia::physics::_checkpointer;
using namespace principia::physics::_clientele;
using namespace principia::physics::_protector;
using namespace principia::quantities::_si;
using Message = principia::serialization::CheckpointerTestMessage;
namespace principia::geometry::_point::internal {
std::string DebugString(Instant const&) { return "instant"; }
}

static Instant at(double t) { return Instant() + t * Second; }

// The payload of a checkpoint is the number of the one written.
static int written;
static int read_;
static bool fail;
static void write_checkpoint(not_null<Message::Checkpoint*> const message) { message->set_payload(++written); }
static absl::Status read_checkpoint(Message::Checkpoint const& message) {
  read_ = message.payload();
  return fail ? absl::AbortedError("") : absl::OkStatus();
}

struct Model {
  int n = 0;
  double t[4];
  int payload[4];
  void add(double time, int p) {
    int i = n++;
    for (; i > 0 && t[i - 1] > time; --i) t[i] = t[i - 1], payload[i] = payload[i - 1];
    t[i] = time;
    payload[i] = p;
  }
};

static void expect_read(absl::Status const& status, Model const& m, int i) {
  if (i < 0 || i >= m.n) {
    vf_check(status.code() == absl::StatusCode::kNotFound && read_ == 0, "no checkpoint");
  } else {
    vf_check(status.code() == (fail ? absl::StatusCode::kAborted : absl::StatusCode::kOk), "status of the reader");
    vf_check(read_ == m.payload[i], "checkpoint read");
  }
  read_ = 0;
}

template<typename Set>
static void expect_set(Set const& set, Model const& m, int i, int j) {
  for (auto const& t : set) {
    vf_check(i < j && t == at(m.t[i]), "set of checkpoints");
    ++i;
  }
  vf_check(i >= j, "set of checkpoints");
}

static void queries(Checkpointer<Message> const& checkpointer, Model const& m) {
  vf_check(checkpointer.size() == m.n, "size");
  vf_check(checkpointer.oldest_checkpoint() == (m.n == 0 ? InfiniteFuture : at(m.t[0])), "oldest");
  vf_check(checkpointer.newest_checkpoint() == (m.n == 0 ? InfinitePast : at(m.t[m.n - 1])), "newest");
  expect_set(checkpointer.all_checkpoints(), m, 0, m.n);
  fail = vf_choose(2, "fail") == 1;
  double const s = vf_real("s", -50, 50);
  int before = 0, at_or_before = 0;
  while (before < m.n && m.t[before] < s) ++before;
  while (at_or_before < m.n && m.t[at_or_before] <= s) ++at_or_before;
  switch (vf_choose(7, "query")) {
    case 0: {
      vf_check(checkpointer.checkpoint_at_or_after(at(s)) == (before == m.n ? InfiniteFuture : at(m.t[before])), "at or after");
      vf_check(checkpointer.checkpoint_at_or_before(at(s)) == (at_or_before == 0 ? InfinitePast : at(m.t[at_or_before - 1])), "at or before");
      return;
    }
    case 1: return expect_set(checkpointer.all_checkpoints_at_or_before(at(s)), m, 0, at_or_before);
    case 2: {
      double const r = vf_real("r", -50, 50);
      int until = 0;
      while (until < m.n && m.t[until] <= r) ++until;
      return expect_set(checkpointer.all_checkpoints_between(at(s), at(r)), m, before, r < s ? before : until);
    }
    case 3: return expect_read(checkpointer.ReadFromOldestCheckpoint(), m, 0);
    case 4: return expect_read(checkpointer.ReadFromNewestCheckpoint(), m, m.n - 1);
    case 5: return expect_read(checkpointer.ReadFromCheckpointAtOrBefore(at(s)), m, at_or_before - 1);
    default: {
      if (vf_choose(2, "other_reader") == 1) {
        int other = 0;
        auto const status = checkpointer.ReadFromCheckpointAt(at(s), [&](Message::Checkpoint const& c) { other = c.payload(); return absl::OkStatus(); });
        vf_check(status.ok() == (at_or_before > before) && other == (at_or_before > before ? m.payload[before] : 0) && read_ == 0, "other reader");
      } else {
        expect_read(checkpointer.ReadFromCheckpointAt(at(s)), m, at_or_before > before ? before : -1);
      }
    }
  }
}

static void fill(Checkpointer<Message>& checkpointer, Model& m) {
  int const n = vf_choose(4, "checkpoints");
  for (int i = 0; i < n; ++i) {
    double const t = vf_real("t", -50, 50);
    for (int j = 0; j < m.n; ++j) vf_assume(m.t[j] != t);
    checkpointer.WriteToCheckpoint(at(t));
    vf_check(written == i + 1, "written once");
    m.add(t, i + 1);
  }
}

VF_HARNESS(checkpoints) {
  Checkpointer<Message> checkpointer(&write_checkpoint, &read_checkpoint);
  Model m;
  fill(checkpointer, m);
  if (vf_choose(2, "set_writer") == 1) {
    checkpointer.set_writer([](not_null<Message::Checkpoint*> const message) { message->set_payload(100); });
    double const t = vf_real("t", 60, 70);
    checkpointer.WriteToCheckpoint(at(t));
    m.add(t, 100);
  }
  queries(checkpointer, m);
}

VF_HARNESS(if_needed) {
  Checkpointer<Message> checkpointer(&write_checkpoint, &read_checkpoint);
  Model m;
  for (int i = 0; i < 3; ++i) {
    double const t = vf_real("t", -50, 50), max = vf_real("max", 0.1, 50);
    if (m.n > 0) vf_assume(t > m.t[m.n - 1]);
    bool const needed = m.n == 0 || t - m.t[m.n - 1] > max;
    vf_check(checkpointer.WriteToCheckpointIfNeeded(at(t), max * Second) == needed, "needed");
    if (needed) m.add(t, m.n + 1);
    vf_check(written == m.n, "written if needed");
  }
  queries(checkpointer, m);
}

VF_HARNESS(message) {
  Checkpointer<Message> checkpointer(&write_checkpoint, &read_checkpoint);
  Model m;
  fill(checkpointer, m);
  Message message;
  checkpointer.WriteToMessage(message.mutable_checkpoint());
  vf_check(message.checkpoint_size() == m.n, "number of checkpoints");
  auto const reread = Checkpointer<Message>::ReadFromMessage(&write_checkpoint, &read_checkpoint, nullptr, message.checkpoint());
  queries(*reread, m);
}

// Protector.

VF_HARNESS(protector) {
  Protector protector;
  double starts[2], times[3];
  bool registered[3] = {}, is_protected[2] = {};
  int runs[3] = {}, order[3], ran = 0, calls[3] = {};
  for (int i = 0; i < 2; ++i) starts[i] = vf_real("start", -50, 50);
  for (int i = 0; i < 3; ++i) times[i] = vf_real("time", -50, 50);
  // The callbacks are registered in order, the protections too; they may be interleaved.
  int next_start = 0, next_time = 0, removed = 0;
  for (int step = 0; step < 7; ++step) {
    int const kind = vf_choose(4, "kind");
    ran = 0;
    if (kind == 0) {
      vf_assume(next_start < 2);
      is_protected[next_start] = true;
      protector.Protect(at(starts[next_start++]));
    } else if (kind == 1) {
      vf_assume(next_time < 3);
      int const i = next_time++;
      registered[i] = true;
      bool free = true;
      for (int j = 0; j < 2; ++j) if (is_protected[j] && starts[j] < times[i]) free = false;
      bool const now = protector.RunWhenUnprotected(at(times[i]), [&, i]() { ++runs[i]; order[ran++] = i; });
      vf_check(now == free && runs[i] == now, "run if unprotected");
      calls[i] = now;
      continue;
    } else {
      int const j = kind - 2;
      vf_assume(is_protected[j]);
      is_protected[j] = false;
      ++removed;
      protector.Unprotect(at(starts[j]));
    }
    for (int i = 0; i < 3; ++i) {
      bool free = registered[i];
      for (int j = 0; j < 2; ++j) if (is_protected[j] && starts[j] < times[i]) free = false;
      if (free) calls[i] = 1;
      vf_check(runs[i] == calls[i], "run once unprotected, and once");
    }
    for (int i = 1; i < ran; ++i) vf_check(times[order[i - 1]] <= times[order[i]], "in time order");
    if (removed == 2) break;
  }
}

// Clientele.

VF_HARNESS(clientele) {
  Clientele<Instant> clientele(at(100));
  double key[3];
  for (int i = 0; i < 3; ++i) key[i] = vf_real("key", -50, 50);
  bool in[3] = {};
  std::unique_ptr<Client<Instant>> client;
  for (int step = 0; step < 5; ++step) {
    int const i = vf_choose(3, "client");
    if (i == 2) {
      // A client.
      if (in[2]) client.reset(); else client = std::make_unique<Client<Instant>>(at(key[2]), clientele);
    } else if (in[i]) {
      clientele.Leave(at(key[i]));
    } else {
      clientele.Join(at(key[i]));
    }
    in[i] = !in[i];
    double least = 100;
    for (int j = 0; j < 3; ++j) if (in[j] && key[j] < least) least = key[j];
    vf_check(clientele.first() == at(least), "first client");
  }
}
