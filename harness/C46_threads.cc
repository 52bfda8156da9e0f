// Checkpointers, protectors and clienteles: schedules.
//@ entry checkpointer_threads preemptions=2 max-seconds=100
//@ entry rewriter preemptions=1 switches=2 max-seconds=100
//@ entry protector_threads preemptions=3 max-seconds=100
//@ entry clientele_threads preemptions=2 max-seconds=100
//@ src physics/protector.cpp
//@ src base/flags.cpp
//@ src $VERIF/rt/elementary.cc
//@ flags -DVF_BTREE_INVALIDATION
//@ bound Every schedule with at most 2 preemptions (3 for the protectors) of a thread writing a checkpoint and another one reading, writing or querying; of one protecting and unprotecting while another one registers callbacks; of a client joining and leaving while another thread reads the first one; the rewriting of 2 checkpoints.
//@ assume Sequentially consistent memory; the mutexes of absl and the primitives of the C++ library behave as documented; the iterators of B-trees are invalidated by insertions and removals, as documented.
#include "vf.h"
#include <thread>
#include "geometry/instant.hpp"
#include "physics/checkpointer.hpp"
#include "physics/clientele.hpp"
#include "physics/protector.hpp"
#include "quantities/si.hpp"
#include "serialization/testing_utilities.pb.h"
extern "C" void vf_yield();
using namespace principia::base::_not_null;
using namespace principia::geometry::_instant;
using namespace principia::physics::_checkpointer;
using namespace principia::physics::_clientele;
using namespace principia::physics::_protector;
using namespace principia::quantities::_si;
using Message = principia::serialization::CheckpointerTestMessage;
namespace principia::geometry::_point::internal {
std::string DebugString(Instant const&) { return "instant"; }
}
static Instant at(double t) { return Instant() + t * Second; }

VF_HARNESS(checkpointer_threads) {
  int written = 0, payload = -1;
  Checkpointer<Message> checkpointer([&](not_null<Message::Checkpoint*> const message) { message->set_payload(++written); },
                                     [&](Message::Checkpoint const& message) { payload = message.payload(); return absl::OkStatus(); });
  checkpointer.WriteToCheckpoint(at(1));
  int const second = vf_choose(2, "second");
  if (second == 1) checkpointer.WriteToCheckpoint(at(2));
  int const before = written;
  int const kind = vf_choose(6, "kind");
  {
    std::jthread writer([&] { checkpointer.WriteToCheckpoint(at(3)); });
    switch (kind) {
      case 0:
        vf_check(checkpointer.ReadFromCheckpointAt(at(1)).ok() && payload == 1, "read at");
        break;
      case 1:
        vf_check(checkpointer.ReadFromOldestCheckpoint().ok() && payload == 1, "read oldest");
        break;
      case 2:
        vf_check(checkpointer.ReadFromCheckpointAtOrBefore(at(2.5)).ok() && payload == before, "read at or before");
        break;
      case 3:
        checkpointer.WriteToCheckpoint(at(1.5));
        break;
      case 4: {
        auto const all = checkpointer.all_checkpoints();
        vf_check((int)all.size() == before || (int)all.size() == before + 1, "all checkpoints");
        vf_check(checkpointer.checkpoint_at_or_after(at(0)) == at(1), "at or after");
        break;
      }
      default: {
        bool const needed = checkpointer.WriteToCheckpointIfNeeded(at(4), 2 * Second - 0.5 * second * Second);
        (void)needed;
        break;
      }
    }
  }
  int const size = checkpointer.size();
  vf_check(size == written, "each checkpoint is written once");
  vf_check(kind == 5 ? size >= before + 1 : size == before + 1 + (kind == 3), "number of checkpoints");
  payload = 0;
  vf_check(checkpointer.ReadFromCheckpointAt(at(3)).ok() && payload > before && payload <= written, "checkpoint of the other thread");
}

VF_HARNESS(rewriter) {
  Message message;
  int const n = 1 + vf_choose(2, "checkpoints");
  int payloads[2];
  for (int i = 0; i < n; ++i) {
    auto* const c = message.add_checkpoint();
    payloads[i] = vf::i32("payload");
    c->set_payload(payloads[i]);
    at(i + 1).WriteToMessage(c->mutable_time());
  }
  int payload = 0;
  auto const checkpointer = Checkpointer<Message>::ReadFromMessage(
      [](not_null<Message::Checkpoint*>) {},
      [&](Message::Checkpoint const& m) { payload = m.payload(); return absl::OkStatus(); },
      [](Message::Checkpoint const& m) { Message::Checkpoint r = m; r.set_payload(m.payload() ^ 7); return r; },
      message.checkpoint());
  vf_check(checkpointer->size() == n, "number of checkpoints");
  for (int i = 0; i < n; ++i) vf_check(checkpointer->ReadFromCheckpointAt(at(i + 1)).ok() && payload == (payloads[i] ^ 7), "rewritten checkpoint");
}

VF_HARNESS(protector_threads) {
  Protector protector;
  int runs[2] = {};
  bool is_protected = false;
  bool immediate[2] = {};
  int const t0 = vf_choose(2, "time"), t1 = vf_choose(2, "time");
  {
    std::jthread other([&] {
      protector.Protect(at(0.5));
      is_protected = true;
      vf_yield();
      is_protected = false;
      protector.Unprotect(at(0.5));
    });
    immediate[0] = protector.RunWhenUnprotected(at(t0), [&] {
      // Not run while protected: a delayed call can only run after the end of the protection.
      ++runs[0];
    });
    vf_check(runs[0] == 1 || !immediate[0], "immediate callback");
    bool const p = is_protected;
    vf_check(!(p && immediate[0] && t0 == 1 && runs[0] == 0), "callback");
    immediate[1] = protector.RunWhenUnprotected(at(t1), [&] { ++runs[1]; });
    vf_check(runs[1] == 1 || !immediate[1], "immediate callback");
  }
  // No callback is lost or run twice.
  for (int i = 0; i < 2; ++i) vf_check(runs[i] == 1, "each callback is run once");
  vf_check((t0 == 1 || immediate[0]) && (t1 == 1 || immediate[1]), "unprotected times");
}

VF_HARNESS(clientele_threads) {
  Clientele<Instant> clientele(at(100));
  double const mine = vf_choose(3, "key");
  bool const member = vf_choose(2, "member") == 1;
  if (member) clientele.Join(at(mine));
  {
    std::jthread other([&] {
      Client<Instant> client(at(1), clientele);
      vf_yield();
    });
    Instant const t = std::min(at(50), clientele.first());
    double const own = member ? mine : 50;
    vf_check(t == at(own) || (own > 1 && t == at(1)), "first client");
  }
  vf_check(clientele.first() == at(member ? mine : 100), "first client");
}
