// Concurrency: thread pool, recurring threads, bundles, callbacks.
//@ entry pool_runs_everything preemptions=2 switches=3 max-seconds=100
//@ entry pool_try_add preemptions=2 switches=3 max-seconds=100
//@ entry pool_wait_idle preemptions=2 max-seconds=100
//@ entry bundle_join preemptions=2 max-seconds=100
//@ entry push_pull preemptions=3 max-seconds=100
//@ entry recurring preemptions=2 max-seconds=100
//@ entry recurring_void preemptions=2 max-seconds=100
//@ entry stoppable preemptions=2 max-seconds=100
//@ src base/bundle.cpp
//@ flags -DVF_YIELD_ATOMICS
//@ bound Every schedule with at most 2 preemptions, and 3 departures from the default choice when a thread blocks for pools of 2 threads, of pools of 1 or 2 threads with at most 3 calls, bundles of at most 2 tasks, 2 callback exchanges and recurring threads given at most 2 inputs; results and statuses arbitrary.
//@ assume Sequentially consistent memory; the mutexes, conditions and notifications of absl and the primitives of the C++ library behave as documented; sleeping takes no time but yields.
#include <atomic>
#include "base/bundle.hpp"
#include "base/push_pull_callback.hpp"
#include "base/recurring_thread.hpp"
#include "base/stoppable_thread.hpp"
#include "base/thread_pool.hpp"
#include "vf.h"

using namespace principia::base::_bundle;
using namespace principia::base::_push_pull_callback;
using namespace principia::base::_recurring_thread;
using namespace principia::base::_stoppable_thread;
using namespace principia::base::_thread_pool;

VF_HARNESS(pool_runs_everything) {
  int const threads = 1 + vf_choose(2, "threads");
  constexpr int n = 2;
  int v[n];
  for (int i = 0; i < n; ++i) v[i] = vf::i32("v");
  int runs[n] = {};
  int running = 0, most = 0;
  {
    ThreadPool<int> pool(threads);
    std::future<int> f[n];
    for (int i = 0; i < n; ++i)
      f[i] = pool.Add([&, i] {
        ++running;
        if (running > most) most = running;
        ++runs[i];
        vf_yield();
        --running;
        return v[i];
      });
    for (int i = 0; i < n; ++i) vf_check(f[i].get() == v[i], "result of the call");
  }
  for (int i = 0; i < n; ++i) vf_check(runs[i] == 1, "executed once");
  vf_check(most <= threads, "no more concurrent calls than threads");
  vf_check(running == 0, "finished");
}

VF_HARNESS(pool_try_add) {
  int const threads = 1 + vf_choose(2, "threads");
  int gate = 0;
  int started = 0;
  {
    ThreadPool<void> pool(threads);
    std::optional<std::future<void>> f[3];
    int accepted = 0;
    for (int i = 0; i < 3; ++i) {
      f[i] = pool.TryAdd([&] {
        ++started;
        vf_block_on(&gate, 0);
      });
      if (f[i].has_value()) ++accepted;
      // No call can complete: at most one per thread may be accepted.
      vf_check(accepted <= threads, "accepted only if it can execute immediately");
    }
    vf_check(accepted == threads, "idle threads accept calls");
    gate = 1;
    for (auto& x : f) if (x.has_value()) x->get();
    vf_check(started == accepted, "accepted calls are executed");
  }
}

VF_HARNESS(pool_wait_idle) {
  int gate = 0;
  bool done = false;
  ThreadPool<void> pool(1);
  auto const f = pool.Add([&] {
    vf_block_on(&gate, 0);
    done = true;
  });
  bool const idle = pool.WaitUntilIdleFor(absl::Milliseconds(1));
  vf_check(!idle, "not idle while the call executes or is queued");
  vf_check(!done, "gated");
  gate = 1;
  if (pool.WaitUntilIdleFor(absl::Hours(1))) vf_check(done, "idle means that the call was executed");
  f.wait();
}

VF_HARNESS(bundle_join) {
  int const n = vf_choose(3, "n");
  absl::StatusCode code[2];
  int ran[2] = {};
  int order = 0, at[2];
  for (int i = 0; i < n; ++i) {
    int const c = vf_choose(3, "status");
    code[i] = c == 0 ? absl::StatusCode::kOk : c == 1 ? absl::StatusCode::kAborted : absl::StatusCode::kInternal;
  }
  Bundle bundle;
  for (int i = 0; i < n; ++i)
    bundle.Add([&, i] {
      ++ran[i];
      at[i] = order++;
      return absl::Status(code[i], "m");
    });
  absl::Status const s = bundle.Join();
  bool all_ok = true;
  for (int i = 0; i < n; ++i) {
    vf_check(ran[i] == 1, "each task executed once before the join");
    all_ok &= code[i] == absl::StatusCode::kOk;
  }
  vf_check(s.ok() == all_ok, "error if and only if some task failed");
  if (!all_ok) {
    bool found = false;
    for (int i = 0; i < n; ++i) found |= s.code() == code[i];
    vf_check(found, "status of a failed task");
    if (n == 2 && code[0] == absl::StatusCode::kOk) vf_check(s.code() == code[1], "the only error");
    if (n == 2 && code[1] == absl::StatusCode::kOk) vf_check(s.code() == code[0], "the only error");
  }
}

VF_HARNESS(push_pull) {
  int const a = vf::i32("a"), b = vf::i32("b");
  int const calls = vf_choose(3, "calls");
  PushPullExecutor<int, int, int, int> executor([&](std::function<int(int, int)> f) {
    int r = 7;
    for (int i = 0; i < calls; ++i) r = f(r, i == 0 ? a : b);
    return r;
  });
  int left, right;
  int pulls = 0;
  int expected = 7;
  while (executor.callback().Pull(left, right)) {
    vf_check(pulls < calls, "as many exchanges as calls");
    vf_check(left == expected && right == (pulls == 0 ? a : b), "arguments");
    ++pulls;
    expected = static_cast<int>(static_cast<unsigned>(left) ^ static_cast<unsigned>(right) * 3u);
    executor.callback().Push(expected);
  }
  vf_check(pulls == calls, "every call was handled");
  vf_check(executor.get() == expected, "result");
}

VF_HARNESS(recurring) {
  int const v0 = vf::i32("v0"), v1 = vf::i32("v1");
  vf_assume(v0 != v1);
  int const fail = vf_choose(2, "fail");
  int seen[4], count = 0;
  bool stopped = false;
  bool after_stop = false;
  int running = 0;
  {
    RecurringThread<int, int> thread(
        [&](int const x) -> absl::StatusOr<int> {
          after_stop |= stopped;
          ++running;
          if (count < 4) seen[count] = x;
          ++count;
          --running;
          if (fail) return absl::AbortedError("");
          return x ^ 5;
        },
        std::chrono::milliseconds(1));
    vf_check(!thread.Get().has_value(), "no output before the start");
    thread.Put(v0);
    thread.Start();
    thread.Start();
    vf_yield();
    auto const o0 = thread.Get();
    if (o0.has_value()) vf_check(!fail && *o0 == (v0 ^ 5), "output of the action");
    thread.Put(v1);
    vf_yield();
    auto const o1 = thread.Get();
    if (o1.has_value()) {
      vf_check(!fail && (*o1 == (v1 ^ 5) || (!o0.has_value() && *o1 == (v0 ^ 5))), "output of an action not yet returned");
    }
    thread.Stop();
    stopped = true;
    vf_check(running == 0, "stopping waits for the action");
    thread.Stop();
    vf_yield();
  }
  vf_check(!after_stop, "no action after the stop");
  vf_check(count <= 2, "each input processed at most once");
  if (count == 2) vf_check(seen[0] == v0 && seen[1] == v1, "inputs processed in order");
  if (count == 1) vf_check(seen[0] == v0 || seen[0] == v1, "input");
}

VF_HARNESS(recurring_void) {
  int const v0 = vf::i32("v0"), v1 = vf::i32("v1");
  vf_assume(v0 != v1);
  int last = 0, count = 0, done = 0;
  {
    RecurringThread<int> thread(
        [&](int const x) -> absl::Status {
          last = x;
          ++count;
          if (x == v1) done = 1;
          return absl::OkStatus();
        },
        std::chrono::milliseconds(1));
    thread.Put(v0);
    thread.Start();
    thread.Put(v1);
    // The last input is eventually processed.
    vf_block_on(&done, 0);
    int const restart = vf_choose(2, "restart");
    if (restart) {
      done = 0;
      thread.Restart();
      thread.Put(v1);
      vf_block_on(&done, 0);
    }
    vf_check(last == v1, "latest input");
    vf_check(count <= 2 + restart && count >= 1 + restart, "each input processed at most once");
  }
}

VF_HARNESS(stoppable) {
  int started = 0;
  int finished = 0;
  {
    auto thread = MakeStoppableThread(
        [&] {
          started = 1;
          auto const body = [&]() -> absl::Status {
            for (;;) {
              RETURN_IF_STOPPED;
              vf_sleep();
            }
          };
          vf_check(body().code() == absl::StatusCode::kCancelled, "cancelled");
          finished = 1;
        });
    vf_check(!this_stoppable_thread::get_stop_token().stop_requested(), "the token belongs to the other thread");
    vf_block_on(&started, 0);
    vf_check(!finished, "runs until stopped");
  }
  vf_check(finished, "stopped and joined by destruction");
}
