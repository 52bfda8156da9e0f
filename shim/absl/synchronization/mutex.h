// Stand-in for absl/synchronization/mutex.h on the executor's thread
// primitives.  Every acquisition, release and wait is a scheduling point.
#pragma once
#include <cstdint>
#include "absl/base/const_init.h"
#include "absl/base/thread_annotations.h"
#include "absl/time/time.h"
extern "C" {
int vf_choose(int n, char const* name);
int vf_thread_self();
void vf_block_on(int const* word, int while_equal);
void vf_block_on_timed(int const* word, int while_equal);
void vf_yield();
[[noreturn]] void vf_check_failed(char const* what, char const* file, int line);
}
namespace absl {
class Condition {
 public:
  Condition(bool (*f)(void*), void* arg) : f0_(f), arg_(arg), eval_(&Eval0) {}
  template<typename T>
  Condition(bool (*f)(T*), T* arg) : arg_((void*)arg), fp_((void*)f),
      eval_([](Condition const* c) { return ((bool (*)(T*))c->fp_)((T*)c->arg_); }) {}
  explicit Condition(bool const* cond) : arg_((void*)cond),
      eval_([](Condition const* c) { return *(bool const*)c->arg_; }) {}
  template<typename T>
  explicit Condition(T const* functor) requires(!std::is_same_v<T, bool> && requires(T const& t) { bool(t()); })
      : arg_((void*)functor),
        eval_([](Condition const* c) { return static_cast<bool>((*(T const*)c->arg_)()); }) {}
  bool Eval() const { return eval_(this); }
 private:
  static bool Eval0(Condition const* c) { return c->f0_(c->arg_); }
  bool (*f0_)(void*) = nullptr;
  void* arg_ = nullptr;
  void* fp_ = nullptr;
  bool (*eval_)(Condition const*);
};
class Mutex {
 public:
  constexpr Mutex() = default;
  explicit constexpr Mutex(ConstInitType) {}
  Mutex(Mutex const&) = delete;
  // held_: 0 free, -1 exclusively held, n > 0: n readers.
  void Lock() {
    vf_yield();
    Acquire();
  }
  void Unlock() {
    if (held_ != -1 || owner_ != vf_thread_self()) vf_check_failed("Mutex::Unlock not held", __FILE__, __LINE__);
    held_ = 0;
    ++generation_;
    vf_yield();
  }
  bool TryLock() { vf_yield(); if (held_ != 0) return false; held_ = -1; owner_ = vf_thread_self(); return true; }
  void ReaderLock() {
    vf_yield();
    AcquireShared();
  }
  void ReaderUnlock() {
    if (held_ <= 0) vf_check_failed("Mutex::ReaderUnlock not held", __FILE__, __LINE__);
    --held_;
    ++generation_;
    vf_yield();
  }
  void WriterLock() { Lock(); }
  void WriterUnlock() { Unlock(); }
  void lock() { Lock(); }
  void unlock() { Unlock(); }
  bool try_lock() { return TryLock(); }
  void AssertHeld() const { if (held_ != -1) vf_check_failed("Mutex::AssertHeld", __FILE__, __LINE__); }
  void AssertReaderHeld() const { if (held_ == 0) vf_check_failed("Mutex::AssertReaderHeld", __FILE__, __LINE__); }
  void Await(Condition const& c) {
    bool const shared = held_ > 0;
    while (!c.Eval()) {
      if (shared) { --held_; } else { held_ = 0; }
      int const g = ++generation_;
      vf_block_on(&generation_, g);
      shared ? AcquireShared() : Acquire();
    }
  }
  bool AwaitWithTimeout(Condition const& c, Duration) {
    bool const shared = held_ > 0;
    while (!c.Eval()) {
      if (shared) { --held_; } else { held_ = 0; }
      int const g = ++generation_;
      if (vf_choose(2, "timeout")) {
        vf_yield();
        shared ? AcquireShared() : Acquire();
        return c.Eval();
      }
      vf_block_on_timed(&generation_, g);
      bool const elapsed = generation_ == g;
      shared ? AcquireShared() : Acquire();
      if (elapsed) return c.Eval();
    }
    return true;
  }
  void LockWhen(Condition const& c) { Lock(); Await(c); }
  void ReaderLockWhen(Condition const& c) { ReaderLock(); Await(c); }
  bool LockWhenWithTimeout(Condition const& c, Duration d) { Lock(); return AwaitWithTimeout(c, d); }
 private:
  void Acquire() {
    while (held_ != 0) {
      if (held_ == -1 && owner_ == vf_thread_self()) vf_check_failed("Mutex::Lock: self-deadlock", __FILE__, __LINE__);
      vf_block_on(&held_, held_);
    }
    held_ = -1;
    owner_ = vf_thread_self();
  }
  void AcquireShared() {
    while (held_ < 0) {
      if (owner_ == vf_thread_self()) vf_check_failed("Mutex::ReaderLock: self-deadlock", __FILE__, __LINE__);
      vf_block_on(&held_, held_);
    }
    ++held_;
  }
  int held_ = 0;
  int owner_ = -1;
  int generation_ = 0;
};
class MutexLock {
 public:
  explicit MutexLock(Mutex* m) : m_(*m) { m_.Lock(); }
  explicit MutexLock(Mutex& m) : m_(m) { m_.Lock(); }
  MutexLock(Mutex* m, Condition const& c) : m_(*m) { m_.LockWhen(c); }
  MutexLock(MutexLock const&) = delete;
  ~MutexLock() { m_.Unlock(); }
 private:
  Mutex& m_;
};
class ReaderMutexLock {
 public:
  explicit ReaderMutexLock(Mutex* m) : m_(*m) { m_.ReaderLock(); }
  explicit ReaderMutexLock(Mutex& m) : m_(m) { m_.ReaderLock(); }
  ReaderMutexLock(ReaderMutexLock const&) = delete;
  ~ReaderMutexLock() { m_.ReaderUnlock(); }
 private:
  Mutex& m_;
};
using WriterMutexLock = MutexLock;
}
