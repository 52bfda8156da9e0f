// Names that the code gets from libc++ transitively.
#pragma once
#include <algorithm>
#include <array>
#include <cmath>
#include <concepts>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <functional>
#include <limits>
#include <memory>
#include <optional>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>
#include <vector>
#include <list>
using std::nullptr_t;
#ifdef VF_YIELD_ATOMICS
// Every operation on an atomic variable of the code is a scheduling point.
#include <atomic>
#include <condition_variable>
#include <future>
#include <mutex>
#include <stop_token>
#include <thread>
extern "C" void vf_yield();
namespace std {
template<typename T>
struct vf_yielding_atomic {
  static constexpr bool is_always_lock_free = true;
  constexpr vf_yielding_atomic() = default;
  constexpr vf_yielding_atomic(T v) : v_(v) {}
  vf_yielding_atomic(vf_yielding_atomic const&) = delete;
  T load(memory_order = memory_order_seq_cst) const { vf_yield(); return v_; }
  operator T() const { return load(); }
  void store(T v, memory_order = memory_order_seq_cst) { vf_yield(); v_ = v; }
  T operator=(T v) { store(v); return v; }
  T exchange(T v, memory_order = memory_order_seq_cst) { vf_yield(); T o = v_; v_ = v; return o; }
  bool compare_exchange_strong(T& e, T d, memory_order = memory_order_seq_cst, memory_order = memory_order_seq_cst) {
    vf_yield();
    if (v_ == e) { v_ = d; return true; }
    e = v_;
    return false;
  }
  bool compare_exchange_weak(T& e, T d, memory_order = memory_order_seq_cst, memory_order = memory_order_seq_cst) { return compare_exchange_strong(e, d); }
  T fetch_add(T d, memory_order = memory_order_seq_cst) { vf_yield(); T o = v_; v_ = o + d; return o; }
  T fetch_sub(T d, memory_order = memory_order_seq_cst) { vf_yield(); T o = v_; v_ = o - d; return o; }
  T operator++() { return fetch_add(1) + 1; }
  T operator--() { return fetch_sub(1) - 1; }
  T operator++(int) { return fetch_add(1); }
  T operator--(int) { return fetch_sub(1); }
  T operator+=(T d) { return fetch_add(d) + d; }
  T operator-=(T d) { return fetch_sub(d) - d; }
 private:
  T v_{};
};
}
#define atomic_bool vf_yielding_atomic<bool>
#define atomic_int vf_yielding_atomic<int>
#endif
