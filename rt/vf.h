// Interface between the harnesses and the symbolic executor (or the native
// replay runtime).
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>

extern "C" {
// Symbolic inputs.
std::uint64_t vf_bits(char const* name, int width);
double vf_double(char const* name);
double vf_real(char const* name, double lo, double hi);
double vf_angle(char const* name);
// Enumerated (forked) choice in [0, n[.
int vf_choose(int n, char const* name);
// Assumptions and assertions.
void vf_assume(int c);
void vf_assume_eq(double a, double b);
void vf_check(int c, char const* id);
void vf_near(double a, double b, double tol, char const* id);
[[noreturn]] void vf_fail(char const* id);
void vf_reach(char const* id);
// Observations, compared between the symbolic and the native execution.
void vf_observe(char const* name, std::uint64_t v);
void vf_observe_d(char const* name, double v);
// An abort (CHECK failure) is an accepted outcome while this is set.
void vf_abort_ok(int on);
[[noreturn]] void vf_check_failed(char const* what, char const* file, int line);
[[noreturn]] void vf_silent_exit();
std::uint64_t vf_concretize(std::uint64_t v);
int vf_is_engine();
int vf_real_mode();
void vf_angle_denominator(int n);
// Whether the square root of a negative number is a NaN (or, by default, assumed
// not to happen).
void vf_sqrt_domain(int on);
int vf_is_symbolic(double x);
void vf_note(char const* what);
// Threads.
int vf_thread_create(void (*f)(void*), void* arg);
int vf_thread_self();
int vf_thread_done(int t);
void vf_block_on(int const* word, int while_equal);
void vf_block_on_timed(int const* word, int while_equal);
void vf_yield();
// Lets other threads run first.
void vf_sleep();
}

#define VF_HARNESS(name) extern "C" void name()

namespace vf {
inline std::uint8_t u8(char const* n) { return static_cast<std::uint8_t>(vf_bits(n, 8)); }
inline std::uint16_t u16(char const* n) { return static_cast<std::uint16_t>(vf_bits(n, 16)); }
inline std::uint32_t u32(char const* n) { return static_cast<std::uint32_t>(vf_bits(n, 32)); }
inline std::uint64_t u64(char const* n) { return vf_bits(n, 64); }
inline std::int32_t i32(char const* n) { return static_cast<std::int32_t>(vf_bits(n, 32)); }
inline std::int64_t i64(char const* n) { return static_cast<std::int64_t>(vf_bits(n, 64)); }
inline bool b(char const* n) { return vf_bits(n, 1) != 0; }
// An integer in [lo, hi], kept symbolic.
inline std::int64_t range(char const* n, std::int64_t lo, std::int64_t hi) {
  std::int64_t v = i64(n);
  vf_assume(v >= lo && v <= hi);
  return v;
}
inline std::uint64_t bits(double d) {
  std::uint64_t u;
  std::memcpy(&u, &d, 8);
  return u;
}
}  // namespace vf
