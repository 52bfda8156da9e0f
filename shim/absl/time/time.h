// Stand-in for absl/time/time.h.
#pragma once
#include <chrono>
#include <cstdint>
#include <string>
#include <string_view>
namespace absl {
class Duration {
 public:
  constexpr Duration() = default;
  constexpr explicit Duration(std::int64_t ns) : ns_(ns) {}
  constexpr std::int64_t ns() const { return ns_; }
  friend constexpr bool operator==(Duration, Duration) = default;
  friend constexpr auto operator<=>(Duration, Duration) = default;
 private:
  std::int64_t ns_ = 0;
};
constexpr Duration operator+(Duration a, Duration b) { return Duration(a.ns() + b.ns()); }
constexpr Duration operator-(Duration a, Duration b) { return Duration(a.ns() - b.ns()); }
inline constexpr Duration Nanoseconds(std::int64_t n) { return Duration(n); }
inline constexpr Duration Microseconds(std::int64_t n) { return Duration(n * 1000); }
inline constexpr Duration Milliseconds(std::int64_t n) { return Duration(n * 1000000); }
inline constexpr Duration Seconds(std::int64_t n) { return Duration(n * 1000000000); }
inline constexpr Duration Hours(std::int64_t n) { return Duration(n * 3600000000000); }
inline constexpr Duration ZeroDuration() { return Duration(); }
template<typename R, typename P>
constexpr Duration FromChrono(std::chrono::duration<R, P> const& d) {
  return Duration(std::chrono::duration_cast<std::chrono::nanoseconds>(d).count());
}
inline double ToDoubleSeconds(Duration d) { return d.ns() * 1e-9; }
class Time {
 public:
  constexpr Time() = default;
  constexpr explicit Time(std::int64_t ns) : ns_(ns) {}
  constexpr std::int64_t ns() const { return ns_; }
  friend constexpr bool operator==(Time, Time) = default;
  friend constexpr auto operator<=>(Time, Time) = default;
 private:
  std::int64_t ns_ = 0;
};
constexpr Time operator+(Time a, Duration b) { return Time(a.ns() + b.ns()); }
constexpr Time operator-(Time a, Duration b) { return Time(a.ns() - b.ns()); }
constexpr Duration operator-(Time a, Time b) { return Duration(a.ns() - b.ns()); }
struct TimeZone {};
inline TimeZone UTCTimeZone() { return {}; }
inline TimeZone LocalTimeZone() { return {}; }
inline Time FromDateTime(int, int, int, int, int, int, TimeZone) { return Time(); }
inline std::string FormatTime(std::string_view, Time, TimeZone) { return "TIME"; }
inline Time FromChrono(std::chrono::system_clock::time_point const& t) {
  return Time(t.time_since_epoch().count());
}
}
