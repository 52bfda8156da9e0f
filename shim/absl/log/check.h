// Stand-in for absl/log/check.h, which the installed Abseil lacks: a failed
// check reports through vf_check_failed (never returns); messages are dropped.
#pragma once
#include <cstdint>
#include <iosfwd>
#include <ostream>
extern "C" [[noreturn]] void vf_check_failed(char const* what,
                                             char const* file,
                                             int line);
namespace vf_log {
// Swallows the streamed message without evaluating how it would be formatted.
struct NullStream {
  template<typename T>
  NullStream& operator<<(T const&) { return *this; }
  NullStream& operator<<(std::ostream& (*)(std::ostream&)) { return *this; }
  NullStream& AtLocation(char const*, int) { return *this; }
  NullStream& NoPrefix() { return *this; }
};
struct FatalStream {
  char const* what; char const* file; int line;
  template<typename T>
  FatalStream& operator<<(T const&) { return *this; }
  FatalStream& operator<<(std::ostream& (*)(std::ostream&)) { return *this; }
  [[noreturn]] void die() const { vf_check_failed(what, file, line); }
};
struct Die {
  [[noreturn]] void operator&&(FatalStream const& s) const { s.die(); }
};
struct Drop {
  void operator&&(NullStream const&) const {}
};
template<typename T>
T&& CheckNotNull(T&& t, char const* what, char const* file, int line) {
  if (t == nullptr) { vf_check_failed(what, file, line); }
  return static_cast<T&&>(t);
}
}  // namespace vf_log

#define VF_FATAL(what) ::vf_log::Die{} && ::vf_log::FatalStream{what, __FILE__, __LINE__}
#define VF_CHECK_IMPL(cond, what) \
  switch (0) case 0: default: if (cond) [[likely]] {} else VF_FATAL(what)
#define VF_DCHECK_IMPL(cond) \
  switch (0) case 0: default: while (false && static_cast<bool>(cond)) ::vf_log::Drop{} && ::vf_log::NullStream{}

#define CHECK(cond) VF_CHECK_IMPL((cond), #cond)
#define PCHECK(cond) CHECK(cond)
#define QCHECK(cond) CHECK(cond)
#define CHECK_EQ(a, b) VF_CHECK_IMPL(((a) == (b)), #a " == " #b)
#define CHECK_NE(a, b) VF_CHECK_IMPL(((a) != (b)), #a " != " #b)
#define CHECK_LT(a, b) VF_CHECK_IMPL(((a) < (b)), #a " < " #b)
#define CHECK_LE(a, b) VF_CHECK_IMPL(((a) <= (b)), #a " <= " #b)
#define CHECK_GT(a, b) VF_CHECK_IMPL(((a) > (b)), #a " > " #b)
#define CHECK_GE(a, b) VF_CHECK_IMPL(((a) >= (b)), #a " >= " #b)
#define CHECK_OK(s) VF_CHECK_IMPL(((s).ok()), #s " is OK")
#define CHECK_STREQ(a, b) VF_CHECK_IMPL((std::string_view(a) == std::string_view(b)), #a " streq " #b)
#define CHECK_NOTNULL(x) ::vf_log::CheckNotNull((x), #x, __FILE__, __LINE__)
#define DCHECK(cond) VF_DCHECK_IMPL(cond)
#define DCHECK_EQ(a, b) DCHECK((a) == (b))
#define DCHECK_NE(a, b) DCHECK((a) != (b))
#define DCHECK_LT(a, b) DCHECK((a) < (b))
#define DCHECK_LE(a, b) DCHECK((a) <= (b))
#define DCHECK_GT(a, b) DCHECK((a) > (b))
#define DCHECK_GE(a, b) DCHECK((a) >= (b))
#define DCHECK_OK(s) DCHECK((s).ok())
