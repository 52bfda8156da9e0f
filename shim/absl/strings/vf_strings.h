// Stand-ins for absl/strings.
#pragma once
#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <initializer_list>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>
#include <vector>
namespace absl {
using std::string_view;
enum PadSpec : unsigned char { kNoPad = 1, kZeroPad2 = 2, kZeroPad3, kZeroPad4, kZeroPad5, kZeroPad6 };
struct Dec {
  std::string s;
  template<typename T> explicit Dec(T v, PadSpec p = kNoPad) {
    bool const neg = v < 0;
    auto u = neg ? 0 - static_cast<std::uint64_t>(v) : static_cast<std::uint64_t>(v);
    do { s.insert(s.begin(), static_cast<char>('0' + u % 10)); u /= 10; } while (u);
    unsigned const w = p == kNoPad ? 1 : static_cast<unsigned>(p);
    while (s.size() + neg < w) s.insert(s.begin(), '0');
    if (neg) s.insert(s.begin(), '-');
  }
};
struct Hex {
  std::string s;
  template<typename T> explicit Hex(T v, PadSpec p = kNoPad) {
    auto u = static_cast<std::uint64_t>(v);
    do { s.insert(s.begin(), "0123456789abcdef"[u % 16]); u /= 16; } while (u);
    unsigned const w = p == kNoPad ? 1 : static_cast<unsigned>(p);
    while (s.size() < w) s.insert(s.begin(), '0');
  }
};
struct AlphaNum {
  std::string s;
  AlphaNum(Dec const& d) : s(d.s) {}
  AlphaNum(Hex const& d) : s(d.s) {}
  AlphaNum(std::string_view v) : s(v) {}
  AlphaNum(std::string const& v) : s(v) {}
  AlphaNum(char const* v) : s(v) {}
  AlphaNum(double v) {
    char b[40];
    std::snprintf(b, sizeof(b), "%.6g", v);
    s = b;
  }
  template<typename T> requires(std::is_integral_v<T> && !std::is_same_v<T, char>)
  AlphaNum(T v) : s(Dec(v).s) {}
};
inline std::string StrCat() { return ""; }
template<typename... A> std::string StrCat(A const&... a) {
  std::string r;
  (r.append(AlphaNum(a).s), ...);
  return r;
}
template<typename... A> void StrAppend(std::string* r, A const&... a) {
  (r->append(AlphaNum(a).s), ...);
}
template<typename R> std::string StrJoin(R const& r, std::string_view sep) {
  std::string out;
  bool first = true;
  for (auto const& x : r) {
    if (!first) out.append(sep);
    first = false;
    out.append(AlphaNum(x).s);
  }
  return out;
}
template<typename R, typename F>
std::string StrJoin(R const& r, std::string_view sep, F const& f) {
  std::string out;
  bool first = true;
  for (auto const& x : r) {
    if (!first) out.append(sep);
    first = false;
    f(&out, x);
  }
  return out;
}
template<typename D>
std::vector<std::string_view> StrSplit(std::string_view s, D d) {
  std::vector<std::string_view> r;
  std::size_t p = 0;
  while (true) {
    auto q = s.find(d, p);
    if (q == std::string_view::npos) { r.push_back(s.substr(p)); return r; }
    r.push_back(s.substr(p, q - p));
    p = q + 1;
  }
}
inline std::string StrReplaceAll(std::string_view s,
    std::initializer_list<std::pair<std::string_view, std::string_view>> l) {
  std::string out;
  for (std::size_t i = 0; i < s.size();) {
    bool hit = false;
    for (auto const& [a, b] : l) {
      if (!a.empty() && s.substr(i, a.size()) == a) { out.append(b); i += a.size(); hit = true; break; }
    }
    if (!hit) out.push_back(s[i++]);
  }
  return out;
}
inline bool SimpleAtoi(std::string_view s, int* r) {
  long v = 0; bool neg = false; std::size_t i = 0;
  while (i < s.size() && s[i] == ' ') ++i;
  if (i < s.size() && (s[i] == '-' || s[i] == '+')) neg = s[i++] == '-';
  if (i >= s.size()) return false;
  for (; i < s.size() && s[i] >= '0' && s[i] <= '9'; ++i) v = v * 10 + (s[i] - '0');
  *r = static_cast<int>(neg ? -v : v);
  return i == s.size();
}
inline bool SimpleAtod(std::string_view s, double* r) {
  std::string t(s);
  char* e;
  *r = std::strtod(t.c_str(), &e);
  return e != t.c_str();
}
inline bool StartsWith(std::string_view s, std::string_view p) { return s.substr(0, p.size()) == p; }
inline bool EndsWith(std::string_view s, std::string_view p) {
  return s.size() >= p.size() && s.substr(s.size() - p.size()) == p;
}
inline bool StrContains(std::string_view s, std::string_view p) { return s.find(p) != std::string_view::npos; }
inline bool ConsumePrefix(std::string_view* s, std::string_view p) {
  if (!StartsWith(*s, p)) return false;
  s->remove_prefix(p.size());
  return true;
}
inline char ascii_tolower(char c) { return c >= 'A' && c <= 'Z' ? static_cast<char>(c + 32) : c; }
inline std::string AsciiStrToLower(std::string_view s) {
  std::string r(s);
  for (auto& c : r) c = ascii_tolower(c);
  return r;
}
inline bool ascii_isspace(unsigned char c) { return c == ' ' || (c >= 9 && c <= 13); }
inline bool ascii_isdigit(unsigned char c) { return c >= '0' && c <= '9'; }
inline bool ascii_isalnum(unsigned char c) { return ascii_isdigit(c) || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
inline std::string_view StripAsciiWhitespace(std::string_view s) {
  while (!s.empty() && ascii_isspace(s.front())) s.remove_prefix(1);
  while (!s.empty() && ascii_isspace(s.back())) s.remove_suffix(1);
  return s;
}
template<typename... A> std::string StrFormat(char const* f, A const&... a) {
  char b[256];
  std::snprintf(b, sizeof(b), f, a...);
  return b;
}
inline constexpr char kVfB64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
inline std::string WebSafeBase64Escape(std::string_view s) {
  std::string r;
  std::size_t i = 0;
  auto at = [&](std::size_t j) -> unsigned { return static_cast<unsigned char>(s[j]); };
  for (; i + 2 < s.size(); i += 3) {
    unsigned v = at(i) << 16 | at(i + 1) << 8 | at(i + 2);
    r += kVfB64[v >> 18]; r += kVfB64[v >> 12 & 63]; r += kVfB64[v >> 6 & 63]; r += kVfB64[v & 63];
  }
  if (s.size() - i == 1) { r += kVfB64[at(i) >> 2]; r += kVfB64[(at(i) & 3) << 4]; }
  if (s.size() - i == 2) {
    r += kVfB64[at(i) >> 2]; r += kVfB64[(at(i) & 3) << 4 | at(i + 1) >> 4]; r += kVfB64[(at(i + 1) & 15) << 2];
  }
  return r;
}
inline void WebSafeBase64Escape(std::string_view s, std::string* out) { *out = WebSafeBase64Escape(s); }
struct VfBase64Table {
  signed char d[256];
  constexpr VfBase64Table() : d() {
    for (int i = 0; i < 256; ++i)
      d[i] = i >= 'A' && i <= 'Z' ? i - 'A' : i >= 'a' && i <= 'z' ? i - 'a' + 26
           : i >= '0' && i <= '9' ? i - '0' + 52 : i == '-' ? 62 : i == '_' ? 63 : -1;
  }
};
inline constexpr VfBase64Table vf_base64_table{};
inline bool WebSafeBase64Unescape(std::string_view s, std::string* out) {
  std::string r;
  unsigned v = 0; int n = 0, all = 0;
  for (char c : s) {
    int d = vf_base64_table.d[static_cast<unsigned char>(c)];
    all |= d;
    v = v << 6 | static_cast<unsigned>(d);
    if (++n == 4) { r += char(v >> 16); r += char(v >> 8); r += char(v); v = 0; n = 0; }
  }
  if (n == 1 || all < 0) return false;
  if (n == 2) r += char(v >> 4);
  if (n == 3) { r += char(v >> 10); r += char(v >> 2); }
  *out = r;
  return true;
}
}
