// Stand-in for absl/hash/hash.h: a simple 64-bit mixing hash.
#pragma once
#include <cstdint>
#include <cstring>
#include <functional>
#include <memory>
#include <optional>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
namespace absl {
class HashState;
namespace vf_hash {
template<typename H, typename T> H One(H h, T const& t);
}
class HashState {
 public:
  std::uint64_t v = 0x9E3779B97F4A7C15u;
  template<typename H> static HashState Create(H* h) { return HashState{*h}; }
  static HashState combine(HashState h) { return h; }
  template<typename T, typename... Ts>
  static HashState combine(HashState h, T const& t, Ts const&... ts) {
    return combine(vf_hash::One(std::move(h), t), ts...);
  }
  template<typename T>
  static HashState combine_contiguous(HashState h, T const* p, std::size_t n) {
    for (std::size_t i = 0; i < n; ++i) h = vf_hash::One(std::move(h), p[i]);
    return h;
  }
};
namespace vf_hash {
inline HashState Mix(HashState h, std::uint64_t x) {
  h.v = (h.v ^ x) * 0xFF51AFD7ED558CCDu;
  h.v ^= h.v >> 32;
  return h;
}
template<typename T> struct is_pair : std::false_type {};
template<typename A, typename B> struct is_pair<std::pair<A, B>> : std::true_type {};
template<typename T> struct is_tuple : std::false_type {};
template<typename... A> struct is_tuple<std::tuple<A...>> : std::true_type {};
template<typename H, typename T> H One(H h, T const& t) {
  if constexpr (std::is_floating_point_v<T>) {
    double d = t == 0 ? 0 : t;
    std::uint64_t u;
    std::memcpy(&u, &d, 8);
    return Mix(h, u);
  } else if constexpr (std::is_integral_v<T> || std::is_enum_v<T>) {
    return Mix(h, static_cast<std::uint64_t>(t));
  } else if constexpr (std::is_pointer_v<T>) {
    return Mix(h, reinterpret_cast<std::uint64_t>(t));
  } else if constexpr (is_pair<T>::value) {
    return One(One(h, t.first), t.second);
  } else if constexpr (is_tuple<T>::value) {
    return std::apply([&](auto const&... x) { return HashState::combine(h, x...); }, t);
  } else if constexpr (std::is_convertible_v<T const&, std::string_view>) {
    for (char c : std::string_view(t)) h = Mix(h, static_cast<unsigned char>(c));
    return h;
  } else if constexpr (requires { AbslHashValue(std::move(h), t); }) {
    return AbslHashValue(std::move(h), t);
  } else if constexpr (requires { t.begin(); t.end(); }) {
    for (auto const& x : t) h = One(std::move(h), x);
    return h;
  } else {
    return Mix(h, std::hash<T>{}(t));
  }
}
}
template<typename T> struct Hash {
  using is_transparent = void;
  template<typename U>
  std::size_t operator()(U const& t) const { return vf_hash::One(HashState{}, t).v; }
};
template<typename... Ts> std::size_t HashOf(Ts const&... ts) {
  return HashState::combine(HashState{}, ts...).v;
}
}
