#ifndef SHIM_ABSL_HASH_HASH_H_
#define SHIM_ABSL_HASH_HASH_H_
#include <cstdint>
#include <cstring>
#include <memory>
#include <optional>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <utility>
#include <variant>
#include <vector>
namespace absl {
namespace shim_hash {
struct State;
template <typename T, typename = void> struct HasAbsl : std::false_type {};
template <typename T>
struct HasAbsl<T, std::void_t<decltype(AbslHashValue(std::declval<State>(), std::declval<const T&>()))>> : std::true_type {};
struct State {
  uint64_t h = 0x9E3779B97F4A7C15ull;
  static State mix(State s, uint64_t v) {
    s.h ^= v + 0x9E3779B97F4A7C15ull + (s.h << 6) + (s.h >> 2);
    s.h *= 0xff51afd7ed558ccdull; s.h ^= s.h >> 32;
    return s;
  }
  static State combine(State s) { return s; }
  template <typename T, typename... R> static State combine(State s, const T& v, const R&... r) { return combine(one(std::move(s), v), r...); }
  template <typename T> static State combine_contiguous(State s, const T* p, size_t n) { for (size_t i = 0; i < n; ++i) s = one(std::move(s), p[i]); return s; }
  template <typename A, typename B> static State one(State s, const std::pair<A, B>& p) { return combine(std::move(s), p.first, p.second); }
  template <typename... A> static State one(State s, const std::tuple<A...>& t) { return std::apply([&](const auto&... x) { return combine(s, x...); }, t); }
  template <typename A> static State one(State s, const std::optional<A>& o) { if (o) s = one(std::move(s), *o); return mix(s, o.has_value()); }
  template <typename A> static State one(State s, const std::vector<A>& v) { for (const auto& x : v) s = one(std::move(s), x); return mix(s, v.size()); }
  template <typename... A> static State one(State s, const std::variant<A...>& v) { s = mix(s, v.index()); return std::visit([&](const auto& x) { return one(s, x); }, v); }
  static State one(State s, std::monostate) { return mix(s, 0); }
  template <typename T> static State one(State s, const T& v) {
    if constexpr (HasAbsl<T>::value) return AbslHashValue(std::move(s), v);
    else if constexpr (std::is_convertible_v<const T&, std::string_view>) { std::string_view x = v; for (unsigned char c : x) s = mix(s, c); return mix(s, x.size()); }
    else if constexpr (std::is_floating_point_v<T>) { double d = v == 0 ? 0.0 : (double)v; uint64_t u; std::memcpy(&u, &d, 8); return mix(s, u); }
    else if constexpr (std::is_enum_v<T> || std::is_integral_v<T>) return mix(s, (uint64_t)v);
    else if constexpr (std::is_pointer_v<T>) return mix(s, (uint64_t)(uintptr_t)v);
    else return mix(s, std::hash<T>{}(v));
  }
};
template <typename T> struct Hasher { size_t operator()(const T& v) const { return State::one(State(), v).h; } };
template <> struct Hasher<std::string> { using is_transparent = void; size_t operator()(std::string_view v) const { return State::one(State(), v).h; } };
}  // namespace shim_hash
template <typename T> using Hash = shim_hash::Hasher<T>;
template <typename... T> size_t HashOf(const T&... v) { return shim_hash::State::combine(shim_hash::State(), v...).h; }
}  // namespace absl
#endif
