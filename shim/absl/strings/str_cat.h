#ifndef SHIM_ABSL_STRINGS_STR_CAT_H_
#define SHIM_ABSL_STRINGS_STR_CAT_H_
#include <cstdint>
#include <cstdio>
#include <string>
#include <type_traits>
#include <utility>
#include "absl/strings/string_view.h"
namespace absl {
namespace shim_strings {
struct Sink {
  std::string s;
  void Append(std::string_view v) { s.append(v.data(), v.size()); }
  void Append(size_t n, char c) { s.append(n, c); }
  friend void AbslFormatFlush(Sink* k, std::string_view v) { k->Append(v); }
};
template <typename T, typename = void> struct HasStringify : std::false_type {};
template <typename T>
struct HasStringify<T, std::void_t<decltype(AbslStringify(std::declval<Sink&>(), std::declval<const T&>()))>>
    : std::true_type {};
template <typename T> std::string Stringify(const T& v) {
  Sink k;
  AbslStringify(k, v);
  return std::move(k.s);
}
inline std::string Num(double d) { char b[64]; std::snprintf(b, sizeof b, "%g", d); return b; }
template <typename T> std::string ToStr(const T& v) {
  if constexpr (HasStringify<T>::value) return Stringify(v);
  else if constexpr (std::is_same_v<T, bool>) return v ? "1" : "0";
  else if constexpr (std::is_same_v<T, char>) return std::string(1, v);
  else if constexpr (std::is_floating_point_v<T>) return Num(v);
  else if constexpr (std::is_integral_v<T>) return std::to_string(v);
  else if constexpr (std::is_enum_v<T>) return std::to_string(static_cast<long long>(v));
  else return std::string(std::string_view(v));
}
}  // namespace shim_strings
struct AlphaNum {
  std::string s;
  template <typename T> AlphaNum(const T& v) : s(shim_strings::ToStr(v)) {}
  AlphaNum(const char* p) : s(p ? p : "") {}
  std::string_view Piece() const { return s; }
};
struct Hex { std::string s; template <typename T> explicit Hex(T v) { char b[32]; std::snprintf(b, sizeof b, "%llx", (unsigned long long)v); s = b; }
  template <typename K> friend void AbslStringify(K& k, const Hex& h) { k.Append(h.s); } };
inline void ShimAppendAll(std::string&) {}
template <typename... T> void ShimAppendAll(std::string& o, const AlphaNum& a, const T&... r) { o += a.s; ShimAppendAll(o, r...); }
template <typename... T> std::string StrCat(const T&... a) {
  std::string o;
  (void)std::initializer_list<int>{0, (o += AlphaNum(a).s, 0)...};
  return o;
}
template <typename... T> void StrAppend(std::string* o, const T&... a) {
  (void)std::initializer_list<int>{0, (*o += AlphaNum(a).s, 0)...};
}
}  // namespace absl
#endif
