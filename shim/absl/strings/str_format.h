#ifndef SHIM_ABSL_STRINGS_STR_FORMAT_H_
#define SHIM_ABSL_STRINGS_STR_FORMAT_H_
#include <cstdio>
#include <string>
#include <vector>
#include "absl/strings/str_cat.h"
namespace absl {
namespace shim_strings {
struct FArg { int kind; long long i; unsigned long long u; double d; std::string s; };
template <typename T> FArg MakeF(const T& v) {
  FArg a{2, 0, 0, 0, ""};
  if constexpr (HasStringify<T>::value) a.s = Stringify(v);
  else if constexpr (std::is_floating_point_v<T>) { a.kind = 1; a.d = v; a.s = Num(v); }
  else if constexpr (std::is_same_v<T, bool>) { a.kind = 0; a.i = v; a.u = v; a.d = v; a.s = v ? "true" : "false"; }
  else if constexpr (std::is_integral_v<T>) { a.kind = 0; a.i = (long long)v; a.u = (unsigned long long)v; a.d = (double)v; a.s = std::to_string(v); }
  else if constexpr (std::is_enum_v<T>) { a.kind = 0; a.i = (long long)v; a.u = (unsigned long long)v; a.s = std::to_string((long long)v); }
  else if constexpr (std::is_pointer_v<T> && !std::is_convertible_v<T, const char*>) { a.kind = 0; a.u = (unsigned long long)v; a.i = (long long)a.u; a.s = std::to_string(a.u); }
  else a.s = ToStr(v);
  return a;
}
inline std::string Format(std::string_view f, const std::vector<FArg>& args) {
  std::string o; size_t n = 0;
  for (size_t i = 0; i < f.size(); ++i) {
    if (f[i] != '%') { o += f[i]; continue; }
    if (i + 1 < f.size() && f[i + 1] == '%') { o += '%'; ++i; continue; }
    std::string spec = "%"; ++i;
    auto next = [&]() -> const FArg& { static const FArg z{2, 0, 0, 0, "?"}; return n < args.size() ? args[n++] : z; };
    while (i < f.size() && std::string_view("-+ #0123456789.*lhzjtL").find(f[i]) != std::string_view::npos) {
      if (f[i] == '*') spec += std::to_string(next().i);
      else if (std::string_view("lhzjtL").find(f[i]) == std::string_view::npos) spec += f[i];
      ++i;
    }
    char c = i < f.size() ? f[i] : 's';
    const FArg& a = next();
    char b[512];
    switch (c) {
      case 'd': case 'i': if (a.kind == 2) { o += a.s; break; } std::snprintf(b, sizeof b, (spec + "lld").c_str(), a.i); o += b; break;
      case 'u': case 'x': case 'X': case 'o': std::snprintf(b, sizeof b, (spec + "ll" + c).c_str(), a.u); o += b; break;
      case 'c': o += static_cast<char>(a.i); break;
      case 'f': case 'F': case 'g': case 'G': case 'e': case 'E': case 'a': case 'A': std::snprintf(b, sizeof b, (spec + c).c_str(), a.d); o += b; break;
      case 'p': std::snprintf(b, sizeof b, "%p", (void*)a.u); o += b; break;
      default: o += a.s;
    }
  }
  return o;
}
}  // namespace shim_strings
template <typename... T> std::string StrFormat(std::string_view f, const T&... a) {
  return shim_strings::Format(f, std::vector<shim_strings::FArg>{shim_strings::MakeF(a)...});
}
template <typename... T> void StrAppendFormat(std::string* o, std::string_view f, const T&... a) { *o += StrFormat(f, a...); }
template <typename Sink, typename... T> bool Format(Sink* sink, std::string_view f, const T&... a) { sink->Append(StrFormat(f, a...)); return true; }
}  // namespace absl
#endif
