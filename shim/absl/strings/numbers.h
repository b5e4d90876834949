#ifndef SHIM_ABSL_STRINGS_NUMBERS_H_
#define SHIM_ABSL_STRINGS_NUMBERS_H_
#include <charconv>
#include <cstdlib>
#include <string>
#include "absl/strings/ascii.h"
namespace absl {
template <typename Int> bool SimpleAtoi(string_view s, Int* out) {
  while (!s.empty() && ascii_isspace(s.front())) s.remove_prefix(1);
  while (!s.empty() && ascii_isspace(s.back())) s.remove_suffix(1);
  if (!s.empty() && s.front() == '+') { s.remove_prefix(1); if (!s.empty() && s.front() == '-') return false; }
  auto r = std::from_chars(s.data(), s.data() + s.size(), *out);
  return r.ec == std::errc() && r.ptr == s.data() + s.size() && !s.empty();
}
inline bool SimpleAtod(string_view s, double* out) { std::string t(s); char* e; *out = std::strtod(t.c_str(), &e); return !t.empty() && *e == 0; }
inline bool SimpleAtof(string_view s, float* out) { std::string t(s); char* e; *out = std::strtof(t.c_str(), &e); return !t.empty() && *e == 0; }
}  // namespace absl
#endif
