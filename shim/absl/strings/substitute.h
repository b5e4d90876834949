#ifndef SHIM_ABSL_STRINGS_SUBSTITUTE_H_
#define SHIM_ABSL_STRINGS_SUBSTITUTE_H_
#include <vector>
#include "absl/strings/str_cat.h"
namespace absl {
template <typename... T> std::string Substitute(std::string_view f, const T&... a) {
  std::vector<std::string> v{AlphaNum(a).s...};
  std::string o;
  for (size_t i = 0; i < f.size(); ++i) {
    if (f[i] == '$' && i + 1 < f.size()) {
      ++i;
      if (f[i] >= '0' && f[i] <= '9') { size_t k = f[i] - '0'; if (k < v.size()) o += v[k]; }
      else o += f[i];
    } else o += f[i];
  }
  return o;
}
template <typename... T> void SubstituteAndAppend(std::string* o, std::string_view f, const T&... a) { *o += Substitute(f, a...); }
}  // namespace absl
#endif
