#ifndef SHIM_ABSL_STRINGS_STR_JOIN_H_
#define SHIM_ABSL_STRINGS_STR_JOIN_H_
#include <initializer_list>
#include "absl/strings/str_cat.h"
namespace absl {
template <typename I> std::string StrJoin(I b, I e, std::string_view sep) {
  std::string o; bool first = true;
  for (; b != e; ++b) { if (!first) o += sep; first = false; o += AlphaNum(*b).s; }
  return o;
}
template <typename I, typename F> std::string StrJoin(I b, I e, std::string_view sep, F f) {
  std::string o; bool first = true;
  for (; b != e; ++b) { if (!first) o += sep; first = false; f(&o, *b); }
  return o;
}
template <typename R> std::string StrJoin(const R& r, std::string_view sep) { using std::begin; using std::end; return StrJoin(begin(r), end(r), sep); }
template <typename R, typename F, typename = decltype(std::begin(std::declval<const R&>()))>
std::string StrJoin(const R& r, std::string_view sep, F f) { return StrJoin(std::begin(r), std::end(r), sep, f); }
template <typename T> std::string StrJoin(std::initializer_list<T> r, std::string_view sep) { return StrJoin(r.begin(), r.end(), sep); }
}  // namespace absl
#endif
