// Verification shim for absl/log: CHECK/DCHECK/LOG with a failure hook the
// simulator owns.
#ifndef SHIM_ABSL_LOG_INTERNAL_H_
#define SHIM_ABSL_LOG_INTERNAL_H_
#include <cstdlib>
#include <sstream>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>
#include "absl/status/status.h"
#include "absl/strings/str_cat.h"

namespace shim_log {
[[noreturn]] void CheckFail(const char* file, int line, const std::string& msg);
void LogMessage(int severity, const char* file, int line,
                const std::string& msg);

template <typename T, typename = void> struct IsOstreamable : std::false_type {};
template <typename T>
struct IsOstreamable<T, std::void_t<decltype(std::declval<std::ostream&>()
                                             << std::declval<const T&>())>>
    : std::true_type {};

class Stream {
 public:
  Stream(const char* file, int line, std::string prefix, int severity, bool fatal)
      : file_(file), line_(line), severity_(severity), fatal_(fatal) {
    os_ << prefix;
  }
  ~Stream() noexcept(false) {
    if (fatal_) CheckFail(file_, line_, os_.str());
    LogMessage(severity_, file_, line_, os_.str());
  }
  template <typename T> Stream& operator<<(const T& v) {
    if constexpr (::absl::shim_strings::HasStringify<T>::value) {
      os_ << ::absl::shim_strings::Stringify(v);
    } else if constexpr (IsOstreamable<T>::value) {
      os_ << v;
    } else if constexpr (std::is_enum_v<T>) {
      os_ << static_cast<long long>(v);
    } else {
      os_ << "(unprintable)";
    }
    return *this;
  }
  Stream& self() { return *this; }

 private:
  const char* file_;
  int line_;
  int severity_;
  bool fatal_;
  std::ostringstream os_;
};
struct Voidify {
  void operator&(Stream&) {}
  void operator&(Stream&&) {}
};
struct NullStream {
  template <typename T> NullStream& operator<<(const T&) { return *this; }
  NullStream& self() { return *this; }
};
template <typename T> std::string Show(const T& v) {
  if constexpr (::absl::shim_strings::HasStringify<T>::value) {
    return ::absl::shim_strings::Stringify(v);
  } else if constexpr (IsOstreamable<T>::value) {
    std::ostringstream os;
    os << v;
    return os.str();
  } else if constexpr (std::is_enum_v<T>) {
    return std::to_string(static_cast<long long>(v));
  } else {
    return "(unprintable)";
  }
}
inline const absl::Status& AsStatus(const absl::Status& s) { return s; }
template <typename T> const absl::Status& AsStatus(const absl::StatusOr<T>& s) {
  return s.status();
}
struct OkHelper {
  absl::Status s;
  template <typename T> explicit OkHelper(T&& v) : s(AsStatus(v)) {}
  bool ok() const { return s.ok(); }
};
enum { INFO = 0, WARNING = 1, ERROR = 2, FATAL = 3, DFATAL = 3 };
}  // namespace shim_log

#define SHIM_LOG_CHECK_(cond, text)                                        \
  (cond) ? (void)0                                                         \
         : ::shim_log::Voidify() &                                         \
               ::shim_log::Stream(__FILE__, __LINE__,                      \
                                  "Check failed: " text " ", 3, true)      \
                   .self()
namespace shim_log {
template <typename A, typename B> const std::string* MakeOpMsg(const A& a, const B& b) {
  return new std::string("(" + Show(a) + " vs. " + Show(b) + ") ");
}
inline const std::string* MakeOkMsg(const absl::Status& s) {
  return new std::string("(" + s.ToString() + ") ");
}
template <typename A, typename B, typename F>
constexpr const std::string* CheckOp(const A& a, const B& b, F f) {
  return f(a, b) ? nullptr : MakeOpMsg(a, b);
}
template <typename A> const std::string* CheckOkOp(const A& a) {
  return AsStatus(a).ok() ? nullptr : MakeOkMsg(AsStatus(a));
}
}  // namespace shim_log
// The loops never run twice: the fatal stream does not return.
#define SHIM_LOG_OP_(a, op, b, text)                                          \
  while (const std::string* shim_r_ = ::shim_log::CheckOp(                    \
             (a), (b),                                                        \
             [](const auto& x, const auto& y) -> bool { return x op y; }))    \
  ::shim_log::Stream(__FILE__, __LINE__, "Check failed: " text " " + *shim_r_, 3, \
                     true)                                                    \
      .self()
#define SHIM_LOG_OK_(expr, text)                                              \
  while (const std::string* shim_r_ = ::shim_log::CheckOkOp((expr)))          \
  ::shim_log::Stream(__FILE__, __LINE__, "Check failed: " text " " + *shim_r_, 3, \
                     true)                                                    \
      .self()
#endif
