#ifndef SHIM_ABSL_STATUS_STATUS_H_
#define SHIM_ABSL_STATUS_STATUS_H_
#include <ostream>
#include <string>
#include <string_view>
#include <utility>
#include "absl/base/attributes.h"
#include "absl/strings/string_view.h"
namespace absl {
enum class StatusCode : int {
  kOk = 0, kCancelled = 1, kUnknown = 2, kInvalidArgument = 3,
  kDeadlineExceeded = 4, kNotFound = 5, kAlreadyExists = 6,
  kPermissionDenied = 7, kResourceExhausted = 8, kFailedPrecondition = 9,
  kAborted = 10, kOutOfRange = 11, kUnimplemented = 12, kInternal = 13,
  kUnavailable = 14, kDataLoss = 15, kUnauthenticated = 16,
};
inline std::string StatusCodeToString(StatusCode c) {
  static const char* const n[] = {"OK", "CANCELLED", "UNKNOWN", "INVALID_ARGUMENT",
      "DEADLINE_EXCEEDED", "NOT_FOUND", "ALREADY_EXISTS", "PERMISSION_DENIED",
      "RESOURCE_EXHAUSTED", "FAILED_PRECONDITION", "ABORTED", "OUT_OF_RANGE",
      "UNIMPLEMENTED", "INTERNAL", "UNAVAILABLE", "DATA_LOSS", "UNAUTHENTICATED"};
  int i = static_cast<int>(c);
  return i >= 0 && i <= 16 ? n[i] : "UNKNOWN";
}
inline std::ostream& operator<<(std::ostream& os, StatusCode c) { return os << StatusCodeToString(c); }
class ABSL_MUST_USE_RESULT Status final {
 public:
  Status() = default;
  Status(StatusCode c, std::string_view m) : code_(c), msg_(c == StatusCode::kOk ? "" : m) {}
  bool ok() const { return code_ == StatusCode::kOk; }
  StatusCode code() const { return code_; }
  int raw_code() const { return static_cast<int>(code_); }
  std::string_view message() const { return msg_; }
  std::string ToString() const { return ok() ? "OK" : StatusCodeToString(code_) + ": " + msg_; }
  void Update(const Status& s) { if (ok()) *this = s; }
  void IgnoreError() const {}
  friend bool operator==(const Status& a, const Status& b) { return a.code_ == b.code_ && a.msg_ == b.msg_; }
  friend bool operator!=(const Status& a, const Status& b) { return !(a == b); }
  friend void swap(Status& a, Status& b) { std::swap(a.code_, b.code_); std::swap(a.msg_, b.msg_); }
  friend std::ostream& operator<<(std::ostream& os, const Status& s) { return os << s.ToString(); }
  template <typename Sink> friend void AbslStringify(Sink& sink, const Status& s) { sink.Append(s.ToString()); }
 private:
  StatusCode code_ = StatusCode::kOk;
  std::string msg_;
};
inline Status OkStatus() { return Status(); }
#define SHIM_STATUS_(N)                                                         \
  inline Status N##Error(std::string_view m) { return Status(StatusCode::k##N, m); } \
  inline bool Is##N(const Status& s) { return s.code() == StatusCode::k##N; }
SHIM_STATUS_(Cancelled) SHIM_STATUS_(Unknown) SHIM_STATUS_(InvalidArgument)
SHIM_STATUS_(DeadlineExceeded) SHIM_STATUS_(NotFound) SHIM_STATUS_(AlreadyExists)
SHIM_STATUS_(PermissionDenied) SHIM_STATUS_(ResourceExhausted) SHIM_STATUS_(FailedPrecondition)
SHIM_STATUS_(Aborted) SHIM_STATUS_(OutOfRange) SHIM_STATUS_(Unimplemented) SHIM_STATUS_(Internal)
SHIM_STATUS_(Unavailable) SHIM_STATUS_(DataLoss) SHIM_STATUS_(Unauthenticated)
#undef SHIM_STATUS_
template <typename T> class StatusOr;
}  // namespace absl
#endif
