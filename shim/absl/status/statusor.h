#ifndef SHIM_ABSL_STATUS_STATUSOR_H_
#define SHIM_ABSL_STATUS_STATUSOR_H_
#include <initializer_list>
#include <optional>
#include <type_traits>
#include <utility>
#include "absl/status/status.h"
namespace shim_log { [[noreturn]] void CheckFail(const char*, int, const std::string&); }
namespace absl {
template <typename T> class ABSL_MUST_USE_RESULT StatusOr {
 public:
  using value_type = T;
  StatusOr() : status_(StatusCode::kUnknown, "") {}
  StatusOr(const Status& s) : status_(s) { Verify(); }
  StatusOr(Status&& s) : status_(std::move(s)) { Verify(); }
  StatusOr(const StatusOr&) = default;
  StatusOr(StatusOr&&) = default;
  StatusOr& operator=(const StatusOr&) = default;
  StatusOr& operator=(StatusOr&&) = default;
  template <typename U = T,
            typename = std::enable_if_t<
                std::is_constructible_v<T, U&&> &&
                !std::is_same_v<std::remove_cvref_t<U>, StatusOr> &&
                !std::is_same_v<std::remove_cvref_t<U>, Status> &&
                !std::is_same_v<std::remove_cvref_t<U>, std::in_place_t>>>
  StatusOr(U&& u) : value_(std::in_place, std::forward<U>(u)) {}
  template <typename U, typename = std::enable_if_t<!std::is_same_v<U, T>>, typename = void>
  StatusOr(const StatusOr<U>& o) : status_(o.status()) { if (o.ok()) value_.emplace(*o); }
  template <typename... A> explicit StatusOr(std::in_place_t, A&&... a) : value_(std::in_place, std::forward<A>(a)...) {}
  bool ok() const { return status_.ok(); }
  const Status& status() const& { return status_; }
  Status status() && { return ok() ? OkStatus() : std::move(status_); }
  const T& value() const& { Ensure(); return *value_; }
  T& value() & { Ensure(); return *value_; }
  T&& value() && { Ensure(); return std::move(*value_); }
  const T& operator*() const& { Ensure(); return *value_; }
  T& operator*() & { Ensure(); return *value_; }
  T&& operator*() && { Ensure(); return std::move(*value_); }
  const T* operator->() const { Ensure(); return &*value_; }
  T* operator->() { Ensure(); return &*value_; }
  template <typename U> T value_or(U&& d) const& { return ok() ? *value_ : static_cast<T>(std::forward<U>(d)); }
  template <typename U> T value_or(U&& d) && { return ok() ? std::move(*value_) : static_cast<T>(std::forward<U>(d)); }
  template <typename... A> T& emplace(A&&... a) { status_ = Status(); return value_.emplace(std::forward<A>(a)...); }
  void IgnoreError() const {}
  friend bool operator==(const StatusOr& a, const StatusOr& b) {
    return a.ok() && b.ok() ? *a.value_ == *b.value_ : a.status_ == b.status_;
  }
  friend bool operator!=(const StatusOr& a, const StatusOr& b) { return !(a == b); }
 private:
  void Verify() const { if (status_.ok()) shim_log::CheckFail(__FILE__, __LINE__, "StatusOr constructed from OK status"); }
  void Ensure() const { if (!status_.ok()) shim_log::CheckFail(__FILE__, __LINE__, "Attempting to fetch value instead of handling error " + status_.ToString()); }
  Status status_;
  std::optional<T> value_;
};
}  // namespace absl
#endif
