#ifndef SHIM_STATUS_MATCHERS_H_
#define SHIM_STATUS_MATCHERS_H_
#include "gmock/gmock.h"
#include "gtest/gtest.h"
#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "absl/log/internal_shim.h"
namespace absl_testing {
MATCHER(IsOk, "is OK") { return shim_log::AsStatus(arg).ok(); }
template <typename M> class StatusIsM {
 public:
  StatusIsM(absl::StatusCode c, testing::Matcher<std::string> m) : c_(c), m_(m) {}
  template <typename T> operator testing::Matcher<T>() const {
    auto c = c_; auto m = m_;
    return testing::Truly([c, m](const std::remove_reference_t<T>& v) { const absl::Status& s = shim_log::AsStatus(v); return s.code() == c && m.Matches(std::string(s.message())); });
  }
 private:
  absl::StatusCode c_; testing::Matcher<std::string> m_;
};
template <typename M> StatusIsM<int> StatusIs(absl::StatusCode c, M m) { return StatusIsM<int>(c, testing::MatcherCast<std::string>(m)); }
inline StatusIsM<int> StatusIs(absl::StatusCode c) { return StatusIsM<int>(c, testing::_); }
template <typename M> class IsOkAndHoldsM {
 public:
  explicit IsOkAndHoldsM(M m) : m_(m) {}
  template <typename T> operator testing::Matcher<T>() const {
    using V = typename std::remove_cvref_t<T>::value_type;
    testing::Matcher<const V&> mm = testing::SafeMatcherCast<const V&>(m_);
    return testing::Truly([mm](const std::remove_reference_t<T>& v) { return v.ok() && mm.Matches(*v); });
  }
  M m_;
};
template <typename M> IsOkAndHoldsM<M> IsOkAndHolds(M m) { return IsOkAndHoldsM<M>(m); }
}
#endif
