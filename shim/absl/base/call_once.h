#ifndef SHIM_ABSL_BASE_CALL_ONCE_H_
#define SHIM_ABSL_BASE_CALL_ONCE_H_
#include <utility>
#include "absl/synchronization/mutex.h"
namespace absl {
class once_flag {
 public:
  once_flag() = default;
  once_flag(const once_flag&) = delete;
  Mutex m;
  bool done = false;
};
template <typename F, typename... A> void call_once(once_flag& o, F&& f, A&&... a) {
  MutexLock l(&o.m);
  if (!o.done) { std::forward<F>(f)(std::forward<A>(a)...); o.done = true; }
}
}  // namespace absl
#endif
