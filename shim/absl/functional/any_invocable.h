#ifndef SHIM_ABSL_FUNCTIONAL_ANY_INVOCABLE_H_
#define SHIM_ABSL_FUNCTIONAL_ANY_INVOCABLE_H_
#include <functional>
namespace absl {
template <typename S> using AnyInvocable = std::function<S>;
}
#endif
