#ifndef SHIM_ABSL_FUNCTIONAL_OVERLOAD_H_
#define SHIM_ABSL_FUNCTIONAL_OVERLOAD_H_
namespace absl {
template <typename... T> struct Overload final : T... {
  using T::operator()...;
};
template <typename... T> Overload(T...) -> Overload<T...>;
}  // namespace absl
#endif
