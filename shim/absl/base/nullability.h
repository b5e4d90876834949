// Verification shim: the pinned system abseil predates this header.
#ifndef SHIM_ABSL_BASE_NULLABILITY_H_
#define SHIM_ABSL_BASE_NULLABILITY_H_
namespace absl {
template <typename T> using Nonnull = T;
template <typename T> using Nullable = T;
template <typename T> using NullabilityUnknown = T;
}  // namespace absl
#ifndef absl_nonnull
#define absl_nonnull
#define absl_nullable
#define absl_nullability_unknown
#endif
#endif
