#ifndef SHIM_ABSL_LOG_absl_check_H_
#define SHIM_ABSL_LOG_absl_check_H_
#include "absl/log/internal_shim.h"
#define ABSL_CHECK(c) SHIM_LOG_CHECK_((c), #c)
#define ABSL_CHECK_EQ(a, b) SHIM_LOG_OP_(a, ==, b, #a " == " #b)
#define ABSL_CHECK_NE(a, b) SHIM_LOG_OP_(a, !=, b, #a " != " #b)
#define ABSL_CHECK_LT(a, b) SHIM_LOG_OP_(a, <, b, #a " < " #b)
#define ABSL_CHECK_LE(a, b) SHIM_LOG_OP_(a, <=, b, #a " <= " #b)
#define ABSL_CHECK_GT(a, b) SHIM_LOG_OP_(a, >, b, #a " > " #b)
#define ABSL_CHECK_GE(a, b) SHIM_LOG_OP_(a, >=, b, #a " >= " #b)
#define ABSL_CHECK_OK(e) SHIM_LOG_OK_(e, #e " is OK")
#ifndef SHIM_NO_DCHECK
#define ABSL_DCHECK(c) SHIM_LOG_CHECK_((c), #c)
#define ABSL_DCHECK_EQ(a, b) SHIM_LOG_OP_(a, ==, b, #a " == " #b)
#define ABSL_DCHECK_NE(a, b) SHIM_LOG_OP_(a, !=, b, #a " != " #b)
#define ABSL_DCHECK_LT(a, b) SHIM_LOG_OP_(a, <, b, #a " < " #b)
#define ABSL_DCHECK_LE(a, b) SHIM_LOG_OP_(a, <=, b, #a " <= " #b)
#define ABSL_DCHECK_GT(a, b) SHIM_LOG_OP_(a, >, b, #a " > " #b)
#define ABSL_DCHECK_GE(a, b) SHIM_LOG_OP_(a, >=, b, #a " >= " #b)
#define ABSL_DCHECK_OK(e) SHIM_LOG_OK_(e, #e " is OK")
#else
// As in a release build: the condition is not evaluated.
#define ABSL_DCHECK(c) while (false) ABSL_CHECK(c)
#define ABSL_DCHECK_EQ(a, b) while (false) ABSL_CHECK_EQ(a, b)
#define ABSL_DCHECK_NE(a, b) while (false) ABSL_CHECK_NE(a, b)
#define ABSL_DCHECK_LT(a, b) while (false) ABSL_CHECK_LT(a, b)
#define ABSL_DCHECK_LE(a, b) while (false) ABSL_CHECK_LE(a, b)
#define ABSL_DCHECK_GT(a, b) while (false) ABSL_CHECK_GT(a, b)
#define ABSL_DCHECK_GE(a, b) while (false) ABSL_CHECK_GE(a, b)
#define ABSL_DCHECK_OK(e) while (false) ABSL_CHECK_OK(e)
#endif
#define ABSL_QCHECK(c) ABSL_CHECK(c)
#define ABSL_QCHECK_OK(c) ABSL_CHECK_OK(c)
#endif
