#ifndef SHIM_ABSL_LOG_check_H_
#define SHIM_ABSL_LOG_check_H_
#include "absl/log/internal_shim.h"
#define CHECK(c) SHIM_LOG_CHECK_((c), #c)
#define CHECK_EQ(a, b) SHIM_LOG_OP_(a, ==, b, #a " == " #b)
#define CHECK_NE(a, b) SHIM_LOG_OP_(a, !=, b, #a " != " #b)
#define CHECK_LT(a, b) SHIM_LOG_OP_(a, <, b, #a " < " #b)
#define CHECK_LE(a, b) SHIM_LOG_OP_(a, <=, b, #a " <= " #b)
#define CHECK_GT(a, b) SHIM_LOG_OP_(a, >, b, #a " > " #b)
#define CHECK_GE(a, b) SHIM_LOG_OP_(a, >=, b, #a " >= " #b)
#define CHECK_OK(e) SHIM_LOG_OK_(e, #e " is OK")
#define DCHECK(c) SHIM_LOG_CHECK_((c), #c)
#define DCHECK_EQ(a, b) SHIM_LOG_OP_(a, ==, b, #a " == " #b)
#define DCHECK_NE(a, b) SHIM_LOG_OP_(a, !=, b, #a " != " #b)
#define DCHECK_LT(a, b) SHIM_LOG_OP_(a, <, b, #a " < " #b)
#define DCHECK_LE(a, b) SHIM_LOG_OP_(a, <=, b, #a " <= " #b)
#define DCHECK_GT(a, b) SHIM_LOG_OP_(a, >, b, #a " > " #b)
#define DCHECK_GE(a, b) SHIM_LOG_OP_(a, >=, b, #a " >= " #b)
#define DCHECK_OK(e) SHIM_LOG_OK_(e, #e " is OK")
#define QCHECK(c) CHECK(c)
#define QCHECK_OK(c) CHECK_OK(c)
#endif
