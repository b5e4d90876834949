#ifndef SHIM_ABSL_LOG_absl_log_H_
#define SHIM_ABSL_LOG_absl_log_H_
#include "absl/log/internal_shim.h"
#define ABSL_LOG(sev) ::shim_log::Stream(__FILE__, __LINE__, "", ::shim_log::sev, ::shim_log::sev == 3).self()
#define ABSL_DLOG(sev) ABSL_LOG(sev)
#define ABSL_VLOG(n) ::shim_log::NullStream().self()
#define ABSL_LOG_IF(sev, c) if (!(c)) {} else ABSL_LOG(sev)
#define ABSL_LOG_FIRST_N(sev, n) ABSL_LOG(sev)
#define ABSL_LOG_EVERY_N(sev, n) ABSL_LOG(sev)
#define ABSL_LOG_EVERY_N_SEC(sev, n) ABSL_LOG(sev)
#endif
