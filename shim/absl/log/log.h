#ifndef SHIM_ABSL_LOG_log_H_
#define SHIM_ABSL_LOG_log_H_
#include "absl/log/internal_shim.h"
#define LOG(sev) ::shim_log::Stream(__FILE__, __LINE__, "", ::shim_log::sev, ::shim_log::sev == 3).self()
#define DLOG(sev) LOG(sev)
#define VLOG(n) ::shim_log::NullStream().self()
#define LOG_IF(sev, c) if (!(c)) {} else LOG(sev)
#define LOG_FIRST_N(sev, n) LOG(sev)
#define LOG_EVERY_N(sev, n) LOG(sev)
#define LOG_EVERY_N_SEC(sev, n) LOG(sev)
#endif
