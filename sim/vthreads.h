// Deterministic scheduler for virtual threads: real threads parked and released one at a time.
// Every interleaving decision is taken here, from the plan or from the run's seed.
#ifndef DST_SCHED_H_
#define DST_SCHED_H_
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace dst {
struct SchedSpec {
  bool random = false;     // decide preemptions from seed (recorded), else from `pre`
  uint64_t seed = 0;
  int mode = 0;            // 0: geometric with mean `mean` over all yield points; 1: sync points only
  double mean = 50;
  struct Pre { uint64_t n; int to; };
  std::vector<Pre> pre;
};
struct SchedResult {
  std::vector<SchedSpec::Pre> taken;  // preemptions that were performed
  uint64_t yields = 0, switches = 0, blocked = 0;
};
// Runs the bodies as virtual threads. An exception of a body is rethrown after all bodies ended.
// A deadlock is a violation; it ends the process (threads cannot be unwound).
SchedResult RunThreads(const std::vector<std::function<void()>>& bodies, const SchedSpec& spec);
// Takes the schedule of section `section` from the plan ("sched <mode> <mean>": random, decided by the plan's seed;
// else the "pre <section> <n> <to>" ops), runs the bodies and records the preemptions as extra plan lines.
// The first Violation of a body is rethrown after all bodies ended.
SchedResult RunPlanned(const struct Plan& plan, int section, const std::vector<std::function<void()>>& bodies);
// Appends the preemptions taken so far in the running section to the extra plan lines (for abrupt ends).
void FlushSchedule();
// Explicit yield point (API boundary of the simulated callers).
void YieldApi();
// Id of the running virtual thread or -1.
int VirtualThread();
// Number of mutexes the running thread holds (lock leak detection).
int HeldMutexes();
// Reports a violation that cannot be unwound, and ends the process.
[[noreturn]] void DieViolation(const char* cls, const std::string& msg);
extern void (*g_die_hook)(const char* cls, const std::string& msg);
extern void (*g_check_hook)(const std::string& msg);  // called for a failed CHECK before it is reported
}  // namespace dst
#endif
