// Compiled without ThreadSanitizer instrumentation on purpose: the baton passing below must not
// look like synchronisation of the code under test, so that under the TSan build every pair of
// conflicting accesses not ordered by the code's own synchronisation is still a race.
#include "vthreads.h"

#include <linux/futex.h>
#include <sys/syscall.h>
#include <unistd.h>

#include <cstdio>
#include <cstdlib>
#include <exception>
#include <thread>

#include "absl/synchronization/mutex.h"
#include "props.h"

extern "C" {
__attribute__((weak)) void __tsan_acquire(void*);
__attribute__((weak)) void __tsan_release(void*);
}

namespace dst {
void (*g_die_hook)(const char*, const std::string&) = nullptr;
void (*g_check_hook)(const std::string&) = nullptr;
void DieViolation(const char* cls, const std::string& msg) {
  if (g_die_hook) g_die_hook(cls, msg);
  fprintf(stderr, "violation %s: %s\n", cls, msg.c_str());
  _exit(97);
}

namespace {
constexpr int kMax = 16;
enum St { kIdle, kRunnable, kBlocked, kDone };
struct Sched {
  bool active = false;
  int n = 0;
  int cur = -1;
  St st[kMax];
  const void* waits[kMax];
  int held[kMax];
  int word[kMax];   // futex: 1 = may run
  int done_word = 0;
  uint64_t count = 0, switches = 0, blocked = 0;
  // decision state
  bool random = false;
  int mode = 0;
  double mean = 50;
  uint64_t rng = 0;
  uint64_t next_at = 0;
  const SchedSpec::Pre* pre = nullptr;
  size_t npre = 0, ipre = 0;
  SchedSpec::Pre taken[4096];
  size_t ntaken = 0;
};
Sched g;
thread_local int tls_id = -1;
int main_held = 0;

uint64_t Rnd() {
  uint64_t x = (g.rng += 0x9e3779b97f4a7c15ull);
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}
uint64_t Gap() {
  double u = (Rnd() >> 11) * (1.0 / 9007199254740992.0);
  double d = -__builtin_log(1 - u) * g.mean;
  return 1 + uint64_t(d);
}
void Wait(int* w) {
  while (__atomic_load_n(w, __ATOMIC_ACQUIRE) == 0) syscall(SYS_futex, w, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
  __atomic_store_n(w, 0, __ATOMIC_RELAXED);
}
void Post(int* w) {
  __atomic_store_n(w, 1, __ATOMIC_RELEASE);
  syscall(SYS_futex, w, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}
int NextRunnable(int from) {
  for (int k = 1; k <= g.n; ++k) {
    int t = (from + k) % g.n;
    if (g.st[t] == kRunnable) return t;
  }
  return -1;
}
void SwitchTo(int to) {
  int me = g.cur;
  if (to == me) return;
  ++g.switches;
  g.cur = to;
  Post(&g.word[to]);
  Wait(&g.word[me]);
}
__attribute__((noinline)) void YieldAt(bool sync) {
  if (!g.active || tls_id < 0 || tls_id != g.cur) return;
  uint64_t at = ++g.count;
  int to = -1;
  if (g.random) {
    if (g.mode == 1) {
      if (!sync || Rnd() % 100 >= 50) return;
    } else {
      if (at < g.next_at) return;
      g.next_at = at + Gap();
    }
    int k = 0, opts[kMax];
    for (int i = 0; i < g.n; ++i) if (i != g.cur && g.st[i] == kRunnable) opts[k++] = i;
    if (!k) return;
    to = opts[Rnd() % k];
    if (g.ntaken < 4096) g.taken[g.ntaken++] = {at, to};
    else return;
  } else {
    if (g.ipre >= g.npre || at < g.pre[g.ipre].n) return;
    while (g.ipre < g.npre && g.pre[g.ipre].n <= at) { to = g.pre[g.ipre].to; ++g.ipre; }
    if (to < 0 || to >= g.n || to == g.cur || g.st[to] != kRunnable) return;
    if (g.ntaken < 4096) g.taken[g.ntaken++] = {at, to};
  }
  SwitchTo(to);
}
}  // namespace

int VirtualThread() { return g.active ? tls_id : -1; }
int HeldMutexes() { return tls_id >= 0 ? g.held[tls_id] : main_held; }
void YieldApi() { YieldAt(true); }

SchedResult RunThreads(const std::vector<std::function<void()>>& bodies, const SchedSpec& spec) {
  g.n = int(bodies.size());
  if (g.n > kMax) abort();
  g.count = g.switches = g.blocked = 0;
  g.ntaken = 0;
  g.random = spec.random;
  g.mode = spec.mode;
  g.mean = spec.mean < 1 ? 1 : spec.mean;
  g.rng = spec.seed;
  g.pre = spec.pre.data();
  g.npre = spec.pre.size();
  g.ipre = 0;
  g.next_at = g.random ? Gap() : 0;
  std::vector<std::exception_ptr> errs(bodies.size());
  for (int i = 0; i < g.n; ++i) { g.st[i] = kRunnable; g.waits[i] = nullptr; g.held[i] = 0; g.word[i] = 0; }
  g.done_word = 0;
  std::vector<std::thread> th;
  for (int i = 0; i < g.n; ++i) {
    th.emplace_back([&, i] {
      tls_id = i;
      Wait(&g.word[i]);
      try {
        bodies[i]();
      } catch (...) {
        errs[i] = std::current_exception();
      }
      if (g.held[i] != 0) DieViolation("lock-leaked", "a thread ended while holding a mutex");
      g.st[i] = kDone;
      int nx = NextRunnable(i);
      if (nx >= 0) {
        g.cur = nx;
        ++g.switches;
        Post(&g.word[nx]);
      } else {
        for (int k = 0; k < g.n; ++k)
          if (g.st[k] == kBlocked) DieViolation("deadlock", "every remaining thread waits for a mutex");
        Post(&g.done_word);
      }
    });
  }
  g.active = true;
  if (g.n > 0) {
    int first = g.random ? int(Rnd() % g.n) : 0;
    if (!g.random && g.npre && g.pre[0].n == 0) { first = g.pre[0].to % g.n; ++g.ipre; }
    if (g.random || first != 0) g.taken[g.ntaken++] = {0, first};
    g.cur = first;
    Post(&g.word[first]);
    Wait(&g.done_word);
  }
  for (auto& t : th) t.join();
  g.active = false;
  g.cur = -1;
  SchedResult res;
  res.taken.assign(g.taken, g.taken + g.ntaken);
  res.yields = g.count;
  res.switches = g.switches;
  res.blocked = g.blocked;
  for (auto& e : errs) if (e) std::rethrow_exception(e);
  return res;
}

namespace { int g_section = -1; }
void FlushSchedule() {
  if (g_section < 0) return;
  for (size_t i = 0; i < g.ntaken; ++i)
    R.extra_plan.push_back(Fmt("op pre %d %llu %d", g_section, (unsigned long long)g.taken[i].n, g.taken[i].to));
  g_section = -1;
}
SchedResult RunPlanned(const Plan& plan, int section, const std::vector<std::function<void()>>& bodies) {
  SchedSpec spec;
  for (const Op& op : plan.ops) {
    if (op.kind == "sched") {
      spec.random = true;
      spec.mode = int(op.A(0));
      spec.mean = op.A(1, 50);
      spec.seed = Mix(plan.seed ^ Mix(section + 77));
    } else if (op.kind == "pre" && int(op.A(0)) == section) {
      spec.pre.push_back({uint64_t(op.A(1)), int(op.A(2))});
    }
  }
  g_section = section;
  SchedResult res;
  try {
    res = RunThreads(bodies, spec);
  } catch (...) {
    FlushSchedule();
    throw;
  }
  FlushSchedule();
  R.Count("sched.yield_points", res.yields);
  R.Count("sched.preemptions", res.switches);
  R.Count("sched.blocked_on_mutex", res.blocked);
  return res;
}

void RunOnFreshThread(const std::function<void()>& fn) {
  std::exception_ptr err;
  std::thread t([&] {
    try { fn(); } catch (...) { err = std::current_exception(); }
  });
  t.join();
  if (err) std::rethrow_exception(err);
}
}  // namespace dst

// ---- absl::Mutex seam ------------------------------------------------------------------------------
namespace shim_sync {
using namespace dst;
static bool Scheduled() { return g.active && tls_id >= 0; }
static void BlockOn(MutexState* m) {
  if (!Scheduled()) DieViolation("deadlock", "a single thread locks a mutex it already holds");
  ++g.blocked;
  g.st[tls_id] = kBlocked;
  g.waits[tls_id] = m;
  int nx = NextRunnable(tls_id);
  if (nx < 0) DieViolation("deadlock", "every thread waits for a mutex");
  SwitchTo(nx);
}
static void WakeWaiters(MutexState* m) {
  if (!g.active) return;
  for (int i = 0; i < g.n; ++i)
    if (g.st[i] == kBlocked && g.waits[i] == m) { g.st[i] = kRunnable; g.waits[i] = nullptr; }
}
static int& Held() { return Scheduled() ? g.held[tls_id] : main_held; }
void LockExclusive(MutexState* m) {
  YieldAt(true);
  while (m->writer || m->readers) {
    if (Scheduled() && m->writer == tls_id + 2) DieViolation("self-deadlock", "a thread locks a mutex it already holds");
    BlockOn(m);
  }
  m->writer = (Scheduled() ? tls_id : -1) + 2;
  ++Held();
  if (__tsan_acquire) __tsan_acquire(m);
  YieldAt(true);
}
bool TryLockExclusive(MutexState* m) {
  YieldAt(true);
  if (m->writer || m->readers) return false;
  m->writer = (Scheduled() ? tls_id : -1) + 2;
  ++Held();
  if (__tsan_acquire) __tsan_acquire(m);
  return true;
}
void UnlockExclusive(MutexState* m) {
  if (m->writer != (Scheduled() ? tls_id : -1) + 2) DieViolation("unlock-not-held", "a thread unlocks a mutex it does not hold");
  if (__tsan_release) __tsan_release(m);
  m->writer = 0;
  --Held();
  WakeWaiters(m);
  YieldAt(true);
}
void LockShared(MutexState* m) {
  YieldAt(true);
  while (m->writer) BlockOn(m);
  ++m->readers;
  ++Held();
  if (__tsan_acquire) __tsan_acquire(m);
  YieldAt(true);
}
void UnlockShared(MutexState* m) {
  if (m->readers <= 0) DieViolation("unlock-not-held", "a reader lock is released that is not held");
  if (__tsan_release) __tsan_release(m);
  --m->readers;
  --Held();
  WakeWaiters(m);
  YieldAt(true);
}
void AssertHeld(const MutexState* m) {
  if (!m->writer) DieViolation("assert-held", "AssertHeld on a mutex that is not held");
}
}  // namespace shim_sync

// ---- basic-block yield points (sanitizer coverage callbacks from instrumented ink files) ------------
extern "C" {
static uint32_t guard_counter = 0;
__attribute__((used)) void __sanitizer_cov_trace_pc_guard_init(uint32_t* start, uint32_t* stop) {
  if (start == stop || *start) return;
  for (uint32_t* x = start; x < stop; ++x) *x = ++guard_counter;
}
__attribute__((used, no_sanitize("address"))) void __sanitizer_cov_trace_pc_guard(uint32_t*) {
  if (__builtin_expect(dst::g.active, 0)) dst::YieldAt(false);
}
}
