// Simulator core: seeded randomness, replayable plans, violation reporting, statistics.
#ifndef DST_CORE_H_
#define DST_CORE_H_
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <map>
#include <string>
#include <unordered_set>
#include <utility>
#include <vector>

namespace dst {

// ---- randomness: the only source of it in the whole simulator -------------------------------
inline uint64_t Mix(uint64_t x) {
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(Mix(seed ^ 0x1234567890abcdefull)) {}
  uint64_t Next() { s += 0x9e3779b97f4a7c15ull; return Mix(s); }
  // uniform in [0, n)
  uint64_t Below(uint64_t n) { return n == 0 ? 0 : Next() % n; }
  int Int(int lo, int hi) { return lo + static_cast<int>(Below(hi - lo + 1)); }
  double U() { return (Next() >> 11) * (1.0 / 9007199254740992.0); }
  double Uni(double lo, double hi) { return lo + (hi - lo) * U(); }
  double LogUni(double lo, double hi) { return lo * std::pow(hi / lo, U()); }
  bool P(double p) { return U() < p; }
  template <class T> const T& Pick(const std::vector<T>& v) { return v[Below(v.size())]; }
  double Gauss() {
    double a = U(), b = U();
    return std::sqrt(-2 * std::log(a + 1e-300)) * std::cos(6.283185307179586 * b);
  }
  Rng Fork() { return Rng(Next()); }
};

// ---- plans ------------------------------------------------------------------------------------
struct Group {
  char tag = 0;
  std::vector<double> v;
};
struct Op {
  std::string kind;
  std::vector<double> a;
  std::vector<Group> g;
  double A(size_t i, double def = 0) const { return i < a.size() ? a[i] : def; }
};
struct Plan {
  std::string property;
  uint64_t seed = 0;
  std::vector<Op> ops;
  Op& Add(std::string kind, std::vector<double> a = {}) {
    ops.push_back(Op{std::move(kind), std::move(a), {}});
    return ops.back();
  }
  std::string ToText() const;
  static bool Parse(const std::string& text, Plan* out, std::string* err);
};

// ---- violations ------------------------------------------------------------------------------
struct Violation {
  std::string cls;  // stable class name; minimisation preserves it
  std::string msg;
};
[[noreturn]] void Fail(const std::string& cls, const char* fmt, ...)
    __attribute__((format(printf, 2, 3)));
std::string Fmt(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

// ---- run statistics and the event log ----------------------------------------------------------
struct Stats {
  std::map<std::string, uint64_t> counters;  // fault.* op.* probe.* evt.*
  std::unordered_set<uint64_t> states;       // distinct abstract states
  std::unordered_set<uint64_t> histories;    // distinct event-log hashes
  uint64_t runs = 0, steps = 0, checks = 0, nontrivial = 0;
  double sim_seconds = 0;
};
struct Run {
  Stats st;
  uint64_t log = 0;       // hash of every event and observation of the current run
  bool verbose = false;
  int step = -1;          // index of the op being executed
  bool run_nontrivial = false;
  std::vector<std::string> extra_plan;  // discovered schedule (explicit preemptions) for replay
  void Begin() { log = 0x5bd1e995; step = -1; run_nontrivial = false; extra_plan.clear(); }
  void Mixin(uint64_t x) { log = Mix(log ^ x); }
  void Count(const char* name, uint64_t n = 1) { st.counters[name] += n; }
  void State(uint64_t h) { if (st.states.size() < 4000000) st.states.insert(h); }
  void Check(uint64_t n = 1) { st.checks += n; }
  void Nontrivial() { run_nontrivial = true; }
};
extern Run R;
void Trace(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

inline uint64_t HashBytes(const void* p, size_t n, uint64_t h = 0xcbf29ce484222325ull) {
  const unsigned char* b = static_cast<const unsigned char*>(p);
  while (n >= 8) {
    uint64_t w;
    memcpy(&w, b, 8);
    h = Mix(h ^ w);
    b += 8;
    n -= 8;
  }
  uint64_t w = 0;
  memcpy(&w, b, n);
  return Mix(h ^ w ^ (uint64_t(n) << 56));
}

// ---- properties --------------------------------------------------------------------------------
struct PropertyDef {
  const char* id;
  Plan (*gen)(uint64_t seed);
  void (*exec)(const Plan& plan);  // throws Violation
};
const std::vector<PropertyDef>& Properties();

}  // namespace dst
#endif
