// Driver: gen | exec | work. One seed is one exactly repeatable execution.
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>

#include <chrono>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <sstream>

#include "core.h"
#include "vthreads.h"

namespace shim_log {
// Hooks of the log/check shim.
[[noreturn]] void CheckFail(const char* file, int line, const std::string& msg);
void LogMessage(int sev, const char* file, int line, const std::string& msg);
}  // namespace shim_log

extern "C" __attribute__((weak)) void __sanitizer_set_death_callback(void (*)());

namespace {
const dst::PropertyDef* Find(const std::string& id) {
  for (const auto& p : dst::Properties()) if (id == p.id) return &p;
  return nullptr;
}
std::string Escape(const std::string& s) {
  std::string o;
  for (char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (static_cast<unsigned char>(c) < 32) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o;
}
void PrintExtra() {
  dst::FlushSchedule();
  for (const std::string& e : dst::R.extra_plan) printf("EXTRA %s\n", e.c_str());
}
void OnSanitizerDeath() {
  PrintExtra();
  fflush(stdout);
}
void Die(const char* cls, const std::string& msg) {
  PrintExtra();
  printf("VIOLATION-CLASS %s\nVIOLATION-MESSAGE step %d: %s\nLOG-HASH %016llx\n", cls, dst::R.step, msg.c_str(),
         (unsigned long long)dst::R.log);
  fflush(stdout);
  _exit(97);
}
const char* Base(const char* f) {
  const char* p = strstr(f, "/ink/");
  return p ? p + 1 : f;
}
// Executes one plan. Returns true when it violated the property.
bool ExecOne(const dst::PropertyDef* d, const dst::Plan& plan, dst::Violation* v) {
  dst::R.Begin();
  try {
    d->exec(plan);
  } catch (const dst::Violation& x) {
    *v = x;
    return true;
  } catch (const std::exception& e) {
    *v = dst::Violation{"exception", dst::Fmt("step %d: escaped exception: %s", dst::R.step, e.what())};
    return true;
  }
  ++dst::R.st.runs;
  if (dst::R.run_nontrivial) ++dst::R.st.nontrivial;
  dst::R.st.histories.insert(dst::R.log);
  return false;
}
void DumpStats(const std::string& path, bool complete) {
  const dst::Stats& s = dst::R.st;
  std::string o = "{\"complete\":";
  o += complete ? "true" : "false";
  o += ",\"runs\":" + std::to_string(s.runs) + ",\"steps\":" + std::to_string(s.steps) + ",\"checks\":" + std::to_string(s.checks) +
       ",\"nontrivial\":" + std::to_string(s.nontrivial) + dst::Fmt(",\"sim_seconds\":%.6f", s.sim_seconds) + ",\"counters\":{";
  bool first = true;
  for (auto& [k, n] : s.counters) { o += (first ? "\"" : ",\"") + Escape(k) + "\":" + std::to_string(n); first = false; }
  o += "}}";
  std::ofstream f(path + ".tmp");
  f << o;
  f.close();
  rename((path + ".tmp").c_str(), path.c_str());
  if (complete) {
    std::ofstream b(path + ".states", std::ios::binary);
    for (uint64_t x : s.states) b.write(reinterpret_cast<const char*>(&x), 8);
    std::ofstream h(path + ".hist", std::ios::binary);
    for (uint64_t x : s.histories) h.write(reinterpret_cast<const char*>(&x), 8);
  }
}
}  // namespace

namespace shim_log {
void CheckFail(const char* file, int line, const std::string& msg) {
  if (dst::g_check_hook) dst::g_check_hook(dst::Fmt("%s:%d: %s", Base(file), line, msg.c_str()));
  (void)line;  // line numbers shift with unrelated edits; the class names the file only
  std::string cls = std::string("check-failed:") + Base(file);
  Die(cls.c_str(), dst::Fmt("%s:%d: ", Base(file), line) + msg);
  abort();
}
void LogMessage(int sev, const char* file, int line, const std::string& msg) {
  if (sev >= 2) dst::R.Count("log.error");
  if (dst::R.verbose) fprintf(stderr, "  log[%d] %s:%d %s\n", sev, Base(file), line, msg.c_str());
}
}  // namespace shim_log

int main(int argc, char** argv) {
  setvbuf(stdout, nullptr, _IOFBF, 1 << 16);
  dst::g_die_hook = Die;
  if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(OnSanitizerDeath);
  std::string mode = argc > 1 ? argv[1] : "";
  auto arg = [&](const char* name, const char* def) -> std::string {
    for (int i = 2; i + 1 < argc; ++i) if (std::string(argv[i]) == name) return argv[i + 1];
    return def;
  };
  bool verbose = false;
  for (int i = 2; i < argc; ++i) verbose |= std::string(argv[i]) == "-v";
  if (mode == "list") {
    for (const auto& p : dst::Properties()) printf("%s\n", p.id);
    return 0;
  }
  if (mode == "gen") {
    const auto* d = Find(arg("--property", ""));
    if (!d) return 2;
    dst::Plan p = d->gen(strtoull(arg("--seed", "1").c_str(), nullptr, 10));
    fputs(p.ToText().c_str(), stdout);
    return 0;
  }
  if (mode == "exec") {
    if (argc < 3) return 2;
    std::ifstream f(argv[2]);
    std::stringstream ss;
    ss << f.rdbuf();
    dst::Plan p;
    std::string err;
    if (!f || !dst::Plan::Parse(ss.str(), &p, &err)) {
      fprintf(stderr, "cannot read plan: %s\n", err.c_str());
      return 2;
    }
    const auto* d = Find(p.property);
    if (!d) { fprintf(stderr, "unknown property %s\n", p.property.c_str()); return 2; }
    dst::R.verbose = verbose;
    dst::Violation v;
    bool bad = ExecOne(d, p, &v);
    for (const std::string& e : dst::R.extra_plan) printf("EXTRA %s\n", e.c_str());
    if (bad) {
      printf("VIOLATION-CLASS %s\nVIOLATION-MESSAGE %s\nLOG-HASH %016llx\n", v.cls.c_str(), v.msg.c_str(), (unsigned long long)dst::R.log);
      fflush(stdout);
      _exit(1);
    }
    printf("OK\nLOG-HASH %016llx\nSTEPS %llu\n", (unsigned long long)dst::R.log, (unsigned long long)dst::R.st.steps);
    fflush(stdout);
    if (verbose) for (auto& [k, n] : dst::R.st.counters) fprintf(stderr, "%s %llu\n", k.c_str(), (unsigned long long)n);
    _exit(0);
  }
  if (mode == "work") {
    const auto* d = Find(arg("--property", ""));
    if (!d) return 2;
    uint64_t base = strtoull(arg("--base", "1").c_str(), nullptr, 10);
    uint64_t start = strtoull(arg("--start", "0").c_str(), nullptr, 10);
    uint64_t stride = strtoull(arg("--stride", "1").c_str(), nullptr, 10);
    uint64_t end = strtoull(arg("--end", "100").c_str(), nullptr, 10);
    double limit = atof(arg("--limit", "1e9").c_str());
    double slow = atof(arg("--slow", "0").c_str());
    std::string out = arg("--out", "/dev/null");
    int fd = open((out + ".progress").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    uint64_t* prog = nullptr;
    if (fd >= 0 && ftruncate(fd, 64) == 0) {
      void* m = mmap(nullptr, 64, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
      if (m != MAP_FAILED) prog = static_cast<uint64_t*>(m);
    }
    auto t0 = std::chrono::steady_clock::now();
    uint64_t since = 0;
    for (uint64_t i = start; i < end; i += stride) {
      uint64_t seed = dst::Mix(dst::Mix(base) ^ dst::HashBytes(d->id, strlen(d->id)) ^ dst::Mix(i * 2 + 1)) >> 1;
      if (prog) { prog[0] = i; prog[1] = seed; }
      dst::Plan p = d->gen(seed);
      dst::Violation v;
      auto t1 = std::chrono::steady_clock::now();
      if (ExecOne(d, p, &v)) {
        printf("VIOLATION-CLASS %s\nVIOLATION-MESSAGE %s\nSEED %llu\n", v.cls.c_str(), v.msg.c_str(), (unsigned long long)seed);
        fflush(stdout);
        DumpStats(out, false);
        _exit(1);
      }
      auto t2 = std::chrono::steady_clock::now();
      if (slow > 0 && std::chrono::duration<double>(t2 - t1).count() > slow)
        fprintf(stderr, "SLOW %llu %.2f s\n", (unsigned long long)seed, std::chrono::duration<double>(t2 - t1).count());
      if (++since % 512 == 0) DumpStats(out, false);
      if (std::chrono::duration<double>(t2 - t0).count() > limit) break;
    }
    DumpStats(out, true);
    fflush(stdout);
    _exit(0);
  }
  fprintf(stderr, "usage: sim list | gen --property P --seed S | exec PLAN [-v] | work --property P ...\n");
  return 2;
}
