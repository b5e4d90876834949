#include "core.h"

#include <cstdarg>
#include <cstdlib>
#include <sstream>

namespace dst {
Run R;

std::string Fmt(const char* fmt, ...) {
  char buf[2048];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  return buf;
}
void Fail(const std::string& cls, const char* fmt, ...) {
  char buf[4096];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  throw Violation{cls, Fmt("step %d: ", R.step) + buf};
}
void Trace(const char* fmt, ...) {
  if (!R.verbose) return;
  va_list ap;
  va_start(ap, fmt);
  fprintf(stderr, "  [%d] ", R.step);
  vfprintf(stderr, fmt, ap);
  fputc('\n', stderr);
  va_end(ap);
}

static void Num(std::string& s, double v) {
  char b[40];
  if (v == std::floor(v) && std::fabs(v) < 1e15 && !(v == 0 && std::signbit(v)))
    snprintf(b, sizeof b, " %.0f", v);
  else
    snprintf(b, sizeof b, " %.17g", v);
  s += b;
}
std::string Plan::ToText() const {
  std::string s = "property " + property + "\nseed " + std::to_string(seed) + "\n";
  for (const Op& op : ops) {
    s += "op " + op.kind;
    for (double d : op.a) Num(s, d);
    for (const Group& g : op.g) {
      s += " | ";
      s += g.tag;
      for (double d : g.v) Num(s, d);
    }
    s += "\n";
  }
  return s;
}
bool Plan::Parse(const std::string& text, Plan* out, std::string* err) {
  std::istringstream in(text);
  std::string line;
  *out = Plan{};
  while (std::getline(in, line)) {
    if (line.empty() || line[0] == '#') continue;
    std::istringstream ls(line);
    std::string w;
    ls >> w;
    if (w == "property") {
      ls >> out->property;
    } else if (w == "seed") {
      ls >> out->seed;
    } else if (w == "op") {
      Op op;
      ls >> op.kind;
      Group* cur = nullptr;
      std::string t;
      while (ls >> t) {
        if (t == "|") {
          std::string tag;
          ls >> tag;
          op.g.push_back(Group{tag.empty() ? '?' : tag[0], {}});
          cur = &op.g.back();
          continue;
        }
        char* e = nullptr;
        double d = strtod(t.c_str(), &e);
        if (*e) {
          *err = "bad number " + t + " in: " + line;
          return false;
        }
        (cur ? cur->v : op.a).push_back(d);
      }
      out->ops.push_back(std::move(op));
    } else if (w == "expect") {
      // recorded outcome, informational
    } else {
      *err = "bad line: " + line;
      return false;
    }
  }
  return true;
}
}  // namespace dst
