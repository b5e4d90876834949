#include "skia_sksl.h"

#include <cmath>
#include <cstdlib>
#include <cstring>
#include <map>
#include <stdexcept>

namespace sksl {
namespace {
[[noreturn]] void Err(const std::string& m) { throw std::runtime_error(m); }

struct Tok { char k; std::string s; };  // k: i ident, n number, p punctuation, e end

std::vector<Tok> Lex(const std::string& s) {
  std::vector<Tok> o;
  size_t i = 0;
  static const char* two[] = {"==", "!=", "<=", ">=", "&&", "||", "+=", "-=", "*=", "/=", "++", "--", "^^"};
  while (i < s.size()) {
    char c = s[i];
    if (isspace((unsigned char)c)) { ++i; continue; }
    if (c == '/' && i + 1 < s.size() && s[i + 1] == '/') { while (i < s.size() && s[i] != '\n') ++i; continue; }
    if (c == '/' && i + 1 < s.size() && s[i + 1] == '*') {
      size_t e = s.find("*/", i + 2);
      if (e == std::string::npos) Err("unterminated comment");
      i = e + 2;
      continue;
    }
    if (isalpha((unsigned char)c) || c == '_') {
      size_t j = i;
      while (j < s.size() && (isalnum((unsigned char)s[j]) || s[j] == '_')) ++j;
      o.push_back({'i', s.substr(i, j - i)});
      i = j;
      continue;
    }
    if (isdigit((unsigned char)c) || (c == '.' && i + 1 < s.size() && isdigit((unsigned char)s[i + 1]))) {
      size_t j = i;
      while (j < s.size() && (isalnum((unsigned char)s[j]) || s[j] == '.' || ((s[j] == '-' || s[j] == '+') && (s[j - 1] == 'e' || s[j - 1] == 'E')))) ++j;
      o.push_back({'n', s.substr(i, j - i)});
      i = j;
      continue;
    }
    bool done = false;
    for (const char* t : two)
      if (s.compare(i, 2, t) == 0) { o.push_back({'p', t}); i += 2; done = true; break; }
    if (done) continue;
    if (!strchr("(){}[];,.=+-*/<>!?:", c)) Err(std::string("unexpected character '") + c + "'");
    o.push_back({'p', std::string(1, c)});
    ++i;
  }
  o.push_back({'e', ""});
  return o;
}

enum K { kNum, kVar, kField, kSwizzle, kIndex, kCtor, kCall, kBuiltin, kUnary, kBin, kAssign, kTernary, kIncr,
         kBlock, kIf, kFor, kReturn, kDecl, kExpr, kNothing };
struct Node {
  K k;
  int op = 0;      // operator, builtin id, slot, field index, prefix flag
  Type t;          // of constructors, declarations
  Value num;
  std::string name;
  int sw[4] = {}, nsw = 0;
  std::vector<int> overloads;
  std::vector<std::unique_ptr<Node>> c;
};
using NP = std::unique_ptr<Node>;
struct Param { Type t; bool in = true, out = false; };
struct Func { std::string name; Type ret; std::vector<Param> params; NP body; int slots = 0; };

const char* kBuiltins[] = {"abs", "sign", "floor", "ceil", "fract", "sqrt", "sin", "cos", "tan", "saturate", "radians", "degrees", "exp", "log", "exp2", "log2",
                           "min", "max", "mod", "pow", "step", "atan", "mix", "clamp", "smoothstep", "dot", "length", "distance", "normalize", "inversesqrt",
                           "asin", "acos", "round", "any", "all", "not", "determinant", "cross", "half", "trunc"};
int BuiltinId(const std::string& n) {
  for (size_t i = 0; i < sizeof kBuiltins / sizeof *kBuiltins; ++i) if (n == kBuiltins[i] && n != "half") return int(i);
  return -1;
}
}  // namespace

struct Impl {
  std::vector<StructDef> structs;
  std::vector<Field> uniforms;
  std::vector<Value> globals;  // uniforms first, then constants
  std::map<std::string, int> gnames;
  std::vector<Func> funcs;
  std::vector<Tok> tk;
  size_t p = 0;
  std::vector<std::map<std::string, int>> scopes;
  int nslots = 0;

  // ---- parsing ----
  bool Is(const char* s) const { return tk[p].s == s && tk[p].k != 'e'; }
  bool Eat(const char* s) { if (!Is(s)) return false; ++p; return true; }
  void Need(const char* s) { if (!Eat(s)) Err(std::string("expected '") + s + "' before '" + tk[p].s + "'"); }
  std::string Ident() { if (tk[p].k != 'i') Err("expected a name before '" + tk[p].s + "'"); return tk[p++].s; }
  bool TypeName(const std::string& n, Type* t) const {
    static const std::map<std::string, Type> m = {
        {"void", {'v', 1}}, {"bool", {'b', 1}}, {"bool2", {'b', 2}}, {"bool3", {'b', 3}}, {"bool4", {'b', 4}}, {"int", {'i', 1}}, {"int2", {'i', 2}}, {"int3", {'i', 3}}, {"int4", {'i', 4}},
        {"uint", {'i', 1}}, {"float", {'f', 1}}, {"float2", {'f', 2}}, {"float3", {'f', 3}}, {"float4", {'f', 4}}, {"vec2", {'f', 2}}, {"vec3", {'f', 3}}, {"vec4", {'f', 4}},
        {"half", {'h', 1}}, {"half2", {'h', 2}}, {"half3", {'h', 3}}, {"half4", {'h', 4}}, {"mat2", {'m', 2}}, {"float2x2", {'m', 2}}, {"half2x2", {'m', 2}},
        {"mat3", {'m', 3}}, {"float3x3", {'m', 3}}, {"mat4", {'m', 4}}, {"float4x4", {'m', 4}}};
    auto it = m.find(n);
    if (it != m.end()) { *t = it->second; return true; }
    for (size_t i = 0; i < structs.size(); ++i) if (structs[i].name == n) { *t = {'s', int(i)}; return true; }
    return false;
  }
  bool AtType() const { Type t; return tk[p].k == 'i' && TypeName(tk[p].s, &t); }
  Type ParseType() {
    Type t;
    while (Is("highp") || Is("mediump") || Is("lowp")) ++p;
    std::string n = Ident();
    if (!TypeName(n, &t)) Err("unknown type '" + n + "'");
    return t;
  }
  static NP Mk(K k) { auto n = std::make_unique<Node>(); n->k = k; return n; }
  int Declare(const std::string& n) {
    if (scopes.back().count(n)) Err("symbol '" + n + "' was already defined");
    scopes.back()[n] = nslots;
    return nslots++;
  }
  NP Var(const std::string& n) {
    NP e = Mk(kVar);
    e->name = n;
    for (size_t i = scopes.size(); i-- > 0;) {
      auto it = scopes[i].find(n);
      if (it != scopes[i].end()) { e->op = it->second; return e; }
    }
    auto g = gnames.find(n);
    if (g == gnames.end()) Err("unknown identifier '" + n + "'");
    e->op = -1 - g->second;
    return e;
  }
  NP Primary() {
    if (Is("(") && tk[p + 1].s == "void" && tk[p + 2].s == ")") { p += 3; return Unary(); }  // a discarded value
    if (Eat("(")) { NP e = Expr(); Need(")"); return e; }
    if (tk[p].k == 'n') {
      NP e = Mk(kNum);
      std::string s = tk[p++].s;
      bool fl = s.find_first_of(".eE") != std::string::npos;
      e->num.t = {fl ? 'f' : 'i', 1};
      e->num.f[0] = strtof(s.c_str(), nullptr);
      return e;
    }
    if (Is("true") || Is("false")) { NP e = Mk(kNum); e->num.t = {'b', 1}; e->num.f[0] = Is("true"); ++p; return e; }
    std::string n = Ident();
    Type t;
    if (Is("(")) {
      NP e;
      if (TypeName(n, &t)) { e = Mk(kCtor); e->t = t; }
      else {
        e = Mk(kCall);
        e->name = n;
        for (size_t i = 0; i < funcs.size(); ++i) if (funcs[i].name == n) e->overloads.push_back(int(i));
        if (e->overloads.empty()) {
          e->k = kBuiltin;
          e->op = BuiltinId(n);
          if (e->op < 0) Err("unknown function '" + n + "'");
        }
      }
      Need("(");
      if (!Is(")")) do e->c.push_back(AssignExpr()); while (Eat(","));
      Need(")");
      return e;
    }
    return Var(n);
  }
  NP Postfix() {
    NP e = Primary();
    while (true) {
      if (Eat(".")) {
        NP m = Mk(kField);
        m->name = Ident();
        m->c.push_back(std::move(e));
        // a swizzle, unless the value turns out to be a struct
        if (m->name.size() <= 4) {
          for (char ch : m->name) {
            const char *a = "xyzw", *b = "rgba", *c2 = "stpq", *q = nullptr;
            int ix = -1;
            if ((q = strchr(a, ch))) ix = int(q - a);
            else if ((q = strchr(b, ch))) ix = int(q - b);
            else if ((q = strchr(c2, ch))) ix = int(q - c2);
            if (ix < 0) { m->nsw = 0; break; }
            m->sw[m->nsw++] = ix;
          }
        }
        e = std::move(m);
      } else if (Eat("[")) {
        NP m = Mk(kIndex);
        m->c.push_back(std::move(e));
        m->c.push_back(Expr());
        Need("]");
        e = std::move(m);
      } else if (Is("++") || Is("--")) {
        NP m = Mk(kIncr);
        m->op = Is("++") ? 1 : -1;
        m->name = "post";
        ++p;
        m->c.push_back(std::move(e));
        e = std::move(m);
      } else return e;
    }
  }
  NP Unary() {
    if (Is("-") || Is("+") || Is("!")) { NP e = Mk(kUnary); e->op = tk[p++].s[0]; e->c.push_back(Unary()); return e; }
    if (Is("++") || Is("--")) { NP m = Mk(kIncr); m->op = Is("++") ? 1 : -1; ++p; m->c.push_back(Unary()); return m; }
    return Postfix();
  }
  NP Binary(int level) {
    static const std::vector<std::vector<std::string>> ops = {{"||"}, {"^^"}, {"&&"}, {"==", "!="}, {"<", ">", "<=", ">="}, {"+", "-"}, {"*", "/"}};
    if (level == int(ops.size())) return Unary();
    NP l = Binary(level + 1);
    while (true) {
      bool hit = false;
      for (const auto& o : ops[level])
        if (tk[p].k == 'p' && tk[p].s == o) {
          ++p;
          NP b = Mk(kBin);
          b->op = o.size() == 1 ? o[0] : o[0] * 256 + o[1];
          b->c.push_back(std::move(l));
          b->c.push_back(Binary(level + 1));
          l = std::move(b);
          hit = true;
          break;
        }
      if (!hit) return l;
    }
  }
  NP AssignExpr() {
    NP l = Binary(0);
    if (Eat("?")) {
      NP t = Mk(kTernary);
      t->c.push_back(std::move(l));
      t->c.push_back(AssignExpr());
      Need(":");
      t->c.push_back(AssignExpr());
      return t;
    }
    for (const char* o : {"=", "+=", "-=", "*=", "/="})
      if (Is(o)) {
        ++p;
        NP a = Mk(kAssign);
        a->op = o[1] ? o[0] : 0;
        a->c.push_back(std::move(l));
        a->c.push_back(AssignExpr());
        return a;
      }
    return l;
  }
  NP Expr() {
    NP e = AssignExpr();
    while (Eat(",")) { NP b = Mk(kBin); b->op = ','; b->c.push_back(std::move(e)); b->c.push_back(AssignExpr()); e = std::move(b); }
    return e;
  }
  NP Decl() {  // without the semicolon
    Eat("const");
    Type t = ParseType();
    NP d = Mk(kBlock);
    d->op = 1;
    do {
      NP v = Mk(kDecl);
      v->t = t;
      std::string n = Ident();
      if (Eat("=")) v->c.push_back(AssignExpr());
      v->op = Declare(n);
      d->c.push_back(std::move(v));
    } while (Eat(","));
    return d;
  }
  bool AtDecl() const {
    if (Is("const")) return true;
    return AtType() && tk[p + 1].k == 'i';
  }
  NP Stmt() {
    if (Eat("{")) {
      scopes.emplace_back();
      NP b = Mk(kBlock);
      while (!Is("}")) { if (tk[p].k == 'e') Err("unexpected end"); b->c.push_back(Stmt()); }
      ++p;
      scopes.pop_back();
      return b;
    }
    if (Eat(";")) return Mk(kNothing);
    if (Eat("if")) {
      NP n = Mk(kIf);
      Need("(");
      n->c.push_back(Expr());
      Need(")");
      n->c.push_back(Stmt());
      if (Eat("else")) n->c.push_back(Stmt());
      return n;
    }
    if (Is("for") || Is("while")) {
      bool isfor = Is("for");
      ++p;
      Need("(");
      scopes.emplace_back();
      NP n = Mk(kFor);
      NP nothing = Mk(kNothing);
      if (isfor) {
        n->c.push_back(Is(";") ? Mk(kNothing) : AtDecl() ? Decl() : Expr());
        Need(";");
        n->c.push_back(Is(";") ? nullptr : Expr());
        Need(";");
        n->c.push_back(Is(")") ? Mk(kNothing) : Expr());
      } else {
        n->c.push_back(Mk(kNothing));
        n->c.push_back(Expr());
        n->c.push_back(Mk(kNothing));
      }
      Need(")");
      n->c.push_back(Stmt());
      scopes.pop_back();
      return n;
    }
    if (Eat("return")) {
      NP n = Mk(kReturn);
      if (!Is(";")) n->c.push_back(Expr());
      Need(";");
      return n;
    }
    if (AtDecl()) { NP d = Decl(); Need(";"); return d; }
    NP e = Mk(kExpr);
    e->c.push_back(Expr());
    Need(";");
    return e;
  }
  void SkipLayout() {
    if (!Eat("layout")) return;
    Need("(");
    while (!Eat(")")) { if (tk[p].k == 'e') Err("unexpected end"); ++p; }
  }
  void Program(const std::string& src) {
    tk = Lex(src);
    while (tk[p].k != 'e') {
      SkipLayout();
      if (Eat("uniform")) {
        Type t = ParseType();
        do {
          std::string n = Ident();
          if (gnames.count(n)) Err("symbol '" + n + "' was already defined");
          gnames[n] = int(globals.size());
          if (globals.size() != uniforms.size()) Err("a uniform after a constant is not supported by the simulator");
          uniforms.push_back({n, t});
          globals.push_back(Value{t});
        } while (Eat(","));
        Need(";");
        continue;
      }
      if (Eat("struct")) {
        StructDef d;
        d.name = Ident();
        Need("{");
        while (!Eat("}")) { Type t = ParseType(); d.fields.push_back({Ident(), t}); Need(";"); }
        Need(";");
        structs.push_back(d);
        continue;
      }
      bool is_const = Eat("const");
      Eat("inline");
      Type t = ParseType();
      std::string n = Ident();
      if (!Is("(")) {
        if (!is_const) Err("global variables must be const or uniform");
        if (gnames.count(n)) Err("symbol '" + n + "' was already defined");
        Need("=");
        NP e = AssignExpr();
        Need(";");
        std::vector<Value> none;
        Value v = Convert(Eval(*e, none), t);
        gnames[n] = int(globals.size());
        globals.push_back(v);
        continue;
      }
      Need("(");
      Func f;
      f.name = n;
      f.ret = t;
      scopes.clear();
      scopes.emplace_back();
      nslots = 0;
      if (!Is(")")) do {
        Param q;
        while (true) {
          if (Eat("const")) continue;
          if (Eat("inout")) { q.out = true; continue; }
          if (Eat("out")) { q.out = true; q.in = false; continue; }
          if (Eat("in")) continue;
          break;
        }
        q.t = ParseType();
        f.params.push_back(q);
        Declare(Ident());
      } while (Eat(","));
      Need(")");
      if (Eat(";")) continue;  // a prototype
      for (const Func& o : funcs)
        if (o.name == n && o.params.size() == f.params.size()) {
          bool same = true;
          for (size_t i = 0; i < o.params.size(); ++i) same &= o.params[i].t == f.params[i].t;
          if (same) Err("duplicate definition of '" + n + "'");
        }
      f.body = Stmt();
      f.slots = nslots;
      funcs.push_back(std::move(f));
    }
    if (FindMain() < 0) Err("no main()");
  }
  int FindMain() const { for (size_t i = 0; i < funcs.size(); ++i) if (funcs[i].name == "main") return int(i); return -1; }

  // ---- execution ----
  bool returning = false;
  Value retval;
  long fuel = 0;
  static int N(const Value& v) { return v.t.base == 'm' ? v.t.n * v.t.n : v.t.n; }
  static bool Num(const Value& v) { return v.t.base == 'f' || v.t.base == 'h' || v.t.base == 'i'; }
  Value Make(Type t) const {
    Value v{t};
    if (t.base == 's') for (const Field& f : structs[t.n].fields) v.fields.push_back(Make(f.type));
    else for (int i = 0; i < 16; ++i) v.f[i] = NAN;  // not initialised: shows when it is used
    return v;
  }
  static Value Convert(Value v, Type t) {
    if (v.t == t) return v;
    bool a = v.t.base == 'f' || v.t.base == 'h' || v.t.base == 'i', b = t.base == 'f' || t.base == 'h';
    if (a && b && v.t.n == t.n) { v.t = t; return v; }
    Err("type mismatch");
  }
  Value* Lvalue(const Node& n, std::vector<Value>& fr, const int** sw, int* nsw) {
    if (n.k == kVar) { if (n.op < 0) Err("cannot assign to '" + n.name + "'"); return &fr[n.op]; }
    if (n.k == kField) {
      const int* s2 = nullptr;
      int n2 = 0;
      Value* b = Lvalue(*n.c[0], fr, &s2, &n2);
      if (s2) Err("swizzle of a swizzle is not supported by the simulator");
      if (b->t.base == 's') return &b->fields[FieldIx(*b, n.name)];
      if (!n.nsw) Err("invalid swizzle '" + n.name + "'");
      *sw = n.sw;
      *nsw = n.nsw;
      return b;
    }
    Err("not assignable");
  }
  int FieldIx(const Value& v, const std::string& name) const {
    const auto& fs = structs[v.t.n].fields;
    for (size_t i = 0; i < fs.size(); ++i) if (fs[i].name == name) return int(i);
    Err("type '" + structs[v.t.n].name + "' does not have a field named '" + name + "'");
  }
  static Value Bin(int op, const Value& a, const Value& b) {
    Value r;
    auto two = [](char x, char y) { return x * 256 + y; };
    if (op == two('&', '&') || op == two('|', '|') || op == two('^', '^')) {
      r.t = {'b', 1};
      bool x = a.f[0] != 0, y = b.f[0] != 0;
      r.f[0] = op == two('&', '&') ? x && y : op == two('|', '|') ? x || y : x != y;
      return r;
    }
    if (op == two('=', '=') || op == two('!', '=')) {
      bool eq = N(a) == N(b);
      for (int i = 0; eq && i < N(a); ++i) eq = a.f[i] == b.f[i];
      r.t = {'b', 1};
      r.f[0] = eq == (op == two('=', '='));
      return r;
    }
    if (op == '<' || op == '>' || op == two('<', '=') || op == two('>', '=')) {
      r.t = {'b', 1};
      float x = a.f[0], y = b.f[0];
      r.f[0] = op == '<' ? x < y : op == '>' ? x > y : op == two('<', '=') ? x <= y : x >= y;
      return r;
    }
    if (op == '*' && a.t.base == 'm' && b.t.base != 'm' && b.t.n > 1) {
      int n = a.t.n;
      if (b.t.n != n) Err("type mismatch");
      r.t = b.t;
      for (int i = 0; i < n; ++i) { float s = 0; for (int k = 0; k < n; ++k) s += a.f[k * n + i] * b.f[k]; r.f[i] = s; }
      return r;
    }
    if (op == '*' && b.t.base == 'm' && a.t.base != 'm' && a.t.n > 1) {
      int n = b.t.n;
      if (a.t.n != n) Err("type mismatch");
      r.t = a.t;
      for (int i = 0; i < n; ++i) { float s = 0; for (int k = 0; k < n; ++k) s += a.f[k] * b.f[i * n + k]; r.f[i] = s; }
      return r;
    }
    if (op == '*' && a.t.base == 'm' && b.t.base == 'm') {
      int n = a.t.n;
      r.t = a.t;
      for (int c = 0; c < n; ++c) for (int i = 0; i < n; ++i) { float s = 0; for (int k = 0; k < n; ++k) s += a.f[k * n + i] * b.f[c * n + k]; r.f[c * n + i] = s; }
      return r;
    }
    if (a.t.base == 's' || b.t.base == 's' || a.t.base == 'b' || b.t.base == 'b' || a.t.base == 'v' || b.t.base == 'v') Err("type mismatch");
    int na = N(a), nb = N(b);
    if (na != nb && na != 1 && nb != 1) Err("type mismatch");
    r.t = na >= nb ? a.t : b.t;
    if (r.t.base != 'm') {
      bool fl = a.t.base == 'f' || b.t.base == 'f', ha = a.t.base == 'h' || b.t.base == 'h';
      r.t.base = ha && (a.t.base != 'f' || na == 1) && (b.t.base != 'f' || nb == 1) && !(a.t.base == 'f' && b.t.base == 'f') ? 'h' : fl ? 'f' : 'i';
      if (r.t.base == 'h' && fl && ((a.t.base == 'f' && na > 1) || (b.t.base == 'f' && nb > 1))) r.t.base = 'f';
    }
    int n = N(r);
    for (int i = 0; i < n; ++i) {
      float x = a.f[na == 1 ? 0 : i], y = b.f[nb == 1 ? 0 : i];
      float z = op == '+' ? x + y : op == '-' ? x - y : op == '*' ? x * y : x / y;
      if (r.t.base == 'i' && op == '/') z = std::trunc(z);
      r.f[i] = z;
    }
    return r;
  }
  Value Builtin(const Node& n, std::vector<Value>& a) {
    const std::string& f = n.name;
    if (a.empty()) Err("no match for " + f + "()");
    for (const Value& v : a) if (v.t.base == 's' || v.t.base == 'v') Err("no match for " + f + "()");
    Value r;
    auto each1 = [&](auto fn) { r.t = a[0].t; if (r.t.base == 'i') r.t.base = 'f'; for (int i = 0; i < N(a[0]); ++i) r.f[i] = fn(a[0].f[i]); return r; };
    auto wide = [&] { const Value* w = &a[0]; for (const Value& v : a) { if (N(v) > N(*w)) w = &v; } r.t = w->t; if (r.t.base == 'i') r.t.base = 'f'; for (const Value& v : a) if (N(v) != 1 && N(v) != N(*w)) Err("no match for " + f + "()"); return N(*w); };
    auto at = [&](int k, int i) { return a[k].f[N(a[k]) == 1 ? 0 : i]; };
    auto need = [&](size_t k) { if (a.size() != k) Err("no match for " + f + "()"); };
    auto dot = [&](const Value& x, const Value& y) { if (N(x) != N(y)) Err("no match for " + f + "()"); float s = 0; for (int i = 0; i < N(x); ++i) s += x.f[i] * y.f[i]; return s; };
    auto scalar = [&](float v) { r.t = {'f', 1}; r.f[0] = v; return r; };
    if (f == "abs") { need(1); each1([](float x) { return std::fabs(x); }); r.t = a[0].t; return r; }
    if (f == "sign") { need(1); return each1([](float x) { return x > 0 ? 1.f : x < 0 ? -1.f : 0.f; }); }
    if (f == "floor") { need(1); return each1([](float x) { return std::floor(x); }); }
    if (f == "ceil") { need(1); return each1([](float x) { return std::ceil(x); }); }
    if (f == "round") { need(1); return each1([](float x) { return std::round(x); }); }
    if (f == "trunc") { need(1); return each1([](float x) { return std::trunc(x); }); }
    if (f == "fract") { need(1); return each1([](float x) { return x - std::floor(x); }); }
    if (f == "sqrt") { need(1); return each1([](float x) { return std::sqrt(x); }); }
    if (f == "inversesqrt") { need(1); return each1([](float x) { return 1 / std::sqrt(x); }); }
    if (f == "sin") { need(1); return each1([](float x) { return std::sin(x); }); }
    if (f == "cos") { need(1); return each1([](float x) { return std::cos(x); }); }
    if (f == "tan") { need(1); return each1([](float x) { return std::tan(x); }); }
    if (f == "asin") { need(1); return each1([](float x) { return std::asin(x); }); }
    if (f == "acos") { need(1); return each1([](float x) { return std::acos(x); }); }
    if (f == "exp") { need(1); return each1([](float x) { return std::exp(x); }); }
    if (f == "exp2") { need(1); return each1([](float x) { return std::exp2(x); }); }
    if (f == "log") { need(1); return each1([](float x) { return std::log(x); }); }
    if (f == "log2") { need(1); return each1([](float x) { return std::log2(x); }); }
    // like min(max(x, 0), 1): a NaN becomes 0 on the way
    if (f == "saturate") { need(1); return each1([](float x) { return x > 0 ? (x < 1 ? x : 1.f) : 0.f; }); }
    if (f == "radians") { need(1); return each1([](float x) { return x * 0.017453292519943295f; }); }
    if (f == "degrees") { need(1); return each1([](float x) { return x * 57.29577951308232f; }); }
    if (f == "min") { need(2); int k = wide(); for (int i = 0; i < k; ++i) r.f[i] = at(1, i) < at(0, i) ? at(1, i) : at(0, i); return r; }
    if (f == "max") { need(2); int k = wide(); for (int i = 0; i < k; ++i) r.f[i] = at(0, i) < at(1, i) ? at(1, i) : at(0, i); return r; }
    if (f == "mod") { need(2); int k = wide(); for (int i = 0; i < k; ++i) r.f[i] = at(0, i) - at(1, i) * std::floor(at(0, i) / at(1, i)); return r; }
    if (f == "pow") { need(2); int k = wide(); for (int i = 0; i < k; ++i) r.f[i] = std::pow(at(0, i), at(1, i)); return r; }
    if (f == "step") { need(2); int k = wide(); for (int i = 0; i < k; ++i) r.f[i] = at(1, i) < at(0, i) ? 0.f : 1.f; return r; }
    if (f == "atan") {
      if (a.size() == 1) return each1([](float x) { return std::atan(x); });
      need(2);
      int k = wide();
      for (int i = 0; i < k; ++i) r.f[i] = std::atan2(at(0, i), at(1, i));
      return r;
    }
    if (f == "mix") {
      need(3);
      int k = wide();
      for (int i = 0; i < k; ++i) r.f[i] = a[2].t.base == 'b' ? (at(2, i) != 0 ? at(1, i) : at(0, i)) : at(0, i) * (1 - at(2, i)) + at(1, i) * at(2, i);
      return r;
    }
    if (f == "clamp") { need(3); int k = wide(); for (int i = 0; i < k; ++i) r.f[i] = std::fmin(std::fmax(at(0, i), at(1, i)), at(2, i)); return r; }
    if (f == "smoothstep") {
      need(3);
      int k = wide();
      for (int i = 0; i < k; ++i) { float t = std::fmin(std::fmax((at(2, i) - at(0, i)) / (at(1, i) - at(0, i)), 0.f), 1.f); r.f[i] = t * t * (3 - 2 * t); }
      return r;
    }
    if (f == "dot") { need(2); return scalar(dot(a[0], a[1])); }
    if (f == "length") { need(1); return scalar(std::sqrt(dot(a[0], a[0]))); }
    if (f == "distance") { need(2); Value d = Bin('-', a[0], a[1]); return scalar(std::sqrt(dot(d, d))); }
    if (f == "normalize") { need(1); float l = std::sqrt(dot(a[0], a[0])); return each1([l](float x) { return x / l; }); }
    if (f == "any" || f == "all") { need(1); bool x = f == "all"; for (int i = 0; i < N(a[0]); ++i) x = f == "all" ? x && a[0].f[i] : x || a[0].f[i]; r.t = {'b', 1}; r.f[0] = x; return r; }
    if (f == "not") { need(1); r.t = a[0].t; for (int i = 0; i < N(a[0]); ++i) r.f[i] = !a[0].f[i]; return r; }
    if (f == "determinant") { need(1); if (a[0].t.base != 'm' || a[0].t.n != 2) Err("no match for determinant()"); return scalar(a[0].f[0] * a[0].f[3] - a[0].f[2] * a[0].f[1]); }
    Err("the simulator has no " + f + "()");
  }
  Value Eval(const Node& n, std::vector<Value>& fr) {
    switch (n.k) {
      case kNum: return n.num;
      case kVar: return n.op >= 0 ? fr[n.op] : globals[-1 - n.op];
      case kField: {
        // avoid copying whole structs
        if (n.c[0]->k == kVar) {
          const Value& b = n.c[0]->op >= 0 ? fr[n.c[0]->op] : globals[-1 - n.c[0]->op];
          if (b.t.base == 's') return b.fields[FieldIx(b, n.name)];
        }
        Value b = Eval(*n.c[0], fr);
        if (b.t.base == 's') return b.fields[FieldIx(b, n.name)];
        if (!n.nsw || b.t.base == 'm') Err("invalid swizzle '" + n.name + "'");
        Value r;
        r.t = {b.t.base, n.nsw};
        for (int i = 0; i < n.nsw; ++i) {
          if (n.sw[i] >= N(b)) Err("invalid swizzle '" + n.name + "'");
          r.f[i] = b.f[n.sw[i]];
        }
        return r;
      }
      case kIndex: {
        Value b = Eval(*n.c[0], fr), ix = Eval(*n.c[1], fr);
        int i = int(ix.f[0]);
        if (i < 0 || i >= b.t.n) Err("index out of range");
        Value r;
        if (b.t.base == 'm') { r.t = {'f', b.t.n}; for (int k = 0; k < b.t.n; ++k) r.f[k] = b.f[i * b.t.n + k]; }
        else { r.t = {b.t.base, 1}; r.f[0] = b.f[i]; }
        return r;
      }
      case kCtor: {
        Value r;
        r.t = n.t;
        if (n.t.base == 's') Err("struct constructors are not supported by the simulator");
        int need = N(r), got = 0;
        bool single = n.c.size() == 1;
        for (const NP& c : n.c) {
          Value v = Eval(*c, fr);
          if (v.t.base == 's' || v.t.base == 'v') Err("type mismatch in constructor");
          if (single && n.t.base == 'm' && N(v) == 1) { for (int i = 0; i < n.t.n; ++i) for (int k = 0; k < n.t.n; ++k) r.f[i * n.t.n + k] = i == k ? v.f[0] : 0; return r; }
          if (single && n.t.base != 'm' && N(v) == 1) { for (int i = 0; i < need; ++i) r.f[i] = v.f[0]; got = need; }
          else for (int i = 0; i < N(v); ++i) { if (got >= need) { if (single && need == 1) break; Err("too many constructor arguments"); } r.f[got++] = v.f[i]; }
          if (n.t.base == 'i') for (int i = 0; i < got; ++i) r.f[i] = std::trunc(r.f[i]);
          if (n.t.base == 'b') for (int i = 0; i < got; ++i) r.f[i] = r.f[i] != 0;
        }
        if (got != need) Err("too few constructor arguments");
        return r;
      }
      case kCall: {
        std::vector<Value> args;
        args.reserve(n.c.size());
        int best = -1, best_cost = 1 << 20;
        // out arguments are evaluated for their type only
        for (const NP& c : n.c) args.push_back(Eval(*c, fr));
        for (int o : n.overloads) {
          const Func& f = funcs[o];
          if (f.params.size() != args.size()) continue;
          int cost = 0;
          for (size_t i = 0; i < args.size(); ++i) {
            if (args[i].t == f.params[i].t) continue;
            bool num = Num(args[i]) && (f.params[i].t.base == 'f' || f.params[i].t.base == 'h') && args[i].t.n == f.params[i].t.n;
            cost += num ? 1 : 1 << 20;
          }
          if (cost < best_cost) { best_cost = cost; best = o; }
        }
        if (best < 0) Err("no match for " + n.name + "()");
        const Func& f = funcs[best];
        std::vector<Value> nf(f.slots);
        for (size_t i = 0; i < args.size(); ++i) nf[i] = f.params[i].in ? Convert(std::move(args[i]), f.params[i].t) : Make(f.params[i].t);
        Value r = Call(f, nf);
        for (size_t i = 0; i < f.params.size(); ++i)
          if (f.params[i].out) {
            const int* sw = nullptr;
            int nsw = 0;
            Value* l = Lvalue(*n.c[i], fr, &sw, &nsw);
            if (sw) for (int k = 0; k < nsw; ++k) l->f[sw[k]] = nf[i].f[k];
            else { Type keep = l->t; *l = nf[i]; if (keep.base != 's') l->t = keep; }
          }
        return r;
      }
      case kBuiltin: {
        std::vector<Value> args;
        args.reserve(n.c.size());
        for (const NP& c : n.c) args.push_back(Eval(*c, fr));
        return Builtin(n, args);
      }
      case kUnary: {
        Value v = Eval(*n.c[0], fr);
        if (v.t.base == 's' || v.t.base == 'v') Err("type mismatch");
        if (n.op == '-') for (int i = 0; i < N(v); ++i) v.f[i] = -v.f[i];
        if (n.op == '!') { if (v.t.base != 'b') Err("type mismatch"); for (int i = 0; i < N(v); ++i) v.f[i] = !v.f[i]; }
        return v;
      }
      case kBin: {
        Value a = Eval(*n.c[0], fr);
        if (n.op == '&' * 256 + '&' && a.f[0] == 0) return a;
        if (n.op == '|' * 256 + '|' && a.f[0] != 0) return a;
        Value b = Eval(*n.c[1], fr);
        if (n.op == ',') return b;
        return Bin(n.op, a, b);
      }
      case kTernary: return Eval(*n.c[0], fr).f[0] != 0 ? Eval(*n.c[1], fr) : Eval(*n.c[2], fr);
      case kIncr: {
        const int* sw = nullptr;
        int nsw = 0;
        Value* l = Lvalue(*n.c[0], fr, &sw, &nsw);
        if (sw) Err("not supported by the simulator");
        Value old = *l;
        for (int i = 0; i < N(*l); ++i) l->f[i] += n.op;
        return n.name == "post" ? old : *l;
      }
      case kAssign: {
        Value v = Eval(*n.c[1], fr);
        const int* sw = nullptr;
        int nsw = 0;
        Value* l = Lvalue(*n.c[0], fr, &sw, &nsw);
        Value cur = *l;
        if (sw) {
          cur.t = {l->t.base, nsw};
          for (int k = 0; k < nsw; ++k) { if (sw[k] >= l->t.n) Err("invalid swizzle"); cur.f[k] = l->f[sw[k]]; }
        }
        if (n.op) v = Bin(n.op, cur, v);
        v = Convert(std::move(v), cur.t);
        if (sw) for (int k = 0; k < nsw; ++k) l->f[sw[k]] = v.f[k];
        else *l = v;
        return v;
      }
      default: Err("not an expression");
    }
  }
  void Run(const Node& n, std::vector<Value>& fr) {
    if (--fuel < 0) Err("shader does not terminate");
    switch (n.k) {
      case kBlock:
        for (const NP& c : n.c) { Run(*c, fr); if (returning) return; }
        return;
      case kNothing: return;
      case kIf:
        if (Eval(*n.c[0], fr).f[0] != 0) Run(*n.c[1], fr);
        else if (n.c.size() > 2) Run(*n.c[2], fr);
        return;
      case kFor:
        for (Run(*n.c[0], fr); !n.c[1] || Eval(*n.c[1], fr).f[0] != 0; Run(*n.c[2], fr)) {
          Run(*n.c[3], fr);
          if (returning) return;
          if (--fuel < 0) Err("shader does not terminate");
        }
        return;
      case kReturn:
        if (!n.c.empty()) retval = Eval(*n.c[0], fr);
        returning = true;
        return;
      case kDecl:
        fr[n.op] = n.c.empty() ? Make(n.t) : Convert(Eval(*n.c[0], fr), n.t);
        return;
      case kExpr: Eval(*n.c[0], fr); return;
      default: Eval(n, fr);
    }
  }
  Value Call(const Func& f, std::vector<Value>& frame) {
    Value saved = std::move(retval);
    bool was = returning;
    returning = false;
    retval = Value{};
    Run(*f.body, frame);
    if (!returning && f.ret.base != 'v') Err("function '" + f.name + "' can exit without returning a value");
    Value r = f.ret.base == 'v' ? Value{} : Convert(std::move(retval), f.ret);
    retval = std::move(saved);
    returning = was;
    return r;
  }
};

Program::Program() = default;
Program::~Program() = default;
std::string Program::Compile(const std::string& source, std::vector<StructDef> structs) {
  im_ = std::make_unique<Impl>();
  im_->structs = std::move(structs);
  try {
    im_->fuel = 1000;
    im_->Program(source);
  } catch (const std::runtime_error& e) {
    return std::string("error: ") + e.what();
  }
  return "";
}
const std::vector<Field>& Program::Uniforms() const { return im_->uniforms; }
void Program::SetUniform(size_t i, const float* v) {
  for (int k = 0; k < Components(im_->uniforms[i].type); ++k) im_->globals[i].f[k] = v[k];
}
int Program::StructIndex(const std::string& name) const {
  for (size_t i = 0; i < im_->structs.size(); ++i) if (im_->structs[i].name == name) return int(i);
  return -1;
}
Value Program::RunMain(std::vector<Value>& args) {
  const Func& f = im_->funcs[im_->FindMain()];
  if (args.size() != f.params.size()) Err("main() has an unexpected number of parameters");
  im_->fuel = 100000;
  std::vector<Value> fr(f.slots);
  for (size_t i = 0; i < args.size(); ++i) {
    if (!(args[i].t == f.params[i].t)) Err("main() has unexpected parameter types");
    fr[i] = args[i];
  }
  Value r = im_->Call(f, fr);
  for (size_t i = 0; i < args.size(); ++i) if (f.params[i].out) args[i] = fr[i];
  return r;
}
}  // namespace sksl
