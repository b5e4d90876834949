// B01, B02: input batches as values, under any history of edits and under any interleaving of caller threads.
#include <memory>

#include "absl/synchronization/mutex.h"
#include "ink/geometry/affine_transform.h"
#include "props.h"
#include "vthreads.h"
#include "world.h"

namespace dst {
namespace {
constexpr int kSlots = 4;

bool SameBits(const In& a, const In& b) {
  auto f = [](float p, float q) { uint32_t x, y; memcpy(&x, &p, 4); memcpy(&y, &q, 4); return x == y; };
  return f(a.x, b.x) && f(a.y, b.y) && f(a.t, b.t) && a.tool == b.tool && f(a.unit, b.unit) && f(a.p, b.p) && f(a.tilt, b.tilt) && f(a.ori, b.ori);
}

struct ModelBatch {
  std::vector<In> v;
  bool moved_from = false;  // only assignable, clearable and destructible
};

// Everything one actor (caller thread) owns. Statistics are kept here and merged later, so that actors share nothing
// but the storage under test.
struct Actor {
  ink::StrokeInputBatch real[kSlots];
  ModelBatch model[kSlots];
  uint64_t log = 1;
  uint64_t checks = 0, accepted = 0, rejected = 0, shared_edits = 0, alias = 0;
  bool nontrivial = false;
};

struct Mailbox {
  absl::Mutex mu;
  ink::StrokeInputBatch real[2] ABSL_GUARDED_BY(mu);
  ModelBatch model[2] ABSL_GUARDED_BY(mu);
};

void CheckSlot(Actor& a, int s, const char* when) {
  const ModelBatch& m = a.model[s];
  if (m.moved_from) return;
  const ink::StrokeInputBatch& b = a.real[s];
  ++a.checks;
  if (b.Size() != m.v.size()) Fail("batch-size", "slot %d has %zu inputs after %s, expected %zu", s, b.Size(), when, m.v.size());
  if (b.IsEmpty() != m.v.empty()) Fail("batch-size", "slot %d: IsEmpty() is wrong after %s", s, when);
  for (size_t i = 0; i < m.v.size(); ++i) {
    In got = FromInk(b.Get(i));
    if (!SameBits(got, m.v[i])) Fail("batch-content", "slot %d input %zu is %s after %s, expected %s", s, i, Show(got).c_str(), when, Show(m.v[i]).c_str());
  }
  size_t n = 0;
  for (auto it = b.begin(); it != b.end(); ++it, ++n) {
    if (n >= m.v.size()) Fail("batch-iteration", "slot %d: iteration runs past the end after %s", s, when);
    if (!SameBits(FromInk(*it), m.v[n])) Fail("batch-iteration", "slot %d: iteration yields a different input %zu after %s", s, n, when);
    if (it->position.x != m.v[n].x) Fail("batch-iteration", "slot %d: iterator member access differs", s);
  }
  if (n != m.v.size()) Fail("batch-iteration", "slot %d: iteration yields %zu of %zu inputs after %s", s, n, m.v.size(), when);
  bool e = m.v.empty();
  if (int(b.GetToolType()) != (e ? 0 : m.v[0].tool)) Fail("batch-format", "slot %d: tool type %d after %s", s, int(b.GetToolType()), when);
  float unit = b.GetStrokeUnitLength() ? b.GetStrokeUnitLength()->ToCentimeters() : 0;
  if (b.HasStrokeUnitLength() != (!e && m.v[0].unit != 0) || (b.HasStrokeUnitLength() && unit != m.v[0].unit))
    Fail("batch-format", "slot %d: stroke unit length %g after %s", s, unit, when);
  if (b.HasPressure() != (!e && m.v[0].p != -1) || b.HasTilt() != (!e && m.v[0].tilt != -1) || b.HasOrientation() != (!e && m.v[0].ori != -1))
    Fail("batch-format", "slot %d: wrong optional fields after %s", s, when);
  float d = e ? 0 : m.v.back().t - m.v.front().t;
  if (b.GetDuration().ToSeconds() != d) Fail("batch-duration", "slot %d: duration %g after %s, expected %g", s, b.GetDuration().ToSeconds(), when, d);
  a.log = Mix(a.log ^ b.Size() ^ (m.v.empty() ? 0 : HashBytes(m.v.data(), m.v.size() * sizeof(In))));
}

std::vector<In> Ins(const Op& op) {
  std::vector<In> v;
  for (const Group& g : op.g) if (g.tag == 'r') v.push_back(FromGroup(g));
  return v;
}
void Expect(Actor& a, const Op& op, bool ok, bool want) {
  if (ok && !want) Fail("accepted-invalid", "%s was accepted but must be rejected", op.kind.c_str());
  if (!ok && want) Fail("rejected-valid", "%s was rejected but is valid", op.kind.c_str());
  (ok ? a.accepted : a.rejected)++;
  if (!ok) a.nontrivial = true;
}
bool ContinuesWith(const std::vector<In>& v, const std::vector<In>& more) {
  return ValidSeq(more) && (v.empty() || more.empty() || ValidPair(v.back(), more.front()));
}

// Applies one op. Slot numbers are A(0) (target) and A(1).
void Apply(Actor& a, const Op& op, Mailbox* box) {
  const std::string& k = op.kind;
  int s = int(std::fabs(op.A(0))) % kSlots, t = int(std::fabs(op.A(1))) % kSlots;
  ModelBatch& m = a.model[s];
  ink::StrokeInputBatch& b = a.real[s];
  if (k == "create") {
    std::vector<In> v = Ins(op);
    std::vector<ink::StrokeInput> iv;
    for (const In& i : v) iv.push_back(ToInk(i));
    auto r = ink::StrokeInputBatch::Create(iv);
    Expect(a, op, r.ok(), ValidSeq(v));
    if (r.ok()) { b = *std::move(r); m = {v}; }
  } else if (k == "copy") {
    if (a.model[t].moved_from) return;
    b = a.real[t];
    m = a.model[t];
  } else if (k == "copynew") {  // copy construction, then swap in
    if (a.model[t].moved_from) return;
    ink::StrokeInputBatch c(a.real[t]);
    b = std::move(c);
    m = a.model[t];
  } else if (k == "move") {
    if (s == t || a.model[t].moved_from) return;
    b = std::move(a.real[t]);
    m = a.model[t];
    a.model[t].moved_from = true;
  } else if (k == "deep") {
    if (a.model[t].moved_from) return;
    b = a.real[t].MakeDeepCopy();
    m = a.model[t];
  } else if (k == "clear") {
    b.Clear();
    m = {};
  } else if (k == "reset") {
    b = ink::StrokeInputBatch();
    m = {};
  } else if (m.moved_from) {
    return;
  } else if (k == "app1") {
    std::vector<In> v = Ins(op);
    if (v.size() != 1) return;
    Expect(a, op, b.Append(ToInk(v[0])).ok(), ContinuesWith(m.v, v));
    if (ContinuesWith(m.v, v)) m.v.push_back(v[0]);
  } else if (k == "appn") {
    std::vector<In> v = Ins(op);
    std::vector<ink::StrokeInput> iv;
    for (const In& i : v) iv.push_back(ToInk(i));
    bool want = ContinuesWith(m.v, v);
    Expect(a, op, b.Append(absl::MakeConstSpan(iv)).ok(), want);
    if (want) m.v.insert(m.v.end(), v.begin(), v.end());
  } else if (k == "appb") {
    if (a.model[t].moved_from) return;
    std::vector<In> v = a.model[t].v;
    if (s == t) { ++a.alias; a.nontrivial = true; }
    // Only the joint is validated: the appended batch is valid by construction (or made degenerate by a transform).
    bool want = v.empty() || m.v.empty() || ValidPair(m.v.back(), v.front());
    Expect(a, op, b.Append(a.real[t]).ok(), want);
    if (want) m.v.insert(m.v.end(), v.begin(), v.end());
  } else if (k == "appslice") {  // several inputs read from another batch, possibly this one
    if (a.model[t].moved_from) return;
    std::vector<In> v;
    std::vector<ink::StrokeInput> iv;
    for (size_t i = size_t(op.A(2)); i < a.model[t].v.size() && iv.size() < size_t(op.A(3)); ++i) {
      v.push_back(a.model[t].v[i]);
      iv.push_back(a.real[t].Get(i));
    }
    bool want = ContinuesWith(m.v, v);
    Expect(a, op, b.Append(absl::MakeConstSpan(iv)).ok(), want);
    if (want) m.v.insert(m.v.end(), v.begin(), v.end());
  } else if (k == "set") {
    std::vector<In> v = Ins(op);
    if (v.size() != 1 || m.v.empty()) return;
    size_t i = size_t(op.A(1)) % m.v.size();
    bool want = ValidSingle(v[0]);
    if (m.v.size() > 1) {
      if (i > 0) want = want && ValidPair(m.v[i - 1], v[0]);
      if (i + 1 < m.v.size()) want = want && ValidPair(v[0], m.v[i + 1]);
    }
    Expect(a, op, b.Set(i, ToInk(v[0])).ok(), want);
    if (want) m.v[i] = v[0];
  } else if (k == "setself") {  // an input of the batch itself, at another place
    if (m.v.empty()) return;
    size_t i = size_t(op.A(1)) % m.v.size(), j = size_t(op.A(2)) % m.v.size();
    In v = m.v[j];
    bool want = true;
    if (m.v.size() > 1) {
      if (i > 0) want = want && ValidPair(m.v[i - 1], v);
      if (i + 1 < m.v.size()) want = want && ValidPair(v, m.v[i + 1]);
    }
    Expect(a, op, b.Set(i, *std::next(b.begin(), j)).ok(), want);
    if (want) m.v[i] = v;
  } else if (k == "erase") {
    size_t st = size_t(op.A(1)) % (m.v.size() + 1);
    size_t n = op.A(2) < 0 ? std::numeric_limits<size_t>::max() : size_t(op.A(2));
    if (op.A(2) == -2) b.Erase(st); else b.Erase(st, n);
    size_t e = n > m.v.size() - st ? m.v.size() : st + n;
    m.v.erase(m.v.begin() + st, m.v.begin() + e);
  } else if (k == "xform") {
    ink::AffineTransform tr(op.A(1), op.A(2), op.A(3), op.A(4), op.A(5), op.A(6));
    b.Transform(tr);
    if (b.Size() != m.v.size()) Fail("batch-size", "a transform changed the size from %zu to %zu", m.v.size(), b.Size());
    for (size_t i = 0; i < m.v.size(); ++i) {
      In g = FromInk(b.Get(i)), w = m.v[i];
      double x = double(float(op.A(1))) * w.x, y = double(float(op.A(2))) * w.y, c = float(op.A(3));
      double x2 = double(float(op.A(4))) * w.x, y2 = double(float(op.A(5))) * w.y, c2 = float(op.A(6));
      double tol1 = 1e-6 * (std::fabs(x) + std::fabs(y) + std::fabs(c)) + 1e-35, tol2 = 1e-6 * (std::fabs(x2) + std::fabs(y2) + std::fabs(c2)) + 1e-35;
      if (!(std::fabs(g.x - (x + y + c)) <= tol1) || !(std::fabs(g.y - (x2 + y2 + c2)) <= tol2))
        Fail("batch-transform", "input %zu at (%g,%g) was transformed to (%g,%g), expected (%g,%g)", i, w.x, w.y, g.x, g.y, x + y + c, x2 + y2 + c2);
      w.x = g.x;  // the model takes over the rounding
      w.y = g.y;
      m.v[i] = w;
    }
  } else if (k == "put" && box) {
    int q = t % 2;
    absl::MutexLock l(&box->mu);
    box->real[q] = b;
    box->model[q] = m;
  } else if (k == "get" && box) {
    int q = t % 2;
    absl::MutexLock l(&box->mu);
    b = box->real[q];
    m = box->model[q];
  }
}

// ---- generator ------------------------------------------------------------------------------------
struct BatchGen {
  Rng r;
  // a shadow of the model, to aim at interesting operations
  std::vector<In> sh[kSlots];
  In fmt;
  explicit BatchGen(uint64_t seed) : r(seed) {
    fmt.tool = r.Int(0, 3);
    fmt.unit = r.P(0.5) ? 0 : float(r.LogUni(1e-3, 1));
    fmt.p = r.P(0.5) ? -1 : 0; fmt.tilt = r.P(0.5) ? -1 : 0; fmt.ori = r.P(0.5) ? -1 : 0;
  }
  float Coord() { return r.P(0.05) ? float(r.LogUni(1e-30, 1e30) * (r.P(0.5) ? 1 : -1)) : r.P(0.1) ? 0.f : r.P(0.05) ? -0.f : float(r.Uni(-100, 100)); }
  In Next(const In* last) {
    In i = fmt;
    if (r.P(0.03)) Reformat(i);
    i.x = Coord(); i.y = Coord();
    i.t = last ? float(last->t + (r.P(0.3) ? 0 : r.Uni(0, 0.05))) : float(r.P(0.7) ? 0 : r.Uni(0, 5));
    if (last && r.P(0.1)) { i.x = last->x; i.y = last->y; }
    if (i.p != -1) i.p = r.P(0.1) ? float(r.Int(0, 1)) : float(r.U());
    if (i.tilt != -1) i.tilt = r.P(0.1) ? 0.f : float(r.Uni(0, 1.57));
    if (i.ori != -1) i.ori = r.P(0.1) ? 0.f : float(r.Uni(0, 6.28));
    return i;
  }
  void Reformat(In& i) {
    switch (r.Int(0, 4)) {
      case 0: i.tool = (i.tool + r.Int(1, 3)) % 4; break;
      case 1: i.unit = i.unit == 0 ? 0.5f : i.unit * 2; break;
      case 2: i.p = i.p == -1 ? 0.5f : -1; break;
      case 3: i.tilt = i.tilt == -1 ? 0.5f : -1; break;
      case 4: i.ori = i.ori == -1 ? 0.5f : -1; break;
    }
  }
  void Spoil(In& i, const In* last) {
    const float nan = NAN, inf = INFINITY;
    switch (r.Int(0, 13)) {
      case 0: i.x = r.P(0.5) ? nan : inf; break;
      case 1: i.y = r.P(0.5) ? nan : -inf; break;
      case 2: i.t = r.P(0.5) ? nan : inf; break;
      case 3: i.t = -float(r.Uni(0.001, 1)); break;
      case 4: i.tool = r.P(0.5) ? 4 : -1; break;
      case 5: i.unit = r.P(0.3) ? nan : r.P(0.5) ? inf : -1.f; break;
      case 6: i.p = r.P(0.3) ? nan : r.P(0.5) ? 1.001f : -0.5f; break;
      case 7: i.tilt = r.P(0.3) ? nan : r.P(0.5) ? 1.6f : -0.5f; break;
      case 8: i.ori = r.P(0.3) ? nan : r.P(0.5) ? 6.3f : -0.5f; break;
      case 9: case 10: if (last) { i = *last; } else i.x = nan; break;
      case 11: if (last && last->t > 0) i.t = float(last->t * r.U() * 0.99); else i.t = -1; break;
      default: Reformat(i);
    }
  }
  std::vector<In> Seq(const In* last, int n, double p_bad) {
    std::vector<In> v;
    for (int k = 0; k < n; ++k) {
      v.push_back(Next(v.empty() ? last : &v.back()));
      const In* prev = v.size() >= 2 ? &v[v.size() - 2] : last;
      if (r.P(p_bad / n)) Spoil(v.back(), prev);
    }
    return v;
  }
  void Put(Op& o, const std::vector<In>& v) { for (const In& i : v) o.g.push_back(ToGroup('r', i)); }
  Op One(double p_bad, bool mailbox) {
    int s = r.Int(0, kSlots - 1), t = r.Int(0, kSlots - 1);
    std::vector<In>& m = sh[s];
    const In* last = m.empty() ? nullptr : &m.back();
    Op o;
    o.a = {double(s)};
    double bad = r.P(p_bad) ? 1 : 0;
    switch (r.Int(0, mailbox ? 18 : 16)) {
      case 0: case 1: {
        o.kind = "create";
        if (r.P(0.1)) { fmt.tool = r.Int(0, 3); fmt.p = r.P(0.5) ? -1 : 0; fmt.tilt = r.P(0.5) ? -1 : 0; fmt.ori = r.P(0.5) ? -1 : 0; }
        auto v = Seq(nullptr, r.Int(0, 6), bad);
        Put(o, v);
        if (ValidSeq(v)) m = v;
        break;
      }
      case 2: case 3: case 4: { o.kind = "app1"; auto v = Seq(last, 1, bad); Put(o, v); if (ContinuesWith(m, v)) m.push_back(v[0]); break; }
      case 5: case 6: { o.kind = "appn"; auto v = Seq(last, r.Int(0, 5), bad); Put(o, v); if (ContinuesWith(m, v)) m.insert(m.end(), v.begin(), v.end()); break; }
      case 7: {
        o.kind = "appb";
        if (r.P(0.2)) t = s;
        o.a.push_back(t);
        auto v = sh[t];
        if (v.empty() || m.empty() || ValidPair(m.back(), v[0])) m.insert(m.end(), v.begin(), v.end());
        break;
      }
      case 8: { o.kind = "appslice"; o.a = {double(s), double(t), double(r.Int(0, 4)), double(r.Int(0, 4))}; break; }
      case 9: case 10: {
        o.kind = "set";
        size_t i = m.empty() ? 0 : r.Below(m.size());
        In v = m.empty() ? Next(nullptr) : r.P(0.6) ? m[i] : Next(i ? &m[i - 1] : nullptr);
        if (!m.empty() && r.P(0.7)) { v.x = Coord(); if (v.p != -1) v.p = float(r.U()); }
        if (i + 1 < m.size() && v.t > m[i + 1].t && r.P(0.7)) v.t = m[i + 1].t;
        if (bad) { if (i + 1 < m.size() && r.P(0.3)) v = m[i + 1]; else Spoil(v, i && i <= m.size() ? &m[i - 1] : nullptr); }
        o.a.push_back(double(i));
        Put(o, {v});
        break;
      }
      case 11: o.kind = "setself"; o.a = {double(s), double(r.Int(0, 9)), double(r.Int(0, 9))}; break;
      case 12: {
        o.kind = "erase";
        int st = r.Int(0, 8);
        o.a = {double(s), double(st), double(r.P(0.2) ? -1 - r.Int(0, 1) : r.Int(0, 4))};
        size_t b = size_t(st) % (m.size() + 1), n = o.a[2] < 0 ? m.size() : size_t(o.a[2]);
        m.erase(m.begin() + b, m.begin() + std::min(m.size(), b + n));
        break;
      }
      case 13: o.kind = r.P(0.5) ? "copy" : r.P(0.5) ? "copynew" : "deep"; o.a.push_back(t); m = sh[t]; break;
      case 14: if (r.P(0.5)) { o.kind = "move"; o.a.push_back(t); if (s != t) { m = sh[t]; sh[t].clear(); } }
               else { o.kind = "copy"; o.a.push_back(t); m = sh[t]; } break;
      case 15: o.kind = r.P(0.6) ? "clear" : "reset"; m.clear(); break;
      case 16: o.kind = "xform"; {
        bool deg = r.P(0.15);
        for (int k = 0; k < 6; ++k) o.a.push_back(deg && k != 2 && k != 5 ? 0 : r.P(0.2) ? double(r.Int(-1, 1)) : double(float(r.Uni(-3, 3))));
        break;
      }
      case 17: o.kind = "put"; o.a.push_back(r.Int(0, 1)); break;
      case 18: o.kind = "get"; o.a.push_back(r.Int(0, 1)); break;
    }
    return o;
  }
};

// ================================ B01 ================================================================
Plan GenB01(uint64_t seed) {
  Plan p;
  p.property = "B01";
  p.seed = seed;
  BatchGen g(seed);
  int n = g.r.Int(5, 70);
  double bad = g.r.U() * 0.5;
  for (int i = 0; i < n; ++i) p.ops.push_back(g.One(bad, false));
  return p;
}
void MergeActor(const Actor& a) {
  R.Check(a.checks);
  R.Count("op.accepted", a.accepted);
  R.Count("fault.rejected_edit", a.rejected);
  R.Count("fault.self_aliasing", a.alias);
  R.Mixin(a.log);
  if (a.nontrivial) R.Nontrivial();
}
void ExecB01(const Plan& plan) {
  Actor a;
  struct Merge { Actor& a; ~Merge() { MergeActor(a); } } merge{a};
  int step = 0;
  for (const Op& op : plan.ops) {
    R.step = step++;
    ++R.st.steps;
    uint64_t acc = a.accepted, rej = a.rejected;
    Apply(a, op, nullptr);
    for (int s = 0; s < kSlots; ++s) CheckSlot(a, s, op.kind.c_str());
    uint64_t h = HashBytes(op.kind.data(), op.kind.size());
    for (int s = 0; s < kSlots; ++s) h = Mix(h ^ std::min<size_t>(a.model[s].v.size(), 6) ^ (a.model[s].moved_from << 4));
    R.State(Mix(h ^ (a.accepted - acc) ^ (a.rejected - rej) * 2));
    R.Mixin(a.log);
    Trace("%s slot %g -> sizes %zu %zu %zu %zu", op.kind.c_str(), op.A(0), a.model[0].v.size(), a.model[1].v.size(), a.model[2].v.size(), a.model[3].v.size());
  }
}

// ================================ B02 ================================================================
// ops: "init" ops (create into slot) run before the threads start; "t <thread> <kind> args | ..." afterwards.
Plan GenB02(uint64_t seed) {
  Plan p;
  p.property = "B02";
  p.seed = seed;
  Rng r(seed ^ 0xb02);
  int nt = r.Int(2, 4);
  p.Add("sched", {double(r.P(0.2)), double(r.P(0.5) ? r.Int(3, 40) : r.Int(40, 400))});
  BatchGen g(seed);
  for (int s = 0; s < kSlots; ++s) {
    Op o;
    o.kind = "init";
    auto v = g.Seq(nullptr, r.Int(0, 8), 0);
    if (!ValidSeq(v)) v.clear();
    o.a = {double(s)};
    g.Put(o, v);
    g.sh[s] = v;
    p.ops.push_back(o);
  }
  std::vector<BatchGen> gs;
  for (int k = 0; k < nt; ++k) {
    gs.emplace_back(seed * 31 + k);
    gs.back().fmt = g.fmt;
    for (int s = 0; s < kSlots; ++s) gs.back().sh[s] = g.sh[s];
  }
  int n = r.Int(4, 14) * nt;
  double bad = r.U() * 0.2;
  for (int i = 0; i < n; ++i) {
    int k = r.Int(0, nt - 1);
    Op o = gs[k].One(bad, true);
    o.kind = Fmt("t%d.", k) + o.kind;
    p.ops.push_back(o);
  }
  return p;
}
void ExecB02(const Plan& plan) {
  std::vector<std::unique_ptr<Actor>> actors;
  std::vector<std::vector<Op>> work;
  Mailbox box;
  Actor origin;
  for (const Op& op : plan.ops) {
    if (op.kind == "init") {
      Op c = op;
      c.kind = "create";
      Apply(origin, c, nullptr);
    } else if (op.kind.size() > 3 && op.kind[0] == 't' && op.kind[2] == '.') {
      size_t k = size_t(op.kind[1] - '0') % 8;
      while (work.size() <= k) work.emplace_back();
      Op c = op;
      c.kind = op.kind.substr(3);
      work[k].push_back(c);
      ++R.st.steps;
    }
  }
  {
    absl::MutexLock l(&box.mu);
    for (int q = 0; q < 2; ++q) { box.real[q] = origin.real[q]; box.model[q] = origin.model[q]; }
  }
  std::vector<std::function<void()>> bodies;
  for (size_t k = 0; k < work.size(); ++k) {
    actors.push_back(std::make_unique<Actor>());
    Actor* a = actors.back().get();
    for (int s = 0; s < kSlots; ++s) { a->real[s] = origin.real[s]; a->model[s] = origin.model[s]; }
    bodies.push_back([a, &box, ops = &work[k]] {
      for (const Op& op : *ops) {
        YieldApi();
        Apply(*a, op, &box);
        for (int s = 0; s < kSlots; ++s) CheckSlot(*a, s, op.kind.c_str());
      }
    });
  }
  // The origin gives up its copies while the threads run: the last owner of the storage is one of them.
  if (plan.seed % 2) for (int s = 0; s < kSlots; ++s) { origin.real[s] = ink::StrokeInputBatch(); origin.model[s] = {}; }
  SchedResult res = RunPlanned(plan, 0, bodies);
  for (auto& a : actors) MergeActor(*a);
  for (int s = 0; s < kSlots; ++s) CheckSlot(origin, s, "the threads finished");
  // every copy is still what its owner thinks it is, whatever the others did later
  for (auto& a : actors)
    for (int s = 0; s < kSlots; ++s) CheckSlot(*a, s, "all threads finished");
  uint64_t h = res.switches;
  for (auto& t : res.taken) h = Mix(h ^ t.n * 16 ^ t.to);
  R.Mixin(h);
  R.State(h);
  if (res.switches > work.size()) R.Nontrivial();
}
}  // namespace

const std::vector<PropertyDef>& BatchProperties() {
  static const std::vector<PropertyDef> v = {{"B01", GenB01, ExecB01}, {"B02", GenB02, ExecB02}};
  return v;
}
}  // namespace dst
