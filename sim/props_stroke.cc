// T01: strokes as values. Histories of edits of several strokes by caller threads, against strokes newly built from the
// brush and inputs that the documentation says the shape belongs to.
#include <map>
#include <memory>

#include "ink/brush/brush_family.h"
#include "props.h"
#include "vthreads.h"
#include "world.h"

namespace dst {
namespace {
constexpr int kSlots = 3;

const ink::Color& ColorOf(int i) {
  static const ink::Color c[] = {ink::Color::Blue(), ink::Color::Green(), ink::Color::Black(), ink::Color::Magenta()};
  return c[size_t(i) % 4];
}
struct MBrush {  // what a brush is, in terms of the plan
  int family = 0, color = 0;
  float size = 1, eps = 0.1f;
  auto operator<=>(const MBrush&) const = default;
};
struct MStroke {
  MBrush brush;
  int inputs = -1;       // index of a plan batch, -1: none
  MBrush shape_brush;    // what the shape was made from
  int shape_inputs = -1;
};
struct Expected {
  Obs brush, inputs, shape;
  bool same_shape = false;  // the op must not touch the shape
  bool ok = true;           // the op must be accepted
};
struct World {
  std::vector<ink::Brush> brushes;
  std::vector<int> tips;  // brushes with equal tips have equal numbers
  std::vector<ink::StrokeInputBatch> batches;
  std::map<std::pair<MBrush, int>, std::shared_ptr<Obs>> shapes;
  ink::Brush Make(const MBrush& m) const {
    auto b = ink::Brush::Create(brushes[m.family].GetFamily(), ColorOf(m.color), m.size, m.eps);
    if (!b.ok()) Fail("model", "a brush of the model is invalid");
    return *b;
  }
  std::shared_ptr<Obs> ShapeOf(const MBrush& m, int inputs) {
    MBrush key = m;
    key.color = 0;
    auto& e = shapes[{key, inputs}];
    if (!e) {
      e = std::make_shared<Obs>();
      ink::Brush b = Make(m);
      // Every reference shape is made on a thread that never shaped anything else.
      RunOnFreshThread([&] {
        if (inputs < 0) ObserveShape(ink::Stroke(b).GetShape(), *e);
        else ObserveShape(ink::Stroke(b, batches[inputs]).GetShape(), *e);
      });
    }
    return e;
  }
};
bool GoodSize(float size, float eps) { return std::isfinite(size) && size > 0 && std::isfinite(eps) && eps > 0 && size >= eps; }
bool SameTips(const World& w, int f, int g) { return w.tips[f] == w.tips[g]; }

// The reference: what one op does to the model. Returns false when it must be rejected.
struct Effect { bool ok = true, regen = false, same = false; };
Effect Step(World& w, MStroke (&m)[kSlots], const std::string& k, const Op& op) {
  int s = int(op.A(0)) % kSlots, t = int(op.A(1)) % kSlots;
  MStroke& x = m[s];
  Effect e;
  auto regen = [&](bool r) {
    if (r) { x.shape_brush = x.brush; x.shape_inputs = x.inputs; e.regen = true; }
    else e.same = true;
  };
  auto brush_of = [&](size_t i) {
    MBrush b;
    b.family = int(size_t(op.A(i)) % w.brushes.size());
    b.size = w.brushes[b.family].GetSize();
    b.eps = w.brushes[b.family].GetEpsilon();
    b.color = int(op.A(i + 1)) & 3;
    return b;
  };
  int nb = int(w.batches.size());
  auto batch_of = [&](double v) { return v < 0 || nb == 0 ? -1 : int(size_t(v) % nb); };
  auto set_brush = [&](MBrush b) {
    bool r = b.size != x.brush.size || b.eps != x.brush.eps || !SameTips(w, b.family, x.brush.family);
    x.brush = b;
    regen(r);
  };
  if (k == "new") { x.brush = brush_of(1); x.inputs = batch_of(op.A(3)); regen(true); }
  else if (k == "newfrom") { MStroke y = m[t]; x.brush = y.brush; x.inputs = m[int(op.A(2)) % kSlots].inputs; regen(true); }
  else if (k == "newshape") { x = m[t]; }  // the stroke made of another one's brush, inputs and shape
  else if (k == "setbrush") set_brush(brush_of(1));
  else if (k == "setbrushof") set_brush(m[t].brush);
  else if (k == "setfamily") { MBrush b = x.brush; b.family = brush_of(1).family; set_brush(b); }
  else if (k == "setfamilyof") { MBrush b = x.brush; b.family = m[t].brush.family; set_brush(b); }
  else if (k == "setcolor") { x.brush.color = int(op.A(1)) & 3; regen(false); }
  else if (k == "setcolorof") { x.brush.color = m[t].brush.color; regen(false); }
  else if (k == "setsize") {
    float v = float(op.A(1));
    if (v == x.brush.size) regen(false);
    else if (!GoodSize(v, x.brush.eps)) { e.ok = false; regen(false); }
    else { x.brush.size = v; regen(true); }
  } else if (k == "seteps") {
    float v = float(op.A(1));
    if (v == x.brush.eps) regen(false);
    else if (!GoodSize(x.brush.size, v)) { e.ok = false; regen(false); }
    else { x.brush.eps = v; regen(true); }
  }
  else if (k == "setinputs") { x.inputs = batch_of(op.A(1)); regen(true); }
  else if (k == "setinputsof") { x.inputs = m[t].inputs; regen(true); }
  else if (k == "setboth") { x.brush = brush_of(1); x.inputs = batch_of(op.A(3)); regen(true); }
  else if (k == "setbothof") { MBrush b = m[t].brush; int i = m[int(op.A(2)) % kSlots].inputs; x.brush = b; x.inputs = i; regen(true); }
  else if (k == "copy" || k == "recopy" || k == "viamove") { MStroke y = m[t]; x = y; }
  else e.same = true;
  return e;
}
// The same op on the real strokes.
bool Real(World& w, ink::Stroke (&st)[kSlots], const std::string& k, const Op& op) {
  int s = int(op.A(0)) % kSlots, t = int(op.A(1)) % kSlots;
  ink::Stroke& x = st[s];
  auto brush_of = [&](size_t i) { ink::Brush b = w.brushes[size_t(op.A(i)) % w.brushes.size()]; b.SetColor(ColorOf(int(op.A(i + 1)) & 3)); return b; };
  static const ink::StrokeInputBatch none;
  auto batch_of = [&](double v) -> const ink::StrokeInputBatch& { return v < 0 || w.batches.empty() ? none : w.batches[size_t(v) % w.batches.size()]; };
  if (k == "new") { if (op.A(3) < 0) x = ink::Stroke(brush_of(1)); else x = ink::Stroke(brush_of(1), batch_of(op.A(3))); }
  else if (k == "newfrom") x = ink::Stroke(st[t].GetBrush(), st[int(op.A(2)) % kSlots].GetInputs());
  else if (k == "newshape") x = ink::Stroke(st[t].GetBrush(), st[t].GetInputs(), st[t].GetShape());
  else if (k == "setbrush") x.SetBrush(brush_of(1));
  else if (k == "setbrushof") x.SetBrush(st[t].GetBrush());
  else if (k == "setfamily") x.SetBrushFamily(brush_of(1).GetFamily());
  else if (k == "setfamilyof") x.SetBrushFamily(st[t].GetBrushFamily());
  else if (k == "setcolor") x.SetBrushColor(ColorOf(int(op.A(1)) & 3));
  else if (k == "setcolorof") x.SetBrushColor(st[t].GetBrush().GetColor());
  else if (k == "setsize") return x.SetBrushSize(float(op.A(1))).ok();
  else if (k == "seteps") return x.SetBrushEpsilon(float(op.A(1))).ok();
  else if (k == "setinputs") x.SetInputs(batch_of(op.A(1)));
  else if (k == "setinputsof") x.SetInputs(st[t].GetInputs());
  else if (k == "setboth") x.SetBrushAndInputs(brush_of(1), batch_of(op.A(3)));
  else if (k == "setbothof") x.SetBrushAndInputs(st[t].GetBrush(), st[int(op.A(2)) % kSlots].GetInputs());
  else if (k == "copy") x = st[t];
  else if (k == "recopy") { ink::Stroke c(st[t]); x = c; }
  else if (k == "viamove") { ink::Stroke c(st[t]); ink::Stroke d(std::move(c)); x = std::move(d); }
  else if (k == "live") {  // the same thread also draws something live
    ink::InProgressStroke l;
    l.Start(brush_of(1));
    const ink::StrokeInputBatch& in = batch_of(op.A(3));
    (void)l.EnqueueInputs(in, {});
    (void)l.UpdateShape(in.GetDuration());
    if (op.A(0) == 1) { l.FinishInputs(); (void)l.UpdateShape(in.GetDuration() + ink::Duration32::Seconds(0.1f)); (void)l.CopyToStroke(); }
  }
  return true;
}

struct Actor {
  ink::Stroke st[kSlots] = {ink::Stroke(ink::Brush()), ink::Stroke(ink::Brush()), ink::Stroke(ink::Brush())};
  uint64_t log = 1, checks = 0, rejected = 0, regen = 0, kept = 0, alias = 0;
};
struct Todo {
  std::string kind;
  const Op* op;
  std::vector<Expected> want;  // per slot, shared references below
  Effect eff;
  std::shared_ptr<Obs> brush[kSlots], inputs[kSlots], shape[kSlots];
};
void Apply(World& w, Actor& a, const Todo& td) {
  const Op& op = *td.op;
  int s = int(op.A(0)) % kSlots;
  bool had_index = false;
  // The index is part of the shape and survives exactly as long as the shape does.
  if (td.eff.same && td.kind != "live" && !a.st[s].GetShape().Meshes().empty()) {
    ink::PartitionedMesh c = a.st[s].GetShape();
    c.InitializeSpatialIndex();
    had_index = true;
  }
  const ink::Mesh* meshes = a.st[s].GetShape().Meshes().data();
  bool ok = Real(w, a.st, td.kind, op);
  if (ok != td.eff.ok) Fail(ok ? "accepted-invalid" : "rejected-valid", "%s %g was %s", td.kind.c_str(), op.A(1), ok ? "accepted" : "rejected");
  a.rejected += !ok;
  a.regen += td.eff.regen;
  if (had_index) {
    ++a.kept;
    if (!a.st[s].GetShape().IsSpatialIndexInitialized() || a.st[s].GetShape().Meshes().data() != meshes)
      Fail("shape-not-kept", "%s cannot affect geometry, but the stroke got a new shape", td.kind.c_str());
  }
  for (int i = 0; i < kSlots; ++i) {
    ++a.checks;
    Obs b, in, sh;
    ObserveBrush(a.st[i].GetBrush(), b);
    ObserveInputs(a.st[i].GetInputs(), in);
    ObserveShape(a.st[i].GetShape(), sh);
    if (!(b == *td.brush[i])) Fail("brush-differs", "brush of stroke %d after %s: %s", i, td.kind.c_str(), DiffObs(*td.brush[i], b).c_str());
    if (!(in == *td.inputs[i])) Fail("inputs-differ", "inputs of stroke %d after %s: %s", i, td.kind.c_str(), DiffObs(*td.inputs[i], in).c_str());
    if (!(sh == *td.shape[i])) Fail("shape-differs", "shape of stroke %d after %s: %s", i, td.kind.c_str(), DiffObs(*td.shape[i], sh).c_str());
    a.log = Mix(a.log ^ sh.Hash());
  }
}

// ---- generator ---------------------------------------------------------------------------------------------
Op GenOp(Rng& r, int nb, int ni) {
  Op o;
  double s = r.Int(0, kSlots - 1), t = r.Int(0, kSlots - 1), u = r.Int(0, kSlots - 1);
  if (r.P(0.3)) t = s;
  double b = r.Int(0, nb - 1), c = r.Int(0, 3), in = r.P(0.1) ? -1 : r.Int(0, ni - 1);
  switch (r.Int(0, 20)) {
    case 0: case 1: o = {"new", {s, b, c, in}, {}}; break;
    case 2: o = {"newfrom", {s, t, u}, {}}; break;
    case 3: o = {"newshape", {s, t}, {}}; break;
    case 4: case 5: o = {"setbrush", {s, b, c}, {}}; break;
    case 6: o = {"setbrushof", {s, t}, {}}; break;
    case 7: case 8: o = {"setfamily", {s, b}, {}}; break;
    case 9: o = {"setfamilyof", {s, t}, {}}; break;
    case 10: o = {"setcolor", {s, c}, {}}; break;
    case 11: o = {"setcolorof", {s, t}, {}}; break;
    case 12: case 13: case 14: {
      static const double kOdd[] = {0, -1, NAN, INFINITY, -INFINITY, 1e-30, 1e30};
      o = {r.P(0.6) ? "setsize" : "seteps", {s, 0}, {}};
      double v = o.kind == "setsize" ? (r.P(0.3) ? double(r.Int(1, 3)) * 5 : r.LogUni(0.5, 40)) : (r.P(0.3) ? 0.1 : r.LogUni(0.02, 2));
      if (r.P(0.3)) v = kOdd[r.Below(5)];
      else if (r.P(0.15)) v = o.kind == "setsize" ? r.LogUni(0.001, 0.1) : r.LogUni(20, 200);
      o.a[1] = double(float(v));
      break;
    }
    case 15: o = {"setinputs", {s, in}, {}}; break;
    case 16: o = {"setinputsof", {s, t}, {}}; break;
    case 17: o = {"setboth", {s, b, c, in}, {}}; break;
    case 18: o = {"setbothof", {s, t, u}, {}}; break;
    case 19: o = {r.P(0.4) ? "copy" : r.P(0.5) ? "recopy" : "viamove", {s, t}, {}}; break;
    default: o = {"live", {double(r.Int(0, 1)), b, c, in}, {}};
  }
  return o;
}
Plan GenT01(uint64_t seed) {
  Plan p;
  p.property = "T01";
  p.seed = seed;
  Rng r(seed ^ 0x701);
  int nt = r.P(0.3) ? 1 : r.Int(2, 4);
  p.Add("sched", {double(r.P(0.15)), r.LogUni(30, 30000)});
  int nb = r.Int(1, 3);
  BrushLimits lim;
  lim.time_behaviors = r.P(0.5);
  for (int i = 0; i < nb; ++i) GenBrush(r, p, lim);
  int nv = r.Int(0, 3);
  for (int i = 0; i < nv; ++i) p.Add("variant", {double(r.Below(nb + i)), double(r.Int(0, 3)), double(r.Below(1u << 20))});
  int ni = r.Int(1, 3);
  for (int i = 0; i < ni; ++i) {
    PathCfg c = RandomPathCfg(r, 1, 14);
    std::vector<In> v = MakePath(r, c);
    // every family may meet every size: keep the number of particles bounded
    for (const Op& f : std::vector<Op>(p.ops)) {
      if (f.kind != "brush") continue;
      ink::Brush b = BuildBrush(f);
      FitPath(v, b, 40);
      for (const Op& z : std::vector<Op>(p.ops)) {
        if (z.kind == "brush" && b.SetEpsilon(float(1e-6)).ok() && b.SetSize(float(z.A(0))).ok() && b.SetEpsilon(float(z.A(1))).ok()) FitPath(v, b, 40);
      }
    }
    Op& o = p.Add("batch");
    for (const In& x : v) o.g.push_back(ToGroup('r', x));
  }
  double min_size = 1e9, min_eps = 1e9;
  for (const Op& op : p.ops) if (op.kind == "brush") min_size = std::min(min_size, op.A(0)), min_eps = std::min(min_eps, op.A(1));
  int n = r.Int(3, 8) * nt;
  for (int i = 0; i < n; ++i) {
    Op o = i < nt ? Op{"new", {0, double(r.Below(nb + nv)), double(r.Int(0, 3)), double(r.Below(ni))}, {}} : GenOp(r, nb + nv, ni);
    if (o.kind == "setsize" && o.a[1] >= min_eps && o.a[1] < min_size) o.a[1] = min_size;
    o.kind = Fmt("t%d.", int(i < nt ? i : r.Below(nt))) + o.kind;
    p.ops.push_back(o);
  }
  return p;
}
void ExecT01(const Plan& plan) {
  World w;
  auto number_tips = [&] {  // equal tips get equal numbers
    for (size_t i = 0; i + 1 < w.brushes.size(); ++i) {
      auto a = w.brushes[i].GetCoats(), b = w.brushes.back().GetCoats();
      bool same = a.size() == b.size();
      for (size_t k = 0; same && k < a.size(); ++k) same = a[k].tips == b[k].tips;
      if (same) { w.tips.back() = w.tips[i]; break; }
    }
  };
  for (const Op& op : plan.ops) {
    if (op.kind == "brush") {
      w.brushes.push_back(BuildBrush(op));
      w.tips.push_back(int(w.tips.size()));
      number_tips();
    } else if (op.kind == "variant" && !w.brushes.empty()) {
      // the same tips with other paint, identifier or input model; kind 3 changes one tip slightly
      size_t base = size_t(op.A(0)) % w.brushes.size();
      const ink::Brush& b = w.brushes[base];
      std::vector<ink::BrushCoat> coats(b.GetCoats().begin(), b.GetCoats().end());
      int kind = int(op.A(1));
      uint64_t s = uint64_t(op.A(2));
      std::optional<ink::Uri> uri = b.GetFamily().GetUri();
      ink::BrushFamily::InputModel model = b.GetFamily().GetInputModel();
      if (kind == 0) for (auto& c : coats) { c.paint.texture_layers.clear(); if (s % 3) c.paint.texture_layers.push_back(MakeLayer(s, s % 3 == 2)); }
      if (kind == 1) { auto u = ink::Uri::Parse(Fmt("/brush-family:v%d:1", int(s % 9))); if (u.ok()) uri = *u; }
      if (kind == 2) { if (std::holds_alternative<ink::BrushFamily::SpringModelV1>(model)) model = ink::BrushFamily::SpringModelV2{}; else model = ink::BrushFamily::SpringModelV1{}; }
      if (kind == 3 && !coats.empty()) {
        size_t k = s % coats.size();
        coats[k].tips[0].opacity_multiplier = coats[k].tips[0].opacity_multiplier == 0.5f ? 0.75f : 0.5f;
      }
      auto f = ink::BrushFamily::Create(coats, uri, model);
      auto nb = f.ok() ? ink::Brush::Create(*f, ink::Color::Blue(), b.GetSize(), b.GetEpsilon()) : absl::StatusOr<ink::Brush>(f.status());
      if (nb.ok()) w.brushes.push_back(*nb);
      else w.brushes.push_back(ink::Brush(b));
      w.tips.push_back(int(w.tips.size()));
      number_tips();
    } else if (op.kind == "batch") {
      std::vector<In> v;
      for (const Group& g : op.g) if (g.tag == 'r') v.push_back(FromGroup(g));
      auto b = MakeBatch(v);
      if (b && !v.empty()) w.batches.push_back(*b);
    }
  }
  if (w.brushes.empty()) { w.brushes.push_back(ink::Brush()); w.tips.push_back(0); }
  // Reference pass: the expected state after each op of each thread, strokes never leave their thread.
  std::vector<std::vector<Todo>> work;
  std::vector<std::array<MStroke, 0>> unused;
  std::map<MBrush, std::shared_ptr<Obs>> brush_obs;
  std::map<int, std::shared_ptr<Obs>> input_obs;
  struct Ms { MStroke m[kSlots]; };
  std::vector<Ms> models;
  auto expect = [&](Todo& td, const Ms& ms) {
    for (int i = 0; i < kSlots; ++i) {
      const MStroke& m = ms.m[i];
      auto& b = brush_obs[m.brush];
      if (!b) { b = std::make_shared<Obs>(); ObserveBrush(w.Make(m.brush), *b); }
      auto& in = input_obs[m.inputs];
      if (!in) { in = std::make_shared<Obs>(); ObserveInputs(m.inputs < 0 ? ink::StrokeInputBatch() : w.batches[m.inputs], *in); }
      td.brush[i] = b;
      td.inputs[i] = in;
      td.shape[i] = w.ShapeOf(m.shape_brush, m.shape_inputs);
    }
  };
  MBrush b0;
  b0.size = w.brushes[0].GetSize();
  b0.eps = w.brushes[0].GetEpsilon();
  for (const Op& op : plan.ops) {
    if (op.kind.size() <= 3 || op.kind[0] != 't' || op.kind[2] != '.') continue;
    size_t k = size_t(op.kind[1] - '0') % 8;
    while (work.size() <= k) {
      work.emplace_back();
      models.emplace_back();
      for (MStroke& m : models.back().m) m.brush = m.shape_brush = b0;
    }
    Todo td;
    td.kind = op.kind.substr(3);
    td.op = &op;
    td.eff = Step(w, models[k].m, td.kind, op);
    expect(td, models[k]);
    work[k].push_back(std::move(td));
    ++R.st.steps;
  }
  std::vector<std::unique_ptr<Actor>> actors;
  std::vector<std::function<void()>> bodies;
  for (size_t k = 0; k < work.size(); ++k) {
    actors.push_back(std::make_unique<Actor>());
    Actor* a = actors.back().get();
    for (auto& st : a->st) st = ink::Stroke([&] { ink::Brush b = w.brushes[0]; b.SetColor(ColorOf(0)); return b; }());
    bodies.push_back([a, ops = &work[k], &w] {
      for (const Todo& td : *ops) {
        YieldApi();
        Apply(w, *a, td);
      }
    });
  }
  SchedResult res = RunPlanned(plan, 0, bodies);
  uint64_t h = res.switches, regen = 0;
  for (auto& t : res.taken) h = Mix(h ^ t.n * 16 ^ t.to);
  R.State(h);
  R.Mixin(h);
  for (auto& a : actors) {
    R.Check(a->checks);
    R.Mixin(a->log);
    R.Count("fault.rejected_edit", a->rejected);
    R.Count("op.regenerated", a->regen);
    R.Count("probe.shape_kept", a->kept);
    regen += a->regen;
  }
  if (regen && (res.switches > work.size() || work.size() == 1)) R.Nontrivial();
}
}  // namespace

const std::vector<PropertyDef>& StrokeProperties() {
  static const std::vector<PropertyDef> v = {{"T01", GenT01, ExecT01}};
  return v;
}
}  // namespace dst
