// Properties S01..S10: generation profiles and oracles.
#include <algorithm>
#include <cmath>
#include <functional>
#include <map>

#include "props.h"
#include "session.h"
#include "ink/strokes/internal/stroke_input_modeler.h"

namespace dst {
namespace {

void CountFault(const Op& op, Outcome out) {
  if (op.kind == "enq") {
    static const char* names[] = {"op.enqueue", "fault.duplicate_delivery", "fault.late_delivery", "fault.mismatched_delivery",
                                  "fault.bad_prediction", "fault.enqueue_after_finish", "fault.call_before_start"};
    int f = int(op.A(0));
    R.Count(names[f >= 0 && f <= 6 ? f : 0]);
    if (out == kRejected) R.Count("evt.enqueue_rejected");
  } else if (op.kind == "upd") {
    R.Count(out == kRejected ? "fault.bad_clock" : "op.update");
  } else {
    R.Count(("op." + op.kind).c_str());
  }
}
void LogStep(const Op& op, Outcome out, uint64_t h) {
  R.Mixin(HashBytes(op.kind.data(), op.kind.size()));
  R.Mixin(uint64_t(out));
  R.Mixin(h);
  ++R.st.steps;
}
std::string ShowOp(const Op& op) {
  std::string s = op.kind;
  for (double d : op.a) s += Fmt(" %.9g", d);
  if (!op.g.empty()) s += Fmt(" (%zu inputs)", op.g.size());
  return s;
}

// ---- single-session walk with a per-step hook -----------------------------------------------------
struct Walk {
  const Script& sc;
  Live live;
  Model model;
  double sim_end = 0;
  explicit Walk(const Script& s) : sc(s) {}
};

using StepHook = std::function<void(Walk&, const Op&, Outcome, bool legal)>;

void RunWalk(const Script& sc, Walk& w, const StepHook& hook, const std::function<void(Walk&, const Op&)>& before = nullptr) {
  for (size_t i = 0; i < sc.ops.size(); ++i) {
    const Op& op = *sc.ops[i];
    R.step = int(i);
    if (!sc.Usable(op)) continue;
    if (before) before(w, op);
    bool legal = w.model.Legal(op);
    Outcome out = kVoid;
    if (op.kind != "snap") out = w.live.Apply(op, sc.brushes);
    if (legal) w.model.Apply(op);
    if (op.kind == "upd" && legal) { R.st.sim_seconds += std::max(0.0, op.A(0) - w.sim_end); w.sim_end = op.A(0); }
    if (op.kind == "start" || op.kind == "clr" || op.kind == "startself") w.sim_end = 0;
    CountFault(op, out);
    uint64_t st = AbstractState(w.live.get(), op, out);
    R.State(st);
    LogStep(op, out, st);
    Trace("%-28s -> %-8s inputs=%zu(%zu real) needs=%d fin=%d tris=%u region=%s", ShowOp(op).c_str(), OutcomeName(out),
          w.live.get().InputCount(), w.live.get().RealInputCount(), w.live.get().NeedsUpdate(), w.live.get().InputsAreFinished(),
          w.live.get().BrushCoatCount() ? w.live.get().GetMesh(0).TriangleCount() : 0,
          w.live.get().GetUpdatedRegion().IsEmpty() ? "-" : "set");
    hook(w, op, out, legal);
  }
}
void ExpectOutcome(const Op& op, Outcome out, bool legal) {
  if (out == kOk && !legal) Fail("accepted-invalid", "%s was accepted but must be rejected", ShowOp(op).c_str());
  if (out == kRejected && legal) Fail("rejected-valid", "%s was rejected but is valid", ShowOp(op).c_str());
}

// ================================ S01 ================================================================
Plan GenS01(uint64_t seed) {
  SessionProfile f;
  f.p_invalid = 0.15;
  f.sessions_max = 2;
  f.p_probe_empty = 0.12;
  f.brush.max_coats = 2;
  return GenSession(seed, "S01", f);
}
void ExecS01(const Plan& plan) {
  Script sc(plan);
  Walk w(sc);
  RunWalk(sc, w, [&](Walk& w, const Op& op, Outcome out, bool legal) {
    ExpectOutcome(op, out, legal);
    CheckInputsAgainstModel(w.live.get(), w.model);
    const ink::InProgressStroke& s = w.live.get();
    if (s.InputsAreFinished() != w.model.finished) Fail("finished-flag", "InputsAreFinished() is %d", s.InputsAreFinished());
    if ((s.GetBrush() != nullptr) != w.model.brush.has_value()) Fail("brush-presence", "GetBrush() presence is wrong after %s", op.kind.c_str());
    if (w.model.brush && op.kind == "upd" && out == kOk) {
      R.Nontrivial();
      // what a caller would store
      ink::Stroke copy = s.CopyToStroke();
      std::vector<In> want = w.model.Shown();
      if (copy.GetInputs().Size() != want.size()) Fail("copy-inputs", "copied stroke has %zu inputs, expected %zu", copy.GetInputs().Size(), want.size());
      for (size_t i = 0; i < want.size(); ++i)
        if (!(FromInk(copy.GetInputs().Get(i)) == want[i])) Fail("copy-inputs", "copied stroke input %zu is wrong", i);
    }
    if (w.model.finished && w.model.brush && op.kind == "upd" && out == kOk) {
      if (s.PredictedInputCount() != 0) Fail("prediction-in-finished", "finished stroke still holds %zu predicted inputs", s.PredictedInputCount());
      if (s.GetInputs().Size() != w.model.real.size()) Fail("finished-inputs", "finished stroke inputs incomplete");
      R.Count("evt.finished_checked");
    }
    if (w.model.finished && w.model.brush && !s.NeedsUpdate() && s.PredictedInputCount() != 0)
      Fail("prediction-in-dry", "stroke reports no pending work after finishing but holds %zu predicted inputs", s.PredictedInputCount());
  });
}

// ================================ S02 ================================================================
Plan GenS02(uint64_t seed) {
  SessionProfile f;
  f.p_invalid = 0.35;
  f.p_badclock = 0.2;
  f.sessions_max = 2;
  f.brush.max_coats = 3;
  return GenSession(seed, "S02", f);
}
void ExecS02(const Plan& plan) {
  Script sc(plan);
  Walk w(sc);
  Live twin;
  Obs prev = ObserveLive(w.live.get());
  RunWalk(sc, w, [&](Walk& w, const Op& op, Outcome out, bool legal) {
    ExpectOutcome(op, out, legal);
    Obs now = ObserveLive(w.live.get());
    R.Check();
    if (!legal) {
      R.Nontrivial();
      if (!(now == prev)) Fail("rejected-call-changed-state", "rejected %s changed the stroke: %s", ShowOp(op).c_str(), DiffObs(prev, now).c_str());
    } else {
      Outcome o2 = twin.Apply(op, sc.brushes);
      if (o2 != out && op.kind != "snap") Fail("outcome-differs", "%s gives %s here and %s on a stroke that never saw the rejected calls", ShowOp(op).c_str(), OutcomeName(out), OutcomeName(o2));
      Obs t = ObserveLive(twin.get());
      if (!(now == t)) Fail("rejected-call-left-trace", "after %s: %s", ShowOp(op).c_str(), DiffObs(now, t).c_str());
    }
    prev = std::move(now);
  });
}

// ================================ S03 ================================================================
Plan GenS03(uint64_t seed) {
  SessionProfile f;
  f.p_invalid = 0.03;
  f.p_pred = 1;
  f.sessions_max = 2;
  f.p_abandon = 0.05;
  f.p_tail = 1;
  f.calls_outside = false;
  return GenSession(seed, "S03", f);
}
Op StripPredictions(const Op& op) {
  Op o = op;
  if (o.kind == "enq") o.g.erase(std::remove_if(o.g.begin(), o.g.end(), [](const Group& g) { return g.tag == 'p'; }), o.g.end());
  return o;
}
void ExecS03(const Plan& plan) {
  Script sc(plan);
  Walk w(sc);
  Live twin;
  bool any_pred = false;
  RunWalk(sc, w, [&](Walk& w, const Op& op, Outcome out, bool legal) {
    if (!legal) return;
    if (op.kind == "start" || op.kind == "startself") any_pred = false;
    if (op.kind == "enq" && out == kOk) {
      for (const Group& g : op.g) if (g.tag == 'p') { any_pred = true; R.Count("fault.prediction"); }
    }
    Op o2 = StripPredictions(op);
    if (!(op.kind == "enq" && o2.g.empty())) twin.Apply(o2, sc.brushes);
    if (op.kind == "upd" && out == kOk && w.model.finished) {
      R.Check();
      if (any_pred) R.Nontrivial();
      Obs a = ObserveLive(w.live.get(), kNoRegion | kNoApprox), b = ObserveLive(twin.get(), kNoRegion | kNoApprox);
      if (!(a == b)) Fail("prediction-left-trace", "finished stroke with predictions vs without: %s", DiffObs(a, b).c_str());
      if (w.live.get().GetBrush() && ObserveLive(w.live.get(), kNoRegion) == ObserveLive(twin.get(), kNoRegion)) {
        Obs sa = ObserveStroke(w.live.get().CopyToStroke()), sb = ObserveStroke(twin.get().CopyToStroke());
        if (!(sa == sb)) Fail("prediction-left-trace", "finished copies differ: %s", DiffObs(sa, sb).c_str());
      }
    } else if (op.kind == "upd" && out == kOk && w.model.pred.empty()) {
      // an update that supersedes every prediction already shows none of it
      R.Check();
      Obs a = ObserveLive(w.live.get(), kNoRegion | kNoApprox), b = ObserveLive(twin.get(), kNoRegion | kNoApprox);
      if (!(a == b)) Fail("prediction-not-superseded", "after an update without predictions: %s", DiffObs(a, b).c_str());
    }
  });
}

// ================================ S04 ================================================================
// plan: brush, path inputs ("path | r ..."), two or more "sched" ops = delivery schedules:
//   sched <final> | e k  (deliver next k inputs) | u t (update) | q k (predictions, k inputs) ...
Plan GenS04(uint64_t seed) {
  Rng r(seed);
  Plan p;
  p.property = "S04";
  p.seed = seed;
  BrushLimits lim;
  lim.max_coats = 2;
  GenBrush(r, p, lim);
  ink::Brush b = BuildBrush(p.ops.back());
  PathCfg cfg = RandomPathCfg(r, 3, 40);
  cfg.scale = b.GetSize() * r.LogUni(0.5, 30);
  std::vector<In> path = MakePath(r, cfg);
  FitPath(path, b);
  Op& po = p.Add("path");
  for (const In& i : path) po.g.push_back(ToGroup('r', i));
  double T = path.back().t + (r.P(0.4) ? 0 : r.P(0.8) ? r.Uni(0, 0.3) : r.Uni(0, 3));
  int k = r.Int(1, 3);
  for (int s = 0; s < k; ++s) {
    double batchiness = r.U(), upd_p = r.U(), now = 0, pred_p = r.P(0.3) ? r.U() : 0;
    Op& so = p.Add("sched", {T});
    size_t i = 0;
    while (i < path.size()) {
      size_t j = i + 1;
      while (j < path.size() && r.P(batchiness)) ++j;
      so.g.push_back({'e', {double(j - i)}});
      if (r.P(pred_p)) so.g.push_back({'q', {double(r.Int(1, 5)), double(r.Below(1000))}});
      i = j;
      int n = 0;
      while (r.P(upd_p) && n++ < 3) {
        now = std::min(T, std::max(now, path[i - 1].t + (r.P(0.7) ? r.Uni(0, 0.02) : -r.Uni(0, 0.05))));
        so.g.push_back({'u', {std::max(0.0, now)}});
      }
    }
  }
  return p;
}
double DilationBound(const ink::Brush& b) { return 3.0 * b.GetEpsilon(); }
void CompareRegions(const std::vector<Tri>& a, const std::vector<Tri>& b, double tol, const char* what) {
  R.Check();
  if (a.empty() != b.empty()) Fail("region-missing", "%s: one side has %zu triangles, the other %zu", what, a.size(), b.size());
  P2 w1{}, w2{};
  double d1 = OneSidedDeviation(a, b, &w1), d2 = OneSidedDeviation(b, a, &w2);
  double d = std::max(d1, d2);
  R.st.counters["probe.region_compare"]++;
  if (d > 0) R.st.counters["probe.region_compare_inexact"]++;
  uint64_t micro = uint64_t(d / tol * 1000);
  if (micro > R.st.counters["max.region_deviation_permille_of_tolerance"]) R.st.counters["max.region_deviation_permille_of_tolerance"] = micro;
  if (d > tol)
    Fail("region-differs", "%s: regions differ by %g at (%g,%g), tolerance %g", what, d, d1 >= d2 ? w1.x : w2.x, d1 >= d2 ? w1.y : w2.y, tol);
}
void ExecS04(const Plan& plan) {
  ink::Brush brush;
  std::vector<In> path;
  for (const Op& op : plan.ops) {
    if (op.kind == "brush") brush = BuildBrush(op);
    if (op.kind == "path") for (const Group& g : op.g) {
      In in = FromGroup(g);
      if (ValidSingle(in) && (path.empty() || ValidPair(path.back(), in))) path.push_back(in);
    }
  }
  if (path.empty()) return;
  auto whole = MakeBatch(path);
  ink::Stroke oneshot(brush, *whole);
  double maxc = 0;
  for (const In& i : path) maxc = std::max({maxc, std::fabs(double(i.x)), std::fabs(double(i.y))});
  std::vector<std::unique_ptr<ink::InProgressStroke>> done;
  double T = path.back().t;
  for (const Op& op : plan.ops)
    if (op.kind == "sched") T = std::max(op.A(0), T);
  // A brush that changes with time after the input is compared at the same final time only.
  bool timed = MaxTimeSinceInput(brush) > 0;
  bool comparable = !timed || float(T) <= path.back().t;
  ink::InProgressStroke bulk;
  bulk.Start(brush);
  if (!bulk.EnqueueInputs(*whole, {}).ok()) Fail("rejected-valid", "the whole path was rejected");
  bulk.FinishInputs();
  if (!bulk.UpdateShape(ink::Duration32::Seconds(float(T))).ok()) Fail("rejected-valid", "final update rejected");
  for (const Op& op : plan.ops) {
    if (op.kind != "sched") continue;
    auto s = std::make_unique<ink::InProgressStroke>();
    s->Start(brush);
    size_t i = 0;
    double clock = 0;
    int step = 0, upd = 0;
    for (const Group& g : op.g) {
      R.step = step++;
      ++R.st.steps;
      double v = g.v.empty() ? 0 : g.v[0];
      if (g.tag == 'e') {
        size_t j = std::min(path.size(), i + size_t(std::max(0.0, v)));
        auto b = MakeBatch({path.begin() + i, path.begin() + j});
        if (!s->EnqueueInputs(*b, {}).ok()) Fail("rejected-valid", "valid continuation rejected");
        R.Count("op.enqueue");
        i = j;
      } else if (g.tag == 'q' && i > 0) {
        Rng pr(uint64_t(g.v.size() > 1 ? g.v[1] : 0));
        std::vector<In> pred = MakePrediction(pr, path[i >= 2 ? i - 2 : 0], path[i - 1], int(v), brush.GetSize());
        auto b = MakeBatch(pred);
        if (!s->EnqueueInputs({}, *b).ok()) Fail("rejected-valid", "valid prediction rejected");
        R.Count("fault.prediction");
      } else if (g.tag == 'u') {
        double t = std::min(T, std::max(clock, v));
        if (!s->UpdateShape(ink::Duration32::Seconds(float(t))).ok()) Fail("rejected-valid", "valid update rejected");
        clock = t;
        ++upd;
        R.Count("op.update");
      }
      R.Mixin(AbstractState(*s, op, kVoid));
      R.State(AbstractState(*s, op, kVoid));
    }
    if (i < path.size()) {
      auto b = MakeBatch({path.begin() + i, path.end()});
      if (!s->EnqueueInputs(*b, {}).ok()) Fail("rejected-valid", "valid continuation rejected");
    }
    s->FinishInputs();
    if (!s->UpdateShape(ink::Duration32::Seconds(float(T))).ok()) Fail("rejected-valid", "final update rejected");
    R.st.sim_seconds += T;
    if (upd > 1) R.Nontrivial();
    Trace("schedule of %zu events, %d updates, %u triangles", op.g.size(), upd, s->BrushCoatCount() ? s->GetMesh(0).TriangleCount() : 0);
    // recorded inputs are the same whatever the schedule
    R.Check();
    if (s->GetInputs().Size() != path.size()) Fail("inputs-differ", "%zu of %zu inputs recorded", s->GetInputs().Size(), path.size());
    for (size_t k = 0; k < path.size(); ++k)
      if (!(FromInk(s->GetInputs().Get(k)) == path[k])) Fail("inputs-differ", "input %zu differs", k);
    done.push_back(std::move(s));
  }
  double tol = DilationBound(brush) + maxc * 1e-5 + 1e-4 * brush.GetSize();
  for (size_t k = 0; k < done.size(); ++k) {
    for (uint32_t c = 0; c < brush.CoatCount(); ++c) {
      std::vector<Tri> a = TrianglesOf(done[k]->GetMesh(c)), b;
      CompareRegions(a, TrianglesOf(bulk.GetMesh(c)), tol, Fmt("coat %u, schedule %zu vs delivered at once", c, k).c_str());
      if (!comparable) continue;
      b = TrianglesOf(oneshot.GetShape().RenderGroupMeshes(c));
      double packing = 0;  // a Stroke keeps packed positions
      for (const ink::Mesh& m : oneshot.GetShape().RenderGroupMeshes(c)) {
        const auto& pp = m.VertexAttributeUnpackingParams(m.VertexPositionAttributeIndex());
        for (int q = 0; q < pp.components.Size(); ++q) packing = std::max<double>(packing, std::fabs(pp.components[q].scale));
      }
      CompareRegions(a, b, tol + 1.5 * packing, Fmt("coat %u, schedule %zu vs one-step stroke", c, k).c_str());
    }
  }
}

// Every segment of `v` within 80 degrees of the way from its first to its last point?
bool KeepsGoing(const std::vector<P2>& v, double slack) {
  if (v.size() < 2) return true;
  double dx = v.back().x - v[0].x, dy = v.back().y - v[0].y, l = std::hypot(dx, dy);
  for (size_t i = 1; i < v.size(); ++i) {
    double ex = v[i].x - v[i - 1].x, ey = v[i].y - v[i - 1].y, e = std::hypot(ex, ey);
    if (e > slack && ex * dx + ey * dy < 0.17 * e * l) return false;
  }
  return true;
}

// ================================ S11 ================================================================
// What is shown after an update is a function of the inputs and the clock, not of how they came about.
Plan GenS11(uint64_t seed) {
  SessionProfile f;
  f.p_invalid = 0.05;
  f.p_pred = 0.8;
  f.n_max = 22;
  f.sessions_max = 2;
  f.p_abandon = 0.1;
  f.calls_outside = false;
  f.brush.max_coats = 2;
  f.gentle = seed % 2 == 0;
  f.brush.behaviors = seed % 3 != 0;
  return GenSession(seed, "S11", f);
}
bool HasBehaviors(const ink::Brush& b) {
  for (const ink::BrushCoat& c : b.GetCoats())
    for (const ink::BrushTip& t : c.tips)
      if (!t.behaviors.empty()) return true;
  return false;
}
void ExecS11(const Plan& plan) {
  Script sc(plan);
  Walk w(sc);
  int n = 0, compared = 0;
  RunWalk(sc, w, [&](Walk& w, const Op& op, Outcome out, bool legal) {
    if (op.kind != "upd" || out != kOk || !legal || !w.model.brush) return;
    const ink::InProgressStroke& s = w.live.get();
    const Model& m = w.model;
    ++n;
    // every third update and every one that shows a prediction, up to a limit per run
    if (compared >= 10 || (m.pred.empty() && !m.finished && n % 3 != 0)) return;
    ++compared;
    const ink::Brush& brush = *s.GetBrush();
    double maxc = 0;
    for (const In& i : m.Shown()) maxc = std::max({maxc, std::fabs(double(i.x)), std::fabs(double(i.y))});
    double tol = DilationBound(brush) + maxc * 1e-5 + 1e-4 * brush.GetSize();
    auto compare = [&](const std::vector<In>& real, const std::vector<In>& pred, double tol, const char* what) {
      auto br = MakeBatch(real), bp = MakeBatch(pred);
      if (!br || !bp) return;
      ink::InProgressStroke ref;
      ref.Start(brush);
      if (!ref.EnqueueInputs(*br, *bp).ok()) Fail("rejected-valid", "the inputs shown so far were rejected when delivered at once");
      if (m.finished) ref.FinishInputs();
      if (!ref.UpdateShape(ink::Duration32::Seconds(m.clock)).ok()) Fail("rejected-valid", "update rejected");
      for (uint32_t c = 0; c < brush.CoatCount(); ++c)
        CompareRegions(TrianglesOf(s.GetMesh(c)), TrianglesOf(ref.GetMesh(c)), tol, Fmt("coat %u after %zu real and %zu predicted inputs vs %s", c, m.real.size(), m.pred.size(), what).c_str());
    };
    if (n > 1) R.Nontrivial();
    compare(m.real, m.pred, tol, "the same inputs delivered at once");
    // A stroke that turns back over itself is drawn with decisions about its overlap that may differ between inputs that
    // can still change and ones that cannot.
    std::vector<P2> way;
    for (const In& i : m.Shown()) way.push_back({i.x, i.y});
    if (!m.pred.empty() && !HasBehaviors(brush) && KeepsGoing(way, maxc * 1e-5)) {
      R.Count("probe.prediction_shown_as_real");
      compare(m.Shown(), {}, 2 * tol + 0.1 * brush.GetSize(), "all of them real");
    }
  });
}

// ================================ S12 ================================================================
// The ink of a live stroke is the brush tip swept along the path of its inputs: all of it, and nothing else. Judged
// where the path never turns back, so that no part of the stroke overlaps another.
Plan GenS12(uint64_t seed) {
  SessionProfile f;
  f.p_invalid = 0.05;
  f.p_pred = 0.6;
  f.n_min = 1;
  f.n_max = 24;
  f.sessions_max = 3;
  f.p_abandon = 0.1;
  f.gentle = true;
  f.brush.max_coats = 2;
  f.brush.behaviors = false;
  f.brush.particles = false;
  f.brush.allow_zero_coats = false;
  return GenSession(seed, "S12", f);
}
// Points of the tip's outline relative to its position, 24 per corner.
std::vector<P2> TipOutline(const ink::BrushTip& t, double size) {
  double hw = size * t.scale.x / 2, hh = size * t.scale.y / 2, r = t.corner_rounding * std::min(hw, hh);
  double sl = t.slant.ValueInRadians(), ro = t.rotation.ValueInRadians();
  std::vector<P2> out;
  for (int sx = -1; sx <= 1; sx += 2)
    for (int sy = -1; sy <= 1; sy += 2) {
      double cx = sx * (hw - r), cy = sy * (hh - r);
      double x = cx - std::sin(sl) * cy, y = std::cos(sl) * cy;
      double X = std::cos(ro) * x - std::sin(ro) * y, Y = std::sin(ro) * x + std::cos(ro) * y;
      for (int k = 0; k < 24; ++k) out.push_back({X + r * std::cos(k * 0.2617993878), Y + r * std::sin(k * 0.2617993878)});
    }
  return out;
}
void ExecS12(const Plan& plan) {
  Script sc(plan);
  Walk w(sc);
  int judged = 0;
  bool all_paths = false;  // for hand-written plans: judge strokes that turn back, too
  for (const Op& op : plan.ops) all_paths |= op.kind == "judgeall";
  RunWalk(sc, w, [&](Walk& w, const Op& op, Outcome out, bool legal) {
    if (op.kind != "upd" || out != kOk || !legal || !w.model.brush || judged >= 14) return;
    const ink::InProgressStroke& s = w.live.get();
    const Model& m = w.model;
    std::vector<In> shown = m.Shown();
    if (shown.empty()) return;
    const ink::Brush& brush = *s.GetBrush();
    double eps = brush.GetEpsilon(), maxc = 0;
    std::vector<P2> raw;
    for (const In& i : shown) raw.push_back({i.x, i.y}), maxc = std::max({maxc, std::fabs(double(i.x)), std::fabs(double(i.y))});
    // the path: what the family's input model makes of the inputs
    auto all = MakeBatch(shown);
    if (!all) return;
    ink::strokes_internal::StrokeInputModeler modeler;
    modeler.StartStroke(brush.GetFamily().GetInputModel(), brush.GetEpsilon());
    modeler.ExtendStroke(*all, ink::StrokeInputBatch(), ink::Duration32::Seconds(m.clock));
    std::vector<P2> path;
    for (const auto& i : modeler.GetModeledInputs()) path.push_back({i.position.x, i.position.y});
    double noise = maxc * 1e-5;
    if (path.empty()) Fail("no-path", "%zu inputs shown, and none of them modeled", shown.size());
    if (!all_paths && (!KeepsGoing(raw, noise) || !KeepsGoing(path, noise))) return;
    ++judged;
    if (path.size() > 2) R.Nontrivial();
    double longest = 0, length = 0;
    for (size_t i = 1; i < raw.size(); ++i) {
      double l = std::hypot(raw[i].x - raw[i - 1].x, raw[i].y - raw[i - 1].y);
      longest = std::max(longest, l), length += l;
    }
    double gap = std::hypot(path.back().x - raw.back().x, path.back().y - raw.back().y);
    if (gap > 4 * eps + 2 * noise + longest + 0.6 * length) Fail("path-stops-short", "the path of %zu inputs ends %g from the last of them (epsilon %g)", raw.size(), gap, eps);
    if (std::hypot(path[0].x - raw[0].x, path[0].y - raw[0].y) > eps + 2 * noise) Fail("path-start", "the path does not start at the first input");
    for (uint32_t c = 0; c < brush.CoatCount(); ++c) {
      const ink::BrushTip& tip = brush.GetCoats()[c].tips[0];
      double hw = brush.GetSize() * tip.scale.x / 2, hh = brush.GetSize() * tip.scale.y / 2;
      if (2 * std::min(hw, hh) < 2 * eps) continue;  // not visible
      std::vector<Tri> tris = TrianglesOf(s.GetMesh(c));
      double tol = 2.5 * eps + 2 * noise + 1e-4 * brush.GetSize();
      if (tris.empty()) Fail("no-ink", "coat %u shows nothing for %zu inputs", c, raw.size());
      std::vector<P2> outline = TipOutline(tip, brush.GetSize());
      bool whole = tip.pinch == 0;
      // where steps are much shorter than the tip, the join of two tips may be flattened
      double edge_tol = tol + 0.5 * std::max(hw, hh);
      // nothing missing
      size_t stride = std::max<size_t>(1, path.size() / 12);
      for (size_t i = 0; i < path.size(); i = i + 1 == path.size() ? i + 1 : std::min(i + stride, path.size() - 1)) {
        double d = DistanceToTriangles(path[i], tris, 1e300);
        if (d > tol) Fail("missing-ink", "coat %u: point %zu of %zu of the path (%g, %g) is %g from the ink (tolerance %g)", c, i, path.size(), path[i].x, path[i].y, d, tol);
        if (!whole) continue;
        for (size_t k = i % 3; k < outline.size(); k += 3) {
          P2 q = {path[i].x + outline[k].x, path[i].y + outline[k].y};
          d = DistanceToTriangles(q, tris, 1e300);
          if (d > edge_tol) Fail("missing-ink", "coat %u: the tip's edge at (%g, %g), around point %zu of %zu of the path, is %g from the ink (tolerance %g)", c, q.x, q.y, i, path.size(), d, edge_tol);
        }
      }
      // nothing added: in every direction the ink goes no further than the tip along the path does
      for (int k = 0; k < 24; ++k) {
        double ux = std::cos(k * 0.2617993878), uy = std::sin(k * 0.2617993878), ink_far = -1e300, path_far = -1e300, tip_far = -1e300;
        for (const Tri& t : tris)
          for (const P2& q : {t.a, t.b, t.c}) ink_far = std::max(ink_far, q.x * ux + q.y * uy);
        for (const P2& q : path) path_far = std::max(path_far, q.x * ux + q.y * uy);
        for (const P2& q : outline) tip_far = std::max(tip_far, q.x * ux + q.y * uy);
        if (ink_far > path_far + tip_far + tol) Fail("stray-ink", "coat %u: the ink goes %g further than the tip in direction (%g, %g) (tolerance %g)", c, ink_far - path_far - tip_far, ux, uy, tol);
      }
      R.Count("probe.coat_judged");
      ++R.st.checks;
    }
  });
}

// ================================ S05 ================================================================
Plan GenS05(uint64_t seed) {
  SessionProfile f;
  f.p_reset = 0.6;
  f.p_pred = 0.75;
  f.brush.max_coats = 4;
  f.p_invalid = 0.03;
  return GenSession(seed, "S05", f);
}
// A triangle as three float positions plus a digest of its attributes (order preserved).
struct TriKey {
  float p[6];
  bool operator<(const TriKey& o) const { return memcmp(p, o.p, sizeof p) < 0; }
};
std::vector<TriKey> TriKeys(const ink::MutableMesh& m) {
  std::vector<TriKey> v(m.TriangleCount());
  for (uint32_t i = 0; i < m.TriangleCount(); ++i) {
    auto idx = m.TriangleIndices(i);
    std::array<std::pair<float, float>, 3> c;  // canonical vertex order
    for (int k = 0; k < 3; ++k) {
      ink::Point q = m.VertexPosition(idx[k]);
      c[k] = {q.x + 0.0f, q.y + 0.0f};
    }
    std::sort(c.begin(), c.end());
    for (int k = 0; k < 3; ++k) {
      v[i].p[2 * k] = c[k].first;
      v[i].p[2 * k + 1] = c[k].second;
    }
  }
  std::sort(v.begin(), v.end());
  return v;
}
void ExecS05(const Plan& plan) {
  Script sc(plan);
  Walk w(sc);
  std::vector<std::vector<TriKey>> prev;
  bool have = false;
  float lx = 0, ly = 0, hx = 0, hy = 0;
  auto grow = [&](const TriKey& t) {
    for (int k = 0; k < 3; ++k) {
      float x = t.p[2 * k], y = t.p[2 * k + 1];
      if (!have) { lx = hx = x; ly = hy = y; have = true; }
      lx = std::min(lx, x); hx = std::max(hx, x); ly = std::min(ly, y); hy = std::max(hy, y);
    }
  };
  RunWalk(sc, w, [&](Walk& w, const Op& op, Outcome out, bool legal) {
    const ink::InProgressStroke& s = w.live.get();
    std::vector<std::vector<TriKey>> cur;
    for (uint32_t c = 0; c < s.BrushCoatCount(); ++c) cur.push_back(TriKeys(s.GetMesh(c)));
    if (op.kind == "start" || op.kind == "startself" || op.kind == "clr" || op.kind == "rst") {
      have = false;
      prev = cur;
      if (!s.GetUpdatedRegion().IsEmpty()) Fail("region-not-reset", "updated region is not empty right after %s", op.kind.c_str());
      if (op.kind != "rst")
        for (auto& v : cur) if (!v.empty()) Fail("geometry-after-start", "new stroke already has %zu triangles", v.size());
      return;
    }
    for (size_t c = 0; c < cur.size(); ++c) {
      if (c >= prev.size()) prev.resize(c + 1);
      std::vector<TriKey> diff;
      std::set_symmetric_difference(prev[c].begin(), prev[c].end(), cur[c].begin(), cur[c].end(), std::back_inserter(diff));
      for (const TriKey& t : diff) grow(t);
      R.Count("probe.changed_triangles", diff.size());
    }
    prev = std::move(cur);
    R.Check();
    const ink::Envelope& e = s.GetUpdatedRegion();
    if (have) {
      R.Nontrivial();
      if (e.IsEmpty()) Fail("region-empty", "geometry changed since the last reset but the updated region is empty (after %s)", ShowOp(op).c_str());
      double m = std::max({std::fabs(lx), std::fabs(ly), std::fabs(hx), std::fabs(hy)});
      double tol = 4e-6 * m + 1e-30;  // Rect keeps bounds as floats
      if (e.AsRect()->XMin() > lx + tol || e.AsRect()->XMax() < hx - tol || e.AsRect()->YMin() > ly + tol || e.AsRect()->YMax() < hy - tol)
        Fail("region-too-small", "changes span [%.9g %.9g]x[%.9g %.9g] but the updated region is [%.9g %.9g]x[%.9g %.9g] (after %s)", lx, hx, ly, hy,
             e.AsRect()->XMin(), e.AsRect()->XMax(), e.AsRect()->YMin(), e.AsRect()->YMax(), ShowOp(op).c_str());
    }
    if (w.model.updates_since_reset == 0 && !e.IsEmpty()) Fail("region-without-update", "updated region set although nothing was updated");
  });
}

// ================================ S06 ================================================================
Plan GenS06(uint64_t seed) {
  SessionProfile f;
  f.p_snap = 0.08;
  f.p_pred = 0.7;
  f.p_move = 0.03;
  f.brush.max_coats = 5;
  return GenSession(seed, "S06", f);
}
void ExecS06(const Plan& plan) {
  Script sc(plan);
  Walk w(sc);
  RunWalk(sc, w, [&](Walk& w, const Op& op, Outcome out, bool legal) {
    const ink::InProgressStroke& s = w.live.get();
    CheckWellFormed(s);
    bool copy = op.kind == "snap" || (op.kind == "upd" && w.model.finished);
    if (w.model.brush && copy) {
      auto keep = op.kind == "snap" && op.A(0) != 0 ? ink::InProgressStroke::RetainAttributes::kUsedByThisBrush : ink::InProgressStroke::RetainAttributes::kAll;
      ink::Stroke st = s.CopyToStroke(keep);
      CheckStrokeWellFormed(st, &s, 0);
      R.Count("op.copy_to_stroke");
      if (s.GetInputs().Size() > 0) {
        ink::Stroke fresh(*s.GetBrush(), s.GetInputs());
        CheckStrokeWellFormed(fresh, nullptr, 0);
      }
      R.Nontrivial();
    }
    if (w.model.brush && s.BrushCoatCount() != sc.brushes[*w.model.brush % sc.brushes.size()].CoatCount())
      Fail("coat-count", "live stroke shows %u coats", s.BrushCoatCount());
  });
}

// ================================ S07 ================================================================
Plan GenS07(uint64_t seed) {
  SessionProfile f;
  f.sessions_min = 2;
  f.sessions_max = 5;
  f.n_max = 16;
  f.p_abandon = 0.4;
  f.p_pred = 0.7;
  f.p_snap = 0.04;
  f.p_startself = 0.15;
  f.p_move = 0.02;
  f.brush.max_coats = 4;
  return GenSession(seed, "S07", f);
}
void ExecS07(const Plan& plan) {
  Script sc(plan);
  Walk w(sc);
  Live fresh;
  int nsess = 0;
  RunWalk(sc, w, [&](Walk& w, const Op& op, Outcome out, bool legal) {
    if (op.kind == "mv") return;
    if (op.kind == "start" || op.kind == "startself" || op.kind == "clr") {
      // the comparison object is brand new for every stroke
      fresh.Replace();
      ++nsess;
      Op st = op;
      st.kind = "start";
      if (w.model.brush) { st.a = {double(*w.model.brush)}; fresh.Apply(st, sc.brushes); }
    } else if (op.kind != "snap") {
      Outcome o2 = fresh.Apply(op, sc.brushes);
      if (o2 != out) Fail("outcome-differs", "%s gives %s on the reused object and %s on a fresh one", ShowOp(op).c_str(), OutcomeName(out), OutcomeName(o2));
    }
    R.Check();
    if (nsess > 1) R.Nontrivial();
    Obs a = ObserveLive(w.live.get()), b = ObserveLive(fresh.get());
    if (!(a == b)) Fail("reuse-differs", "reused object vs fresh object after %s: %s", ShowOp(op).c_str(), DiffObs(a, b).c_str());
    if (w.model.brush && (op.kind == "snap" || (op.kind == "upd" && w.model.finished))) {
      Obs sa = ObserveStroke(w.live.get().CopyToStroke()), sb = ObserveStroke(fresh.get().CopyToStroke());
      if (!(sa == sb)) Fail("reuse-differs", "copies differ: %s", DiffObs(sa, sb).c_str());
      // Finished strokes: this thread has shaped many other strokes before; a new thread has not.
      ink::Stroke here(*w.live.get().GetBrush(), w.live.get().GetInputs());
      Obs ho = ObserveStroke(here), to;
      RunOnFreshThread([&] {
        ink::Stroke there(*w.live.get().GetBrush(), w.live.get().GetInputs());
        to = ObserveStroke(there);
      });
      R.Count("op.shape_on_fresh_thread");
      if (!(ho == to)) Fail("shape-depends-on-history", "stroke shaped on a used thread vs a fresh one: %s", DiffObs(ho, to).c_str());
    }
  });
}

// ================================ S08 ================================================================
Plan GenS08(uint64_t seed) {
  SessionProfile f;
  f.p_probe_empty = 0.35;
  f.p_pred = 0.5;
  f.sessions_max = 2;
  f.p_abandon = 0.05;
  f.p_tail = 1;
  f.calls_outside = false;
  return GenSession(seed, "S08", f);
}
void ExecS08(const Plan& plan) {
  Script sc(plan);
  Walk w(sc);
  Live lazy;  // only updated when it says it needs to be
  bool promised = false, shown_pred = false;
  Obs before;
  auto hook = [&](Walk& w, const Op& op, Outcome out, bool legal) {
    if (!legal || op.kind == "snap") return;
    if (op.kind == "upd") {
      if (promised) {
        R.Count("probe.update_when_not_needed");
        R.Nontrivial();
        R.Check();
        if (!(shown_pred && !w.model.finished)) {
          Obs after = ObserveLive(w.live.get(), kNoRegion | kNoApprox);
          if (!(after == before))
            Fail("needs-update-lied", "no update was needed, yet %s changed the stroke: %s", ShowOp(op).c_str(), DiffObs(before, after).c_str());
        }
      }
      if (lazy.get().NeedsUpdate() || (shown_pred && !w.model.finished)) lazy.Apply(op, sc.brushes);
      else R.Count("evt.update_skipped_by_lazy_renderer");
    } else {
      lazy.Apply(op, sc.brushes);
    }
    R.Check();
    Obs a = ObserveLive(w.live.get(), kNoRegion | kNoApprox), b = ObserveLive(lazy.get(), kNoRegion | kNoApprox);
    if (!(a == b)) Fail("lazy-renderer-differs", "a renderer that only updates on request sees a different stroke after %s: %s", ShowOp(op).c_str(), DiffObs(a, b).c_str());
    if (w.model.brush && !w.model.finished && (!w.model.qreal.empty() || !w.model.qpred.empty()) && !w.live.get().NeedsUpdate())
      Fail("queued-but-no-update", "inputs are queued but NeedsUpdate() is false");
    if (w.model.finished && !w.model.qreal.empty() && !w.live.get().NeedsUpdate())
      Fail("queued-but-no-update", "inputs are queued but NeedsUpdate() is false after finishing");
  };
  auto prep = [&](Walk& w, const Op& op) {
    promised = false;
    if (op.kind == "upd") {
      promised = !w.live.get().NeedsUpdate();
      shown_pred = !w.model.pred.empty();
      if (promised) before = ObserveLive(w.live.get(), kNoRegion | kNoApprox);
    }
  };
  RunWalk(sc, w, hook, prep);
  // Faults stop here: bounded completion.
  if (w.model.brush) {
    ink::InProgressStroke& s = w.live.get();
    const ink::Brush& b = sc.brushes[*w.model.brush % sc.brushes.size()];
    w.live.Apply(Op{"fin", {}, {}}, sc.brushes);
    float last_in = !w.model.qreal.empty() ? w.model.qreal.back().t : !w.model.real.empty() ? w.model.real.back().t : 0;
    double done_at = std::max<double>(w.model.clock, last_in) + MaxTimeSinceInput(b) + 0.1;
    Trace("quiesce: one update at %g", done_at);
    if (!s.UpdateShape(ink::Duration32::Seconds(float(done_at))).ok()) Fail("rejected-valid", "update after finishing rejected");
    R.st.sim_seconds += MaxTimeSinceInput(b) + 0.1;
    R.Check();
    if (s.NeedsUpdate()) Fail("never-dries", "finished stroke still needs updates %g s after every time-based behaviour ended", 0.1);
    if (s.PredictedInputCount()) Fail("prediction-in-dry", "dry stroke holds predictions");
    Obs dry = ObserveLive(s, kNoRegion | kNoApprox);
    for (int i = 1; i <= 3; ++i) {
      if (!s.UpdateShape(ink::Duration32::Seconds(float(done_at + i * i * 0.7))).ok()) Fail("rejected-valid", "update of dry stroke rejected");
      Obs o = ObserveLive(s, kNoRegion | kNoApprox);
      if (!(o == dry)) Fail("dry-changed", "a dry stroke changed: %s", DiffObs(dry, o).c_str());
    }
    R.Count("evt.quiesced");
  }
}

// ================================ S09 ================================================================
Plan GenS09(uint64_t seed) {
  SessionProfile f;
  f.p_move = 0.12;
  f.sessions_max = 3;
  f.n_max = 20;
  f.p_snap = 0.03;
  f.brush.max_coats = 4;
  return GenSession(seed, "S09", f);
}
void ExecS09(const Plan& plan) {
  Script sc(plan);
  Walk w(sc);
  Live stay;  // never moved
  RunWalk(sc, w, [&](Walk& w, const Op& op, Outcome out, bool legal) {
    if (op.kind == "mv") R.Nontrivial();
    if (op.kind != "mv" && op.kind != "snap") {
      Outcome o2 = stay.Apply(op, sc.brushes);
      if (o2 != out) Fail("outcome-differs", "%s gives %s after moves and %s without", ShowOp(op).c_str(), OutcomeName(out), OutcomeName(o2));
    }
    R.Check();
    Obs a = ObserveLive(w.live.get()), b = ObserveLive(stay.get());
    if (!(a == b)) Fail("move-differs", "moved stroke vs unmoved stroke after %s: %s", ShowOp(op).c_str(), DiffObs(a, b).c_str());
    if (w.model.brush && op.kind == "snap") {
      Obs sa = ObserveStroke(w.live.get().CopyToStroke()), sb = ObserveStroke(stay.get().CopyToStroke());
      if (!(sa == sb)) Fail("move-differs", "copies differ: %s", DiffObs(sa, sb).c_str());
    }
  });
}

// ================================ S10 ================================================================
Plan GenS10(uint64_t seed) {
  SessionProfile f;
  f.p_snap = 0.2;
  f.p_move = 0.05;
  f.sessions_max = 4;
  f.n_max = 16;
  f.p_abandon = 0.3;
  f.p_startself = 0.1;
  f.brush.max_coats = 3;
  Plan p = GenSession(seed, "S10", f);
  // edits of snapshots and of other copies, at random places
  Rng r(seed ^ 0xabcdef);
  std::vector<Op> out;
  for (Op& op : p.ops) {
    out.push_back(op);
    if (op.kind != "brush" && r.P(0.12)) {
      Op e{"edit", {double(r.Below(17)), double(r.Below(1000)), double(r.Below(1000))}, {}};
      out.push_back(e);
    }
  }
  p.ops = out;
  return p;
}
struct Snapshot {
  std::shared_ptr<ink::Stroke> stroke;         // null once dropped
  std::shared_ptr<ink::StrokeInputBatch> batch;
  std::shared_ptr<ink::PartitionedMesh> shape;
  std::shared_ptr<ink::Brush> brush;
  Obs want_stroke, want_batch, want_shape, want_brush;
  int taken_at;
  bool big = false;
};
void ExecS10(const Plan& plan) {
  Script sc(plan);
  Walk w(sc);
  std::vector<Snapshot> snaps;
  std::vector<ink::Stroke> edited;  // copies that get edited
  size_t turn = 0;
  // Every snapshot is compared after every step, except that the very large ones take turns.
  auto verify = [&](const char* after, bool all = false) {
    ++turn;
    for (size_t n = 0; n < snaps.size(); ++n) {
      Snapshot& s = snaps[n];
      if (s.big && !all && (n + turn) % 6 != 0) continue;
      R.Check();
      if (s.stroke && !(ObserveStroke(*s.stroke) == s.want_stroke))
        Fail("snapshot-changed", "stroke copied at step %d changed after %s: %s", s.taken_at, after, DiffObs(s.want_stroke, ObserveStroke(*s.stroke)).c_str());
      if (s.batch) {
        Obs o;
        ObserveInputs(*s.batch, o);
        if (!(o == s.want_batch)) Fail("snapshot-changed", "inputs copied at step %d changed after %s: %s", s.taken_at, after, DiffObs(s.want_batch, o).c_str());
      }
      if (s.shape) {
        Obs o;
        ObserveShape(*s.shape, o);
        if (!(o == s.want_shape)) Fail("snapshot-changed", "shape copied at step %d changed after %s: %s", s.taken_at, after, DiffObs(s.want_shape, o).c_str());
      }
      if (s.brush) {
        Obs o;
        ObserveBrush(*s.brush, o);
        if (!(o == s.want_brush)) Fail("snapshot-changed", "brush copied at step %d changed after %s: %s", s.taken_at, after, DiffObs(s.want_brush, o).c_str());
      }
    }
  };
  auto take = [&](const ink::Stroke& st, const ink::StrokeInputBatch& in) {
    Snapshot s;
    s.taken_at = R.step;
    s.stroke = std::make_shared<ink::Stroke>(st);
    s.batch = std::make_shared<ink::StrokeInputBatch>(in);
    s.shape = std::make_shared<ink::PartitionedMesh>(st.GetShape());
    s.brush = std::make_shared<ink::Brush>(st.GetBrush());
    s.want_stroke = ObserveStroke(st);
    ObserveInputs(in, s.want_batch);
    ObserveShape(st.GetShape(), s.want_shape);
    ObserveBrush(st.GetBrush(), s.want_brush);
    size_t verts = 0;
    for (const ink::Mesh& m : st.GetShape().Meshes()) verts += m.VertexCount();
    s.big = verts > 4000;
    if (snaps.size() > 12) snaps.erase(snaps.begin() + 1);
    snaps.push_back(std::move(s));
    R.Count("op.snapshot");
  };
  for (size_t i = 0; i < sc.ops.size(); ++i) {
    const Op& op = *sc.ops[i];
    R.step = int(i);
    if (!sc.Usable(op)) continue;
    Outcome out = kVoid;
    if (op.kind == "edit") {
      R.Count("op.edit");
      int k = int(op.A(0));
      size_t pick = snaps.empty() ? 0 : size_t(op.A(1)) % snaps.size();
      if (!snaps.empty()) {
        R.Nontrivial();
        Snapshot& s = snaps[pick];
        if (k <= 4 && s.stroke) {
          // edit a copy of the snapshot
          ink::Stroke c = *s.stroke;
          // regenerating a very large shape costs seconds (the extruder is quadratic in coincident vertices)
          size_t verts = 0;
          for (const ink::Mesh& m : c.GetShape().Meshes()) verts += m.VertexCount();
          if (verts > 4000 && (k == 1 || k == 3)) k = 4;
          if (k == 3) {
            double len = 0;
            for (size_t n = 1; n < c.GetInputs().Size(); ++n)
              len += (c.GetInputs().Get(n).position - c.GetInputs().Get(n - 1).position).Magnitude();
            if (!(len < 100 * sc.brushes[size_t(op.A(2)) % sc.brushes.size()].GetSize())) k = 4;
          }
          if (k == 0) c.SetInputs(ink::StrokeInputBatch());
          if (k == 1) (void)c.SetBrushSize(c.GetBrush().GetSize() * 1.5f);
          if (k == 2) c.SetBrushColor(ink::Color::Green());
          if (k == 3) c.SetBrush(sc.brushes[size_t(op.A(2)) % sc.brushes.size()]);
          if (k == 4) { c.SetBrushFamily(ink::BrushFamily()); edited.push_back(c); }
        } else if (k <= 8 && s.batch) {
          ink::StrokeInputBatch c = *s.batch;
          if (k == 5) c.Clear();
          if (k == 6 && c.Size() > 1) c.Erase(size_t(op.A(2)) % c.Size(), 1);
          if (k == 7) c.Transform(ink::AffineTransform::Scale(2));
          if (k == 8 && c.Size() > 0) {
            ink::StrokeInput x = c.Get(c.Size() - 1);
            x.position.x += 3;
            (void)c.Set(c.Size() - 1, x);
            x.elapsed_time += ink::Duration32::Seconds(0.1f);
            (void)c.Append(x);
          }
        } else if (k == 9 && s.shape) {
          ink::PartitionedMesh c = *s.shape;
          if (c.Meshes().size() > 0) c.InitializeSpatialIndex();
        } else if (k == 10) {  // drop parts of the snapshot; the others must survive on their own
          if (s.stroke && size_t(op.A(2)) % 2) s.stroke.reset();
          else s.batch.reset();
        } else if (k == 11 && s.stroke) {
          take(*s.stroke, s.stroke->GetInputs());
        } else if (k >= 12) {  // copies are assigned over, with values that are shared or not
          const Snapshot& o = snaps[size_t(op.A(2)) % snaps.size()];
          bool fresh = size_t(op.A(2)) % 2;
          if (k <= 13 && s.batch) {
            ink::StrokeInputBatch c = *s.batch;
            if (fresh || !o.batch) {
              std::vector<In> two = {In{.x = 1, .y = float(op.A(1)), .t = 0}, In{.x = 9, .y = 4, .t = 0.01f}};
              ink::StrokeInputBatch n = *MakeBatch(two);
              c = n;
            } else {
              c = *o.batch;
              c = c;
            }
          } else if (k == 14 && s.stroke) {
            ink::Stroke c = *s.stroke;
            if (fresh || !o.stroke) c = ink::Stroke(sc.brushes[size_t(op.A(1)) % sc.brushes.size()]);
            else c = *o.stroke;
          } else if (k == 15 && s.shape) {
            ink::PartitionedMesh c = *s.shape;
            if (fresh || !o.shape) c = ink::PartitionedMesh();
            else c = *o.shape;
          } else if (k == 16 && s.brush) {
            ink::Brush c = *s.brush;
            c.SetColor(ink::Color::Red());
            if (!fresh && o.brush) c = *o.brush;
          }
        }
      }
    } else if (op.kind == "snap") {
      if (w.live.get().GetBrush()) {
        auto keep = op.A(0) != 0 ? ink::InProgressStroke::RetainAttributes::kUsedByThisBrush : ink::InProgressStroke::RetainAttributes::kAll;
        ink::Stroke st = w.live.get().CopyToStroke(keep);
        ink::StrokeInputBatch in = w.live.get().GetInputs();
        take(st, in);
      }
    } else {
      bool legal = w.model.Legal(op);
      w.live.keep_handed_ = true;
      w.live.handed_.clear();
      out = w.live.Apply(op, sc.brushes);
      // a batch handed to the live stroke stays the caller's value, which must not change
      if (op.kind == "enq") {
        std::vector<In> two[2];
        Model::Split(op, &two[0], &two[1]);
        for (size_t k = 0; k < w.live.handed_.size(); ++k) {
          Snapshot s;
          s.taken_at = R.step;
          s.batch = w.live.handed_[k];
          ObserveInputs(*MakeBatch(two[k]), s.want_batch);
          if (s.batch->IsEmpty() || (snaps.size() > 3 && (i + k) % 3 != 0)) continue;
          if (snaps.size() > 12) snaps.erase(snaps.begin() + 1 + long(i % 8));
          snaps.push_back(std::move(s));
          R.Count("op.handed-batch");
        }
      }
      if (legal) w.model.Apply(op);
      CountFault(op, out);
    }
    uint64_t st = AbstractState(w.live.get(), op, out);
    R.State(Mix(st ^ snaps.size()));
    LogStep(op, out, st);
    Trace("%s", ShowOp(op).c_str());
    verify(op.kind.c_str());
    if (op.kind == "upd") R.st.sim_seconds += 0.01;
  }
  w.live.Replace();  // the source goes away
  verify("destruction of the source", true);
}

}  // namespace

const std::vector<PropertyDef>& SessionProperties() {
  static const std::vector<PropertyDef> v = {
      {"S01", GenS01, ExecS01}, {"S02", GenS02, ExecS02}, {"S03", GenS03, ExecS03}, {"S04", GenS04, ExecS04}, {"S11", GenS11, ExecS11}, {"S12", GenS12, ExecS12},
      {"S05", GenS05, ExecS05}, {"S06", GenS06, ExecS06}, {"S07", GenS07, ExecS07}, {"S08", GenS08, ExecS08},
      {"S09", GenS09, ExecS09}, {"S10", GenS10, ExecS10},
  };
  return v;
}
}  // namespace dst
