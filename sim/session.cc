#include "session.h"

#include <algorithm>
#include <cmath>

namespace dst {

// ================================ generator =======================================================
static void AddEnq(Plan& p, const std::vector<In>& r, const std::vector<In>& pr, int fault) {
  Op& op = p.Add("enq", {double(fault)});
  for (const In& i : r) op.g.push_back(ToGroup('r', i));
  for (const In& i : pr) op.g.push_back(ToGroup('p', i));
}

Plan GenSession(uint64_t seed, const char* property, const SessionProfile& prof) {
  Rng r(seed);
  Plan p;
  p.property = property;
  p.seed = seed;
  int nb = r.Int(1, 3);
  std::vector<ink::Brush> brushes;
  for (int i = 0; i < nb; ++i) {
    GenBrush(r, p, prof.brush);
    if (prof.gentle && r.P(0.4))  // plain elongated tips
      for (auto& g : p.ops.back().g)
        if (g.tag == 's' && g.v.size() >= 6) {
          g.v[0] = r.LogUni(0.3, 2), g.v[1] = g.v[0] * r.LogUni(0.1, 0.9);
          if (r.P(0.5)) std::swap(g.v[0], g.v[1]);
          g.v[2] = r.P(0.7) ? 1 : r.Uni(0, 1);
          g.v[3] = g.v[4] = 0;
          g.v[5] = r.P(0.5) ? r.Int(-2, 2) * 1.5707963267948966 : r.Uni(-3.1, 3.1);
        }
    brushes.push_back(BuildBrush(p.ops.back()));
  }
  // Swarm: this run's own fault rates.
  auto swarm = [&](double rate) { return r.P(0.6) ? rate * r.Uni(0, 2.5) : 0; };
  double p_invalid = swarm(prof.p_invalid), p_badclock = swarm(prof.p_badclock),
         p_move = prof.p_move > 0 ? prof.p_move * r.Uni(0.3, 2) : 0,
         p_snap = prof.p_snap > 0 ? prof.p_snap * r.Uni(0.3, 2) : 0, p_reset = swarm(prof.p_reset),
         p_empty = swarm(prof.p_probe_empty);
  double p_aux = r.Uni(0, 1);
  auto aux = [&]() {
    if (r.P(p_move)) p.Add("mv", {double(r.Below(5))});
    if (r.P(p_snap)) p.Add("snap", {double(r.Below(2))});
    if (r.P(p_reset * p_aux)) p.Add("rst");
  };
  int sessions = r.Int(prof.sessions_min, prof.sessions_max);
  for (int si = 0; si < sessions; ++si) {
    int bi = int(r.Below(nb));
    PathCfg cfg = RandomPathCfg(r, prof.n_min, prof.n_max);
    double bs = brushes[bi].GetSize();
    if (r.P(0.6)) {  // keep the path commensurate with the brush most of the time
      cfg.scale = bs * r.LogUni(0.3, 30);
      cfg.jitter = cfg.jitter > 0 ? cfg.scale * r.LogUni(0.001, 0.05) : 0;
    }
    std::vector<In> path = MakePath(r, cfg);
    if (prof.gentle) {
      double dir = r.Uni(0, 6.28), dev = 0, step = bs * r.LogUni(0.01, 3), wander = 0.15;
      if (r.P(0.15)) {  // straight, and often exactly along one of the tip's axes
        wander = 0;
        path[0].x = path[0].y = 0;
        if (r.P(0.7) && brushes[bi].CoatCount() > 0) dir = brushes[bi].GetCoats()[0].tips[0].rotation.ValueInRadians() + r.Below(4) * 1.5707963267948966;
        if (r.P(0.3)) step = bs * r.LogUni(0.002, 0.03);
      }
      for (size_t k = 1; k < path.size(); ++k) {
        dev = std::clamp(dev + r.Gauss() * wander, -0.5, 0.5);
        double len = r.P(0.1) ? 0 : step * r.LogUni(0.2, 3);
        In& q = path[k];
        q.x = float(path[k - 1].x + len * std::cos(dir + dev));
        q.y = float(path[k - 1].y + len * std::sin(dir + dev));
        if (!ValidPair(path[k - 1], q)) q.x = std::nextafter(q.x, 1e9f);
      }
    }
    bool startself = prof.p_startself > 0 && si > 0 && r.P(prof.p_startself);
    for (int k = 0; k < nb; ++k)
      if (k == bi || startself || prof.fit_all) FitPath(path, brushes[k]);  // startself keeps the stroke's own brush
    bool use_pred = r.P(prof.p_pred);
    double extent = 1e-3;
    for (const In& q : path) extent = std::max({extent, double(std::fabs(q.x - path[0].x)), double(std::fabs(q.y - path[0].y))});
    double pred_err = extent * r.LogUni(0.001, 0.3);
    if (prof.gentle) pred_err = extent / path.size() * r.LogUni(0.01, 0.3);
    int max_pred = r.Int(1, 6);
    double latency = r.P(0.5) ? 0 : r.Uni(0, 0.03);
    double frame_dt = r.LogUni(0.004, 0.06);
    double frame_skew = r.P(0.2) ? -r.Uni(0, 0.05) : 0;  // frame clock lags the input clock
    double batchiness = r.U();
    double clock = 0, now = r.P(0.3) ? 0 : cfg.t0;
    double next_frame = now + frame_dt * r.U();

    if (prof.calls_outside && r.P(0.08)) {
      // calls before start
      AddEnq(p, {path[0]}, {}, 6);
      if (r.P(0.5)) p.Add("upd", {0.01});
      if (r.P(0.3)) p.Add("fin");
    }
    if (startself) {
      p.Add("startself", {double(bi)});
    } else {
      p.Add("start", {double(bi)});
    }
    aux();
    size_t i = 0;
    size_t stop_at = r.P(prof.p_abandon) ? r.Below(path.size() + 1) : path.size();
    auto frame = [&]() {
      if (r.P(p_badclock)) {
        double bad = r.P(0.5) ? -r.LogUni(1e-6, 10) : clock - r.LogUni(1e-5, 1);
        p.Add("upd", {double(float(bad))});
      }
      double t = std::max(0.0, now + frame_skew);
      if (r.P(0.05)) t += r.LogUni(0.01, 1.5);  // clock jumps ahead
      if (r.P(0.95)) t = std::max(t, clock);    // otherwise possibly backwards: must be rejected
      p.Add("upd", {double(float(t))});
      clock = std::max(clock, double(float(t)));
      aux();
    };
    if (use_pred && r.P(0.06)) {  // the predictor speaks before the device does
      AddEnq(p, {}, MakePrediction(r, path[0], path[0], r.Int(1, max_pred), pred_err), 0);
      if (r.P(0.7)) frame();
    }
    while (i < stop_at) {
      // the device produced inputs up to index j; deliver them
      size_t j = i + 1;
      while (j < stop_at && r.P(batchiness * 0.8)) ++j;
      now = std::max(now, double(path[j - 1].t) + latency * r.U());
      int guard = 0;
      while (next_frame < now && guard++ < 6) {
        double keep = now;
        now = next_frame;
        frame();
        now = keep;
        next_frame += frame_dt * (r.P(0.9) ? 1 : r.Uni(1, 6));
      }
      if (next_frame < now) next_frame = now;
      std::vector<In> real(path.begin() + i, path.begin() + j), pred;
      const In& last = path[j - 1];
      const In& prev = j >= 2 ? path[j - 2] : last;
      if (use_pred && r.P(0.8)) pred = MakePrediction(r, prev, last, r.Int(1, max_pred), pred_err);
      if (r.P(p_invalid)) {
        // a faulty delivery first; the caller then retries with the correct one
        std::vector<In> bad = real, badp = pred;
        switch (r.Below(9)) {
          case 0:  // duplicate of the previous event in front
            if (i > 0) { bad = {path[i - 1]}; AddEnq(p, bad, badp, 1); }
            break;
          case 1:  // late: an older event again
            if (i > 0) { bad = {path[r.Below(i)]}; AddEnq(p, bad, {}, 2); }
            break;
          case 2: for (In& x : bad) x.tool = (x.tool + 1) % 4; for (In& x : badp) x.tool = (x.tool + 1) % 4; AddEnq(p, bad, badp, 3); break;
          case 3: for (In& x : bad) x.unit = x.unit == 0 ? 0.1f : x.unit * 2; AddEnq(p, bad, {}, 3); break;
          case 4: for (In& x : bad) x.p = x.p == -1 ? 0.5f : -1; AddEnq(p, bad, {}, 3); break;
          case 5: for (In& x : bad) { if (r.P(0.5)) x.tilt = x.tilt == -1 ? 0.5f : -1; else x.ori = x.ori == -1 ? 0.5f : -1; } AddEnq(p, bad, {}, 3); break;
          case 6: {  // real fine, prediction does not continue it
            std::vector<In> pp = {real.back()};
            if (r.P(0.5)) pp[0].t = std::max(0.f, pp[0].t - 0.5f);
            if (r.P(0.3)) pp[0].tool = (pp[0].tool + 1) % 4;
            AddEnq(p, real, pp, 4);
            break;
          }
          case 7: {  // only a prediction, not continuing the last real input
            if (i > 0) {
              std::vector<In> pp = {path[i - 1]};
              if (r.P(0.5)) pp[0].t = std::max(0.f, pp[0].t - 0.1f); 
              AddEnq(p, {}, pp, 4);
            }
            break;
          }
          default:  // reordered: second half of the delivery swapped with already delivered data
            if (i > 0) { bad.insert(bad.begin(), path[i - 1]); AddEnq(p, bad, badp, 1); }
            break;
        }
        aux();
      }
      if (r.P(p_empty)) AddEnq(p, {}, {}, 0);
      AddEnq(p, real, pred, 0);
      if (use_pred && r.P(0.2)) {  // prediction-only refresh, often after a frame that took the real inputs away
        if (r.P(0.6)) frame();
        AddEnq(p, {}, r.P(0.2) ? std::vector<In>{} : MakePrediction(r, prev, last, r.Int(1, max_pred), pred_err), 0);
      }
      i = j;
      aux();
      if (r.P(0.25)) frame();
      if (r.P(p_empty)) p.Add("upd", {double(float(std::max(clock, now)))}), clock = std::max(clock, double(float(now)));
    }
    if (stop_at < path.size()) {
      if (r.P(0.3)) p.Add("clr");
      continue;  // abandoned
    }
    if (r.P(0.3)) frame();
    p.Add("fin");
    aux();
    if (prof.calls_outside && r.P(0.15)) {
      std::vector<In> pp = MakePrediction(r, path.back(), path.back(), 1, pred_err);
      AddEnq(p, pp, {}, 5);
    }
    if (r.P(0.2)) p.Add("fin");
    if (r.P(prof.p_tail)) {
      double tail = MaxTimeSinceInput(brushes[bi]);
      int k = r.Int(1, 4);
      for (int q = 0; q < k; ++q) {
        now += r.P(0.5) ? frame_dt : tail * r.U();
        frame();
      }
      if (r.P(0.7)) {
        now = std::max(now, std::max(clock, double(path.back().t))) + tail + 0.05;
        frame();
        if (r.P(0.5)) frame();
      }
    }
    if (r.P(0.1)) p.Add("clr");
  }
  return p;
}

// ================================ model ==============================================================
void Model::Split(const Op& op, std::vector<In>* r, std::vector<In>* p) {
  for (const Group& g : op.g) (g.tag == 'r' ? r : p)->push_back(FromGroup(g));
}
bool Model::Legal(const Op& op) const {
  if (op.kind == "enq") {
    if (!brush || finished) return false;
    std::vector<In> r, p;
    Split(op, &r, &p);
    const In* last = !qreal.empty() ? &qreal.back() : !real.empty() ? &real.back() : nullptr;
    const In* first = !r.empty() ? &r.front() : !p.empty() ? &p.front() : nullptr;
    if (last && first && !ValidPair(*last, *first)) return false;
    if (!r.empty() && !p.empty() && !ValidPair(r.back(), p.front())) return false;
    return true;
  }
  if (op.kind == "upd") {
    float t = float(op.A(0));
    return brush.has_value() && t >= 0 && t >= clock;
  }
  return true;
}
void Model::Apply(const Op& op) {
  if (op.kind == "start" || op.kind == "startself") {
    int b = int(op.A(0));
    if (op.kind == "startself" && brush) b = *brush;
    *this = Model{};
    brush = b;
    finished = false;
  } else if (op.kind == "clr") {
    *this = Model{};
  } else if (op.kind == "enq") {
    std::vector<In> r, p;
    Split(op, &r, &p);
    qreal.insert(qreal.end(), r.begin(), r.end());
    qpred = p;
  } else if (op.kind == "fin") {
    finished = true;
    qpred.clear();
  } else if (op.kind == "upd") {
    real.insert(real.end(), qreal.begin(), qreal.end());
    pred = qpred;
    qreal.clear();
    qpred.clear();
    clock = float(op.A(0));
    ++updates_since_reset;
  } else if (op.kind == "rst") {
    updates_since_reset = 0;
  }
}

// ================================ interpreter =========================================================
const char* OutcomeName(Outcome o) {
  static const char* n[] = {"void", "ok", "rejected", "skipped"};
  return n[o];
}
Script::Script(const Plan& plan) {
  for (const Op& op : plan.ops) {
    if (op.kind == "brush") brushes.push_back(BuildBrush(op));
    else ops.push_back(&op);
  }
  if (brushes.empty()) brushes.push_back(ink::Brush());
}
bool Script::Usable(const Op& op) const {
  if (op.kind == "enq") {
    std::vector<In> r, p;
    Model::Split(op, &r, &p);
    return ValidSeq(r) && ValidSeq(p);
  }
  return true;
}
Outcome Live::Apply(const Op& op, const std::vector<ink::Brush>& brushes) {
  auto brush = [&]() -> const ink::Brush& { return brushes[size_t(op.A(0)) % brushes.size()]; };
  if (op.kind == "start") {
    s_->Start(brush());
    return kVoid;
  }
  if (op.kind == "startself") {
    if (s_->GetBrush()) s_->Start(*s_->GetBrush());
    else s_->Start(brush());
    return kVoid;
  }
  if (op.kind == "clr") { s_->Clear(); return kVoid; }
  if (op.kind == "fin") { s_->FinishInputs(); return kVoid; }
  if (op.kind == "rst") { s_->ResetUpdatedRegion(); return kVoid; }
  if (op.kind == "enq") {
    std::vector<In> r, p;
    Model::Split(op, &r, &p);
    auto br = MakeBatch(r), bp = MakeBatch(p);
    if (!br || !bp) return kSkipped;
    if (keep_handed_) handed_ = {std::make_shared<ink::StrokeInputBatch>(*br), std::make_shared<ink::StrokeInputBatch>(*bp)};
    return s_->EnqueueInputs(keep_handed_ ? *handed_[0] : *br, keep_handed_ ? *handed_[1] : *bp).ok() ? kOk : kRejected;
  }
  if (op.kind == "upd") return s_->UpdateShape(ink::Duration32::Seconds(float(op.A(0)))).ok() ? kOk : kRejected;
  if (op.kind == "mv") {
    int k = int(op.A(0));
    R.Count("fault.move");
    if (k == 0) {  // move construction, source destroyed
      s_ = std::make_unique<ink::InProgressStroke>(std::move(*s_));
    } else if (k == 1) {  // move assignment into a fresh object, source kept
      auto n = std::make_unique<ink::InProgressStroke>();
      *n = std::move(*s_);
      graveyard_.push_back(std::move(s_));
      s_ = std::move(n);
    } else if (k == 2) {  // move assignment into a used object
      auto n = std::make_unique<ink::InProgressStroke>();
      n->Start(brushes[0]);
      std::vector<In> two = {In{.x = 1, .y = 1, .t = 0}, In{.x = 9, .y = 4, .t = 0.01f}};
      (void)n->EnqueueInputs(*MakeBatch(two), {});
      (void)n->UpdateShape(ink::Duration32::Seconds(0.02f));
      *n = std::move(*s_);
      graveyard_.push_back(std::move(s_));
      s_ = std::move(n);
    } else if (k == 3) {  // container growth
      std::vector<ink::InProgressStroke> v;
      v.push_back(std::move(*s_));
      for (int i = 0; i < 5; ++i) v.emplace_back();
      s_ = std::make_unique<ink::InProgressStroke>(std::move(v[0]));
    } else {  // there and back again, through a moved-from object
      auto n = std::make_unique<ink::InProgressStroke>(std::move(*s_));
      *s_ = std::move(*n);
      graveyard_.push_back(std::move(n));
    }
    if (graveyard_.size() > 3) {  // moved-from objects must be restartable and destroyable
      ink::InProgressStroke& g = *graveyard_.front();
      g.Start(brushes[0]);
      std::vector<In> two = {In{.x = 0, .y = 0, .t = 0}, In{.x = 5, .y = 3, .t = 0.02f}};
      if (!g.EnqueueInputs(*MakeBatch(two), {}).ok()) Fail("moved-from", "a moved-from stroke could not be restarted");
      if (!g.UpdateShape(ink::Duration32::Seconds(0.03f)).ok()) Fail("moved-from", "a moved-from stroke could not be updated");
      graveyard_.erase(graveyard_.begin());
    }
    return kVoid;
  }
  return kSkipped;
}

uint64_t AbstractState(const ink::InProgressStroke& s, const Op& op, Outcome out) {
  auto lg = [](uint64_t n) { uint64_t k = 0; while (n) { ++k; n >>= 1; } return k; };
  uint64_t h = HashBytes(op.kind.data(), op.kind.size());
  h = Mix(h ^ uint64_t(out));
  h = Mix(h ^ (s.InputsAreFinished() | s.NeedsUpdate() << 1 | (s.PredictedInputCount() > 0) << 2 | (s.GetBrush() != nullptr) << 3));
  h = Mix(h ^ lg(s.RealInputCount()) << 8 ^ lg(s.PredictedInputCount()));
  for (uint32_t c = 0; c < s.BrushCoatCount(); ++c)
    h = Mix(h ^ lg(s.GetMesh(c).VertexCount()) << 20 ^ lg(s.GetMesh(c).TriangleCount()) << 10 ^ lg(s.GetCoatOutlines(c).size()));
  h = Mix(h ^ s.GetUpdatedRegion().IsEmpty());
  return h;
}

// ================================ oracles used by several properties ====================================
void CheckInputsAgainstModel(const ink::InProgressStroke& s, const Model& m) {
  R.Check();
  const ink::StrokeInputBatch& b = s.GetInputs();
  std::vector<In> want = m.Shown();
  if (b.Size() != want.size() || s.InputCount() != want.size())
    Fail("input-count", "live stroke holds %zu inputs (InputCount %zu), expected %zu (%zu real + %zu predicted)", b.Size(),
         s.InputCount(), want.size(), m.real.size(), m.pred.size());
  if (s.RealInputCount() != m.real.size())
    Fail("real-count", "RealInputCount %zu, expected %zu", s.RealInputCount(), m.real.size());
  if (s.PredictedInputCount() != m.pred.size())
    Fail("pred-count", "PredictedInputCount %zu, expected %zu", s.PredictedInputCount(), m.pred.size());
  for (size_t i = 0; i < want.size(); ++i) {
    In got = FromInk(b.Get(i));
    if (!(got == want[i]))
      Fail("input-content", "input %zu is %s, expected %s", i, Show(got).c_str(), Show(want[i]).c_str());
  }
  size_t k = 0;
  for (auto it = b.begin(); it != b.end(); ++it, ++k) {
    if (k >= want.size() || !(FromInk(*it) == want[k])) Fail("input-iter", "iteration yields a different input at %zu", k);
  }
  if (k != want.size()) Fail("input-iter", "iteration yields %zu inputs of %zu", k, want.size());
}

void CheckWellFormed(const ink::InProgressStroke& s) {
  for (uint32_t c = 0; c < s.BrushCoatCount(); ++c) {
    R.Check();
    const ink::MutableMesh& m = s.GetMesh(c);
    uint32_t nv = m.VertexCount(), nt = m.TriangleCount();
    bool any = false;
    double lx = 0, ly = 0, hx = 0, hy = 0;
    const auto& attrs = m.Format().Attributes();
    if (m.RawVertexData().size() != size_t(nv) * m.VertexStride()) Fail("mesh-size", "coat %u vertex bytes %zu for %u vertices", c, m.RawVertexData().size(), nv);
    if (m.RawIndexData().size() != size_t(nt) * 3 * m.IndexStride()) Fail("mesh-size", "coat %u index bytes %zu for %u triangles", c, m.RawIndexData().size(), nt);
    for (uint32_t v = 0; v < nv; ++v) {
      for (size_t a = 0; a < attrs.size(); ++a) {
        auto val = m.FloatVertexAttribute(v, a);
        for (int k = 0; k < val.Size(); ++k) {
          if (!std::isfinite(val[k])) Fail("nonfinite", "coat %u vertex %u attribute %zu component %d is %g", c, v, a, k, val[k]);
          if ((attrs[a].id == ink::MeshFormat::AttributeId::kSideLabel || attrs[a].id == ink::MeshFormat::AttributeId::kForwardLabel) &&
              (val[k] < -128 || val[k] > 127 || val[k] != std::floor(val[k])))
            Fail("label-range", "coat %u vertex %u label attribute %zu is %g", c, v, a, val[k]);
        }
      }
      ink::Point q = m.VertexPosition(v);
      if (!any) { lx = hx = q.x; ly = hy = q.y; any = true; }
      lx = std::min<double>(lx, q.x); hx = std::max<double>(hx, q.x);
      ly = std::min<double>(ly, q.y); hy = std::max<double>(hy, q.y);
    }
    for (uint32_t t = 0; t < nt; ++t) {
      auto idx = m.TriangleIndices(t);
      for (int k = 0; k < 3; ++k)
        if (idx[k] >= nv) Fail("triangle-index", "coat %u triangle %u refers to vertex %u of %u", c, t, idx[k], nv);
    }
    const ink::Envelope& e = s.GetMeshBounds(c);
    if (e.IsEmpty() != !any) Fail("bounds", "coat %u bounds %s but mesh has %u vertices", c, e.IsEmpty() ? "empty" : "non-empty", nv);
    if (any) {
      // Envelope stores exact extrema.
      double tol = 1e-6 * (1 + std::fabs(lx) + std::fabs(hx) + std::fabs(ly) + std::fabs(hy));
      if (std::fabs(e.AsRect()->XMin() - lx) > tol || std::fabs(e.AsRect()->XMax() - hx) > tol ||
          std::fabs(e.AsRect()->YMin() - ly) > tol || std::fabs(e.AsRect()->YMax() - hy) > tol)
        Fail("bounds", "coat %u bounds [%g %g %g %g] but vertices span [%g %g %g %g]", c, e.AsRect()->XMin(), e.AsRect()->XMax(),
             e.AsRect()->YMin(), e.AsRect()->YMax(), lx, hx, ly, hy);
    }
    auto outs = s.GetCoatOutlines(c);
    for (size_t o = 0; o < outs.size(); ++o) {
      if (outs[o].empty()) Fail("outline-empty", "coat %u outline %zu is empty", c, o);
      for (size_t k = 0; k < outs[o].size(); ++k) {
        if (outs[o][k] >= nv) Fail("outline-index", "coat %u outline %zu refers to vertex %u of %u", c, o, outs[o][k], nv);
        if (k && outs[o][k] == outs[o][k - 1]) Fail("outline-repeat", "coat %u outline %zu lists vertex %u twice in a row", c, o, outs[o][k]);
      }
    }
    if (nt > 0 && outs.empty()) Fail("outline-missing", "coat %u has %u triangles but no outline", c, nt);
  }
}

// The finished copy keeps groups, triangles and outlines; positions move by at most the packing step.
void CheckStrokeWellFormed(const ink::Stroke& st, const ink::InProgressStroke* from, int retain) {
  const ink::PartitionedMesh& shape = st.GetShape();
  R.Check();
  if (shape.RenderGroupCount() != st.GetBrush().CoatCount())
    Fail("groups", "stroke has %u render groups for %u coats", shape.RenderGroupCount(), st.GetBrush().CoatCount());
  for (uint32_t g = 0; g < shape.RenderGroupCount(); ++g) {
    std::vector<Tri> got;
    double step = 0;
    for (const ink::Mesh& m : shape.RenderGroupMeshes(g)) {
      if (m.TriangleCount() == 0) Fail("empty-mesh", "group %u has a mesh without triangles", g);
      for (uint32_t t = 0; t < m.TriangleCount(); ++t) {
        auto idx = m.TriangleIndices(t);
        for (int k = 0; k < 3; ++k)
          if (idx[k] >= m.VertexCount()) Fail("triangle-index", "group %u triangle %u refers to vertex %u of %u", g, t, idx[k], m.VertexCount());
      }
      for (size_t a = 0; a < m.Format().Attributes().size(); ++a) {
        for (uint32_t v = 0; v < m.VertexCount(); ++v) {
          auto val = m.FloatVertexAttribute(v, a);
          for (int k = 0; k < val.Size(); ++k)
            if (!std::isfinite(val[k])) Fail("nonfinite", "group %u vertex %u attribute %zu is %g", g, v, a, val[k]);
        }
      }
      const auto& pp = m.VertexAttributeUnpackingParams(m.VertexPositionAttributeIndex());
      for (int k = 0; k < pp.components.Size(); ++k) step = std::max<double>(step, std::fabs(pp.components[k].scale));
    }
    got = TrianglesOf(shape.RenderGroupMeshes(g));
    for (uint32_t o = 0; o < shape.OutlineCount(g); ++o)
      for (auto v : shape.Outline(g, o)) {
        if (v.mesh_index >= shape.RenderGroupMeshes(g).size() || v.vertex_index >= shape.RenderGroupMeshes(g)[v.mesh_index].VertexCount())
          Fail("outline-index", "group %u outline %u refers to vertex %u of mesh %u", g, o, v.vertex_index, v.mesh_index);
      }
    if (!from) continue;
    const ink::MutableMesh& mm = from->GetMesh(g);
    std::vector<Tri> want = TrianglesOf(mm);
    if (got.size() != want.size())
      Fail("triangles-lost", "live coat %u has %zu triangles, copied stroke has %zu", g, want.size(), got.size());
    double mag = 0;
    for (const Tri& t : want) for (const P2* q : {&t.a, &t.b, &t.c}) mag = std::max({mag, std::fabs(q->x), std::fabs(q->y)});
    double tol = step * 1.01 + mag * 3e-7;
    for (size_t i = 0; i < want.size(); ++i) {
      const P2* a[3] = {&want[i].a, &want[i].b, &want[i].c};
      const P2* b[3] = {&got[i].a, &got[i].b, &got[i].c};
      // A triangle whose packed form would be flipped may be nudged by a few packing steps.
      for (int k = 0; k < 3; ++k) {
        double d = std::max(std::fabs(a[k]->x - b[k]->x), std::fabs(a[k]->y - b[k]->y));
        if (d > 3 * tol) {
          // allow rotated vertex order within the triangle
          bool okrot = false;
          for (int s = 1; s < 3 && !okrot; ++s) {
            okrot = true;
            for (int q = 0; q < 3; ++q)
              okrot &= std::max(std::fabs(a[q]->x - b[(q + s) % 3]->x), std::fabs(a[q]->y - b[(q + s) % 3]->y)) <= 3 * tol;
          }
          if (!okrot) Fail("packing-moved", "group %u triangle %zu vertex moved by %g, packing step %g", g, i, d, step);
          break;
        }
      }
    }
    // Vertices that no triangle uses are documented to be dropped, and with them outlines made only of such vertices.
    std::vector<bool> used(mm.VertexCount());
    for (uint32_t t = 0; t < mm.TriangleCount(); ++t) for (uint32_t v : mm.TriangleIndices(t)) used[v] = true;
    std::vector<std::vector<uint32_t>> outs;
    for (const auto& o : from->GetCoatOutlines(g)) {
      bool any = false;
      for (uint32_t v : o) any |= used[v];
      if (any) outs.emplace_back(o.begin(), o.end());
    }
    if (shape.OutlineCount(g) != outs.size())
      Fail("outlines-lost", "live coat %u has %zu outlines, copied stroke has %u", g, outs.size(), shape.OutlineCount(g));
    for (size_t o = 0; o < outs.size(); ++o) {
      std::vector<P2> lp, sp;
      for (uint32_t v : outs[o]) { ink::Point q = mm.VertexPosition(v); lp.push_back({q.x, q.y}); }
      for (uint32_t k = 0; k < shape.OutlineVertexCount(g, o); ++k) { ink::Point q = shape.OutlinePosition(g, o, k); sp.push_back({q.x, q.y}); }
      if (lp.size() != sp.size()) {
        std::vector<P2> kept;
        for (uint32_t v : outs[o]) if (used[v]) { ink::Point q = mm.VertexPosition(v); kept.push_back({q.x, q.y}); }
        lp = kept;
      }
      if (lp.size() != sp.size()) Fail("outline-lost", "outline %zu of coat %u has %zu vertices live and %zu in the copy", o, g, lp.size(), sp.size());
      for (size_t k = 0; k < lp.size(); ++k)
        if (std::max(std::fabs(lp[k].x - sp[k].x), std::fabs(lp[k].y - sp[k].y)) > 3 * tol)
          Fail("outline-moved", "outline %zu of coat %u vertex %zu moved by (%g,%g)", o, g, k, lp[k].x - sp[k].x, lp[k].y - sp[k].y);
    }
  }
  (void)retain;
}
}  // namespace dst
