#include "world.h"

#include <algorithm>
#include <cmath>

namespace dst {
using ink::Angle;
using ink::Brush;
using ink::BrushBehavior;
using ink::BrushCoat;
using ink::BrushFamily;
using ink::BrushPaint;
using ink::BrushTip;
using ink::Duration32;
using ink::EasingFunction;
using S = BrushBehavior::Source;
using T = BrushBehavior::Target;

namespace {
struct SrcRange { S s; float lo, hi; bool time_since; };
const std::vector<SrcRange>& Sources() {
  static const std::vector<SrcRange> v = {
      {S::kNormalizedPressure, 0, 1, false},
      {S::kTiltInRadians, 0, 1.5f, false},
      {S::kTiltXInRadians, -1.5f, 1.5f, false},
      {S::kTiltYInRadians, -1.5f, 1.5f, false},
      {S::kOrientationInRadians, 0, 6.28f, false},
      {S::kOrientationAboutZeroInRadians, -3.14f, 3.14f, false},
      {S::kSpeedInMultiplesOfBrushSizePerSecond, 0, 40, false},
      {S::kVelocityXInMultiplesOfBrushSizePerSecond, -30, 30, false},
      {S::kVelocityYInMultiplesOfBrushSizePerSecond, -30, 30, false},
      {S::kDirectionInRadians, 0, 6.28f, false},
      {S::kDirectionAboutZeroInRadians, -3.14f, 3.14f, false},
      {S::kNormalizedDirectionX, -1, 1, false},
      {S::kNormalizedDirectionY, -1, 1, false},
      {S::kDistanceTraveledInMultiplesOfBrushSize, 0, 8, false},
      {S::kTimeOfInputInSeconds, 0, 0.4f, false},
      {S::kTimeOfInputInMillis, 0, 300, false},
      {S::kPredictedDistanceTraveledInMultiplesOfBrushSize, 0, 3, false},
      {S::kPredictedTimeElapsedInSeconds, 0, 0.05f, false},
      {S::kPredictedTimeElapsedInMillis, 0, 50, false},
      {S::kDistanceRemainingInMultiplesOfBrushSize, 0, 4, false},
      {S::kTimeSinceInputInSeconds, 0, 0.3f, true},
      {S::kTimeSinceInputInMillis, 0, 300, true},
      {S::kAccelerationInMultiplesOfBrushSizePerSecondSquared, 0, 400, false},
      {S::kAccelerationXInMultiplesOfBrushSizePerSecondSquared, -300, 300, false},
      {S::kAccelerationYInMultiplesOfBrushSizePerSecondSquared, -300, 300, false},
      {S::kAccelerationForwardInMultiplesOfBrushSizePerSecondSquared, -300, 300, false},
      {S::kAccelerationLateralInMultiplesOfBrushSizePerSecondSquared, -300, 300, false},
      {S::kInputSpeedInCentimetersPerSecond, 0, 40, false},
      {S::kInputVelocityXInCentimetersPerSecond, -30, 30, false},
      {S::kInputVelocityYInCentimetersPerSecond, -30, 30, false},
      {S::kInputDistanceTraveledInCentimeters, 0, 8, false},
      {S::kPredictedInputDistanceTraveledInCentimeters, 0, 2, false},
      {S::kInputAccelerationInCentimetersPerSecondSquared, 0, 300, false},
      {S::kInputAccelerationXInCentimetersPerSecondSquared, -300, 300, false},
      {S::kInputAccelerationYInCentimetersPerSecondSquared, -300, 300, false},
      {S::kInputAccelerationForwardInCentimetersPerSecondSquared, -300, 300, false},
      {S::kInputAccelerationLateralInCentimetersPerSecondSquared, -300, 300, false},
  };
  return v;
}
struct TgtRange { T t; float lo, hi; bool color; };
const std::vector<TgtRange>& Targets() {
  static const std::vector<TgtRange> v = {
      {T::kWidthMultiplier, 0.1f, 1.8f, false},
      {T::kHeightMultiplier, 0.1f, 1.8f, false},
      {T::kSizeMultiplier, 0.f, 2.f, false},
      {T::kSlantOffsetInRadians, -1.f, 1.f, false},
      {T::kPinchOffset, -0.6f, 0.8f, false},
      {T::kRotationOffsetInRadians, -3.f, 3.f, false},
      {T::kCornerRoundingOffset, -1.f, 1.f, false},
      {T::kPositionOffsetXInMultiplesOfBrushSize, -2.f, 2.f, false},
      {T::kPositionOffsetYInMultiplesOfBrushSize, -2.f, 2.f, false},
      {T::kPositionOffsetForwardInMultiplesOfBrushSize, -2.f, 2.f, false},
      {T::kPositionOffsetLateralInMultiplesOfBrushSize, -2.f, 2.f, false},
      {T::kHueOffsetInRadians, -3.f, 3.f, true},
      {T::kSaturationMultiplier, 0.f, 2.f, true},
      {T::kLuminosity, -0.9f, 0.9f, true},
      {T::kOpacityMultiplier, 0.f, 2.f, true},
  };
  return v;
}

EasingFunction MakeEasing(Rng& r) {
  switch (r.Below(4)) {
    case 0:
      return {EasingFunction::Predefined(r.Below(8))};
    case 1:
      return {EasingFunction::CubicBezier{float(r.U()), float(r.Uni(-1, 2)), float(r.U()),
                                          float(r.Uni(-1, 2))}};
    case 2: {
      EasingFunction::Linear l;
      int n = r.Int(0, 4);
      std::vector<float> xs;
      for (int i = 0; i < n; ++i) xs.push_back(float(r.U()));
      std::sort(xs.begin(), xs.end());
      for (float x : xs) l.points.push_back({x, float(r.Uni(-0.5, 1.5))});
      return {l};
    }
    default:
      return {EasingFunction::Steps{int32_t(r.Int(2, 6)), EasingFunction::StepPosition(r.Below(4))}};
  }
}

// kind: 0 plain, 1 rich expression, 2 animation (time since input), 3 colour
void ValueNodes(Rng& r, std::vector<BrushBehavior::Node>& n, int kind, int depth) {
  if (kind == 1 && depth < 3 && r.P(0.35)) {
    ValueNodes(r, n, kind, depth + 1);
    ValueNodes(r, n, kind, depth + 1);
    if (r.P(0.25)) {
      ValueNodes(r, n, kind, depth + 1);
      n.push_back(BrushBehavior::InterpolationNode{BrushBehavior::Interpolation(r.Below(2))});
    } else {
      n.push_back(BrushBehavior::BinaryOpNode{BrushBehavior::BinaryOp(r.Below(2))});
    }
  } else if (kind == 1 && r.P(0.15)) {
    n.push_back(BrushBehavior::ConstantNode{float(r.Uni(-0.5, 1.5))});
  } else {
    SrcRange s = r.Pick(Sources());
    if (kind == 2) {
      s = Sources()[r.P(0.5) ? 20 : 21];
    } else {
      while (s.time_since) s = r.Pick(Sources());
    }
    float a = s.lo, b = s.hi;
    if (r.P(0.3)) {
      float w = s.hi - s.lo;
      a = float(s.lo + w * r.Uni(0, 0.4));
      b = float(s.hi - w * r.Uni(0, 0.4));
    }
    if (r.P(0.2)) std::swap(a, b);
    BrushBehavior::OutOfRange oor =
        s.time_since ? BrushBehavior::OutOfRange::kClamp : BrushBehavior::OutOfRange(r.Below(3));
    n.push_back(BrushBehavior::SourceNode{s.s, oor, {a, b}});
  }
  if (kind >= 1 && r.P(0.2))
    n.push_back(BrushBehavior::FallbackFilterNode{BrushBehavior::OptionalInputProperty(r.Below(4))});
  if (kind >= 1 && r.P(0.15)) {
    BrushBehavior::EnabledToolTypes e;
    e.unknown = r.P(0.5); e.mouse = r.P(0.5); e.touch = r.P(0.5); e.stylus = r.P(0.7);
    if (!e.unknown && !e.mouse && !e.touch) e.stylus = true;
    n.push_back(BrushBehavior::ToolTypeFilterNode{e});
  }
  if (r.P(kind == 0 ? 0.15 : 0.3)) {
    int d = r.Below(3);
    n.push_back(BrushBehavior::DampingNode{BrushBehavior::DampingSource(d),
                                           r.P(0.1) ? 0.f : float(d == 2 ? r.Uni(0.005, 0.3) : r.Uni(0.05, 3))});
  }
  if (r.P(kind == 0 ? 0.2 : 0.35)) n.push_back(BrushBehavior::ResponseNode{MakeEasing(r)});
}
}  // namespace

BrushBehavior MakeBehavior(uint64_t seed, int kind) {
  Rng r(seed * 2654435761u + kind);
  BrushBehavior b;
  ValueNodes(r, b.nodes, kind == 3 ? 0 : kind, 0);
  TgtRange t = r.Pick(Targets());
  if (kind == 3) {
    while (!t.color) t = r.Pick(Targets());
  } else if (kind != 1) {
    while (t.color) t = r.Pick(Targets());
  }
  float lo = t.lo, hi = t.hi;
  if (r.P(0.3)) std::swap(lo, hi);
  if (r.P(0.3)) { hi = lo + (hi - lo) * 0.5f; }
  b.nodes.push_back(BrushBehavior::TargetNode{t.t, {lo, hi}});
  return b;
}

BrushPaint::TextureLayer MakeLayer(uint64_t seed, bool winding) {
  Rng r(seed * 40503 + 7);
  BrushPaint::TextureLayer l;
  auto uri = ink::Uri::Parse(std::string("ink://example/texture:t-") + char('a' + r.Below(4)));
  if (uri.ok()) l.color_texture_uri = *uri;
  l.mapping = winding ? BrushPaint::TextureMapping::kWinding : BrushPaint::TextureMapping::kTiling;
  l.origin = BrushPaint::TextureOrigin(r.Below(3));
  l.size_unit = BrushPaint::TextureSizeUnit(r.Below(3));
  l.wrap_x = BrushPaint::TextureWrap(r.Below(3));
  l.wrap_y = BrushPaint::TextureWrap(r.Below(3));
  l.size = {float(r.Uni(0.5, 20)), float(r.Uni(0.5, 20))};
  l.offset = {float(r.U()), float(r.U())};
  l.rotation = Angle::Radians(seed % 2 ? 0 : float(r.Uni(-3, 3)));
  l.opacity = float(r.U());
  l.blend_mode = BrushPaint::BlendMode(r.Below(12));
  return l;
}
void VaryLayer(BrushPaint::TextureLayer& l, int k) {
  auto next = [](auto& e, int n) { e = std::decay_t<decltype(e)>((int(e) + 1) % n); };
  switch (k) {
    case 1: next(l.wrap_x, 3); break;
    case 2: next(l.wrap_y, 3); break;
    case 3: l.size.x *= 1.5f; break;
    case 4: l.size.y *= 1.5f; break;
    case 5: l.offset.x = l.offset.x > 0.5f ? 0.125f : 0.75f; break;
    case 6: l.offset.y = l.offset.y > 0.5f ? 0.125f : 0.75f; break;
    case 7: next(l.origin, 3); break;
    case 8: next(l.size_unit, 3); break;
    case 9: next(l.blend_mode, 12); break;
    case 10: {
      std::string s = absl::StrCat(l.color_texture_uri);
      if (!s.empty()) s.back() = s.back() == 'd' ? 'a' : char(s.back() + 1);
      if (auto u = ink::Uri::Parse(s); u.ok()) l.color_texture_uri = *u;
      break;
    }
    case 11: l.opacity = l.opacity > 0.5f ? 0.25f : 0.75f; break;
    case 12: l.rotation = l.rotation == Angle() ? Angle::Radians(1) : Angle(); break;
    case 13: l.size_jitter = {l.size.x / 2, l.size.y / 2}; break;
    case 14: l.offset_jitter = {0.5f, 0.25f}; break;
    case 15: l.rotation_jitter = Angle::Radians(0.5f); break;
    case 16: l.keyframes.push_back({.progress = 0.5f}); break;
  }
}

void GenBrush(Rng& r, Plan& p, const BrushLimits& lim, const char* kind) {
  double size = r.P(0.7) ? r.LogUni(1, 40) : r.LogUni(0.05, 300);
  double eps = size * r.LogUni(0.003, 0.3);
  if (r.P(0.05)) eps = size;
  Op& op = p.Add(kind, {double(float(size)), double(float(eps)), double(r.Below(2))});
  int coats = 1;
  if (r.P(0.35)) coats = r.Int(1, lim.max_coats);
  if (lim.allow_zero_coats && r.P(0.02)) coats = 0;
  for (int c = 0; c < coats; ++c) {
    op.g.push_back({'c', {}});
    if (r.P(0.6)) {
      double sx = r.P(0.7) ? 1 : r.Uni(0.05, 2), sy = r.P(0.6) ? 1 : r.Uni(0.05, 2);
      if (r.P(0.06)) (r.P(0.5) ? sx : sy) = 0;
      op.g.push_back({'s', {double(float(sx)), double(float(sy)), double(float(r.P(0.4) ? r.Below(2) : r.U())),
                            double(float(r.P(0.6) ? 0 : r.Uni(-1.5, 1.5))),
                            double(float(r.P(0.7) ? 0 : r.U())),
                            double(float(r.P(0.5) ? 0 : r.Uni(-3, 3))),
                            double(float(r.P(0.8) ? 1 : r.Uni(0, 2)))}});
    }
    if (lim.simple_only) continue;
    if (lim.particles && r.P(0.2))
      op.g.push_back({'g', {double(float(r.P(0.7) ? r.Uni(0.3, 3) : 0)),
                            double(float(r.P(0.5) ? r.Uni(0.005, 0.1) : 0))}});
    if (lim.behaviors && r.P(0.65)) {
      int nb = r.Int(1, 3);
      for (int i = 0; i < nb; ++i) {
        int k = r.P(0.4) ? 0 : r.P(0.5) ? 1 : r.P(0.6) ? 2 : 3;
        if (k == 2 && !lim.time_behaviors) k = 0;
        op.g.push_back({'b', {double(r.Below(1000000)), double(k)}});
      }
    }
    if (r.P(0.25)) {
      int n = r.P(0.7) ? 1 : 2;
      int w = r.P(0.5);
      for (int i = 0; i < n; ++i)
        op.g.push_back({'t', {double(r.Below(1000000)), double(w)}});
    }
  }
}

Brush BuildBrush(const Op& op) {
  std::vector<BrushCoat> coats;
  for (const Group& g : op.g) {
    auto v = [&](size_t i, double d) { return float(i < g.v.size() ? g.v[i] : d); };
    if (g.tag == 'c') {
      coats.push_back(BrushCoat{.tips = {BrushTip{}}});
      continue;
    }
    if (coats.empty()) continue;
    BrushCoat old = coats.back();
    BrushTip& tip = coats.back().tips[0];
    if (g.tag == 's') {
      tip.scale = {v(0, 1), v(1, 1)};
      tip.corner_rounding = v(2, 1);
      tip.slant = Angle::Radians(v(3, 0));
      tip.pinch = v(4, 0);
      tip.rotation = Angle::Radians(v(5, 0));
      tip.opacity_multiplier = v(6, 1);
    } else if (g.tag == 'g') {
      tip.particle_gap_distance_scale = v(0, 0);
      tip.particle_gap_duration = Duration32::Seconds(v(1, 0));
    } else if (g.tag == 'b') {
      tip.behaviors.push_back(MakeBehavior(uint64_t(g.v.empty() ? 0 : g.v[0]), int(v(1, 0))));
    } else if (g.tag == 't') {
      coats.back().paint.texture_layers.push_back(MakeLayer(uint64_t(g.v.empty() ? 0 : g.v[0]), v(1, 0) != 0));
      VaryLayer(coats.back().paint.texture_layers.back(), int(v(2, 0)));
    }
    if (!ink::brush_internal::ValidateBrushCoat(coats.back()).ok()) coats.back() = old;
  }
  if (coats.size() > BrushFamily::MaxBrushCoats()) coats.resize(BrushFamily::MaxBrushCoats());
  BrushFamily::InputModel model = op.A(2) == 0 ? BrushFamily::InputModel(BrushFamily::SpringModelV1{})
                                               : BrushFamily::InputModel(BrushFamily::SpringModelV2{});
  auto fam = BrushFamily::Create(coats, std::nullopt, model);
  BrushFamily family = fam.ok() ? *fam : BrushFamily();
  float size = float(op.A(0, 5)), eps = float(op.A(1, 0.5));
  auto b = Brush::Create(family, ink::Color::Blue(), size, eps);
  if (!b.ok()) b = Brush::Create(family, ink::Color::Blue(), 5, 0.5);
  return b.ok() ? *b : Brush();
}

double MaxTimeSinceInput(const Brush& b) {
  double m = 0;
  for (const BrushCoat& c : b.GetCoats())
    for (const BrushTip& t : c.tips)
      for (const BrushBehavior& beh : t.behaviors)
        for (const auto& n : beh.nodes)
          if (auto* s = std::get_if<BrushBehavior::SourceNode>(&n)) {
            double hi = std::max(s->source_value_range[0], s->source_value_range[1]);
            if (s->source == S::kTimeSinceInputInSeconds) m = std::max(m, hi);
            if (s->source == S::kTimeSinceInputInMillis) m = std::max(m, hi / 1000);
          }
  return m;
}
bool HasParticles(const Brush& b) {
  for (const BrushCoat& c : b.GetCoats())
    for (const BrushTip& t : c.tips)
      if (t.particle_gap_distance_scale != 0 || t.particle_gap_duration != Duration32::Zero()) return true;
  return false;
}

// ---- inputs ------------------------------------------------------------------------------------
Group ToGroup(char tag, const In& in) {
  Group g{tag, {in.x, in.y, in.t, double(in.tool), in.unit, in.p, in.tilt, in.ori}};
  return g;
}
In FromGroup(const Group& g) {
  auto v = [&](size_t i, double d) { return float(i < g.v.size() ? g.v[i] : d); };
  In in;
  in.x = v(0, 0); in.y = v(1, 0); in.t = v(2, 0); in.tool = int(v(3, 0));
  in.unit = v(4, 0); in.p = v(5, -1); in.tilt = v(6, -1); in.ori = v(7, -1);
  return in;
}
ink::StrokeInput ToInk(const In& in) {
  return {.tool_type = ink::StrokeInput::ToolType(in.tool),
          .position = {in.x, in.y},
          .elapsed_time = Duration32::Seconds(in.t),
          .stroke_unit_length = ink::PhysicalDistance::Centimeters(in.unit),
          .pressure = in.p,
          .tilt = Angle::Radians(in.tilt),
          .orientation = Angle::Radians(in.ori)};
}
In FromInk(const ink::StrokeInput& s) {
  In in;
  in.x = s.position.x; in.y = s.position.y; in.t = s.elapsed_time.ToSeconds();
  in.tool = int(s.tool_type); in.unit = s.stroke_unit_length.ToCentimeters();
  in.p = s.pressure; in.tilt = s.tilt.ValueInRadians(); in.ori = s.orientation.ValueInRadians();
  return in;
}
std::string Show(const In& i) {
  return Fmt("(%.9g,%.9g t=%.9g tool=%d unit=%g p=%g tilt=%g ori=%g)", i.x, i.y, i.t, i.tool, i.unit,
             i.p, i.tilt, i.ori);
}
bool ValidSingle(const In& a) {
  if (a.tool < 0 || a.tool > 3) return false;
  if (!std::isfinite(a.x) || !std::isfinite(a.y)) return false;
  if (!std::isfinite(a.t) || a.t < 0) return false;
  if (a.unit != 0 && !(std::isfinite(a.unit) && a.unit > 0)) return false;
  if (!(a.p == -1 || (a.p >= 0 && a.p <= 1))) return false;
  if (!(a.tilt == -1 || (a.tilt >= 0 && a.tilt <= 1.57079637f))) return false;
  if (!(a.ori == -1 || (a.ori >= 0 && a.ori <= 6.28318548f))) return false;
  return true;
}
bool ValidPair(const In& a, const In& b) {
  if (a.tool != b.tool || a.unit != b.unit) return false;
  if (a.t > b.t) return false;
  if (a.t == b.t && a.x == b.x && a.y == b.y) return false;
  return (a.p == -1) == (b.p == -1) && (a.tilt == -1) == (b.tilt == -1) && (a.ori == -1) == (b.ori == -1);
}
bool ValidSeq(const std::vector<In>& v) {
  for (size_t i = 0; i < v.size(); ++i) {
    if (!ValidSingle(v[i])) return false;
    if (i && !ValidPair(v[i - 1], v[i])) return false;
  }
  return true;
}
std::optional<ink::StrokeInputBatch> MakeBatch(const std::vector<In>& v) {
  if (!ValidSeq(v)) return std::nullopt;
  std::vector<ink::StrokeInput> s;
  s.reserve(v.size());
  for (const In& i : v) s.push_back(ToInk(i));
  auto b = ink::StrokeInputBatch::Create(s);
  if (!b.ok()) Fail("batch-create", "valid batch of %zu inputs refused: %s", v.size(), b.status().ToString().c_str());
  return *b;
}

PathCfg RandomPathCfg(Rng& r, int min_n, int max_n) {
  PathCfg c;
  c.n = r.Int(min_n, max_n);
  c.shape = r.Below(9);
  c.scale = r.P(0.7) ? r.LogUni(5, 300) : r.LogUni(0.5, 3000);
  c.dt = r.LogUni(0.001, 0.03);
  c.jitter = r.P(0.4) ? r.LogUni(0.001, 0.05) * c.scale : 0;
  c.pressure = r.P(0.5);
  c.tilt = r.P(0.3);
  c.ori = r.P(0.3);
  c.tool = r.Below(4);
  c.unit = r.P(0.4) ? float(r.LogUni(0.005, 0.2)) : 0;
  c.stall_p = r.P(0.3) ? r.Uni(0, 0.2) : 0;
  c.stall_len = r.LogUni(0.05, 0.6);
  c.dup_time_p = r.P(0.3) ? r.Uni(0, 0.3) : 0;
  c.still_p = r.P(0.3) ? r.Uni(0, 0.4) : 0;
  if (r.P(0.3)) { c.x0 = r.Uni(-500, 500); c.y0 = r.Uni(-500, 500); }
  if (r.P(0.15)) c.t0 = r.Uni(0, 0.5);
  return c;
}
std::vector<In> MakePath(Rng& r, const PathCfg& c) {
  std::vector<In> v;
  double t = c.t0, px = 0, py = 0, dir = r.Uni(0, 6.28), pr = r.U(), ti = r.Uni(0, 1.5), orr = r.Uni(0, 6.2);
  double freq = r.Uni(0.5, 4);
  for (int i = 0; i < c.n; ++i) {
    double u = c.n > 1 ? double(i) / (c.n - 1) : 0;
    double x = 0, y = 0;
    switch (c.shape) {
      case 0: x = u; y = 0.3 * u; break;
      case 1: x = std::cos(freq * 6.28 * u); y = std::sin(freq * 6.28 * u); break;
      case 2: x = u; y = 0.3 * ((i % 2) ? 1 : -1) * (i > 0); break;              // zigzag
      case 3: x = 0.5 * std::sin(freq * 3.14 * u); y = 0; break;                // back and forth
      case 4: dir += r.Gauss() * 0.5; px += std::cos(dir) / c.n; py += std::sin(dir) / c.n; x = px; y = py; break;
      case 5: x = u * std::cos(freq * 6.28 * u); y = u * std::sin(freq * 6.28 * u); break;
      case 6: x = 0; y = 0; break;                                              // dot
      case 7: x = std::floor(u * 4) / 4; y = (int(u * 4) % 2) * (u * 4 - std::floor(u * 4)); break;
      default: x = r.Uni(-0.5, 0.5); y = r.Uni(-0.5, 0.5); break;               // teleporting
    }
    if (i > 0) {
      if (!r.P(c.dup_time_p)) t += c.dt * r.Uni(0.5, 1.5);
      if (r.P(c.stall_p)) t += c.stall_len * r.U();
    }
    In in;
    in.x = float(c.x0 + c.scale * x + c.jitter * r.Gauss());
    in.y = float(c.y0 + c.scale * y + c.jitter * r.Gauss());
    if (i > 0 && r.P(c.still_p)) { in.x = v.back().x; in.y = v.back().y; }
    in.t = float(t);
    in.tool = c.tool;
    in.unit = c.unit;
    auto clamp = [](double q, double a, double b) { return q < a ? a : q > b ? b : q; };
    pr = clamp(pr + 0.1 * r.Gauss(), 0, 1);
    ti = clamp(ti + 0.1 * r.Gauss(), 0, 1.5);
    orr = clamp(orr + 0.2 * r.Gauss(), 0, 6.2);
    if (c.pressure) in.p = float(pr);
    if (c.tilt) in.tilt = float(ti);
    if (c.ori) in.ori = float(orr);
    if (!v.empty() && !ValidPair(v.back(), in)) {
      t += 0.001;
      in.t = float(t);
      if (!ValidPair(v.back(), in)) { t = v.back().t + 0.01; in.t = float(t); }
    }
    v.push_back(in);
  }
  return v;
}
void FitPath(std::vector<In>& v, const ink::Brush& b, double max_particles) {
  if (v.empty()) return;
  double len = 0;
  for (size_t i = 1; i < v.size(); ++i) len += std::hypot(v[i].x - v[i - 1].x, v[i].y - v[i - 1].y);
  double gap = 1e300;
  for (const BrushCoat& c : b.GetCoats())
    for (const BrushTip& t : c.tips)
      if (t.particle_gap_distance_scale > 0) gap = std::min<double>(gap, t.particle_gap_distance_scale * b.GetSize());
  if (len <= gap * max_particles) return;
  double k = gap * max_particles / len;
  float x0 = v[0].x, y0 = v[0].y;
  for (size_t i = 0; i < v.size(); ++i) {
    v[i].x = float(x0 + (v[i].x - x0) * k);
    v[i].y = float(y0 + (v[i].y - y0) * k);
    if (i && !ValidPair(v[i - 1], v[i])) v[i].x = std::nextafter(v[i].x, 1e9f);
  }
}
std::vector<In> MakePrediction(Rng& r, const In& prev, const In& last, int n, double err) {
  std::vector<In> v;
  double dt = std::max(0.001, double(last.t) - prev.t);
  if (dt > 0.05) dt = 0.01;
  double vx = last.x - prev.x, vy = last.y - prev.y;
  In cur = last;
  for (int i = 0; i < n; ++i) {
    cur.t = float(cur.t + dt * r.Uni(0.5, 1.5));
    cur.x = float(cur.x + vx + err * r.Gauss());
    cur.y = float(cur.y + vy + err * r.Gauss());
    if (cur.p != -1) cur.p = float(std::min(1.0, std::max(0.0, cur.p + 0.1 * r.Gauss())));
    const In& before = v.empty() ? last : v.back();
    if (!ValidPair(before, cur)) cur.t = before.t + 0.01f;
    v.push_back(cur);
  }
  return v;
}

// ---- observations -------------------------------------------------------------------------------
void Obs::Bytes(const void* p, size_t n) {
  size_t at = w.size();
  w.resize(at + (n + 3) / 4, 0);
  if (n) memcpy(&w[at], p, n);
}
std::string DiffObs(const Obs& a, const Obs& b) {
  size_t n = std::min(a.w.size(), b.w.size()), i = 0;
  while (i < n && a.w[i] == b.w[i]) ++i;
  auto name = [&](const Obs& o) {
    const char* m = "?";
    uint32_t off = 0;
    for (auto& [at, s] : o.marks)
      if (at <= i) { m = s; off = at; }
    return Fmt("%s+%zu", m, i - off);
  };
  float fa = 0, fb = 0;
  if (i < a.w.size()) memcpy(&fa, &a.w[i], 4);
  if (i < b.w.size()) memcpy(&fb, &b.w[i], 4);
  return Fmt("differs at %s / %s: 0x%08x (%g) vs 0x%08x (%g); sizes %zu %zu", name(a).c_str(), name(b).c_str(),
             i < a.w.size() ? a.w[i] : 0, fa, i < b.w.size() ? b.w[i] : 0, fb, a.w.size(), b.w.size());
}
void ObserveInputs(const ink::StrokeInputBatch& b, Obs& o) {
  o.Mark("inputs");
  o.U(b.Size());
  o.U(uint64_t(b.GetToolType()));
  o.F(b.HasStrokeUnitLength() ? b.GetStrokeUnitLength()->ToCentimeters() : 0);
  o.U(b.HasPressure() + 2 * b.HasTilt() + 4 * b.HasOrientation());
  o.F(b.GetDuration().ToSeconds());
  for (size_t i = 0; i < b.Size(); ++i) {
    In in = FromInk(b.Get(i));
    o.F(in.x); o.F(in.y); o.F(in.t); o.F(in.p); o.F(in.tilt); o.F(in.ori);
    o.U(in.tool);
  }
}
void ObserveEnvelope(const ink::Envelope& e, Obs& o) {
  o.U(e.IsEmpty());
  if (!e.IsEmpty()) {
    o.F(e.AsRect()->XMin()); o.F(e.AsRect()->YMin()); o.F(e.AsRect()->XMax()); o.F(e.AsRect()->YMax());
  }
}
void ObserveBrush(const Brush& b, Obs& o) {
  o.Mark("brush");
  o.F(b.GetSize());
  o.F(b.GetEpsilon());
  o.U(b.CoatCount());
  o.U(b.GetFamily().GetInputModel().index());
  o.Str(absl::StrCat(b));
}
void ObserveMutableMesh(const ink::MutableMesh& m, Obs& o, bool skip_approx) {
  o.Mark("mesh.counts");
  o.U(m.VertexCount());
  o.U(m.TriangleCount());
  o.Mark("mesh.vertices");
  size_t stride = m.VertexStride();
  if (skip_approx && stride % 4 == 0 && m.VertexCount() > 0) {
    const char* base = reinterpret_cast<const char*>(m.RawVertexData().data());
    std::vector<float> v(stride / 4);
    auto offset = [&](ink::MeshFormat::AttributeId id) -> int {
      for (const auto& a : m.Format().Attributes()) if (a.id == id) return a.unpacked_offset / 4;
      return -1;
    };
    using I = ink::MeshFormat::AttributeId;
    int sd = offset(I::kSideDerivative), sl = offset(I::kSideLabel), fd = offset(I::kForwardDerivative), fl = offset(I::kForwardLabel);
    for (uint32_t i = 0; i < m.VertexCount(); ++i) {
      memcpy(v.data(), base + i * stride, stride);
      for (int k : {sd, fd}) if (k >= 0) v[k] = v[k + 1] = 0;
      for (int k : {sl, fl}) if (k >= 0) v[k] = v[k] > 0 ? 1 : v[k] < 0 ? -1 : 0;
      o.Bytes(v.data(), stride);
    }
  } else {
    o.Bytes(m.RawVertexData().data(), m.RawVertexData().size());
  }
  o.Mark("mesh.indices");
  o.Bytes(m.RawIndexData().data(), m.RawIndexData().size());
}
Obs ObserveLive(const ink::InProgressStroke& s, int flags) {
  Obs o;
  o.Mark("flags");
  o.U(s.InputsAreFinished());
  if (!(flags & kNoNeedsUpdate)) o.U(s.NeedsUpdate());
  o.U(s.InputCount());
  o.U(s.RealInputCount());
  o.U(s.PredictedInputCount());
  o.U(s.GetBrush() != nullptr);
  if (s.GetBrush() && !(flags & kNoBrush)) ObserveBrush(*s.GetBrush(), o);
  ObserveInputs(s.GetInputs(), o);
  o.Mark("coats");
  o.U(s.BrushCoatCount());
  for (uint32_t c = 0; c < s.BrushCoatCount(); ++c) {
    ObserveMutableMesh(s.GetMesh(c), o, flags & kNoApprox);
    o.Mark("bounds");
    ObserveEnvelope(s.GetMeshBounds(c), o);
    o.Mark("outlines");
    auto outs = s.GetCoatOutlines(c);
    o.U(outs.size());
    for (auto span : outs) {
      o.U(span.size());
      for (uint32_t i : span) o.U(i);
    }
  }
  if (!(flags & kNoRegion)) {
    o.Mark("region");
    ObserveEnvelope(s.GetUpdatedRegion(), o);
  }
  return o;
}
void ObserveShape(const ink::PartitionedMesh& s, Obs& o) {
  o.Mark("shape");
  o.U(s.RenderGroupCount());
  for (uint32_t g = 0; g < s.RenderGroupCount(); ++g) {
    o.U(s.RenderGroupMeshes(g).size());
    o.Str(absl::StrCat(s.RenderGroupFormat(g)));
    for (const ink::Mesh& m : s.RenderGroupMeshes(g)) {
      o.Mark("shape.mesh");
      o.U(m.VertexCount());
      o.U(m.TriangleCount());
      o.Mark("shape.vertices");
      o.Bytes(m.RawVertexData().data(), m.RawVertexData().size());
      o.Mark("shape.indices");
      o.Bytes(m.RawIndexData().data(), m.RawIndexData().size());
      o.Mark("shape.bounds");
      ObserveEnvelope(m.Bounds(), o);
      o.Mark("shape.packing");
      for (size_t a = 0; a < m.Format().Attributes().size(); ++a) {
        const auto& pp = m.VertexAttributeUnpackingParams(a);
        for (int k = 0; k < pp.components.Size(); ++k) {
          o.F(pp.components[k].offset);
          o.F(pp.components[k].scale);
        }
      }
    }
    o.Mark("shape.outlines");
    o.U(s.OutlineCount(g));
    for (uint32_t i = 0; i < s.OutlineCount(g); ++i) {
      auto ol = s.Outline(g, i);
      o.U(ol.size());
      for (auto v : ol) o.U(v.mesh_index * 65536ull + v.vertex_index);
    }
  }
  ObserveEnvelope(s.Bounds(), o);
}
Obs ObserveStroke(const ink::Stroke& s) {
  Obs o;
  ObserveBrush(s.GetBrush(), o);
  ObserveInputs(s.GetInputs(), o);
  ObserveShape(s.GetShape(), o);
  return o;
}

// ---- geometry helpers ------------------------------------------------------------------------------
std::vector<Tri> TrianglesOf(const ink::MutableMesh& m) {
  std::vector<Tri> v;
  v.reserve(m.TriangleCount());
  for (uint32_t i = 0; i < m.TriangleCount(); ++i) {
    auto idx = m.TriangleIndices(i);
    ink::Point a = m.VertexPosition(idx[0]), b = m.VertexPosition(idx[1]), c = m.VertexPosition(idx[2]);
    v.push_back({{a.x, a.y}, {b.x, b.y}, {c.x, c.y}});
  }
  return v;
}
std::vector<Tri> TrianglesOf(absl::Span<const ink::Mesh> meshes) {
  std::vector<Tri> v;
  for (const ink::Mesh& m : meshes)
    for (uint32_t i = 0; i < m.TriangleCount(); ++i) {
      auto idx = m.TriangleIndices(i);
      ink::Point a = m.VertexPosition(idx[0]), b = m.VertexPosition(idx[1]), c = m.VertexPosition(idx[2]);
      v.push_back({{a.x, a.y}, {b.x, b.y}, {c.x, c.y}});
    }
  return v;
}
static double SegDist(const P2& p, const P2& a, const P2& b) {
  double dx = b.x - a.x, dy = b.y - a.y, l = dx * dx + dy * dy;
  double t = l > 0 ? ((p.x - a.x) * dx + (p.y - a.y) * dy) / l : 0;
  t = t < 0 ? 0 : t > 1 ? 1 : t;
  double ex = p.x - a.x - t * dx, ey = p.y - a.y - t * dy;
  return std::sqrt(ex * ex + ey * ey);
}
static double Cross(const P2& a, const P2& b, const P2& p) {
  return (b.x - a.x) * (p.y - a.y) - (b.y - a.y) * (p.x - a.x);
}
double DistanceToTriangles(const P2& p, const std::vector<Tri>& tris, double) {
  double best = 1e300;
  for (const Tri& t : tris) {
    // bounding-box lower bound
    double lx = std::min({t.a.x, t.b.x, t.c.x}), hx = std::max({t.a.x, t.b.x, t.c.x});
    double ly = std::min({t.a.y, t.b.y, t.c.y}), hy = std::max({t.a.y, t.b.y, t.c.y});
    double dx = p.x < lx ? lx - p.x : p.x > hx ? p.x - hx : 0;
    double dy = p.y < ly ? ly - p.y : p.y > hy ? p.y - hy : 0;
    if (dx >= best || dy >= best) continue;
    double c1 = Cross(t.a, t.b, p), c2 = Cross(t.b, t.c, p), c3 = Cross(t.c, t.a, p);
    if ((c1 >= 0 && c2 >= 0 && c3 >= 0) || (c1 <= 0 && c2 <= 0 && c3 <= 0)) {
      if (Cross(t.a, t.b, t.c) != 0) return 0;
    }
    best = std::min({best, SegDist(p, t.a, t.b), SegDist(p, t.b, t.c), SegDist(p, t.c, t.a)});
    if (best == 0) return 0;
  }
  return best;
}
double OneSidedDeviation(const std::vector<Tri>& a, const std::vector<Tri>& b, P2* where) {
  double worst = 0;
  size_t stride = a.size() > 400 ? a.size() / 400 : 1;
  for (size_t i = 0; i < a.size(); i += stride) {
    const Tri& t = a[i];
    P2 pts[4] = {t.a, t.b, t.c, {(t.a.x + t.b.x + t.c.x) / 3, (t.a.y + t.b.y + t.c.y) / 3}};
    for (const P2& p : pts) {
      double d = DistanceToTriangles(p, b);
      if (d > worst) {
        worst = d;
        if (where) *where = p;
      }
    }
  }
  return worst;
}
}  // namespace dst
