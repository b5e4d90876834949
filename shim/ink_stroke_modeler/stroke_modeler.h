// Verification stand-in for google/ink-stroke-modeler: same API, same spring
// model structure (mass-spring-drag upsampling, end-of-stroke catch-up,
// save/restore, argument validation), written for these checks.
#ifndef SHIM_INK_STROKE_MODELER_STROKE_MODELER_H_
#define SHIM_INK_STROKE_MODELER_STROKE_MODELER_H_
#include <algorithm>
#include <cmath>
#include <deque>
#include <optional>
#include <vector>
#include "absl/status/status.h"
#include "ink_stroke_modeler/params.h"
#include "ink_stroke_modeler/types.h"
namespace ink::stroke_model {
class StrokeModeler {
 public:
  absl::Status Reset(const StrokeModelParams& p) {
    if (!(p.sampling_params.min_output_rate > 0) || !std::isfinite(p.sampling_params.min_output_rate))
      return absl::InvalidArgumentError("min_output_rate must be positive");
    if (!(p.sampling_params.end_of_stroke_stopping_distance > 0) || !std::isfinite(p.sampling_params.end_of_stroke_stopping_distance))
      return absl::InvalidArgumentError("end_of_stroke_stopping_distance must be positive");
    const auto& l = p.position_modeler_params.loop_contraction_mitigation_params;
    if (l.is_enabled) {
      if (!(l.speed_lower_bound >= 0) || !(l.speed_upper_bound >= l.speed_lower_bound) || !std::isfinite(l.speed_upper_bound))
        return absl::InvalidArgumentError("bad loop mitigation speed bounds");
      if (!p.stylus_state_modeler_params.use_stroke_normal_projection)
        return absl::InvalidArgumentError("loop mitigation requires stroke normal projection");
    }
    params_ = p;
    s_ = State();
    saved_.reset();
    return absl::OkStatus();
  }
  absl::Status Reset() {
    if (!params_) return absl::FailedPreconditionError("not initialised");
    s_ = State();
    saved_.reset();
    return absl::OkStatus();
  }
  absl::Status Update(const Input& in, std::vector<Result>& out) {
    if (!params_) return absl::FailedPreconditionError("Stroke model has not yet been initialized");
    if (!std::isfinite(in.position.x) || !std::isfinite(in.position.y) || !std::isfinite(in.time.Value()))
      return absl::InvalidArgumentError("Input is not finite");
    if (s_.last) {
      if (*s_.last == in) return absl::InvalidArgumentError("Received duplicate input");
      if (in.time < s_.last->time) return absl::InvalidArgumentError("Inputs travel backwards in time");
    }
    switch (in.event_type) {
      case Input::EventType::kDown: return Down(in, out);
      case Input::EventType::kMove: return Move(in, out);
      case Input::EventType::kUp: return Up(in, out);
    }
    return absl::InvalidArgumentError("Invalid EventType");
  }
  absl::Status Predict(std::vector<Result>& out) {
    out.clear();
    return absl::FailedPreconditionError("predictor is disabled");
  }
  void Save() { saved_ = s_; }
  void Restore() { if (saved_) s_ = *saved_; }

 private:
  struct Tip { Vec2 p, v, a; Time t; };
  struct Sample { Vec2 p; Time t; float pressure, tilt, orientation; };
  struct Speed { double t; float speed; };
  struct State {
    std::optional<Input> last;
    Tip tip;
    std::deque<Sample> samples;
    std::deque<Speed> speeds;
    bool down = false;
  };
  void Record(const Input& in) {
    s_.samples.push_back({in.position, in.time, in.pressure, in.tilt, in.orientation});
    size_t max = std::max(2, params_->stylus_state_modeler_params.max_input_samples);
    if (params_->stylus_state_modeler_params.use_stroke_normal_projection) {
      size_t min = std::max(2, params_->stylus_state_modeler_params.min_input_samples);
      double dur = params_->stylus_state_modeler_params.min_sample_duration.Value();
      while (s_.samples.size() > min && s_.samples.back().t.Value() - s_.samples[1].t.Value() > dur) s_.samples.pop_front();
    } else {
      while (s_.samples.size() > max) s_.samples.pop_front();
    }
  }
  static float Lerp(float a, float b, float t) { return a + (b - a) * t; }
  static float LerpAngle(float a, float b, float t) {
    const float two_pi = 6.283185307179586f;
    float d = b - a;
    if (d > two_pi / 2) d -= two_pi;
    if (d < -two_pi / 2) d += two_pi;
    float r = a + d * t;
    if (r < 0) r += two_pi;
    if (r >= two_pi) r -= two_pi;
    return r < 0 ? 0 : r;
  }
  Result Stylus(const Tip& k) const {
    Result r{k.p, k.v, k.a, k.t, -1, -1, -1};
    const auto& s = s_.samples;
    if (s.empty()) return r;
    size_t bi = 0;
    float bt = 0;
    double best = -1;
    for (size_t i = 0; i + 1 < s.size() || i == 0; ++i) {
      if (s.size() == 1) break;
      Vec2 d = s[i + 1].p - s[i].p, e = k.p - s[i].p;
      float len2 = d.x * d.x + d.y * d.y;
      float t = len2 > 0 ? std::clamp((d.x * e.x + d.y * e.y) / len2, 0.f, 1.f) : 0.f;
      Vec2 c = s[i].p + d * t;
      double dist = std::hypot((double)c.x - k.p.x, (double)c.y - k.p.y);
      if (best < 0 || dist <= best) { best = dist; bi = i; bt = t; }
    }
    const Sample& a = s[bi];
    const Sample& b = s.size() == 1 ? s[0] : s[bi + 1];
    if (a.pressure >= 0 && b.pressure >= 0) r.pressure = Lerp(a.pressure, b.pressure, bt);
    if (a.tilt >= 0 && b.tilt >= 0) r.tilt = Lerp(a.tilt, b.tilt, bt);
    if (a.orientation >= 0 && b.orientation >= 0) r.orientation = LerpAngle(a.orientation, b.orientation, bt);
    return r;
  }
  Tip Step(const Tip& k, Vec2 anchor, Time t) const {
    double dt = t.Value() - k.t.Value();
    const auto& pp = params_->position_modeler_params;
    Tip n = k;
    n.t = t;
    float f = static_cast<float>(dt);
    n.a = (anchor - k.p) / pp.spring_mass_constant - pp.drag_constant * k.v;
    n.v = k.v + f * n.a;
    n.p = k.p + f * n.v;
    return n;
  }
  float Strength() const {
    const auto& l = params_->position_modeler_params.loop_contraction_mitigation_params;
    if (!l.is_enabled) return 1;
    float sum = 0;
    for (const Speed& x : s_.speeds) sum += x.speed;
    float avg = s_.speeds.empty() ? 0 : sum / s_.speeds.size();
    float span = l.speed_upper_bound - l.speed_lower_bound;
    float t = span > 0 ? std::clamp((avg - l.speed_lower_bound) / span, 0.f, 1.f) : 1.f;
    return Lerp(l.interpolation_strength_at_speed_lower_bound, l.interpolation_strength_at_speed_upper_bound, t);
  }
  void NoteSpeed(const Input& in) {
    const auto& l = params_->position_modeler_params.loop_contraction_mitigation_params;
    if (!l.is_enabled) return;
    double dt = in.time.Value() - s_.last->time.Value();
    float d = (in.position - s_.last->position).Magnitude();
    s_.speeds.push_back({in.time.Value(), dt > 0 ? static_cast<float>(d / dt) : 0.f});
    while (s_.speeds.size() > static_cast<size_t>(std::max(1, l.min_discrete_speed_samples)) &&
           in.time.Value() - s_.speeds.front().t > l.min_speed_sampling_window.Value())
      s_.speeds.pop_front();
  }
  void Emit(const Tip& k, Vec2 anchor, std::vector<Result>& out) const {
    Result r = Stylus(k);
    float st = Strength();
    if (st != 1) r.position = anchor + (k.p - anchor) * st;
    out.push_back(r);
  }
  absl::Status Down(const Input& in, std::vector<Result>& out) {
    if (s_.down) return absl::FailedPreconditionError("Received down event while stroke is in-progress");
    s_ = State();
    s_.down = true;
    s_.tip = {in.position, {}, {}, in.time};
    s_.last = in;
    Record(in);
    Emit(s_.tip, in.position, out);
    return absl::OkStatus();
  }
  void Along(const Input& in, std::vector<Result>& out) {
    const Input& last = *s_.last;
    double dt = in.time.Value() - last.time.Value();
    double want = std::ceil(dt * params_->sampling_params.min_output_rate);
    int n = static_cast<int>(std::clamp(want, 1.0, 20000.0));
    Vec2 p0 = last.position;
    double t0 = last.time.Value();
    Input prev = last;
    for (int i = 1; i <= n; ++i) {
      float f = static_cast<float>(i) / n;
      Vec2 anchor = i == n ? in.position : p0 + (in.position - p0) * f;
      Time t(i == n ? in.time.Value() : t0 + dt * i / n);
      s_.tip = Step(s_.tip, anchor, t);
      Emit(s_.tip, anchor, out);
    }
    (void)prev;
  }
  absl::Status Move(const Input& in, std::vector<Result>& out) {
    if (!s_.down) return absl::FailedPreconditionError("Received move event while no stroke is in-progress");
    Record(in);
    NoteSpeed(in);
    Along(in, out);
    s_.last = in;
    return absl::OkStatus();
  }
  absl::Status Up(const Input& in, std::vector<Result>& out) {
    if (!s_.down) return absl::FailedPreconditionError("Received up event while no stroke is in-progress");
    Record(in);
    NoteSpeed(in);
    Along(in, out);
    double dt = 1 / params_->sampling_params.min_output_rate;
    const float stop = params_->sampling_params.end_of_stroke_stopping_distance;
    for (int i = 0; i < params_->sampling_params.end_of_stroke_max_iterations; ++i) {
      Tip cand = Step(s_.tip, in.position, Time(s_.tip.t.Value() + dt));
      float moved = (cand.p - s_.tip.p).Magnitude();
      if (moved < stop) break;
      Vec2 d = cand.p - s_.tip.p, e = in.position - s_.tip.p;
      float t = (d.x * e.x + d.y * e.y) / (d.x * d.x + d.y * d.y);
      if (t < 1) { dt *= 0.5; continue; }  // overshot the anchor: retry smaller
      s_.tip = cand;
      Emit(s_.tip, in.position, out);
      if ((s_.tip.p - in.position).Magnitude() < stop) break;
    }
    s_.down = false;
    s_.last = in;
    return absl::OkStatus();
  }
  std::optional<StrokeModelParams> params_;
  State s_;
  std::optional<State> saved_;
};
}  // namespace ink::stroke_model
#endif
