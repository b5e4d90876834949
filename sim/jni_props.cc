// The Java bridge world: the bridge functions run against the simulated virtual machine, next to native twins.
#include <functional>
#include <tuple>

#include "absl/strings/str_cat.h"
#include "ink/brush/internal/jni/brush_jni_helper.h"
#include "ink/geometry/affine_transform.h"
#include "ink/geometry/envelope.h"
#include "ink/geometry/intersects.h"
#include "ink/geometry/mesh.h"
#include "ink/geometry/mesh_format.h"
#include "ink/geometry/quad.h"
#include "ink/geometry/rect.h"
#include "ink/geometry/segment.h"
#include "ink/geometry/triangle.h"
#include "ink/rendering/skia/common_internal/mesh_specification_data.h"
#include "ink/strokes/internal/jni/stroke_input_jni_helper.h"
#include "jni_decl.h"
#include <exception>
#include <thread>

#include "jni_vm.h"
#include "session.h"
#include "vthreads.h"

namespace dst {
namespace {
using ink::AffineTransform;
using ink::Angle;
using ink::Brush;
using ink::BrushBehavior;
using ink::BrushCoat;
using ink::BrushFamily;
using ink::BrushPaint;
using ink::BrushTip;
using ink::Duration32;
using ink::EasingFunction;
using ink::Mesh;
using ink::MeshFormat;
using ink::PartitionedMesh;
using ink::Point;
using ink::Quad;
using ink::Rect;
using ink::Segment;
using ink::StrokeInputBatch;
using ink::Triangle;
using ink::Vec;
using ink::skia_common_internal::MeshSpecificationData;

#define J(f) Java_androidx_ink_##f

struct WorldStopped {};

const char* ClassFor(const absl::Status& s) {
  switch (s.code()) {
    case absl::StatusCode::kFailedPrecondition: return "java/lang/IllegalStateException";
    case absl::StatusCode::kInvalidArgument: return "java/lang/IllegalArgumentException";
    case absl::StatusCode::kNotFound: return "java/util/NoSuchElementException";
    case absl::StatusCode::kOutOfRange: return "java/lang/IndexOutOfBoundsException";
    case absl::StatusCode::kUnimplemented: return "java/lang/UnsupportedOperationException";
    default: return "java/lang/IllegalStateException";
  }
}
bool Same(float a, float b) { return memcmp(&a, &b, 4) == 0 || (a != a && b != b); }

// ---- argument spreading for the many functions of plain numbers --------------------------------------
struct Args {
  std::vector<jfloat> f;
  std::vector<jlong> j;
  std::vector<jobject> o;
  std::vector<jboolean> z;
  size_t fi = 0, ji = 0, oi = 0, zi = 0;
};
template <class T> T Next(Args& a) {
  if constexpr (std::is_same_v<T, jfloat>) return a.f.at(a.fi++);
  else if constexpr (std::is_same_v<T, jlong>) return a.j.at(a.ji++);
  else if constexpr (std::is_same_v<T, jboolean>) return a.z.at(a.zi++);
  else return static_cast<T>(a.o.at(a.oi++));
}
template <class R, class C, class... A> R Spread(R (*fn)(JNIEnv*, C, A...), JNIEnv* e, jobject c, Args& a) {
  std::tuple<A...> t{Next<A>(a)...};
  if (a.fi != a.f.size() || a.ji != a.j.size() || a.oi != a.o.size() || a.zi != a.z.size()) {
    fprintf(stderr, "harness: argument count\n");
    abort();
  }
  return std::apply([&](A... x) { return fn(e, static_cast<C>(c), x...); }, t);
}

Vm& TheVm() {
  static Vm* vm = [] {
    g_check_hook = [](const std::string& m) { VmCheckFailed(m); };
    return new Vm;
  }();
  return *vm;
}

// ---- the world -------------------------------------------------------------------------------------------
template <class T> struct Slot {
  jlong h = 0;
  std::unique_ptr<T> t;
};
struct World {
  Vm& vm = TheVm();
  std::vector<Slot<Brush>> brushes;
  std::vector<Slot<ink::InProgressStroke>> lives;
  std::vector<Slot<StrokeInputBatch>> batches;
  std::vector<Slot<ink::Stroke>> strokes;
  std::vector<Slot<PartitionedMesh>> shapes;
  std::vector<Slot<Mesh>> meshes;
  std::vector<Slot<MeshFormat>> formats;
  bool arm_soft = false;
  int arm = 0;
  bool faulted = false;  // a virtual machine failure happened in this op
  bool errored = false;  // a call of this op was rejected

  JNIEnv* env() { return &vm.env; }
  jobject Thiz() { return vm.Arg(vm.Class("java/lang/Object")); }
  jclass Cls(const char* n) { return static_cast<jclass>(vm.Arg(vm.Class(n))); }

  // Runs one bridge call. `expect` is what the native library says to the same request (null: cannot fail).
  // Returns whether the call succeeded.
  template <class F> bool Do(const char* what, const absl::Status* expect, F&& f) {
    R.Count("op.bridge-call");
    vm.Enter(what);
    bool before = vm.fired;
    jmp_buf stop;
    if (setjmp(stop)) {
      g_stop = nullptr;
      Trace("    stopped with: %s", vm.stop_msg.c_str());
      R.Count("evt.stopped-with-diagnostic");
      throw WorldStopped{};
    }
    g_stop = &stop;
    HeapTrack::On();
    f();
    HeapTrack::Off();
    g_stop = nullptr;
    JObj* e = vm.Leave();
    bool fired = vm.fired && !before;
    if (fired) faulted = true;
    if (e) {
      bool vmerr = e->cls->super == vm.Class("java/lang/Error");
      if (vmerr && fired) {
        R.Count("evt.exception-from-machine");
        return false;
      }
      if (!expect || expect->ok()) Fail("unexpected-exception", "%s raised %s: %s", what, e->cls->name.c_str(), e->s.c_str());
      if (e->cls->name != ClassFor(*expect) || e->s != expect->ToString())
        Fail("wrong-exception", "%s raised %s \"%s\" for %s", what, e->cls->name.c_str(), e->s.c_str(), expect->ToString().c_str());
      errored = true;
      R.Count("evt.exception-from-status");
      return false;
    }
    if (expect && !expect->ok()) Fail("missing-exception", "%s raised nothing for %s", what, expect->ToString().c_str());
    if (fired) R.Count("evt.failure-survived");
    R.Check();
    return true;
  }
  template <class F> bool Do(const char* what, F&& f) { return Do(what, nullptr, std::forward<F>(f)); }

  // A call that reports a rejection as a string.
  template <class F> bool DoStr(const char* what, const absl::Status& expect, F&& f) {
    JObj* r = nullptr;
    if (!Do(what, [&] { r = vm.Deref(f(), what); })) return false;
    if (expect.ok() != (r == nullptr)) Fail("wrong-outcome", "%s says \"%s\", the native call says %s", what, r ? r->s.c_str() : "(null)", expect.ToString().c_str());
    if (r && r->s != expect.ToString()) Fail("wrong-message", "%s says \"%s\", the native call says \"%s\"", what, r->s.c_str(), expect.ToString().c_str());
    if (r) errored = true;
    return true;
  }
  template <class A, class B> void Eq(const char* what, A got, B want) {
    R.Check();
    if (!(got == A(want))) Fail("differs", "%s: %s over the bridge, %s natively", what, absl::StrCat(got).c_str(), absl::StrCat(A(want)).c_str());
  }
  void EqF(const char* what, float got, float want) {
    R.Check();
    if (!Same(got, want)) Fail("differs", "%s: %.9g over the bridge, %.9g natively", what, got, want);
  }
  jint Int(const char* what, jint want, const std::function<jint()>& f) {
    jint v = 0;
    if (Do(what, [&] { v = f(); })) Eq(what, v, want);
    return v;
  }
  void Bytes(const char* what, JObj* got, const void* want, size_t n, bool null_when_empty) {
    R.Check();
    if (!got) {
      if (!null_when_empty) Fail("differs", "%s: no buffer over the bridge, %zu bytes natively", what, n);
      return;
    }
    if (size_t(got->cap) != n) Fail("differs", "%s: %lld bytes over the bridge, %zu natively", what, (long long)got->cap, n);
    if (n && memcmp(got->addr, want, n)) Fail("differs", "%s: different bytes", what);
  }
  void Env(const char* what, JObj* acc, const ink::Envelope& e) {
    R.Check();
    if (e.IsEmpty() != acc->f.empty()) Fail("differs", "%s: emptiness differs", what);
    if (e.IsEmpty()) return;
    Rect r = *e.AsRect();
    float w[] = {r.XMin(), r.YMin(), r.XMax(), r.YMax()};
    for (int i = 0; i < 4; ++i) EqF(what, acc->f[i], w[i]);
  }
  void Input(const char* what, JObj* o, const ink::StrokeInput& in) {
    EqF(what, o->f[0], in.position.x);
    EqF(what, o->f[1], in.position.y);
    EqF(what, o->f[2], in.stroke_unit_length.ToCentimeters());
    EqF(what, o->f[3], in.pressure);
    EqF(what, o->f[4], in.tilt.ValueInRadians());
    EqF(what, o->f[5], in.orientation.ValueInRadians());
    if (o->j != llround(double(in.elapsed_time.ToSeconds()) * 1000))
      Fail("elapsed-time", "%s: %lld ms over the bridge, %.9g s natively", what, (long long)o->j, double(in.elapsed_time.ToSeconds()));
    Eq(what, o->ref->ints.at(0), int(in.tool_type));
  }

  // ---- brushes -------------------------------------------------------------------------------------------
  void AppendNode(jlong b, const BrushBehavior::Node& n) {
    if (auto* s = std::get_if<BrushBehavior::SourceNode>(&n)) {
      Do("nativeAppendSourceNode", [&] { J(brush_BrushBehavior_00024SourceNode_nativeAppendSourceNode)(env(), Thiz(), b, jint(s->source), s->source_value_range[0], s->source_value_range[1], jint(s->source_out_of_range_behavior)); });
    } else if (auto* s = std::get_if<BrushBehavior::ConstantNode>(&n)) {
      Do("nativeAppendConstantNode", [&] { J(brush_BrushBehavior_00024ConstantNode_nativeAppendConstantNode)(env(), Thiz(), b, s->value); });
    } else if (auto* s = std::get_if<BrushBehavior::FallbackFilterNode>(&n)) {
      Do("nativeAppendFallbackFilterNode", [&] { J(brush_BrushBehavior_00024FallbackFilterNode_nativeAppendFallbackFilterNode)(env(), Thiz(), b, jint(s->is_fallback_for)); });
    } else if (auto* s = std::get_if<BrushBehavior::ToolTypeFilterNode>(&n)) {
      const auto& e = s->enabled_tool_types;
      Do("nativeAppendToolTypeFilterNode", [&] { J(brush_BrushBehavior_00024ToolTypeFilterNode_nativeAppendToolTypeFilterNode)(env(), Thiz(), b, e.mouse, e.touch, e.stylus, e.unknown); });
    } else if (auto* s = std::get_if<BrushBehavior::DampingNode>(&n)) {
      Do("nativeAppendDampingNode", [&] { J(brush_BrushBehavior_00024DampingNode_nativeAppendDampingNode)(env(), Thiz(), b, jint(s->damping_source), s->damping_gap); });
    } else if (auto* s = std::get_if<BrushBehavior::BinaryOpNode>(&n)) {
      Do("nativeAppendBinaryOpNode", [&] { J(brush_BrushBehavior_00024BinaryOpNode_nativeAppendBinaryOpNode)(env(), Thiz(), b, jint(s->operation)); });
    } else if (auto* s = std::get_if<BrushBehavior::InterpolationNode>(&n)) {
      Do("nativeAppendInterpolationNode", [&] { J(brush_BrushBehavior_00024InterpolationNode_nativeAppendInterpolationNode)(env(), Thiz(), b, jint(s->interpolation)); });
    } else if (auto* s = std::get_if<BrushBehavior::TargetNode>(&n)) {
      Do("nativeAppendTargetNode", [&] { J(brush_BrushBehavior_00024TargetNode_nativeAppendTargetNode)(env(), Thiz(), b, jint(s->target), s->target_modifier_range[0], s->target_modifier_range[1]); });
    } else if (auto* s = std::get_if<BrushBehavior::ResponseNode>(&n)) {
      const auto& p = s->response_curve.parameters;
      if (auto* k = std::get_if<EasingFunction::Predefined>(&p)) {
        Do("nativeAppendResponseNodePredefined", [&] { J(brush_BrushBehavior_00024ResponseNode_nativeAppendResponseNodePredefined)(env(), Thiz(), b, jint(*k)); });
      } else if (auto* k = std::get_if<EasingFunction::CubicBezier>(&p)) {
        Do("nativeAppendResponseNodeCubicBezier", [&] { J(brush_BrushBehavior_00024ResponseNode_nativeAppendResponseNodeCubicBezier)(env(), Thiz(), b, k->x1, k->y1, k->x2, k->y2); });
      } else if (auto* k = std::get_if<EasingFunction::Steps>(&p)) {
        Do("nativeAppendResponseNodeSteps", [&] { J(brush_BrushBehavior_00024ResponseNode_nativeAppendResponseNodeSteps)(env(), Thiz(), b, k->step_count, jint(k->step_position)); });
      } else if (auto* k = std::get_if<EasingFunction::Linear>(&p)) {
        std::vector<jfloat> pts;
        for (Point q : k->points) { pts.push_back(q.x); pts.push_back(q.y); }
        JObj* arr = vm.NewFloats(pts);
        Do("nativeAppendResponseNodeLinear", [&] { J(brush_BrushBehavior_00024ResponseNode_nativeAppendResponseNodeLinear)(env(), Thiz(), b, static_cast<jfloatArray>(vm.Arg(arr))); });
      }
    }
  }
  // Each maker returns a handle, or 0 when the call was rejected or failed; `want` is made natively.
  jlong MakeBehaviorHandle(const BrushBehavior& want) {
    jlong h = 0;
    if (!Do("nativeCreateEmptyBrushBehavior", [&] { h = J(brush_BrushBehavior_nativeCreateEmptyBrushBehavior)(env(), Thiz()); })) return 0;
    BrushBehavior sofar;
    for (const auto& n : want.nodes) {
      bool was = faulted;
      faulted = false;
      AppendNode(h, n);
      if (!faulted) sofar.nodes.push_back(n);
      else R.Count("evt.node-lost");
      bool lost = faulted;
      faulted |= was;
      // a failed append leaves the behaviour as it was: the node is not there (a failure that was survived has it)
      if (lost && ink::CastToBrushBehavior(h).nodes.size() > sofar.nodes.size()) sofar.nodes.push_back(n);
      R.Check();
      if (absl::StrCat(ink::CastToBrushBehavior(h)) != absl::StrCat(sofar))
        Fail("behavior-differs", "appended behavior is %s, expected %s", absl::StrCat(ink::CastToBrushBehavior(h)).c_str(), absl::StrCat(sofar).c_str());
    }
    absl::Status st = ink::brush_internal::ValidateBrushBehavior(sofar);
    jlong r = 0;
    if (!Do("nativeValidateOrDeleteAndThrow", &st, [&] { r = J(brush_BrushBehavior_nativeValidateOrDeleteAndThrow)(env(), Thiz(), h); })) {
      return 0;  // deleted by the call, whether or not the exception could be made
    }
    if (r != h) Fail("differs", "nativeValidateOrDeleteAndThrow returned another handle");
    return h;
  }
  void FreeBehavior(jlong h) { if (h) Do("nativeFreeBrushBehavior", [&] { J(brush_BrushBehavior_nativeFreeBrushBehavior)(env(), Thiz(), h); }); }
  jlong MakeTip(const BrushTip& want, Rng& r) {
    BrushTip t = want;
    // the managed side passes whole milliseconds
    jlong gap = llround(double(t.particle_gap_duration.ToSeconds()) * 1000);
    t.particle_gap_duration = Duration32::Millis(gap);
    if (r.P(0.03)) t.corner_rounding = 2;
    if (r.P(0.02)) t.pinch = -1;
    if (r.P(0.02)) t.scale.x = -3;
    if (r.P(0.02)) { gap = -5; t.particle_gap_duration = Duration32::Millis(gap); }
    t.behaviors.clear();
    absl::Status st = ink::brush_internal::ValidateBrushTip(t);
    jlong h = 0;
    if (!Do("nativeCreateBrushTip", &st, [&] {
          h = J(brush_BrushTip_nativeCreateBrushTip)(env(), Thiz(), t.scale.x, t.scale.y, t.corner_rounding, t.slant.ValueInRadians(), t.pinch,
                                                     t.rotation.ValueInRadians(), t.opacity_multiplier, t.particle_gap_distance_scale, gap,
                                                     jint(want.behaviors.size()));
        })) return 0;
    for (const BrushBehavior& b : want.behaviors) {
      BrushBehavior bad = b;
      if (r.P(0.04)) bad.nodes.pop_back();
      if (r.P(0.03)) bad.nodes.push_back(BrushBehavior::ConstantNode{NAN});
      jlong bh = MakeBehaviorHandle(bad);
      if (!bh) continue;
      t.behaviors.push_back(ink::CastToBrushBehavior(bh));
      Do("nativeAppendBehavior", [&] { J(brush_BrushTip_nativeAppendBehavior)(env(), Thiz(), h, bh); });
      FreeBehavior(bh);
    }
    R.Check();
    if (!(ink::CastToBrushTip(h) == t)) Fail("tip-differs", "tip is %s, expected %s", absl::StrCat(ink::CastToBrushTip(h)).c_str(), absl::StrCat(t).c_str());
    return h;
  }
  jlong MakeLayerHandle(const BrushPaint::TextureLayer& want, Rng& r) {
    BrushPaint::TextureLayer l = want;
    std::string uri = absl::StrCat(l.color_texture_uri);
    if (r.P(0.5)) uri = Fmt("ink://ink/texture:t-%c", int(97 + r.Below(5)));
    if (r.P(0.06)) uri = r.Pick(std::vector<std::string>{"", "ink:", "//", "ink://ink/texture:", "ink://\xc3\xa9t\xc3\xa9/texture:n", "ink://ink/texture:\xed\xa0\xbd\xed\xb8\x80",
                                                         "/tex\xc0\x80ure:x", "ink://ink/texture:name:2147483648", "ink://ink/texture:x:1", "INK:/texture:yes"});
    if (r.P(0.04)) l.size.x = -1;
    if (r.P(0.03)) l.opacity = 1.5f;
    if (r.P(0.03)) l.offset.y = NAN;
    if (r.P(0.03)) l.wrap_x = BrushPaint::TextureWrap(77);
    if (r.P(0.03)) l.blend_mode = BrushPaint::BlendMode(-3);
    auto u = ink::Uri::Parse(uri);
    absl::Status st = u.status();
    if (u.ok()) {
      l.color_texture_uri = *u;
      st = ink::brush_internal::ValidateBrushPaintTextureLayer(l);
    }
    JObj* js = vm.NewString(uri);
    jlong h = 0;
    if (!Do("nativeCreateTextureLayer", &st, [&] {
          h = J(brush_BrushPaint_00024TextureLayer_nativeCreateTextureLayer)(
              env(), Thiz(), static_cast<jstring>(vm.Arg(js)), l.size.x, l.size.y, l.offset.x, l.offset.y, l.rotation.ValueInRadians(), l.opacity,
              jint(l.size_unit), jint(l.origin), jint(l.mapping), jint(l.wrap_x), jint(l.wrap_y), jint(l.blend_mode));
        })) return 0;
    R.Check();
    const auto& got = *reinterpret_cast<BrushPaint::TextureLayer*>(h);
    if (!(got == l)) Fail("layer-differs", "layer is %s, expected %s", absl::StrCat(got).c_str(), absl::StrCat(l).c_str());
    return h;
  }
  jlong MakePaint(const BrushPaint& want, Rng& r) {
    jlong h = 0;
    if (!Do("nativeCreateBrushPaint", [&] { h = J(brush_BrushPaint_nativeCreateBrushPaint)(env(), Thiz(), jint(want.texture_layers.size())); })) return 0;
    BrushPaint t;
    for (const auto& l : want.texture_layers) {
      BrushPaint::TextureLayer x = l;
      if (r.P(0.15)) x.mapping = l.mapping == BrushPaint::TextureMapping::kTiling ? BrushPaint::TextureMapping::kWinding : BrushPaint::TextureMapping::kTiling;
      jlong lh = MakeLayerHandle(x, r);
      if (!lh) continue;
      BrushPaint next = t;
      next.texture_layers.push_back(*reinterpret_cast<BrushPaint::TextureLayer*>(lh));
      absl::Status st = ink::brush_internal::ValidateBrushPaint(next);
      if (Do("nativeAppendTextureLayer", &st, [&] { J(brush_BrushPaint_nativeAppendTextureLayer)(env(), Thiz(), h, lh); })) t = next;
      Do("nativeFreeTextureLayer", [&] { J(brush_BrushPaint_00024TextureLayer_nativeFreeTextureLayer)(env(), Thiz(), lh); });
      R.Check();
      if (!(ink::CastToBrushPaint(h) == t)) Fail("paint-differs", "paint is %s, expected %s", absl::StrCat(ink::CastToBrushPaint(h)).c_str(), absl::StrCat(t).c_str());
    }
    return h;
  }
  jlong MakeCoat(const BrushCoat& want, Rng& r) {
    std::vector<jlong> tips;
    BrushCoat t;
    for (const BrushTip& tip : want.tips)
      if (jlong h = MakeTip(tip, r)) { tips.push_back(h); t.tips.push_back(ink::CastToBrushTip(h)); }
    jlong paint = MakePaint(want.paint, r), h = 0;
    if (paint) {
      t.paint = ink::CastToBrushPaint(paint);
      JObj* arr = vm.NewLongs(tips);
      if (!Do("nativeCreateBrushCoat", [&] { h = J(brush_BrushCoat_nativeCreateBrushCoat)(env(), Thiz(), static_cast<jlongArray>(vm.Arg(arr)), paint); })) h = 0;
      if (arr->longs != tips) Fail("array-changed", "nativeCreateBrushCoat changed the caller's array");
    }
    for (jlong x : tips) Do("nativeFreeBrushTip", [&] { J(brush_BrushTip_nativeFreeBrushTip)(env(), Thiz(), x); });
    if (paint) Do("nativeFreeBrushPaint", [&] { J(brush_BrushPaint_nativeFreeBrushPaint)(env(), Thiz(), paint); });
    R.Check();
    if (h && !(ink::CastToBrushCoat(h).tips == t.tips && ink::CastToBrushCoat(h).paint == t.paint)) Fail("coat-differs", "coat is %s, expected %s", absl::StrCat(ink::CastToBrushCoat(h)).c_str(), absl::StrCat(t).c_str());
    return h;
  }
  bool MakeBrush(const Brush& want, uint64_t seed) {
    Rng r(seed);
    std::vector<jlong> coats;
    std::vector<BrushCoat> t;
    for (const BrushCoat& c : want.GetCoats())
      if (jlong h = MakeCoat(c, r)) { coats.push_back(h); t.push_back(ink::CastToBrushCoat(h)); }
    std::string uri = r.P(0.5) ? "" : r.Pick(std::vector<std::string>{"ink://ink/brush-family:b", "ink:/brush-family:c:3", "/brush-family:x", "nonsense", "ink://ink/texture:t",
                                                                      "ink://ink/brush-family:\xc3\xa9:2"});
    bool v2 = std::holds_alternative<BrushFamily::SpringModelV2>(want.GetFamily().GetInputModel());
    BrushFamily::InputModel model = v2 ? BrushFamily::InputModel(BrushFamily::SpringModelV2{}) : BrushFamily::InputModel(BrushFamily::SpringModelV1{});
    auto fam = BrushFamily::Create(t, absl::string_view(uri), model);
    absl::Status st = fam.status();
    JObj* arr = vm.NewLongs(coats);
    JObj* js = vm.NewString(uri);
    jlong fh = 0, bh = 0;
    bool ok = Do("nativeCreateBrushFamily", &st, [&] {
      fh = J(brush_BrushFamily_nativeCreateBrushFamily)(env(), Thiz(), static_cast<jlongArray>(vm.Arg(arr)), static_cast<jstring>(vm.Arg(js)), v2);
    });
    if (arr->longs != coats) Fail("array-changed", "nativeCreateBrushFamily changed the caller's array");
    for (jlong x : coats) Do("nativeFreeBrushCoat", [&] { J(brush_BrushCoat_nativeFreeBrushCoat)(env(), Thiz(), x); });
    if (!ok) return false;
    R.Check();
    if (absl::StrCat(ink::CastToBrushFamily(fh)) != absl::StrCat(*fam) || ink::CastToBrushFamily(fh).GetInputModel().index() != model.index())
      Fail("family-differs", "family is %s, expected %s", absl::StrCat(ink::CastToBrushFamily(fh)).c_str(), absl::StrCat(*fam).c_str());
    float c[4];
    for (float& x : c) x = r.P(0.2) ? float(r.Below(2)) : float(r.U());
    int space = int(r.Below(2));
    float size = want.GetSize(), eps = want.GetEpsilon();
    if (r.P(0.05)) size = r.Pick(std::vector<float>{0, -1, INFINITY, NAN});
    if (r.P(0.05)) eps = r.Pick(std::vector<float>{0, -1, INFINITY, size * 2});
    auto b = Brush::Create(*fam, ink::Color::FromFloat(c[0], c[1], c[2], c[3], ink::Color::Format::kGammaEncoded, space ? ink::ColorSpace::kDisplayP3 : ink::ColorSpace::kSrgb), size, eps);
    st = b.status();
    ok = Do("nativeCreateBrush", &st, [&] { bh = J(brush_Brush_nativeCreateBrush)(env(), Thiz(), fh, c[0], c[1], c[2], c[3], space, size, eps); });
    Do("nativeFreeBrushFamily", [&] { J(brush_BrushFamily_nativeFreeBrushFamily)(env(), Thiz(), fh); });
    if (!ok) return false;
    brushes.push_back({bh, std::make_unique<Brush>(*b)});
    return true;
  }
  void LookBrush(const Slot<Brush>& s) {
    Obs a, b;
    ObserveBrush(ink::CastToBrush(s.h), a);
    ObserveBrush(*s.t, b);
    R.Check();
    if (!(a == b)) Fail("brush-differs", "brush is %s, expected %s", absl::StrCat(ink::CastToBrush(s.h)).c_str(), absl::StrCat(*s.t).c_str());
  }

  // ---- batches ---------------------------------------------------------------------------------------------
  bool NewBatch() {
    jlong h = 0;
    if (!Do("createNativePeer", [&] { h = J(strokes_StrokeInputBatchNative_createNativePeer)(env(), Thiz()); })) return false;
    batches.push_back({h, std::make_unique<StrokeInputBatch>()});
    return true;
  }
  void FreeBatch(size_t i) {
    Do("freeNativePeer", [&] { J(strokes_StrokeInputBatchNative_freeNativePeer)(env(), Thiz(), batches[i].h); });
    batches.erase(batches.begin() + long(i));
  }
  void AppendSingle(Slot<StrokeInputBatch>& b, const In& in, jlong ms) {
    ink::StrokeInput x = ToInk(in);
    x.elapsed_time = Duration32::Millis(ms);
    StrokeInputBatch next = *b.t;
    absl::Status st = next.Append(x);
    DoStr("appendSingle", st, [&] {
      return J(strokes_MutableStrokeInputBatchNative_appendSingle)(env(), Thiz(), b.h, jint(x.tool_type), x.position.x, x.position.y, ms,
                                                                   x.stroke_unit_length.ToCentimeters(), x.pressure, x.tilt.ValueInRadians(),
                                                                   x.orientation.ValueInRadians());
    });
    if (st.ok()) *b.t = next;
  }
  void LookBatch(const Slot<StrokeInputBatch>& b) {
    const StrokeInputBatch& t = *b.t;
    jint n = Int("getSize", t.Size(), [&] { return J(strokes_StrokeInputBatchNative_getSize)(env(), Thiz(), b.h); });
    if (faulted) return;
    JObj* o = vm.NewInstance(vm.Class("androidx/ink/strokes/StrokeInput"), 6);
    for (jint i = 0; i < n && !faulted; ++i)
      if (Do("populate", [&] { J(strokes_StrokeInputBatchNative_populate)(env(), Thiz(), b.h, i, vm.Arg(o), Cls("androidx/ink/brush/InputToolType")); }))
        Input("populate", o, t.Get(i));
    jlong d = 0;
    if (Do("getDurationMillis", [&] { d = J(strokes_StrokeInputBatchNative_getDurationMillis)(env(), Thiz(), b.h); }) &&
        d != llround(double(t.GetDuration().ToSeconds()) * 1000))
      Fail("elapsed-time", "getDurationMillis: %lld ms over the bridge, %.9g s natively", (long long)d, double(t.GetDuration().ToSeconds()));
    Int("getToolType", int(t.GetToolType()), [&] { return J(strokes_StrokeInputBatchNative_getToolType)(env(), Thiz(), b.h); });
    Int("hasPressure", t.HasPressure(), [&] { return jint(J(strokes_StrokeInputBatchNative_hasPressure)(env(), Thiz(), b.h)); });
    Int("hasTilt", t.HasTilt(), [&] { return jint(J(strokes_StrokeInputBatchNative_hasTilt)(env(), Thiz(), b.h)); });
    Int("hasOrientation", t.HasOrientation(), [&] { return jint(J(strokes_StrokeInputBatchNative_hasOrientation)(env(), Thiz(), b.h)); });
    Int("hasStrokeUnitLength", t.HasStrokeUnitLength(), [&] { return jint(J(strokes_StrokeInputBatchNative_hasStrokeUnitLength)(env(), Thiz(), b.h)); });
    float u = -1;
    if (Do("getStrokeUnitLengthCm", [&] { u = J(strokes_StrokeInputBatchNative_getStrokeUnitLengthCm)(env(), Thiz(), b.h); }))
      EqF("getStrokeUnitLengthCm", u, t.GetStrokeUnitLength() ? t.GetStrokeUnitLength()->ToCentimeters() : 0);
  }

  // ---- live strokes -----------------------------------------------------------------------------------------
  bool NewLive() {
    jlong h = 0;
    if (!Do("nativeCreateInProgressStroke", [&] { h = J(strokes_InProgressStroke_nativeCreateInProgressStroke)(env(), Thiz()); })) return false;
    lives.push_back({h, std::make_unique<ink::InProgressStroke>()});
    return true;
  }
  void FreeLive(size_t i) {
    Do("nativeFreeInProgressStroke", [&] { J(strokes_InProgressStroke_nativeFreeInProgressStroke)(env(), Thiz(), lives[i].h); });
    lives.erase(lives.begin() + long(i));
  }
  void LookFlags(const Slot<ink::InProgressStroke>& s) {
    const ink::InProgressStroke& t = *s.t;
    Int("nativeInputCount", t.InputCount(), [&] { return J(strokes_InProgressStroke_nativeInputCount)(env(), Thiz(), s.h); });
    Int("nativeRealInputCount", t.RealInputCount(), [&] { return J(strokes_InProgressStroke_nativeRealInputCount)(env(), Thiz(), s.h); });
    Int("nativePredictedInputCount", t.PredictedInputCount(), [&] { return J(strokes_InProgressStroke_nativePredictedInputCount)(env(), Thiz(), s.h); });
    Int("nativeBrushCoatCount", t.BrushCoatCount(), [&] { return J(strokes_InProgressStroke_nativeBrushCoatCount)(env(), Thiz(), s.h); });
    Int("nativeIsInputFinished", t.InputsAreFinished(), [&] { return jint(J(strokes_InProgressStroke_nativeIsInputFinished)(env(), Thiz(), s.h)); });
    Int("nativeNeedsUpdate", t.NeedsUpdate(), [&] { return jint(J(strokes_InProgressStroke_nativeNeedsUpdate)(env(), Thiz(), s.h)); });
  }
  static std::vector<uint16_t> Indices16(const ink::MutableMesh& m) {
    std::vector<uint16_t> v;
    for (uint32_t i = 0; i < m.TriangleCount(); ++i) {
      auto t = m.TriangleIndices(i);
      if (t[0] > 65535 || t[1] > 65535 || t[2] > 65535) { R.Count("evt.index-truncation"); break; }
      for (uint32_t x : t) v.push_back(uint16_t(x));
    }
    return v;
  }
  void LookLive(const Slot<ink::InProgressStroke>& s, Rng& r) {
    const ink::InProgressStroke& t = *s.t;
    LookFlags(s);
    jclass cls = nullptr;
    (void)cls;
    JObj* in = vm.NewInstance(vm.Class("androidx/ink/strokes/StrokeInput"), 6);
    for (size_t k = 0; k < std::min<size_t>(4, t.InputCount()) && !faulted; ++k) {
      size_t i = r.Below(t.InputCount());
      if (Do("nativeGetAndOverwriteInput", [&] { J(strokes_InProgressStroke_nativeGetAndOverwriteInput)(env(), Thiz(), s.h, vm.Arg(in), jint(i), Cls("androidx/ink/brush/InputToolType")); }))
        Input("nativeGetAndOverwriteInput", in, t.GetInputs().Get(i));
    }
    JObj* acc = vm.NewInstance(vm.Class("androidx/ink/geometry/BoxAccumulator"));
    acc->f = {7, 7, 7, 7};
    if (Do("nativeFillUpdatedRegion", [&] { J(strokes_InProgressStroke_nativeFillUpdatedRegion)(env(), Thiz(), s.h, vm.Arg(acc)); }))
      Env("nativeFillUpdatedRegion", acc, t.GetUpdatedRegion());
    std::vector<JObj*> index_buffers(t.BrushCoatCount(), nullptr);
    uint32_t first = t.BrushCoatCount() ? uint32_t(r.Below(t.BrushCoatCount())) : 0;  // any order of coats
    for (uint32_t k = 0; k < t.BrushCoatCount(); ++k) {
      uint32_t c = (k + first) % t.BrushCoatCount();
      if (faulted) return;
      const ink::MutableMesh& m = t.GetMesh(c);
      if (Do("nativeGetMeshBounds", [&] { J(strokes_InProgressStroke_nativeGetMeshBounds)(env(), Thiz(), s.h, c, vm.Arg(acc)); }))
        Env("nativeGetMeshBounds", acc, t.GetMeshBounds(c));
      Int("nativeGetMeshPartitionCount", 1, [&] { return J(strokes_InProgressStroke_nativeGetMeshPartitionCount)(env(), Thiz(), s.h, c); });
      Int("nativeGetVertexCount", m.VertexCount(), [&] { return J(strokes_InProgressStroke_nativeGetVertexCount)(env(), Thiz(), s.h, c, 0); });
      Int("nativeGetTriangleIndexStride", 2, [&] { return J(strokes_InProgressStroke_nativeGetTriangleIndexStride)(env(), Thiz(), s.h, 0); });
      JObj* buf = nullptr;
      if (Do("nativeGetRawVertexData", [&] { buf = vm.Deref(J(strokes_InProgressStroke_nativeGetRawVertexData)(env(), Thiz(), s.h, c, 0), "result"); }))
        Bytes("nativeGetRawVertexData", buf, m.RawVertexData().data(), m.RawVertexData().size(), m.RawVertexData().empty());
      buf = nullptr;
      if (Do("nativeGetRawTriangleIndexData", [&] { buf = vm.Deref(J(strokes_InProgressStroke_nativeGetRawTriangleIndexData)(env(), Thiz(), s.h, c, 0), "result"); })) {
        index_buffers[c] = buf;
        std::vector<uint16_t> want = Indices16(m);
        Bytes("nativeGetRawTriangleIndexData", buf, want.data(), want.size() * 2, want.empty());
      }
      const auto& outlines = t.GetCoatOutlines(c);
      Int("nativeGetOutlineCount", outlines.size(), [&] { return J(strokes_InProgressStroke_nativeGetOutlineCount)(env(), Thiz(), s.h, c); });
      if (!outlines.empty()) {
        uint32_t o = uint32_t(r.Below(outlines.size()));
        Int("nativeGetOutlineVertexCount", outlines[o].size(), [&] { return J(strokes_InProgressStroke_nativeGetOutlineVertexCount)(env(), Thiz(), s.h, c, o); });
        JObj* v = vm.NewInstance(vm.Class("androidx/ink/geometry/MutableVec"), 2);
        for (int k = 0; k < 3 && !outlines[o].empty() && !faulted; ++k) {
          uint32_t i = uint32_t(r.Below(outlines[o].size()));
          if (Do("nativeFillOutlinePosition", [&] { J(strokes_InProgressStroke_nativeFillOutlinePosition)(env(), Thiz(), s.h, c, o, i, vm.Arg(v)); })) {
            Point p = m.VertexPosition(outlines[o][i]);
            EqF("nativeFillOutlinePosition", v->f[0], p.x);
            EqF("nativeFillOutlinePosition", v->f[1], p.y);
          }
        }
      }
      if (formats.size() < 6 && r.P(0.15)) {
        jlong h = 0;
        if (Do("nativeAllocMeshFormatCopy", [&] { h = J(strokes_InProgressStroke_nativeAllocMeshFormatCopy)(env(), Thiz(), s.h, c, 0); }))
          formats.push_back({h, std::make_unique<MeshFormat>(m.Format())});
      }
    }
    // the buffers handed out for the other coats are still good
    for (uint32_t c = 0; c < t.BrushCoatCount(); ++c) {
      if (!index_buffers[c]) continue;
      std::vector<uint16_t> want = Indices16(t.GetMesh(c));
      Bytes("index buffer of another coat", index_buffers[c], want.data(), want.size() * 2, want.empty());
    }
  }
  void FillInputs(const Slot<ink::InProgressStroke>& s, Rng& r) {
    size_t n = s.t->InputCount(), from = n ? r.Below(n) : 0, to = from + r.Below(n - from + 1);
    if (r.P(0.3)) { from = 0; to = n; }
    // a batch that already holds inputs keeps them, if the new ones may follow them
    size_t at = batches.size();
    if (!batches.empty() && r.P(0.6)) {
      at = r.Below(batches.size());
      StrokeInputBatch probe = *batches[at].t;
      for (size_t i = from; i < to; ++i) if (!probe.Append(s.t->GetInputs().Get(i)).ok()) { at = batches.size(); break; }
    }
    if (at == batches.size() && !NewBatch()) return;
    Slot<StrokeInputBatch>& b = batches[at];
    jint total = 0;
    if (!Do("nativeFillInputs", [&] { total = J(strokes_InProgressStroke_nativeFillInputs)(env(), Thiz(), s.h, b.h, jint(from), jint(to)); })) return;
    Eq("nativeFillInputs", total, n);
    for (size_t i = from; i < to; ++i) (void)b.t->Append(s.t->GetInputs().Get(i));
    LookBatch(b);
    if (to < n && to > from && r.P(0.5)) {  // the rest in a second call
      if (!Do("nativeFillInputs", [&] { total = J(strokes_InProgressStroke_nativeFillInputs)(env(), Thiz(), s.h, b.h, jint(to), jint(n)); })) return;
      Eq("nativeFillInputs", total, n);
      for (size_t i = to; i < n; ++i) (void)b.t->Append(s.t->GetInputs().Get(i));
      LookBatch(b);
    }
  }

  // ---- strokes, shapes, meshes, formats --------------------------------------------------------------------
  void FreeStroke(size_t i) {
    Do("free stroke", [&] { J(strokes_StrokeJni_free)(env(), Cls("java/lang/Object"), strokes[i].h); });
    strokes.erase(strokes.begin() + long(i));
  }
  void FreeShape(size_t i) {
    Do("free shape", [&] { J(geometry_PartitionedMeshNative_free)(env(), Cls("java/lang/Object"), shapes[i].h); });
    shapes.erase(shapes.begin() + long(i));
  }
  void FreeMesh(size_t i) {
    Do("free mesh", [&] { J(geometry_MeshNative_freeNative)(env(), Cls("java/lang/Object"), meshes[i].h); });
    meshes.erase(meshes.begin() + long(i));
  }
  void FreeFormat(size_t i) {
    Do("free format", [&] { J(geometry_MeshFormat_nativeFree)(env(), Thiz(), formats[i].h); });
    formats.erase(formats.begin() + long(i));
  }
  void FreeBrush(size_t i) {
    Do("nativeFreeBrush", [&] { J(brush_Brush_nativeFreeBrush)(env(), Thiz(), brushes[i].h); });
    brushes.erase(brushes.begin() + long(i));
  }
  bool ShapeOf(const Slot<ink::Stroke>& s) {
    jlong h = 0;
    if (!Do("allocShallowCopyOfShape", [&] { h = J(strokes_StrokeJni_allocShallowCopyOfShape)(env(), Cls("java/lang/Object"), s.h); })) return false;
    shapes.push_back({h, std::make_unique<PartitionedMesh>(s.t->GetShape())});
    return true;
  }
  void TakeMeshes(const Slot<PartitionedMesh>& s, uint32_t g, bool look_only, Rng& r) {
    absl::Span<const Mesh> want = s.t->RenderGroupMeshes(g);
    JObj* arr = nullptr;
    if (!Do("getNativeAddressesOfMeshes", [&] {
          arr = vm.Deref(J(geometry_PartitionedMeshNative_getNativeAddressesOfMeshes)(env(), Cls("java/lang/Object"), s.h, g), "result");
        })) return;
    if (!arr) Fail("null-result", "getNativeAddressesOfMeshes returned null");
    Eq("number of meshes", arr->longs.size(), want.size());
    std::vector<Slot<Mesh>> got;
    for (size_t i = 0; i < want.size(); ++i) got.push_back({arr->longs[i], std::make_unique<Mesh>(want[i])});
    for (auto& m : got) {
      bool keep = !look_only && meshes.size() < 8;
      if (!faulted) LookMesh(m, r);
      meshes.push_back(std::move(m));
      if (!keep) FreeMesh(meshes.size() - 1);
    }
  }
  void LookShape(const Slot<PartitionedMesh>& s, Rng& r) {
    const PartitionedMesh& t = *s.t;
    jclass k;
    (void)k;
    auto C = [&] { return Cls("java/lang/Object"); };
    Int("getRenderGroupCount", t.RenderGroupCount(), [&] { return J(geometry_PartitionedMeshNative_getRenderGroupCount)(env(), C(), s.h); });
    for (uint32_t g = 0; g < t.RenderGroupCount() && !faulted; ++g) {
      Int("getOutlineCount", t.OutlineCount(g), [&] { return J(geometry_PartitionedMeshNative_getOutlineCount)(env(), C(), s.h, g); });
      for (uint32_t o = 0; o < t.OutlineCount(g) && !faulted; ++o) {
        auto ol = t.Outline(g, o);
        Int("getOutlineVertexCount", ol.size(), [&] { return J(geometry_PartitionedMeshNative_getOutlineVertexCount)(env(), C(), s.h, g, o); });
        JObj* a = vm.NewInts({-1, -1});
        for (int n = 0; n < 3 && !ol.empty() && !faulted; ++n) {
          uint32_t i = uint32_t(n == 0 ? 0 : n == 1 ? ol.size() - 1 : r.Below(ol.size()));
          if (Do("fillOutlineMeshIndexAndMeshVertexIndex", [&] {
                J(geometry_PartitionedMeshNative_fillOutlineMeshIndexAndMeshVertexIndex)(env(), C(), s.h, g, o, i, static_cast<jintArray>(vm.Arg(a)));
              })) {
            Eq("outline mesh index", a->ints[0], ol[i].mesh_index);
            Eq("outline vertex index", a->ints[1], ol[i].vertex_index);
          }
        }
        if (o > 6) break;
      }
      TakeMeshes(s, g, !r.P(0.2), r);
      jlong h = 0;
      if (!faulted && Do("getRenderGroupFormat", [&] { h = J(geometry_PartitionedMeshNative_getRenderGroupFormat)(env(), C(), s.h, g); })) {
        formats.push_back({h, std::make_unique<MeshFormat>(t.RenderGroupFormat(g))});
        if (formats.size() > 6) FreeFormat(0);
      }
    }
    Int("isSpatialIndexInitialized", t.IsSpatialIndexInitialized(), [&] { return jint(J(geometry_PartitionedMeshNative_isSpatialIndexInitialized)(env(), C(), s.h)); });
  }
  void LookMesh(const Slot<Mesh>& s, Rng& r) {
    const Mesh& t = *s.t;
    auto C = [&] { return Cls("java/lang/Object"); };
    Int("getVertexStride", t.VertexStride(), [&] { return J(geometry_MeshNative_getVertexStride)(env(), C(), s.h); });
    Int("getVertexCount", t.VertexCount(), [&] { return J(geometry_MeshNative_getVertexCount)(env(), C(), s.h); });
    Int("getTriangleCount", t.TriangleCount(), [&] { return J(geometry_MeshNative_getTriangleCount)(env(), C(), s.h); });
    jint na = Int("getAttributeCount", t.Format().Attributes().size(), [&] { return J(geometry_MeshNative_getAttributeCount)(env(), C(), s.h); });
    JObj* buf = nullptr;
    if (Do("createRawVertexBuffer", [&] { buf = vm.Deref(J(geometry_MeshNative_createRawVertexBuffer)(env(), C(), s.h), "result"); }))
      Bytes("createRawVertexBuffer", buf, t.RawVertexData().data(), t.RawVertexData().size(), t.RawVertexData().empty());
    buf = nullptr;
    if (Do("createRawTriangleIndexBuffer", [&] { buf = vm.Deref(J(geometry_MeshNative_createRawTriangleIndexBuffer)(env(), C(), s.h), "result"); }))
      Bytes("createRawTriangleIndexBuffer", buf, t.RawIndexData().data(), t.RawIndexData().size(), t.RawIndexData().empty());
    JObj* acc = vm.NewInstance(vm.Class("androidx/ink/geometry/BoxAccumulator"));
    acc->f = {1, 2, 3, 4};
    if (Do("fillBounds", [&] { J(geometry_MeshNative_fillBounds)(env(), C(), s.h, vm.Arg(acc)); })) Env("fillBounds", acc, t.Bounds());
    for (jint a = 0; a < na && !faulted; ++a) {
      JObj *off = vm.NewFloats({-9, -9, -9, -9}), *scale = vm.NewFloats({-9, -9, -9, -9});
      jint n = 0;
      if (!Do("fillAttributeUnpackingParams", [&] {
            n = J(geometry_MeshNative_fillAttributeUnpackingParams)(env(), C(), s.h, a, static_cast<jfloatArray>(vm.Arg(off)), static_cast<jfloatArray>(vm.Arg(scale)));
          })) continue;
      auto want = t.VertexAttributeUnpackingParams(a).components.Values();
      Eq("fillAttributeUnpackingParams", n, want.size());
      for (size_t i = 0; i < want.size(); ++i) {
        EqF("unpacking offset", off->floats[i], want[i].offset);
        EqF("unpacking scale", scale->floats[i], want[i].scale);
      }
    }
    JObj* v = vm.NewInstance(vm.Class("androidx/ink/geometry/MutableVec"), 2);
    for (int k = 0; k < 3 && t.VertexCount() && !faulted; ++k) {
      uint32_t i = uint32_t(r.Below(t.VertexCount()));
      if (Do("fillPosition", [&] { J(geometry_MeshNative_fillPosition)(env(), C(), s.h, i, vm.Arg(v)); })) {
        EqF("fillPosition", v->f[0], t.VertexPosition(i).x);
        EqF("fillPosition", v->f[1], t.VertexPosition(i).y);
      }
    }
    if (formats.size() < 6 && !faulted && r.P(0.2)) {
      jlong h = 0;
      if (Do("allocCopyOfFormat", [&] { h = J(geometry_MeshNative_allocCopyOfFormat)(env(), C(), s.h); }))
        formats.push_back({h, std::make_unique<MeshFormat>(t.Format())});
    }
  }
  void LookFormat(const Slot<MeshFormat>& s, Rng& r) {
    const auto& o = formats[r.Below(formats.size())];
    Int("nativeIsPackedEquivalent", MeshFormat::IsPackedEquivalent(*s.t, *o.t), [&] { return jint(J(geometry_MeshFormat_nativeIsPackedEquivalent)(env(), Thiz(), s.h, o.h)); });
    Int("nativeIsUnpackedEquivalent", MeshFormat::IsUnpackedEquivalent(*s.t, *o.t), [&] { return jint(J(geometry_MeshFormat_nativeIsUnpackedEquivalent)(env(), Thiz(), s.h, o.h)); });
    bool packed = r.P(0.5);
    auto spec = packed ? MeshSpecificationData::CreateForStroke(*s.t) : MeshSpecificationData::CreateForInProgressStroke(*s.t);
    auto C = [&] { return Cls("java/lang/Object"); };
    Int("nativeIsMeshFormatRenderable", spec.ok(), [&] {
      return jint(J(rendering_android_canvas_internal_CanvasMeshRenderer_nativeIsMeshFormatRenderable)(env(), C(), s.h, packed));
    });
    if (faulted) return;
    using D = MeshSpecificationData;
    JClass* str = vm.Class("java/lang/String");
    auto ints = [&](size_t n) { return vm.NewInts(std::vector<jint>(n, -7)); };
    JObj *at = ints(D::kMaxAttributes), *ao = ints(D::kMaxAttributes), *an = vm.NewObjects(str, D::kMaxAttributes), *vs = ints(1),
         *vt = ints(D::kMaxVaryings), *vn = vm.NewObjects(str, D::kMaxVaryings), *ui = ints(D::kMaxUniforms), *uu = ints(D::kMaxUniforms),
         *un = vm.NewObjects(str, D::kMaxUniforms), *sv = vm.NewObjects(str, 1), *sf = vm.NewObjects(str, 1);
    auto I = [&](JObj* x) { return static_cast<jintArray>(vm.Arg(x)); };
    auto O = [&](JObj* x) { return static_cast<jobjectArray>(vm.Arg(x)); };
    absl::Status st = spec.status();
    if (!Do("fillSkiaMeshSpecData", &st, [&] {
          J(rendering_android_canvas_internal_CanvasMeshRenderer_fillSkiaMeshSpecData)(env(), C(), s.h, packed, I(at), I(ao), O(an), I(vs), I(vt), O(vn), I(ui), I(uu), O(un), O(sv), O(sf));
        })) return;
    auto text = [](JObj* o) { return o ? o->s : std::string("(null)"); };
    for (int i = 0; i < D::kMaxAttributes; ++i) {
      bool in = i < int(spec->attributes.Size());
      Eq("attribute type", at->ints[i], in ? int(spec->attributes[i].type) : -1);
      if (in) Eq("attribute offset", ao->ints[i], spec->attributes[i].offset);
      if (in) Eq("attribute name", text(an->objs[i]), std::string(spec->attributes[i].name));
    }
    Eq("vertex stride", vs->ints[0], spec->vertex_stride);
    for (int i = 0; i < D::kMaxVaryings; ++i) {
      bool in = i < int(spec->varyings.Size());
      Eq("varying type", vt->ints[i], in ? int(spec->varyings[i].type) : -1);
      if (in) Eq("varying name", text(vn->objs[i]), std::string(spec->varyings[i].name));
    }
    for (int i = 0; i < D::kMaxUniforms; ++i) {
      bool in = i < int(spec->uniforms.Size());
      Eq("uniform id", ui->ints[i], in ? int(spec->uniforms[i].id) : -1);
      Eq("uniform unpacking index", uu->ints[i], in ? spec->uniforms[i].unpacking_attribute_index.value_or(-1) : -1);
      if (in) Eq("uniform name", text(un->objs[i]), std::string(D::GetUniformName(spec->uniforms[i].id)));
    }
    Eq("vertex shader", text(sv->objs[0]), spec->vertex_shader_source);
    Eq("fragment shader", text(sf->objs[0]), spec->fragment_shader_source);
  }

  // ---- geometry ----------------------------------------------------------------------------------------------
  struct Shapes {  // reads the same floats the bridge is given
    const std::vector<jfloat>& f;
    size_t i = 0;
    float n() { return f.at(i++); }
    Point pt() { float x = n(), y = n(); return {x, y}; }
    Segment seg() { Point a = pt(), b = pt(); return {a, b}; }
    Triangle tri() { Point a = pt(), b = pt(), c = pt(); return {a, b, c}; }
    Rect box() { Point a = pt(), b = pt(); return Rect::FromTwoPoints(a, b); }
    Quad quad() { Point c = pt(); float w = n(), h = n(), r = n(), s = n(); return Quad::FromCenterDimensionsRotationAndShear(c, w, h, Angle::Radians(r), s); }
    AffineTransform xf() { float a = n(), b = n(), c = n(), d = n(), e = n(), g = n(); return AffineTransform(a, b, c, d, e, g); }
  };
  static void GenFloats(Rng& r, const char* layout, std::vector<jfloat>& f, const std::vector<Point>& near) {
    auto coord = [&]() { return float(r.P(0.5) ? r.Int(-4, 4) : r.Uni(-5, 5)); };
    auto point = [&]() {
      if (!near.empty() && r.P(0.7)) {
        Point p = r.Pick(near);
        f.push_back(p.x + float(r.P(0.4) ? 0 : r.Uni(-3, 3)));
        f.push_back(p.y + float(r.P(0.4) ? 0 : r.Uni(-3, 3)));
      } else { f.push_back(coord()); f.push_back(coord()); }
    };
    auto dim = [&]() { return float(r.P(0.3) ? r.Int(0, 4) : r.LogUni(0.05, 30)); };
    for (; *layout; ++layout) switch (*layout) {
      case 'V': point(); break;
      case 'S': case 'B': point(); point(); break;
      case 'T': point(); point(); point(); break;
      case 'P':
        point();
        f.push_back(dim() * (r.P(0.1) ? -1 : 1));
        f.push_back(dim());
        f.push_back(float(r.P(0.3) ? r.Int(-4, 4) * 0.78539816f : r.Uni(-7, 7)));
        f.push_back(float(r.P(0.5) ? 0 : r.Uni(-2, 2)));
        break;
      case 'X': {
        if (r.P(0.4)) { for (float x : {1.f, 0.f, 0.f, 0.f, 1.f, 0.f}) f.push_back(x); break; }
        double s = r.LogUni(0.2, 5), q = r.LogUni(0.3, 3), a = r.Uni(-3.2, 3.2);
        f.push_back(float(s * cos(a))); f.push_back(float(-s * q * sin(a))); f.push_back(float(r.Uni(-5, 5)));
        f.push_back(float(s * sin(a))); f.push_back(float(s * q * cos(a))); f.push_back(float(r.Uni(-5, 5)));
        break;
      }
      case 't': f.push_back(float(r.P(0.2) ? r.Below(2) : r.U())); break;
      case 'A': f.push_back(float(r.P(0.2) ? r.Int(-20, 20) * 3.14159265f : r.Uni(-40, 40))); break;
    }
  }
  // Calls the function over the bridge and compares the plain number it returns.
  template <class R2, class C, class... A> void Num(const char* name, R2 (*fn)(JNIEnv*, C, A...), Args a, float want) {
    float got = 0;
    if (Do(name, [&] { got = float(Spread(fn, env(), Thiz(), a)); })) {
      R.Check();
      if (!Same(got, want)) Fail("differs", "%s: %.9g over the bridge, %.9g natively", name, got, want);
    }
  }
  void Geo(uint64_t which, uint64_t seed) {
    Rng r(seed);
    Args a;
    auto gen = [&](const char* layout) { GenFloats(r, layout, a.f, {}); return Shapes{a.f}; };
#define PAIR(N, L, A1, B1)                                                                   \
  {                                                                                            \
    auto p = gen(L);                                                                           \
    auto x = p.A1();                                                                           \
    auto y = p.B1();                                                                           \
    Num(#N, J(geometry_Intersection_native##N##Intersects), a, ink::Intersects(x, y));          \
    return;                                                                                    \
  }
    switch (which % 36) {
      case 0: PAIR(VecSegment, "VS", pt, seg)
      case 1: PAIR(VecTriangle, "VT", pt, tri)
      case 2: PAIR(VecBox, "VB", pt, box)
      case 3: PAIR(VecParallelogram, "VP", pt, quad)
      case 4: PAIR(SegmentSegment, "SS", seg, seg)
      case 5: PAIR(SegmentTriangle, "ST", seg, tri)
      case 6: PAIR(SegmentBox, "SB", seg, box)
      case 7: PAIR(SegmentParallelogram, "SP", seg, quad)
      case 8: PAIR(TriangleTriangle, "TT", tri, tri)
      case 9: PAIR(TriangleBox, "TB", tri, box)
      case 10: PAIR(TriangleParallelogram, "TP", tri, quad)
      case 11: PAIR(BoxBox, "BB", box, box)
      case 12: PAIR(BoxParallelogram, "BP", box, quad)
      case 13: PAIR(ParallelogramParallelogram, "PP", quad, quad)
      case 14: { auto p = gen("A"); Num("nativeNormalized", J(geometry_Angle_nativeNormalized), a, Angle::Radians(p.n()).Normalized().ValueInRadians()); return; }
      case 15: { auto p = gen("A"); Num("nativeNormalizedAboutZero", J(geometry_Angle_nativeNormalizedAboutZero), a, Angle::Radians(p.n()).NormalizedAboutZero().ValueInRadians()); return; }
      case 16: { auto p = gen("TV"); auto t = p.tri(); auto q = p.pt(); Num("triangle contains", J(geometry_TriangleNative_nativeContains), a, t.Contains(q)); return; }
      case 17: { auto p = gen("BV"); auto t = p.box(); auto q = p.pt(); Num("box contains point", J(geometry_internal_BoxNative_containsPoint), a, t.Contains(q)); return; }
      case 18: { auto p = gen("BB"); auto t = p.box(); auto q = p.box(); Num("box contains box", J(geometry_internal_BoxNative_containsBox), a, t.Contains(q)); return; }
      case 19: { auto p = gen("PV"); auto t = p.quad(); auto q = p.pt(); Num("parallelogram contains", J(geometry_internal_ParallelogramNative_contains), a, t.Contains(q)); return; }
      case 20: { auto p = gen("VV"); auto u = p.pt(), v = p.pt(); Num("absoluteAngleBetween", J(geometry_internal_VecNative_absoluteAngleBetween), a, Vec::AbsoluteAngleBetween({u.x, u.y}, {v.x, v.y}).ValueInRadians()); return; }
      case 21: { auto p = gen("VV"); auto u = p.pt(), v = p.pt(); Num("signedAngleBetween", J(geometry_internal_VecNative_signedAngleBetween), a, Vec::SignedAngleBetween({u.x, u.y}, {v.x, v.y}).ValueInRadians()); return; }
      default: break;
    }
    JClass* vecc = vm.Class("androidx/ink/geometry/ImmutableVec");
    auto mvec = [&] { return vm.NewInstance(vm.Class("androidx/ink/geometry/MutableVec"), 2); };
    auto vec = [&](const char* what, JObj* o, float x, float y) {
      if (!o) Fail("null-result", "%s returned null", what);
      EqF(what, o->f.at(0), x);
      EqF(what, o->f.at(1), y);
    };
    JObj* out = nullptr;
    switch (which % 36) {
      case 22: {
        auto p = gen("V");
        Vec u = Vec{a.f[0], a.f[1]}.AsUnitVec();
        if (Do("unitVec", [&] { a.o = {vm.Arg(vecc)}; out = vm.Deref(Spread(J(geometry_internal_VecNative_unitVec), env(), Thiz(), a), "r"); })) vec("unitVec", out, u.x, u.y);
        return;
      }
      case 23: {
        auto p = gen("V");
        Vec u = Vec{a.f[0], a.f[1]}.AsUnitVec();
        out = mvec();
        if (Do("populateUnitVec", [&] { a.o = {vm.Arg(out)}; Spread(J(geometry_internal_VecNative_populateUnitVec), env(), Thiz(), a); })) vec("populateUnitVec", out, u.x, u.y);
        return;
      }
      case 24: {
        auto p = gen("B");
        Point c = p.box().Center();
        if (Do("createCenter", [&] { a.o = {vm.Arg(vecc)}; out = vm.Deref(Spread(J(geometry_internal_BoxNative_createCenter), env(), Thiz(), a), "r"); })) vec("createCenter", out, c.x, c.y);
        return;
      }
      case 25: {
        auto p = gen("B");
        Point c = p.box().Center();
        out = mvec();
        if (Do("populateCenter", [&] { a.o = {vm.Arg(out)}; Spread(J(geometry_internal_BoxNative_populateCenter), env(), Thiz(), a); })) vec("populateCenter", out, c.x, c.y);
        return;
      }
      case 26: case 27: {
        auto p = gen("P");
        Rect b = *ink::Envelope(p.quad()).AsRect();
        if (which % 36 == 26) {
          if (!Do("createBoundingBox", [&] { a.o = {vm.Arg(vm.Class("androidx/ink/geometry/ImmutableBox")), vm.Arg(vecc)}; out = vm.Deref(Spread(J(geometry_internal_ParallelogramNative_createBoundingBox), env(), Thiz(), a), "r"); })) return;
        } else {
          out = vm.NewInstance(vm.Class("androidx/ink/geometry/MutableBox"), 4);
          if (!Do("populateBoundingBox", [&] { a.o = {vm.Arg(out)}; Spread(J(geometry_internal_ParallelogramNative_populateBoundingBox), env(), Thiz(), a); })) return;
        }
        if (!out) Fail("null-result", "createBoundingBox returned null");
        EqF("bounding box", out->f[0], b.XMin());
        EqF("bounding box", out->f[1], b.YMin());
        EqF("bounding box", out->f[2], b.XMax());
        EqF("bounding box", out->f[3], b.YMax());
        return;
      }
      case 28: case 29: {
        auto p = gen("P");
        auto ax = p.quad().SemiAxes();
        JObj *u, *v;
        if (which % 36 == 28) {
          if (!Do("createSemiAxes", [&] { a.o = {vm.Arg(vecc)}; out = vm.Deref(Spread(J(geometry_internal_ParallelogramNative_createSemiAxes), env(), Thiz(), a), "r"); })) return;
          if (!out || out->objs.size() != 2) Fail("null-result", "createSemiAxes returned no pair");
          u = out->objs[0];
          v = out->objs[1];
        } else {
          u = mvec();
          v = mvec();
          if (!Do("populateSemiAxes", [&] { a.o = {vm.Arg(u), vm.Arg(v)}; Spread(J(geometry_internal_ParallelogramNative_populateSemiAxes), env(), Thiz(), a); })) return;
        }
        vec("semi axes", u, ax.first.x, ax.first.y);
        vec("semi axes", v, ax.second.x, ax.second.y);
        return;
      }
      case 30: case 31: {
        auto p = gen("P");
        auto co = p.quad().Corners();
        JObj* v[4];
        if (which % 36 == 30) {
          if (!Do("createCorners", [&] { a.o = {vm.Arg(vecc)}; out = vm.Deref(Spread(J(geometry_internal_ParallelogramNative_createCorners), env(), Thiz(), a), "r"); })) return;
          if (!out || out->objs.size() != 4) Fail("null-result", "createCorners returned no corners");
          for (int i = 0; i < 4; ++i) v[i] = out->objs[i];
        } else {
          for (auto& x : v) x = mvec();
          if (!Do("populateCorners", [&] { a.o = {vm.Arg(v[0]), vm.Arg(v[1]), vm.Arg(v[2]), vm.Arg(v[3])}; Spread(J(geometry_internal_ParallelogramNative_populateCorners), env(), Thiz(), a); })) return;
        }
        for (int i = 0; i < 4; ++i) vec("corners", v[i], co[i].x, co[i].y);
        return;
      }
      case 32: case 33: {
        auto p = gen("XP");
        AffineTransform x = p.xf();
        Quad q = x.Apply(p.quad());
        if (which % 36 == 32) {
          if (!Do("createFromApplyParallelogram", [&] { a.o = {vm.Arg(vm.Class("androidx/ink/geometry/ImmutableParallelogram")), vm.Arg(vecc)}; out = vm.Deref(Spread(J(geometry_internal_AffineTransformNative_createFromApplyParallelogram), env(), Thiz(), a), "r"); })) return;
        } else {
          out = vm.NewInstance(vm.Class("androidx/ink/geometry/MutableParallelogram"), 6);
          if (!Do("populateFromApplyParallelogram", [&] { a.o = {vm.Arg(out)}; Spread(J(geometry_internal_AffineTransformNative_populateFromApplyParallelogram), env(), Thiz(), a); })) return;
        }
        if (!out) Fail("null-result", "createFromApplyParallelogram returned null");
        float w[] = {q.Center().x, q.Center().y, q.Width(), q.Height(), q.Rotation().ValueInRadians(), q.ShearFactor()};
        for (int i = 0; i < 6; ++i) EqF("transformed parallelogram", out->f[i], w[i]);
        return;
      }
      default: {  // accumulators
        int k = int(r.Below(5));
        bool has = r.P(0.7), box = r.P(0.8);
        a.z = {jboolean(has)};
        if (k == 4) a.z.push_back(box);
        const char* layouts[] = {"BS", "BT", "BP", "BV", "BB"};
        auto p = gen(layouts[k]);
        Rect b = p.box();
        ink::Envelope e = has ? ink::Envelope(b) : ink::Envelope();
        out = vm.NewInstance(vm.Class("androidx/ink/geometry/BoxAccumulator"));
        if (has) out->f = {b.XMin(), b.YMin(), b.XMax(), b.YMax()};
        if (k == 0) e.Add(p.seg());
        if (k == 1) e.Add(p.tri());
        if (k == 2) e.Add(p.quad());
        if (k == 3) e.Add(p.pt());
        if (k == 4 && box) e.Add(p.box());
        std::vector<float> before = out->f;
        bool ok = Do("BoxAccumulator add", [&] {
          a.o = {vm.Arg(out)};
          if (k == 0) Spread(J(geometry_BoxAccumulatorNative_nativeAddSegment), env(), Thiz(), a);
          if (k == 1) Spread(J(geometry_BoxAccumulatorNative_nativeAddTriangle), env(), Thiz(), a);
          if (k == 2) Spread(J(geometry_BoxAccumulatorNative_nativeAddParallelogram), env(), Thiz(), a);
          if (k == 3) Spread(J(geometry_BoxAccumulatorNative_nativeAddPoint), env(), Thiz(), a);
          if (k == 4) Spread(J(geometry_BoxAccumulatorNative_nativeAddOptionalBox), env(), Thiz(), a);
        });
        if (ok) Env("BoxAccumulator add", out, e);
        else if (out->f != before) Fail("output-changed", "a failed BoxAccumulator call changed its output");
      }
    }
#undef PAIR
  }
  void Query(uint64_t which, uint64_t seed) {
    if (shapes.empty()) return;
    Rng r(seed);
    const auto& s = shapes[r.Below(shapes.size())];
    const auto& o = shapes[r.Below(shapes.size())];
    const PartitionedMesh& t = *s.t;
    std::vector<Point> near;
    for (const Mesh& m : t.Meshes())
      for (int k = 0; k < 4 && m.VertexCount(); ++k) near.push_back(m.VertexPosition(uint32_t(r.Below(m.VertexCount()))));
    Args a;
    auto gen = [&](const char* l) { GenFloats(r, l, a.f, near); return Shapes{a.f}; };
    a.j = {s.h};
#define ISX(N, L, A1) { auto p = gen(L "X"); auto x = p.A1(); auto m = p.xf(); Num(#N, J(geometry_Intersection_nativeMesh##N##Intersects), a, ink::Intersects(x, t, m)); return; }
#define COV(N, L, A1) { auto p = gen(L "X"); auto x = p.A1(); auto m = p.xf(); Num(#N, J(geometry_PartitionedMeshNative_partitionedMesh##N##Coverage), a, t.Coverage(x, m)); return; }
#define COG(N, L, A1) { auto p = gen(L "tX"); auto x = p.A1(); float th = p.n(); auto m = p.xf(); Num(#N, J(geometry_PartitionedMeshNative_partitionedMesh##N##CoverageIsGreaterThan), a, t.CoverageIsGreaterThan(x, th, m)); return; }
    switch (which % 15) {
      case 0: ISX(Vec, "V", pt)
      case 1: ISX(Segment, "S", seg)
      case 2: ISX(Triangle, "T", tri)
      case 3: ISX(Box, "B", box)
      case 4: ISX(Parallelogram, "P", quad)
      case 5: {
        a.j.push_back(o.h);
        auto p = gen("XX");
        auto m = p.xf(), n = p.xf();
        Num("mesh intersects mesh", J(geometry_Intersection_nativeMeshPartitionedMeshIntersects), a, ink::Intersects(t, m, *o.t, n));
        return;
      }
      case 6: COV(Triangle, "T", tri)
      case 7: COV(Box, "B", box)
      case 8: COV(Parallelogram, "P", quad)
      case 9: { a.j.push_back(o.h); auto p = gen("X"); auto m = p.xf(); Num("shape coverage", J(geometry_PartitionedMeshNative_partitionedMeshPartitionedMeshCoverage), a, t.Coverage(*o.t, m)); return; }
      case 10: COG(Triangle, "T", tri)
      case 11: COG(Box, "B", box)
      case 12: COG(Parallelogram, "P", quad)
      case 13: { a.j.push_back(o.h); auto p = gen("tX"); float th = p.n(); auto m = p.xf(); Num("shape coverage above", J(geometry_PartitionedMeshNative_partitionedMeshPartitionedMeshCoverageIsGreaterThan), a, t.CoverageIsGreaterThan(*o.t, th, m)); return; }
      default:
        if (Do("initializeSpatialIndex", [&] { J(geometry_PartitionedMeshNative_initializeSpatialIndex)(env(), Cls("java/lang/Object"), s.h); })) s.t->InitializeSpatialIndex();
    }
  }

  // ---- everything ------------------------------------------------------------------------------------------------
  void LookAll(Rng& r) {
    vm.BeginOp(0);
    faulted = false;
    for (auto& b : brushes) LookBrush(b);
    for (auto& b : batches) LookBatch(b);
    for (auto& l : lives) LookLive(l, r);
    for (auto& s : shapes) LookShape(s, r);
    for (size_t i = 0; i < formats.size(); ++i) LookFormat(formats[i], r);
    for (auto& m : meshes) LookMesh(m, r);
  }
  void FreeAll(Rng& r) {
    vm.BeginOp(0);
    while (true) {  // in any order: nothing depends on anything else staying alive
      std::vector<int> kinds;
      if (!brushes.empty()) kinds.push_back(0);
      if (!lives.empty()) kinds.push_back(1);
      if (!batches.empty()) kinds.push_back(2);
      if (!strokes.empty()) kinds.push_back(3);
      if (!shapes.empty()) kinds.push_back(4);
      if (!meshes.empty()) kinds.push_back(5);
      if (!formats.empty()) kinds.push_back(6);
      if (kinds.empty()) return;
      switch (r.Pick(kinds)) {
        case 0: FreeBrush(r.Below(brushes.size())); break;
        case 1: FreeLive(r.Below(lives.size())); break;
        case 2: FreeBatch(r.Below(batches.size())); break;
        case 3: FreeStroke(r.Below(strokes.size())); break;
        case 4: FreeShape(r.Below(shapes.size())); break;
        case 5: FreeMesh(r.Below(meshes.size())); break;
        case 6: FreeFormat(r.Below(formats.size())); break;
      }
    }
  }
};

// About how many particles a stroke leaves: histories that leave thousands only cost time.
double Particles(const Brush& b, std::initializer_list<const StrokeInputBatch*> parts) {
  double len = 0, t0 = 1e9, t1 = -1e9;
  bool any = false;
  Point at{0, 0};
  for (const StrokeInputBatch* x : parts)
    for (size_t i = 0; i < x->Size(); ++i) {
      ink::StrokeInput in = x->Get(i);
      if (any) len += std::hypot(in.position.x - at.x, in.position.y - at.y);
      any = true;
      at = in.position;
      t0 = std::min<double>(t0, in.elapsed_time.ToSeconds());
      t1 = std::max<double>(t1, in.elapsed_time.ToSeconds());
    }
  double n = 0;
  for (const BrushCoat& c : b.GetCoats())
    for (const BrushTip& t : c.tips) {
      if (t.particle_gap_distance_scale > 0) n = std::max(n, len / (t.particle_gap_distance_scale * b.GetSize()));
      if (t.particle_gap_duration > Duration32::Zero() && any) n = std::max(n, (t1 - t0) / t.particle_gap_duration.ToSeconds());
    }
  return n;
}
constexpr double kMaxParticles = 80;

jlong Ms(double seconds) { return llround(std::min(std::max(seconds, -1e6), 1e6) * 1000); }

Plan GenBridge(uint64_t seed, const char* prop, bool faults) {
  SessionProfile f;
  f.sessions_max = 2;
  f.n_max = 14;
  f.p_startself = 0;
  f.fit_all = true;
  f.brush.max_coats = 3;
  Rng r(seed ^ 0x5eed);
  Plan p = GenSession(seed, prop, f);
  std::vector<Op> out;
  size_t n_brushes = 0;
  for (const Op& op : p.ops) n_brushes += op.kind == "brush";
  auto extra = [&]() {
    double pick = r.U(), s = double(r.Below(1u << 30)), k = double(r.Below(1000));
    if (pick < 0.16) return Op{"bat", {k, s}, {}};
    if (pick < 0.30) return Op{"look", {k, s}, {}};
    if (pick < 0.36) return Op{"fill", {k, s}, {}};
    if (pick < 0.50) return Op{"stk", {k, s}, {}};
    if (pick < 0.60) return Op{"shp", {k, s}, {}};
    if (pick < 0.68) return Op{"msh", {k, s}, {}};
    if (pick < 0.74) return Op{"fmt", {k, s}, {}};
    if (pick < 0.86) return Op{"geo", {k, s}, {}};
    if (pick < 0.96) return Op{"qry", {k, s}, {}};
    return Op{"bld", {double(r.Below(n_brushes + 1)), s}, {}};
  };
  bool first = true;
  for (const Op& op : p.ops) {
    if (op.kind == "mv" || op.kind == "snap" || op.kind == "startself") continue;
    if (op.kind != "brush" && first) {  // every brush is built once up front
      first = false;
      for (size_t i = 0; i < n_brushes; ++i) {
        if (faults && r.P(0.2)) out.push_back(Op{"vmf", {double(r.P(0.6) ? r.Int(1, 6) : r.Int(1, 40)), double(r.P(0.85))}, {}});
        out.push_back(Op{"bld", {double(i), double(r.Below(1u << 30))}, {}});
      }
    }
    if (op.kind != "brush")
      while (r.P(0.45)) {
        if (faults && r.P(0.35)) out.push_back(Op{"vmf", {double(r.P(0.5) ? r.Int(1, 3) : r.Int(1, 25)), double(r.P(0.85))}, {}});
        out.push_back(extra());
      }
    if (faults && op.kind != "brush" && r.P(0.1)) out.push_back(Op{"vmf", {double(r.Int(1, 3)), double(r.P(0.85))}, {}});
    out.push_back(op);
    if (op.kind == "upd" && r.P(0.25)) out.push_back(Op{"look", {0, double(r.Below(1u << 30))}, {}});
  }
  p.ops = out;
  return p;
}
Plan GenJ01(uint64_t seed) { return GenBridge(seed, "J01", true); }
Plan GenJ02(uint64_t seed) { return GenBridge(seed, "J02", false); }

void RunWorld(const Script& sc, Vm& vm) {
  World w;
  vm.BeginOp(0);
  w.NewLive();
  Rng last(99);
  for (size_t i = 0; i < sc.ops.size(); ++i) {
    const Op& op = *sc.ops[i];
    R.step = int(i);
    uint64_t k = uint64_t(op.A(0)), seed = uint64_t(op.A(1));
    Rng r(seed * 77 + k);
    if (op.kind == "vmf") { w.arm = int(op.A(0)); w.arm_soft = op.A(1) != 0; continue; }
    ++R.st.steps;
    Trace("%s %g %g", op.kind.c_str(), op.A(0), op.A(1));
    R.Count(("op." + op.kind).c_str());
    vm.BeginOp(w.arm);
    vm.soft_faults = w.arm_soft;
    w.arm = 0;
    w.faulted = w.errored = false;
    auto pick = [&](auto& v) -> auto& { return v[size_t(k) % v.size()]; };
    Slot<ink::InProgressStroke>& live = w.lives.at(0);
    JNIEnv* e = w.env();
    if (op.kind == "bld") {
      if (!sc.brushes.empty()) w.MakeBrush(sc.brushes[size_t(k) % sc.brushes.size()], seed);
      if (w.brushes.size() > 5) w.FreeBrush(r.Below(w.brushes.size()));
    } else if (op.kind == "start") {
      if (w.brushes.empty()) continue;
      auto& b = pick(w.brushes);
      if (w.Do("nativeStart", [&] { J(strokes_InProgressStroke_nativeStart)(e, w.Thiz(), live.h, b.h); })) live.t->Start(*b.t);
    } else if (op.kind == "clr") {
      if (w.Do("nativeClear", [&] { J(strokes_InProgressStroke_nativeClear)(e, w.Thiz(), live.h); })) live.t->Clear();
    } else if (op.kind == "fin") {
      if (w.Do("nativeFinishInput", [&] { J(strokes_InProgressStroke_nativeFinishInput)(e, w.Thiz(), live.h); })) live.t->FinishInputs();
    } else if (op.kind == "rst") {
      if (w.Do("nativeResetUpdatedRegion", [&] { J(strokes_InProgressStroke_nativeResetUpdatedRegion)(e, w.Thiz(), live.h); })) live.t->ResetUpdatedRegion();
    } else if (op.kind == "upd") {
      jlong ms = Ms(op.A(0));
      absl::Status st = live.t->UpdateShape(Duration32::Millis(ms));
      w.DoStr("nativeUpdateShape", st, [&] { return J(strokes_InProgressStroke_nativeUpdateShape)(e, w.Thiz(), live.h, ms); });
      R.st.sim_seconds += 0.01;
    } else if (op.kind == "enq") {
      std::vector<In> two[2];
      Model::Split(op, &two[0], &two[1]);
      if (!w.NewBatch() || !w.NewBatch()) continue;
      size_t at = w.batches.size() - 2;
      for (int q = 0; q < 2; ++q)
        for (const In& in : two[q]) w.AppendSingle(w.batches[at + q], in, Ms(in.t));
      auto &br = w.batches[at], &bp = w.batches[at + 1];
      if (const Brush* b = live.t->GetBrush(); b && Particles(*b, {&live.t->GetInputs(), br.t.get(), bp.t.get()}) > kMaxParticles) continue;
      absl::Status st = live.t->EnqueueInputs(*br.t, *bp.t);
      w.DoStr("nativeEnqueueInputs", st, [&] { return J(strokes_InProgressStroke_nativeEnqueueInputs)(e, w.Thiz(), live.h, br.h, bp.h); });
      if (st.ok()) R.Nontrivial();
      // the managed side reuses or drops its batches
      if (w.batches.size() > 6 || op.g.size() % 2) { w.FreeBatch(at + 1); w.FreeBatch(at); }
    } else if (op.kind == "bat") {
      int what = int(r.Below(7));
      if (w.batches.empty() || (what == 0 && w.batches.size() < 8)) w.NewBatch();
      if (w.batches.empty()) continue;
      auto& b = pick(w.batches);
      if (what == 1 || what == 2) {
        In in = b.t->IsEmpty() ? In{} : FromInk(b.t->Get(b.t->Size() - 1));
        in.x += float(r.Uni(-5, 5));
        if (r.P(0.2)) in.tool = int(r.Below(4));
        if (r.P(0.15)) in.p = r.P(0.5) ? -1 : float(r.Uni(-0.2, 1.2));
        if (r.P(0.15)) in.tilt = r.P(0.5) ? -1 : float(r.Uni(-0.2, 1.7));
        if (r.P(0.15)) in.ori = r.P(0.5) ? -1 : float(r.Uni(-0.2, 6.2));
        if (r.P(0.1)) in.unit = float(r.Below(3));
        if (r.P(0.05)) in.y = r.P(0.5) ? NAN : INFINITY;
        jlong ms = Ms(in.t) + r.Int(-1, 300);
        w.AppendSingle(b, in, ms);
      } else if (what == 3) {
        auto& o = w.batches[r.Below(w.batches.size())];
        if (b.t->Size() + o.t->Size() > 400) continue;
        StrokeInputBatch next = *b.t;
        absl::Status st = next.Append(StrokeInputBatch(*o.t));
        w.DoStr("appendBatch", st, [&] { return J(strokes_MutableStrokeInputBatchNative_appendBatch)(e, w.Thiz(), b.h, o.h); });
        if (st.ok()) *b.t = next;
      } else if (what == 4) {
        if (w.Do("clear", [&] { J(strokes_MutableStrokeInputBatchNative_clear)(e, w.Thiz(), b.h); })) b.t->Clear();
      } else if (what == 5 && w.batches.size() < 8) {
        jlong h = 0;
        if (w.Do("copy", [&] { h = J(strokes_MutableStrokeInputBatchNative_copy)(e, w.Thiz(), b.h); })) {
          if (h == b.h) Fail("handle-aliased", "copy returned the same handle");
          StrokeInputBatch c = *b.t;
          w.batches.push_back({h, std::make_unique<StrokeInputBatch>(c)});
        }
      } else if (what == 6) {
        w.FreeBatch(r.Below(w.batches.size()));
      }
      if (!w.batches.empty() && !w.faulted) w.LookBatch(w.batches[r.Below(w.batches.size())]);
    } else if (op.kind == "look") {
      w.LookLive(live, r);
    } else if (op.kind == "fill") {
      w.FillInputs(live, r);
      if (w.batches.size() > 6) w.FreeBatch(0);
    } else if (op.kind == "stk") {
      int what = int(r.Below(5));
      jlong h = 0;
      if (w.strokes.size() > 4) w.FreeStroke(r.Below(w.strokes.size()));
      if (what == 0 && live.t->GetBrush()) {
        if (w.Do("nativeCopyToStroke", [&] { h = J(strokes_InProgressStroke_nativeCopyToStroke)(e, w.Thiz(), live.h); }))
          w.strokes.push_back({h, std::make_unique<ink::Stroke>(live.t->CopyToStroke())});
      } else if (what == 1 && !w.brushes.empty() && !w.batches.empty()) {
        auto& b = w.brushes[r.Below(w.brushes.size())];
        auto& in = w.batches[r.Below(w.batches.size())];
        if (in.t->Size() > 60 || Particles(*b.t, {in.t.get()}) > kMaxParticles) continue;
        if (w.Do("createWithBrushAndInputs", [&] { h = J(strokes_StrokeJni_createWithBrushAndInputs)(e, w.Cls("java/lang/Object"), b.h, in.h); }))
          w.strokes.push_back({h, std::make_unique<ink::Stroke>(*b.t, *in.t)});
      } else if (what == 2 && !w.brushes.empty() && !w.batches.empty() && !w.shapes.empty()) {
        auto& b = w.brushes[r.Below(w.brushes.size())];
        auto& in = w.batches[r.Below(w.batches.size())];
        auto& sh = w.shapes[r.Below(w.shapes.size())];
        if (sh.t->RenderGroupCount() != b.t->CoatCount()) continue;
        if (w.Do("createWithBrushInputsAndShape", [&] { h = J(strokes_StrokeJni_createWithBrushInputsAndShape)(e, w.Cls("java/lang/Object"), b.h, in.h, sh.h); }))
          w.strokes.push_back({h, std::make_unique<ink::Stroke>(*b.t, *in.t, *sh.t)});
      } else if (!w.strokes.empty() && what == 3) {
        auto& s = w.strokes[r.Below(w.strokes.size())];
        if (w.Do("allocShallowCopyOfInputs", [&] { h = J(strokes_StrokeJni_allocShallowCopyOfInputs)(e, w.Cls("java/lang/Object"), s.h); })) {
          w.batches.push_back({h, std::make_unique<StrokeInputBatch>(s.t->GetInputs())});
          w.LookBatch(w.batches.back());
          if (w.batches.size() > 8) w.FreeBatch(0);
        }
      }
      if (!w.strokes.empty() && !w.faulted && what != 3) {
        if (w.ShapeOf(w.strokes[r.Below(w.strokes.size())])) w.LookShape(w.shapes.back(), r);
        if (w.shapes.size() > 5) w.FreeShape(r.Below(w.shapes.size()));
      }
    } else if (op.kind == "shp") {
      if (r.P(0.1)) {
        jlong h = 0;
        if (w.Do("alloc", [&] { h = J(geometry_PartitionedMeshNative_alloc)(e, w.Cls("java/lang/Object")); }))
          w.shapes.push_back({h, std::make_unique<PartitionedMesh>()});
      }
      if (w.shapes.empty()) continue;
      if (r.P(0.2)) { w.FreeShape(r.Below(w.shapes.size())); continue; }
      w.LookShape(pick(w.shapes), r);
    } else if (op.kind == "msh") {
      if (r.P(0.15)) {
        jlong h = 0;
        if (w.Do("allocNativeNewEmptyMesh", [&] { h = J(geometry_MeshNative_allocNativeNewEmptyMesh)(e, w.Cls("java/lang/Object")); }))
          w.meshes.push_back({h, std::make_unique<Mesh>()});
      }
      if (w.meshes.empty()) continue;
      if (r.P(0.25)) { w.FreeMesh(r.Below(w.meshes.size())); continue; }
      w.LookMesh(pick(w.meshes), r);
    } else if (op.kind == "fmt") {
      if (w.formats.empty()) continue;
      if (r.P(0.2)) { w.FreeFormat(r.Below(w.formats.size())); continue; }
      w.LookFormat(pick(w.formats), r);
    } else if (op.kind == "geo") {
      w.Geo(k, seed);
    } else if (op.kind == "qry") {
      w.Query(k, seed);
    } else {
      continue;
    }
    if (w.faulted || w.errored) {
      if (w.faulted) R.Nontrivial();
      w.LookAll(last);  // nothing else changed
    }
    uint64_t st = Mix(HashBytes(op.kind.data(), op.kind.size()) ^ w.faulted ^ w.errored << 1 ^ w.batches.size() << 4 ^ w.strokes.size() << 8 ^ w.shapes.size() << 12 ^
                      w.meshes.size() << 16 ^ w.formats.size() << 20 ^ (vm.fired ? HashBytes(vm.fired_fn.data(), vm.fired_fn.size()) : 0));
    R.State(st);
    R.Mixin(st ^ HashBytes(&vm.fallible, sizeof vm.fallible));
  }
  w.faulted = false;
  w.LookAll(last);
  w.FreeAll(last);
}

void ExecBridge(const Plan& plan) {
  Script sc(plan);
  for (int attempt = 0; attempt < 2; ++attempt) {
    Vm& vm = TheVm();
    vm.NewWorld();
    HeapTrack::Reset();
    std::exception_ptr e;
    // A thread of its own: what the library keeps for a thread (its shape builders) is released when the thread ends.
    std::thread([&] {
      try {
        RunWorld(sc, vm);
      } catch (...) {
        HeapTrack::Off();
        e = std::current_exception();
      }
    }).join();
    try {
      if (e) std::rethrow_exception(e);
    } catch (WorldStopped&) {
      HeapTrack::Reset();
      return;
    }
    size_t left = HeapTrack::Live();
    std::string where = left && attempt ? HeapTrack::Where() : "";
    HeapTrack::Reset();
    if (left == 0) return;
    // what the bridge caches for good is allocated once: a second run of the same history tells
    if (attempt == 1) Fail("leak", "%zu allocations made by the bridge are alive after every handle was released (%s)", left, where.c_str());
  }
}
}  // namespace

const std::vector<PropertyDef>& Properties() {
  static const std::vector<PropertyDef> all = {{"J01", GenJ01, ExecBridge}, {"J02", GenJ02, ExecBridge}};
  return all;
}
}  // namespace dst
