// The rendering worlds: strokes that change while a canvas renderer, its texture store and the GPU around it come, go
// and fail. ink's renderer and its shaders are real; Skia is the recording stand-in of skia_fake/skia_sksl.
#include <csetjmp>
#include <algorithm>
#include <array>
#include <cmath>
#include <memory>
#include <set>
#include <stdexcept>

#include "ink/brush/brush_paint.h"
#include "ink/color/color.h"
#include "ink/geometry/affine_transform.h"
#include "ink/geometry/mesh.h"
#include "ink/rendering/bitmap.h"
#include "ink/rendering/skia/common_internal/mesh_specification_data.h"
#include "ink/rendering/skia/native/skia_renderer.h"
#include "ink/rendering/texture_bitmap_store.h"
#include "ink/strokes/internal/stroke_vertex.h"
#include "session.h"
#include "skia_fake.h"
#include "vthreads.h"

namespace dst {
namespace {
using ink::AffineTransform;
using ink::Brush;
using ink::BrushPaint;
using ink::InProgressStroke;
using ink::Mesh;
using ink::PartitionedMesh;
using ink::SkiaRenderer;
using ink::Stroke;
using ink::StrokeInputBatch;
using ink::skia_common_internal::MeshSpecificationData;
using ink::strokes_internal::StrokeVertex;

enum Mode { kFaults = 1, kFaithful = 2, kAntialias = 3 };

// ================================ the world around the renderer ==============================================
struct Texture {
  int w, h;
  ink::Color::Format format;
  ink::ColorSpace space;
  std::vector<uint8_t> px;
};
Texture TextureFor(const std::string& uri) {
  Rng r(HashBytes(uri.data(), uri.size()));
  Texture t{r.Int(1, 5), r.Int(1, 5), ink::Color::Format(r.Below(3)), ink::ColorSpace(r.Below(2)), {}};
  for (int i = 0; i < t.w * t.h * 4; ++i) t.px.push_back(uint8_t(r.Next()));
  return t;
}
enum StoreFault { kStoreOk, kStoreMissing, kStoreBadSize, kStoreInternal };
class Store : public ink::TextureBitmapStore {
 public:
  absl::StatusOr<std::shared_ptr<ink::Bitmap>> GetTextureBitmap(const ink::Uri& uri) const override {
    ++calls;
    std::string u = absl::StrCat(uri);
    int k = fault.count(u) ? fault.at(u) : all;
    if (k == kStoreMissing || k == kStoreInternal) {
      fired = k;
      last = k == kStoreMissing ? absl::NotFoundError("no texture " + u) : absl::InternalError("cannot decode " + u);
      return last;
    }
    Texture t = TextureFor(u);
    if (k == kStoreBadSize) {
      fired = k;
      t.px.pop_back();
    }
    return std::make_shared<ink::VectorBitmap>(t.w, t.h, ink::Bitmap::PixelFormat::kRgba8888, t.format, t.space, t.px);
  }
  int all = kStoreOk;
  std::map<std::string, int> fault;
  mutable int fired = 0;
  mutable long calls = 0;
  mutable absl::Status last;
};

// ================================ what must be drawn =========================================================
// Linear, unpremultiplied sRGB, computed here from the colour's components.
struct Rgba { double c[4]; };
double Decode(double x) {
  double a = std::fabs(x);
  double y = a <= 0.04045 ? a / 12.92 : std::pow((a + 0.055) / 1.055, 2.4);
  return x < 0 ? -y : y;
}
struct RawColor { double r, g, b, a; bool linear, p3; };
RawColor RandomColor(Rng& r) {
  RawColor c{r.U(), r.U(), r.U(), r.P(0.4) ? 1 : r.P(0.1) ? 0 : r.U(), r.P(0.2), r.P(0.3)};
  if (r.P(0.15)) c.r = c.g = c.b = r.Below(2);
  if (r.P(0.1)) c = {0, 0, 1, 1, false, false};
  return c;
}
ink::Color ToInk(const RawColor& c) {
  return ink::Color::FromFloat(float(c.r), float(c.g), float(c.b), float(c.a), c.linear ? ink::Color::Format::kLinear : ink::Color::Format::kGammaEncoded,
                               c.p3 ? ink::ColorSpace::kDisplayP3 : ink::ColorSpace::kSrgb);
}
Rgba Linear(const RawColor& c) {
  double v[3] = {c.r, c.g, c.b};
  if (!c.linear) for (double& x : v) x = Decode(x);
  if (c.p3) {
    static const double m[9] = {1.2249401, -0.2249404, 0, -0.0420569, 1.0420571, 0, -0.0196376, -0.0786361, 1.0982735};
    double o[3];
    for (int i = 0; i < 3; ++i) o[i] = m[i * 3] * v[0] + m[i * 3 + 1] * v[1] + m[i * 3 + 2] * v[2];
    for (int i = 0; i < 3; ++i) v[i] = o[i];
  }
  return {{v[0], v[1], v[2], c.a}};
}
struct EV {  // one vertex as the stroke has it
  double x = 0, y = 0, opacity = 0, hsl[3] = {}, side[2] = {}, slabel = 0, fwd[2] = {}, flabel = 0, uv[2] = {};
  bool has_hsl = false, has_uv = false;
  double tol = 0, dtol = 0;
};
using ETri = std::array<EV, 3>;
struct ECoat {
  bool cpu = false;
  std::vector<ETri> tris;
  std::vector<std::vector<P2>> outlines;
  double opacity_multiplier = 1, brush_size = 1;
  BrushPaint paint;
  bool has_inputs = false;
  P2 first{}, last{};
};
struct Expect {
  RawColor color{};
  AffineTransform m;
  std::vector<ECoat> coats;
};
void CommonCoat(ECoat& e, const Brush& b, uint32_t c, const StrokeInputBatch& in) {
  e.paint = b.GetCoats()[c].paint;
  e.opacity_multiplier = b.GetCoats()[c].tips.front().opacity_multiplier;
  e.brush_size = b.GetSize();
  e.has_inputs = !in.IsEmpty();
  if (e.has_inputs) {
    In a = FromInk(in.Get(0)), z = FromInk(in.Get(in.Size() - 1));
    e.first = {a.x, a.y};
    e.last = {z.x, z.y};
  }
}
Expect ExpectLive(const InProgressStroke& s, bool cpu, const RawColor& color, const AffineTransform& m) {
  Expect x{color, m, {}};
  if (!s.GetBrush()) return x;
  for (uint32_t c = 0; c < s.BrushCoatCount(); ++c) {
    const ink::MutableMesh& mm = s.GetMesh(c);
    if (mm.VertexCount() == 0) continue;
    ECoat e;
    e.cpu = cpu;
    CommonCoat(e, *s.GetBrush(), c, s.GetInputs());
    if (cpu) {
      for (const auto& o : s.GetCoatOutlines(c)) {
        std::vector<P2> v;
        for (uint32_t i : o) v.push_back({mm.VertexPosition(i).x, mm.VertexPosition(i).y});
        if (!v.empty()) e.outlines.push_back(v);
      }
    } else {
      std::vector<EV> vs(mm.VertexCount());
      for (uint32_t i = 0; i < mm.VertexCount(); ++i) {
        StrokeVertex v = StrokeVertex::GetFromMesh(mm, i);
        const auto& n = v.non_position_attributes;
        EV& q = vs[i];
        q.x = v.position.x;
        q.y = v.position.y;
        q.opacity = n.opacity_shift;
        for (int k = 0; k < 3; ++k) q.hsl[k] = n.hsl_shift[k];
        q.side[0] = n.side_derivative.x, q.side[1] = n.side_derivative.y, q.slabel = n.side_label.encoded_value;
        q.fwd[0] = n.forward_derivative.x, q.fwd[1] = n.forward_derivative.y, q.flabel = n.forward_label.encoded_value;
        q.uv[0] = n.surface_uv.x, q.uv[1] = n.surface_uv.y;
        q.has_hsl = q.has_uv = true;
        q.tol = 1e-6 * (std::fabs(q.x) + std::fabs(q.y));
        q.dtol = 1e-6;
      }
      for (uint32_t t = 0; t < mm.TriangleCount(); ++t) {
        auto id = mm.TriangleIndices(t);
        e.tris.push_back({vs[id[0]], vs[id[1]], vs[id[2]]});
      }
    }
    x.coats.push_back(std::move(e));
  }
  return x;
}
Expect ExpectStroke(const Stroke& s, bool cpu, const RawColor& color, const AffineTransform& m) {
  Expect x{color, m, {}};
  const PartitionedMesh& shape = s.GetShape();
  for (uint32_t c = 0; c < shape.RenderGroupCount(); ++c) {
    if (shape.RenderGroupMeshes(c).empty()) continue;
    ECoat e;
    e.cpu = cpu;
    CommonCoat(e, s.GetBrush(), c, s.GetInputs());
    if (cpu) {
      for (uint32_t o = 0; o < shape.OutlineCount(c); ++o) {
        std::vector<P2> v;
        for (uint32_t k = 0; k < shape.OutlineVertexCount(c, o); ++k) v.push_back({shape.OutlinePosition(c, o, k).x, shape.OutlinePosition(c, o, k).y});
        if (!v.empty()) e.outlines.push_back(v);
      }
    } else {
      for (const Mesh& mesh : shape.RenderGroupMeshes(c)) {
        StrokeVertex::FormatAttributeIndices ai = StrokeVertex::FindAttributeIndices(mesh.Format());
        auto tolof = [&](int a) {
          double t = 0;
          const auto& p = mesh.VertexAttributeUnpackingParams(a);
          for (int k = 0; k < p.components.Size(); ++k) t = std::max(t, 1e-6 * (std::fabs(p.components[k].offset) + 4096 * std::fabs(p.components[k].scale)));
          return t;
        };
        double tol = tolof(ai.position), dtol = 0;
        if (ai.side_derivative >= 0) dtol = std::max(dtol, tolof(ai.side_derivative));
        if (ai.forward_derivative >= 0) dtol = std::max(dtol, tolof(ai.forward_derivative));
        std::vector<EV> vs(mesh.VertexCount());
        for (uint32_t i = 0; i < mesh.VertexCount(); ++i) {
          EV& q = vs[i];
          auto get = [&](int a, double* o, int n) {
            if (a < 0) return false;
            auto v = mesh.FloatVertexAttribute(i, a);
            for (int k = 0; k < n; ++k) o[k] = v[k];
            return true;
          };
          double p[2];
          get(ai.position, p, 2);
          q.x = p[0], q.y = p[1];
          get(ai.opacity_shift, &q.opacity, 1);
          q.has_hsl = get(ai.hsl_shift, q.hsl, 3);
          get(ai.side_derivative, q.side, 2);
          get(ai.side_label, &q.slabel, 1);
          get(ai.forward_derivative, q.fwd, 2);
          get(ai.forward_label, &q.flabel, 1);
          q.has_uv = get(ai.surface_uv, q.uv, 2);
          q.tol = tol + 1e-6 * (std::fabs(q.x) + std::fabs(q.y));
          q.dtol = dtol + 1e-6;
        }
        for (uint32_t t = 0; t < mesh.TriangleCount(); ++t) {
          auto id = mesh.TriangleIndices(t);
          e.tris.push_back({vs[id[0]], vs[id[1]], vs[id[2]]});
        }
      }
    }
    x.coats.push_back(std::move(e));
  }
  return x;
}

// ================================ running the recorded shaders ==================================================
std::string UniformName(MeshSpecificationData::UniformId id) { return std::string(MeshSpecificationData::GetUniformName(id)); }
struct VOut {
  sksl::Value v;  // the varyings
  const float* Field(const SkMeshSpecification& s, const char* name) const {
    for (size_t i = 0; i < s.varys.size(); ++i) if (s.varys[i].name == SkString(name)) return v.fields[i].f;
    return nullptr;
  }
};
void BindUniforms(sksl::Program& p, const SkMesh& m, const float* matrix) {
  const std::string lin = UniformName(MeshSpecificationData::UniformId::kObjectToCanvasLinearComponent);
  const auto& us = p.Uniforms();
  for (size_t i = 0; i < us.size(); ++i) {
    const SkMeshSpecification::Uniform* u = m.spec->findUniform(us[i].name);
    if (!u) Fail("uniform", "uniform %s is not part of the specification", us[i].name.c_str());
    const uint8_t* b = m.uniforms->bytes() + u->offset;
    size_t n = SkMeshSpecification::Bytes(u->type);
    bool poison = n > 0;
    for (size_t k = 0; k < n; ++k) poison &= b[k] == SkData::kPoison;
    if (poison) Fail("uniform-not-set", "uniform %s was never given a value", us[i].name.c_str());
    float v[16] = {};
    for (size_t k = 0; k < n / 4; ++k) {
      if (u->type >= SkMeshSpecification::Uniform::Type::kInt) {
        int32_t x;
        memcpy(&x, b + 4 * k, 4);
        v[k] = float(x);
      } else {
        memcpy(&v[k], b + 4 * k, 4);
      }
    }
    if (matrix && us[i].name == lin) memcpy(v, matrix, 16);
    p.SetUniform(i, v);
  }
}
VOut RunVertex(const SkMesh& m, uint32_t index) {
  sksl::Program& p = m.spec->vertex;
  sksl::Value a;
  a.t = {'s', p.StructIndex("Attributes")};
  const uint8_t* base = m.vb->bytes.data() + m.voff + size_t(index) * m.spec->stride();
  for (const auto& at : m.spec->attributes()) {
    sksl::Value f;
    using T = SkMeshSpecification::Attribute::Type;
    if (at.type == T::kUByte4_unorm) {
      f.t = {'h', 4};
      for (int k = 0; k < 4; ++k) f.f[k] = float(base[at.offset + k]) / 255.0f;
    } else {
      int n = int(at.type) + 1;
      f.t = {'f', n};
      memcpy(f.f, base + at.offset, 4 * n);
    }
    a.fields.push_back(f);
  }
  std::vector<sksl::Value> args{a};
  return {p.RunMain(args)};
}
// Runs the fragment shader; returns the texture coordinate, `color` gets the colour.
std::array<float, 2> RunFragment(const SkMesh& m, const sksl::Value& varyings, float* color) {
  sksl::Value v = varyings, c;
  v.t = {'s', m.spec->fragment.StructIndex("Varyings")};
  c.t = {'f', 4};
  std::vector<sksl::Value> args{v, c};
  sksl::Value r = m.spec->fragment.RunMain(args);
  memcpy(color, args[1].f, 16);
  return {r.f[0], r.f[1]};
}

// ================================ comparing a drawing with what it must be =========================================
const char* BlendName(SkBlendMode m) {
  static const char* n[] = {"Clear", "Src", "Dst", "SrcOver", "DstOver", "SrcIn", "DstIn", "SrcOut", "DstOut", "SrcATop", "DstATop", "Xor", "Plus", "Modulate"};
  return size_t(m) < sizeof n / sizeof *n ? n[size_t(m)] : "?";
}
SkBlendMode Want(BrushPaint::BlendMode m) {
  using B = BrushPaint::BlendMode;
  switch (m) {
    case B::kModulate: return SkBlendMode::kModulate;
    case B::kDstIn: return SkBlendMode::kDstIn;
    case B::kDstOut: return SkBlendMode::kDstOut;
    case B::kSrcAtop: return SkBlendMode::kSrcATop;
    case B::kSrcIn: return SkBlendMode::kSrcIn;
    case B::kSrcOver: return SkBlendMode::kSrcOver;
    case B::kDstOver: return SkBlendMode::kDstOver;
    case B::kSrc: return SkBlendMode::kSrc;
    case B::kDst: return SkBlendMode::kDst;
    case B::kSrcOut: return SkBlendMode::kSrcOut;
    case B::kDstAtop: return SkBlendMode::kDstATop;
    case B::kXor: return SkBlendMode::kXor;
  }
  return SkBlendMode::kClear;
}
SkTileMode Want(BrushPaint::TextureWrap w) {
  return w == BrushPaint::TextureWrap::kRepeat ? SkTileMode::kRepeat : w == BrushPaint::TextureWrap::kMirror ? SkTileMode::kMirror : SkTileMode::kClamp;
}
void CheckLeaf(const SkShader* s, SkMatrix m, const ECoat& e, size_t li) {
  const BrushPaint::TextureLayer& l = e.paint.texture_layers[li];
  while (s && s->kind == SkShader::kLocal) {
    m = SkMatrix::Concat(m, s->matrix);
    s = s->a.get();
  }
  if (!s || s->kind != SkShader::kImage) Fail("texture-tree", "texture layer %zu is not drawn as an image", li);
  m = SkMatrix::Concat(m, s->matrix);
  Texture t = TextureFor(absl::StrCat(l.color_texture_uri));
  const SkImage& im = *s->image;
  if (im.info.w != t.w || im.info.h != t.h || im.pixels != t.px)
    Fail("texture-image", "layer %zu shows a %dx%d image that is not the store's bitmap for %s", li, im.info.w, im.info.h, absl::StrCat(l.color_texture_uri).c_str());
  bool premul = t.format == ink::Color::Format::kPremultipliedAlpha;
  if (im.info.at != (premul ? kPremul_SkAlphaType : kUnpremul_SkAlphaType) || im.info.ct != kRGBA_8888_SkColorType)
    Fail("texture-image", "layer %zu: alpha type %d, colour type %d for a bitmap of format %d", li, im.info.at, im.info.ct, int(t.format));
  int tf = t.format == ink::Color::Format::kGammaEncoded ? 1 : 2, gamut = t.space == ink::ColorSpace::kSrgb ? 1 : 2;
  if (!im.info.cs || im.info.cs->tf != tf || im.info.cs->gamut != gamut) Fail("texture-image", "layer %zu: wrong colour space", li);
  if (s->tx != Want(l.wrap_x) || s->ty != Want(l.wrap_y)) Fail("texture-wrap", "layer %zu is tiled %d,%d", li, int(s->tx), int(s->ty));
  if (l.size_unit == BrushPaint::TextureSizeUnit::kStrokeSize || l.rotation != ink::Angle()) return;  // not implemented by this renderer
  double unit = l.size_unit == BrushPaint::TextureSizeUnit::kBrushSize ? e.brush_size : 1;
  P2 o{0, 0};
  if (e.has_inputs && l.origin == BrushPaint::TextureOrigin::kFirstStrokeInput) o = e.first;
  if (e.has_inputs && l.origin == BrushPaint::TextureOrigin::kLastStrokeInput) o = e.last;
  for (int k = 0; k < 4; ++k) {  // corners of the texture
    double u = k & 1, v = k >> 1, tx = u * t.w, ty = v * t.h;
    double wx = o.x + (u + l.offset.x) * l.size.x * unit, wy = o.y + (v + l.offset.y) * l.size.y * unit;
    double gx = m[0] * tx + m[1] * ty + m[2], gy = m[3] * tx + m[4] * ty + m[5];
    double tol = 1e-5 * (1 + std::fabs(wx) + std::fabs(wy) + std::fabs(o.x) + std::fabs(o.y) + unit * (std::fabs(l.size.x) + std::fabs(l.size.y)));
    if (!(std::fabs(wx - gx) <= tol && std::fabs(wy - gy) <= tol)) Fail("texture-placement", "layer %zu: corner (%g,%g) is placed at (%g,%g), expected (%g,%g)", li, u, v, gx, gy, wx, wy);
  }
}
void CheckShader(const SkShader* s, const SkMatrix& m, const ECoat& e, size_t upto) {
  if (!s) Fail("texture-tree", "a paint with %zu texture layers is drawn without a shader", e.paint.texture_layers.size());
  if (s->kind == SkShader::kLocal && upto > 0) return CheckShader(s->a.get(), SkMatrix::Concat(m, s->matrix), e, upto);
  if (upto == 0) return CheckLeaf(s, m, e, 0);
  if (s->kind != SkShader::kBlend) Fail("texture-tree", "layer %zu is not blended with the ones before it", upto);
  SkBlendMode w = Want(e.paint.texture_layers[upto - 1].blend_mode);
  if (s->mode != w) Fail("texture-blend", "layers 0..%zu are combined with layer %zu by %s, expected %s", upto - 1, upto, BlendName(s->mode), BlendName(w));
  CheckLeaf(s->a.get(), m, e, upto);
  CheckShader(s->b.get(), m, e, upto - 1);
}

Rgba VertexColor(const RawColor& base, const EV& v) {
  Rgba c = Linear(base);
  double a = std::clamp((v.opacity + 1) * c.c[3], 0.0, 1.0), rgb[3] = {c.c[0], c.c[1], c.c[2]};
  if (v.has_hsl) {
    double y = 0.299 * rgb[0] + 0.587 * rgb[1] + 0.114 * rgb[2], i = 0.596 * rgb[0] - 0.275 * rgb[1] - 0.321 * rgb[2],
           q = 0.212 * rgb[0] - 0.523 * rgb[1] + 0.311 * rgb[2];
    double hue = std::atan2(q, i) - v.hsl[0] * 2 * M_PI, ch = std::hypot(i, q) * (v.hsl[1] + 1);
    y += v.hsl[2];
    i = ch * std::cos(hue);
    q = ch * std::sin(hue);
    rgb[0] = y + 0.956 * i + 0.621 * q;
    rgb[1] = y - 0.272 * i - 0.647 * q;
    rgb[2] = y - 1.107 * i + 1.704 * q;
  }
  return {{rgb[0] * a, rgb[1] * a, rgb[2] * a, a}};
}
bool Finite(const float* f, int n) {
  for (int i = 0; i < n; ++i) if (!std::isfinite(f[i])) return false;
  return true;
}

struct Checker {
  Mode mode;
  const Expect& x;
  Rng r;
  const std::vector<SkCanvas::Command>& cmds;
  size_t at = 0;

  void CheckMatrix(const SkCanvas::Command& c) {
    const AffineTransform& m = x.m;
    float w[4][4] = {{m.A(), m.B(), 0, m.C()}, {m.D(), m.E(), 0, m.F()}, {0, 0, 1, 0}, {0, 0, 0, 1}};
    for (int i = 0; i < 4; ++i)
      for (int k = 0; k < 4; ++k)
        if (c.matrix.rc(i, k) != w[i][k]) Fail("matrix", "drawn with matrix element %d,%d = %g, object to canvas has %g", i, k, c.matrix.rc(i, k), w[i][k]);
  }
  void Path(const ECoat& e) {
    Rgba want = Linear(x.color);
    want.c[3] *= e.opacity_multiplier;
    size_t o = 0;
    while (o < e.outlines.size()) {
      if (at >= cmds.size()) Fail("path-missing", "outline %zu of %zu is not drawn", o, e.outlines.size());
      const SkCanvas::Command& c = cmds[at++];
      if (c.kind != 'p') Fail("path-kind", "a mesh is drawn without a GPU context");
      CheckMatrix(c);
      R.Check();
      if (c.path.fill != SkPathFillType::kWinding) Fail("path-fill", "fill type %d", int(c.path.fill));
      if (c.paint.shader || c.paint.blender || c.paint.style != SkPaint::kFill_Style || !c.paint.aa) Fail("path-paint", "path is not a plain antialiased fill");
      double got[4] = {c.paint.color.fR, c.paint.color.fG, c.paint.color.fB, c.paint.color.fA};
      if (c.paint.space_gamut != 1) Fail("path-color", "colour in an unexpected space");
      if (c.paint.space_tf == 1) for (int k = 0; k < 3; ++k) got[k] = Decode(got[k]);
      for (int k = 0; k < 4; ++k)
        if (!(std::fabs(got[k] - want.c[k]) <= 2e-3 * (1 + std::fabs(want.c[k])))) Fail("path-color", "component %d is %g, expected %g", k, got[k], want.c[k]);
      // contours
      size_t i = 0;
      const auto& v = c.path.v;
      if (v.empty()) Fail("path-empty", "an empty path is drawn");
      while (i < v.size()) {
        if (o >= e.outlines.size()) Fail("path-extra", "more contours than outlines");
        const auto& w = e.outlines[o++];
        for (size_t k = 0; k < w.size(); ++k, ++i) {
          if (i >= v.size() || v[i].k != (k ? 'l' : 'm')) Fail("path-verb", "contour %zu has verb %c at point %zu", o - 1, i < v.size() ? v[i].k : '-', k);
          if (v[i].x != float(w[k].x) || v[i].y != float(w[k].y)) Fail("path-point", "contour %zu point %zu is (%g,%g), the outline has (%g,%g)", o - 1, k, v[i].x, v[i].y, w[k].x, w[k].y);
        }
        if (i >= v.size() || v[i].k != 'z') Fail("path-open", "contour %zu is not closed after %zu points", o - 1, w.size());
        ++i;
      }
    }
  }
  void Paint(const SkCanvas::Command& c, const ECoat& e) {
    const auto& p = c.paint;
    if (p.color.fR != 1 || p.color.fG != 1 || p.color.fB != 1 || p.color.fA != 1) Fail("mesh-paint", "the paint's colour is not opaque white");
    if (e.paint.texture_layers.empty()) {
      if (p.shader) Fail("mesh-shader", "a paint without textures is drawn with a shader");
      if (c.blender && c.blender->mode != SkBlendMode::kModulate && c.blender->mode != SkBlendMode::kDst) Fail("mesh-blender", "%s without textures", BlendName(c.blender->mode));
      return;
    }
    SkBlendMode w = Want(e.paint.texture_layers.back().blend_mode);
    SkBlendMode g = c.blender ? c.blender->mode : SkBlendMode::kModulate;
    if (g != w) Fail("mesh-blender", "textures are combined with the brush colour by %s, expected %s", BlendName(g), BlendName(w));
    CheckShader(p.shader.get(), SkMatrix::I(), e, e.paint.texture_layers.size() - 1);
  }
  void Coat(const ECoat& e) {
    size_t t = 0;
    bool winding = !e.paint.texture_layers.empty() && e.paint.texture_layers[0].mapping == BrushPaint::TextureMapping::kWinding;
    while (t < e.tris.size()) {
      if (at >= cmds.size()) Fail("mesh-missing", "%zu of %zu triangles are drawn", t, e.tris.size());
      const SkCanvas::Command& c = cmds[at++];
      if (c.kind != 'm') Fail("mesh-kind", "a path is drawn although there is a GPU context");
      CheckMatrix(c);
      Paint(c, e);
      const SkMesh& m = c.mesh;
      if (!m.isValid()) Fail("mesh-invalid", "an invalid mesh is drawn");
      if (m.mode != SkMesh::Mode::kTriangles || m.icount % 3) Fail("mesh-mode", "%zu indices", m.icount);
      size_t n = m.icount / 3;
      if (t + n > e.tris.size()) Fail("mesh-extra", "more triangles drawn than the coat has (%zu)", e.tris.size());
      R.Check();
      auto index = [&](size_t k) {
        uint16_t i;
        memcpy(&i, m.ib->bytes.data() + m.ioff + 2 * k, 2);
        return i;
      };
      for (size_t k = 0; k < m.icount; ++k) if (index(k) >= m.vcount) Fail("mesh-index", "index %u of %zu vertices", index(k), m.vcount);
      std::set<size_t> pick;
      size_t want = mode == kFaults ? 3 : mode == kFaithful ? 20 : 14;
      if (n <= want) for (size_t k = 0; k < n; ++k) pick.insert(k);
      else {
        pick = {0, n - 1};
        while (pick.size() < want) pick.insert(r.Below(n));
      }
      struct Seen { VOut far, real; };
      std::map<uint32_t, Seen> seen;
      static const float kFar[4] = {1e7f, 0, 0, 1e7f};
      BindUniforms(m.spec->vertex, m, kFar);
      for (size_t k : pick) for (int i = 0; i < 3; ++i) if (!seen.count(index(3 * k + i))) seen[index(3 * k + i)].far = RunVertex(m, index(3 * k + i));
      if (mode == kAntialias) {
        BindUniforms(m.spec->vertex, m, nullptr);
        BindUniforms(m.spec->fragment, m, nullptr);
        for (auto& [i, s] : seen) s.real = RunVertex(m, i);
      }
      for (size_t k : pick) {
        const ETri& tr = e.tris[t + k];
        double area = ((tr[1].x - tr[0].x) * (tr[2].y - tr[0].y) - (tr[1].y - tr[0].y) * (tr[2].x - tr[0].x)) / 2;
        for (int i = 0; i < 3; ++i) {
          const EV& w = e.tris[t + k][i];
          uint32_t id = index(3 * k + i);
          const Seen& s = seen[id];
          Vertex(m, s.far, w, winding, t + k, i);
          if (mode == kAntialias) Outset(m, s.far, s.real, w, t + k, i, area);
        }
        if (mode == kAntialias) Coverage(m, seen[index(3 * k)].real, seen[index(3 * k + 1)].real, seen[index(3 * k + 2)].real, e.tris[t + k], t + k);
      }
      // the object-to-canvas transform the shader works with
      if (const auto* u = m.spec->findUniform(UniformName(MeshSpecificationData::UniformId::kObjectToCanvasLinearComponent))) {
        float f[4], w[4] = {x.m.A(), x.m.D(), x.m.B(), x.m.E()};
        memcpy(f, m.uniforms->bytes() + u->offset, 16);
        for (int k = 0; k < 4; ++k) if (f[k] != w[k]) Fail("uniform-transform", "the shader's transform has %g at %d, object to canvas has %g", f[k], k, w[k]);
      }
      t += n;
    }
  }
  void Vertex(const SkMesh& m, const VOut& o, const EV& w, bool winding, size_t t, int i) {
    R.Check();
    const float* p = o.Field(*m.spec, "position");
    const float* c = o.Field(*m.spec, "color");
    // (nothing can be said about the un-outset position of a vertex without derivatives, see Outset)
    if (!(std::hypot(w.side[0], w.side[1]) > 2 * w.dtol && std::hypot(w.fwd[0], w.fwd[1]) > 2 * w.dtol)) { R.Count("probe.no-derivative"); return; }
    double tol = w.tol + 2e-6;
    if (!(std::fabs(p[0] - w.x) <= tol && std::fabs(p[1] - w.y) <= tol)) Fail("vertex-position", "triangle %zu corner %d is drawn at (%.9g,%.9g), the stroke has (%.9g,%.9g)", t, i, p[0], p[1], w.x, w.y);
    if (p[0] < m.bounds.fLeft - tol || p[0] > m.bounds.fRight + tol || p[1] < m.bounds.fTop - tol || p[1] > m.bounds.fBottom + tol)
      Fail("mesh-bounds", "vertex (%g,%g) outside of the mesh's bounds [%g %g %g %g]", p[0], p[1], m.bounds.fLeft, m.bounds.fTop, m.bounds.fRight, m.bounds.fBottom);
    if (c) {
      Rgba want = VertexColor(x.color, w);
      for (int k = 0; k < 4; ++k)
        if (!(std::fabs(c[k] - want.c[k]) <= (k == 3 ? 1e-4 : 5e-4) * (1 + std::fabs(want.c[k]) + std::fabs(w.hsl[0]) + std::fabs(w.hsl[1]))))
          Fail("vertex-color", "triangle %zu corner %d: component %d is %g, expected %g (shifts: opacity %g, hsl %g %g %g)", t, i, k, c[k], want.c[k], w.opacity, w.hsl[0], w.hsl[1], w.hsl[2]);
    }
    float col[4];
    BindUniforms(m.spec->fragment, m, nullptr);
    std::array<float, 2> tc = RunFragment(m, o.v, col);
    double wt[2] = {w.x, w.y};
    bool uv = winding && w.has_uv;
    if (uv) wt[0] = w.uv[0], wt[1] = w.uv[1];
    for (int k = 0; k < 2; ++k)
      if (!(std::fabs(tc[k] - wt[k]) <= (uv ? 2e-5 * (1 + std::fabs(wt[k])) : tol))) Fail("texture-coordinate", "triangle %zu corner %d: coordinate %d is %g, expected %g (%s)", t, i, k, tc[k], wt[k], uv ? "winding" : "tiling");
  }
  // Pixels per unit of the side (or forward) direction, by the documented formula.
  double Ppd(const double* v) {
    double a = x.m.A(), b = x.m.B(), d = x.m.D(), e = x.m.E(), rx = -v[1], ry = v[0];
    double len = std::hypot(a * rx + b * ry, d * rx + e * ry);
    return std::fabs(a * e - b * d) * (v[0] * v[0] + v[1] * v[1]) / std::max(1e-6, len);
  }
  void Outset(const SkMesh& m, const VOut& far, const VOut& real, const EV& w, size_t t, int i, double area) {
    R.Check();
    const float *p0 = far.Field(*m.spec, "position"), *p1 = real.Field(*m.spec, "position");
    for (size_t k = 0; k < real.v.fields.size(); ++k)
      if (!Finite(real.v.fields[k].f, sksl::Program::Components(real.v.fields[k].t)))
        Fail("not-finite", "triangle %zu corner %d (area %g): varying %s is not finite (side %g,%g/%g forward %g,%g/%g)", t, i, area, m.spec->varys[k].name.c_str(), w.side[0], w.side[1], w.slabel, w.fwd[0], w.fwd[1], w.flabel);
    double ls = std::hypot(w.side[0], w.side[1]), lf = std::hypot(w.fwd[0], w.fwd[1]);
    double dx = double(p1[0]) - p0[0], dy = double(p1[1]) - p0[1];
    double tol = 2 * w.tol + 4e-6 * (std::fabs(p1[0]) + std::fabs(p1[1]));
    if (w.slabel == 0 && w.flabel == 0) {
      if (std::hypot(dx, dy) > tol) Fail("interior-moved", "triangle %zu corner %d is interior but moved by (%g,%g)", t, i, dx, dy);
      return;
    }
    double ps = Ppd(w.side), pf = Ppd(w.fwd);
    if (!(ls > 100 * w.dtol && lf > 100 * w.dtol && ps > 1e-3 && pf > 1e-3)) return;
    if (const float* g = real.Field(*m.spec, "pixelsPerDimension")) {
      double rel = 0.02;
      if (!(std::fabs(g[0] - ps) <= rel * ps && std::fabs(g[1] - pf) <= rel * pf))
        Fail("pixels-per-dimension", "triangle %zu corner %d: (%g,%g) pixels across, expected (%g,%g)", t, i, g[0], g[1], ps, pf);
    }
    // displacement in terms of the two directions
    double det = w.side[0] * w.fwd[1] - w.side[1] * w.fwd[0];
    if (std::fabs(det) < 0.05 * ls * lf) return;
    double a = (dx * w.fwd[1] - dy * w.fwd[0]) / det, b = (w.side[0] * dy - w.side[1] * dx) / det;
    double ea = (tol * 2 * lf) / std::fabs(det), eb = (tol * 2 * ls) / std::fabs(det);
    double target = 0.5 + 0.207107 * std::clamp(2 * (ps - 0.5), 0.0, 1.0);
    auto sgn = [](double v) { return (v > 0) - (v < 0); };
    auto margin = [](double label) { return 4.0 / 126 * std::max(0.0, std::fabs(label) - 1); };
    a *= sgn(w.slabel);
    b *= sgn(w.flabel);
    double ta = target / ps * 1.03, tb = target / pf * 1.03;
    if (w.slabel == 0) { if (std::fabs((w.side[0] * dy - w.side[1] * dx)) < 0) return; }
    // side
    double wa = w.slabel == 0 ? 0 : ps >= 0.5 ? std::min(target / ps, margin(w.slabel)) : -1;  // -1: only bounded
    double side = w.slabel == 0 ? std::fabs(dx * w.fwd[1] - dy * w.fwd[0]) / std::fabs(det) : a;
    if (w.slabel == 0) {
      if (side > ea) Fail("outset-side", "triangle %zu corner %d is not at a side but moved by %g of its width", t, i, side);
    } else {
      if (!(a >= -ea && a <= ta + ea)) Fail("outset-side", "triangle %zu corner %d: moved outwards by %g of its width, at most %g expected (%g px wide)", t, i, a, ta, ps);
      if (wa >= 0 && std::fabs(a - wa) > 0.03 * wa + ea) Fail("outset-side", "triangle %zu corner %d: moved outwards by %g of its width, expected %g (%g px wide, margin %g)", t, i, a, wa, ps, margin(w.slabel));
    }
    // forward (less what the side direction already moved it)
    if (w.flabel == 0) {
      if (std::fabs(b) > eb && std::fabs(w.side[0] * dy - w.side[1] * dx) / std::fabs(det) > eb) Fail("outset-forward", "triangle %zu corner %d is not at an end but moved by %g of its length", t, i, b);
    } else {
      double so[2] = {sgn(w.slabel) * std::max(a, 0.0) * w.side[0], sgn(w.slabel) * std::max(a, 0.0) * w.side[1]};
      double of = std::min(target / pf, margin(w.flabel));
      double fo[2] = {sgn(w.flabel) * of * w.fwd[0], sgn(w.flabel) * of * w.fwd[1]};
      double common = std::clamp((so[0] * fo[0] + so[1] * fo[1]) / std::max(1e-6, fo[0] * fo[0] + fo[1] * fo[1]), 0.0, 1.0);
      if (w.slabel == 0) common = 0;
      if (!(b >= -eb && b <= tb + eb)) Fail("outset-forward", "triangle %zu corner %d: moved outwards by %g of its length, at most %g expected (%g px long)", t, i, b, tb, pf);
      if (common < 0.999 && fo[0] * fo[0] + fo[1] * fo[1] > 1e-4 && std::fabs(b - (1 - common) * of) > 0.1 * of + eb + 0.05 * tb)
        Fail("outset-forward", "triangle %zu corner %d: moved outwards by %g of its length, expected %g", t, i, b, (1 - common) * of);
    }
  }
  // The coverage `q` of the way into a triangle: in either direction, a fragment that is d pixels inside of the widened edge is
  // covered by d out of the two target outsets that an edge is blurred over; the two edges of a direction and the two
  // directions combine.
  static double Profile(const double (*pd)[2], const ETri& w, const float* q) {
    auto target = [](double px) { return 0.5 + 0.207107 * std::clamp(2 * (px - 0.5), 0.0, 1.0); };
    double cov = 1, px[2] = {}, far[4] = {}, out[4] = {};
    for (int i = 0; i < 3; ++i) {
      for (int d = 0; d < 2; ++d) {
        double label = d ? w[i].flabel : w[i].slabel, t = target(pd[i][0]);
        px[d] += q[i] * pd[i][d];
        for (int s = 0; s < 2; ++s) {
          bool at = s ? label > 0 : label < 0;
          if (!at) far[2 * d + s] += q[i];
          if (at) out[2 * d + s] += q[i] * std::min(t, 4.0 / 126 * std::max(0.0, std::fabs(label) - 1) * pd[i][d]);
        }
      }
    }
    double t = target(px[0]);
    for (int d = 0; d < 2; ++d) {
      double o[2], to[2];
      for (int s = 0; s < 2; ++s) o[s] = far[2 * d + s] > 1 - 1e-6 ? 0 : std::min(t, out[2 * d + s] / (1 - far[2 * d + s]));
      for (int s = 0; s < 2; ++s) to[s] = std::clamp((px[d] + o[0] + o[1]) * far[2 * d + s] / (2 * t), 0.0, 1.0);
      if (far[2 * d] + far[2 * d + 1] < 1.9999) cov *= std::max(0.0, to[0] + to[1] - 1);
    }
    return cov;
  }
  void Coverage(const SkMesh& m, const VOut& a, const VOut& b, const VOut& c, const ETri& w, size_t tri) {
    bool interior = true;
    for (const EV& v : w) interior &= v.slabel == 0 && v.flabel == 0;
    // Where the directions are known well enough and the stroke is not fading out, the whole edge profile is determined.
    bool profile = true;
    double pd[3][2];
    for (int i = 0; i < 3; ++i) {
      pd[i][0] = Ppd(w[i].side), pd[i][1] = Ppd(w[i].fwd);
      profile &= std::hypot(w[i].side[0], w[i].side[1]) > 100 * w[i].dtol && std::hypot(w[i].fwd[0], w[i].fwd[1]) > 100 * w[i].dtol && pd[i][0] >= 0.5 && pd[i][1] > 1e-3;
    }
    static const float k[][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {.5f, .5f, 0}, {0, .5f, .5f}, {.5f, 0, .5f}, {.25f, .5f, .25f}, {1 / 3.f, 1 / 3.f, 1 / 3.f}};
    for (const auto& q : k) {
      R.Check();
      sksl::Value v = a.v;
      for (size_t f = 0; f < v.fields.size(); ++f)
        for (int j = 0; j < sksl::Program::Components(v.fields[f].t); ++j) v.fields[f].f[j] = q[0] * a.v.fields[f].f[j] + q[1] * b.v.fields[f].f[j] + q[2] * c.v.fields[f].f[j];
      VOut mid{v};
      float col[4];
      RunFragment(m, v, col);
      if (!Finite(col, 4)) Fail("coverage-nan", "fragment colour (%g,%g,%g,%g)", col[0], col[1], col[2], col[3]);
      const float* base = mid.Field(*m.spec, "color");
      if (!base || base[3] < 1e-3) continue;
      double cov = col[3] / base[3];
      if (cov < -1e-4 || cov > 1 + 1e-4) Fail("coverage-range", "coverage %g", cov);
      if (interior && std::fabs(cov - 1) > 1e-4) Fail("coverage-interior", "coverage %g inside the stroke", cov);
      if (profile) {
        double want = Profile(pd, w, q);
        if (std::fabs(cov - want) > 0.05)
          Fail("coverage-profile", "coverage %g at (%g,%g,%g) of triangle %zu, expected %g (side labels %g %g %g of %g %g %g px, forward labels %g %g %g of %g %g %g px)", cov, q[0], q[1], q[2], tri, want,
               w[0].slabel, w[1].slabel, w[2].slabel, pd[0][0], pd[1][0], pd[2][0], w[0].flabel, w[1].flabel, w[2].flabel, pd[0][1], pd[1][1], pd[2][1]);
        R.Count("probe.coverage-profile");
      }
      for (int j = 0; j < 3; ++j) if (std::fabs(col[j] - cov * base[j]) > 1e-4 * (1 + std::fabs(base[j]))) Fail("coverage-color", "coverage changes the colour");
    }
  }
  void All() {
    for (const ECoat& e : x.coats) {
      if (e.cpu) Path(e);
      else Coat(e);
    }
    if (at != cmds.size()) Fail("extra-commands", "%zu commands drawn, %zu expected", cmds.size(), at);
  }
};
void CheckShow(Mode mode, const Expect& x, const SkCanvas& canvas, uint64_t seed) {
  try {
    Checker{mode, x, Rng(seed), canvas.commands}.All();
  } catch (std::runtime_error& e) {
    Fail("shader-error", "the recorded shader cannot be run: %s", e.what());
  }
}

bool SameT(const AffineTransform& a, const AffineTransform& b) {
  return a.A() == b.A() && a.B() == b.B() && a.C() == b.C() && a.D() == b.D() && a.E() == b.E() && a.F() == b.F();
}
// ---- everything recorded, as one number
void Mixh(uint64_t& h, const void* p, size_t n) { h = Mix(h ^ HashBytes(p, n)); }
void DigestShader(const SkShader* s, uint64_t& h) {
  if (!s) { h = Mix(h ^ 17); return; }
  h = Mix(h ^ s->kind ^ uint64_t(s->tx) << 8 ^ uint64_t(s->ty) << 16 ^ uint64_t(s->mode) << 24);
  for (int i = 0; i < 9; ++i) { float f = s->matrix[i]; Mixh(h, &f, 4); }
  if (s->image) {
    h = Mix(h ^ s->image->info.w ^ s->image->info.h << 10 ^ s->image->info.at << 20);
    Mixh(h, s->image->pixels.data(), s->image->pixels.size());
    if (s->image->info.cs) h = Mix(h ^ s->image->info.cs->tf ^ s->image->info.cs->gamut << 4);
  }
  if (s->kind != SkShader::kImage) DigestShader(s->a.get(), h);
  if (s->kind == SkShader::kBlend) DigestShader(s->b.get(), h);
}
uint64_t Digest(const std::vector<SkCanvas::Command>& cs) {
  uint64_t h = cs.size();
  for (const auto& c : cs) {
    h = Mix(h ^ c.kind);
    for (int i = 0; i < 16; ++i) { float f = c.matrix.rc(i / 4, i % 4); Mixh(h, &f, 4); }
    DigestShader(c.paint.shader.get(), h);
    Mixh(h, &c.paint.color, sizeof c.paint.color);
    h = Mix(h ^ c.paint.space_tf ^ c.paint.space_gamut << 4 ^ c.paint.aa << 8 ^ c.paint.style << 9 ^ (c.paint.blender ? int(c.paint.blender->mode) + 1 : 0) << 12);
    if (c.kind == 'p') {
      h = Mix(h ^ uint64_t(c.path.fill));
      for (const auto& v : c.path.v) { h = Mix(h ^ v.k); Mixh(h, &v.x, 4); Mixh(h, &v.y, 4); }
      continue;
    }
    h = Mix(h ^ (c.blender ? int(c.blender->mode) + 1 : 0));
    if (!c.mesh.isValid()) continue;
    Mixh(h, c.mesh.spec->key.data(), c.mesh.spec->key.size());
    Mixh(h, c.mesh.vb->bytes.data(), c.mesh.vb->bytes.size());
    Mixh(h, c.mesh.ib->bytes.data(), c.mesh.ib->bytes.size());
    h = Mix(h ^ c.mesh.vcount ^ c.mesh.icount << 20 ^ c.mesh.voff << 40 ^ c.mesh.ioff << 50);
    if (c.mesh.uniforms) Mixh(h, c.mesh.uniforms->bytes(), c.mesh.uniforms->size());
    Mixh(h, &c.mesh.bounds, sizeof c.mesh.bounds);
  }
  return h;
}

// ================================ the world ===========================================================================
jmp_buf* g_jmp = nullptr;
bool g_may_stop = false;  // an injected failure that the renderer may answer with a CHECK
void OnCheck(const std::string& m) {
  if (!g_jmp || !g_may_stop || SkFake::fired_vertex_buffer + SkFake::fired_index_buffer == 0) return;
  Trace("stopped: %s", m.c_str());
  longjmp(*g_jmp, 1);
}
struct WorldStopped {};

struct Rend {
  std::unique_ptr<SkiaRenderer> r;
  std::shared_ptr<Store> store;
  std::set<std::string> loaded;
};
struct Draw {
  SkiaRenderer::Drawable d;
  Expect x;
};
struct Kept {
  std::shared_ptr<SkCanvas> canvas;
  uint64_t digest;
};
struct Fin {
  Stroke s;
  RawColor color;
};

struct World {
  Mode mode;
  const Script& sc;
  std::vector<Brush> brushes;
  std::vector<RawColor> colors;
  Live live;
  RawColor live_color{0, 0, 1, 1, false, false};
  bool started = false;
  sk_sp<GrDirectContext> ctx = sk_make_sp<GrDirectContext>();
  std::vector<Rend> rends;
  std::vector<Draw> draws;
  std::vector<Fin> fins;
  std::vector<Kept> kept;

  World(Mode m, const Script& s, uint64_t seed) : mode(m), sc(s) {
    Rng r(seed ^ 77);
    for (const Brush& b : sc.brushes) {
      brushes.push_back(b);
      colors.push_back(RandomColor(r));
      brushes.back().SetColor(ToInk(colors.back()));
    }
    rends.push_back(NewRend(r));
  }
  Rend NewRend(Rng& r) {
    Rend x;
    if (!r.P(0.15)) x.store = std::make_shared<Store>();
    x.r = std::make_unique<SkiaRenderer>(x.store);
    return x;
  }
  AffineTransform Matrix(Rng& r) {
    if (r.P(0.1)) return AffineTransform::Identity();
    if (r.P(0.08) && !draws.empty()) return draws[r.Below(draws.size())].x.m;
    double s = r.P(0.5) ? 1 : r.LogUni(0.02, 50), t = r.P(0.5) ? 0 : r.Uni(-3.2, 3.2), sh = r.P(0.7) ? 0 : r.Uni(-1, 1), fy = r.P(0.2) ? -1 : r.P(0.2) ? r.Uni(0.3, 3) : 1;
    double a = s * std::cos(t), b = -s * std::sin(t), d = s * std::sin(t), e = s * std::cos(t);
    if (r.P(0.03) && mode != kAntialias) fy = 0;  // collapsed onto a line
    b = b * fy + sh * a;
    e = e * fy + sh * d;
    return AffineTransform(float(a), float(b), float(r.Uni(-100, 100)), float(d), float(e), float(r.Uni(-100, 100)));
  }
  // Calls `fn` (a renderer call that may meet injected failures) and judges its status. True: it succeeded.
  template <class S> bool Call(Rend& rd, bool gpu, const char* what, S fn) {
    SkFake::ClearFired();
    if (rd.store) rd.store->fired = 0;
    jmp_buf jb;
    g_jmp = &jb;
    g_may_stop = true;
    absl::Status st;
    bool stopped = setjmp(jb) != 0;
    if (!stopped) st = fn();
    g_jmp = nullptr;
    g_may_stop = false;
    if (stopped) {
      R.Count("fault.gpu-buffer");
      R.Nontrivial();
      throw WorldStopped{};
    }
    R.Check();
    int sf = rd.store ? rd.store->fired : 0;
    int fb = SkFake::fired_vertex_buffer + SkFake::fired_index_buffer;
    if (sf) R.Count("fault.texture-store"), R.Nontrivial();
    if (SkFake::fired_alloc) R.Count("fault.pixel-memory"), R.Nontrivial();
    if (SkFake::fired_mesh) R.Count("fault.mesh-creation"), R.Nontrivial();
    if (fb) R.Count("fault.gpu-buffer"), R.Nontrivial();
    bool any = sf || SkFake::Fired();
    Trace("  %s -> %s%s", what, absl::StrCat(st).c_str(), any ? " (failures injected)" : "");
    if (any && st.ok()) Fail("failure-hidden", "%s reported success although a step it needs failed", what);
    if (sf && st != (sf == kStoreBadSize ? st : rd.store->last)) Fail("failure-status", "%s: the texture store failed with %s, reported %s", what, absl::StrCat(rd.store->last).c_str(), absl::StrCat(st).c_str());
    if (sf == kStoreBadSize && st.code() != absl::StatusCode::kInvalidArgument) Fail("failure-status", "%s: malformed bitmap reported as %s", what, absl::StrCat(st).c_str());
    if (!sf && !fb && SkFake::fired_mesh && st.code() != absl::StatusCode::kInvalidArgument) Fail("failure-status", "%s: a mesh failure is reported as %s", what, absl::StrCat(st).c_str());
    last_status = absl::StrCat(st);
    return st.ok();
  }
  std::string last_status;
  double sim_end = 0;
  // Textures the renderer needs for these coats, in order; what the call must return when nothing is injected.
  bool MustWork(const Rend& rd, const Expect& x) const {
    if (rd.store) return true;
    for (const ECoat& e : x.coats) if (!e.cpu && !e.tris.empty() && !e.paint.texture_layers.empty()) return false;
    return true;
  }
  void CheckCalls(const Rend& rd, long before, const std::vector<std::string>& need, const char* what) {
    if (!rd.store) return;
    size_t missing = 0;
    std::set<std::string> u(need.begin(), need.end());
    for (const auto& s : u) missing += !rd.loaded.count(s);
    if (rd.store->calls - before > long(missing)) Fail("texture-reloaded", "%s asked the store %ld times; %zu textures were not loaded yet", what, rd.store->calls - before, missing);
  }
  static std::vector<std::string> Needs(const Expect& x) {
    std::vector<std::string> v;
    for (const ECoat& e : x.coats) if (!e.cpu && !e.tris.empty()) for (const auto& l : e.paint.texture_layers) v.push_back(absl::StrCat(l.color_texture_uri));
    return v;
  }
  void Keep(std::shared_ptr<SkCanvas> c) {
    kept.push_back({c, Digest(c->commands)});
    if (kept.size() > 6) { CheckKept(kept.front()); kept.erase(kept.begin()); }
  }
  void CheckKept(const Kept& k) {
    R.Check();
    if (Digest(k.canvas->commands) != k.digest) Fail("recording-changed", "what a canvas recorded changed after a later operation");
  }
  template <class Obj> void Render(Rend& rd, const Obj& obj, const Expect& x, bool gpu, bool direct, uint64_t seed) {
    GrDirectContext* g = gpu ? ctx.get() : nullptr;
    long before = rd.store ? rd.store->calls : 0;
    std::vector<std::string> need = Needs(x);
    auto canvas = std::make_shared<SkCanvas>();
    canvas->setMatrix(SkM44(9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9));
    SkiaRenderer::Drawable made;
    bool ok = Call(rd, gpu, direct ? "Draw" : "CreateDrawable", [&]() -> absl::Status {
      if (direct) return rd.r->Draw(g, obj, x.m, *canvas);
      auto d = rd.r->CreateDrawable(g, obj, x.m);
      if (d.ok()) made = *std::move(d);
      return d.status();
    });
    CheckCalls(rd, before, need, direct ? "Draw" : "CreateDrawable");
    bool any = (rd.store && rd.store->fired) || SkFake::Fired();
    if (!ok) {
      R.Count("op.render-refused");
      if (!canvas->commands.empty()) Fail("failed-draw-drew", "a failed Draw left %zu commands on the canvas", canvas->commands.size());
      if (!any) {
        if (MustWork(rd, x)) Fail("refused", "nothing failed, but the renderer refused to draw: %s", last_status.c_str());
      }
      // and the failure leaves no trace: once it is over, the same call works
      if (any && mode == kFaults) {
        int all = rd.store ? rd.store->all : 0;
        std::map<std::string, int> f = rd.store ? rd.store->fault : std::map<std::string, int>();
        Heal(rd);
        canvas = std::make_shared<SkCanvas>();
        ok = Call(rd, gpu, "Draw (again)", [&] { return rd.r->Draw(g, obj, x.m, *canvas); });
        if (!ok && MustWork(rd, x)) Fail("not-recovered", "the renderer keeps failing after the failure is over");
        if (rd.store) rd.store->all = all, rd.store->fault = f;
        if (ok) {
          for (const auto& s : need) rd.loaded.insert(s);
          CheckShow(mode, x, *canvas, seed);
          Keep(canvas);
        }
      }
      return;
    }
    if (mode != kFaults) for (const ECoat& e : x.coats) if (!e.tris.empty() || !e.outlines.empty()) R.Nontrivial();
    if (!MustWork(rd, x)) Fail("store-missing", "a textured stroke was drawn without a texture store");
    for (const auto& s : need) rd.loaded.insert(s);
    R.Count("op.render");
    if (!direct) {
      if (!SameT(made.ObjectToCanvas(), x.m)) Fail("drawable-transform", "ObjectToCanvas differs from the one the drawable was created with");
      draws.push_back({std::move(made), x});
      if (draws.size() > 7) draws.erase(draws.begin());
      if (seed % 3 == 0) return;
      int keep = SkFake::fail_mesh;
      SkFake::fail_mesh = 0;
      draws.back().d.Draw(*canvas);
      SkFake::fail_mesh = keep;
    }
    CheckShow(mode, x, *canvas, seed);
    if (mode == kFaults) {  // a renderer's history makes no difference
      SkiaRenderer fresh(rd.store ? std::make_shared<Store>() : nullptr);
      SkCanvas c2;
      int sv[4] = {SkFake::fail_alloc, SkFake::fail_vertex_buffer, SkFake::fail_index_buffer, SkFake::fail_mesh};
      SkFake::Calm();
      absl::Status st = fresh.Draw(g, obj, x.m, c2);
      SkFake::fail_alloc = sv[0], SkFake::fail_vertex_buffer = sv[1], SkFake::fail_index_buffer = sv[2], SkFake::fail_mesh = sv[3];
      R.Check();
      if (!st.ok()) Fail("fresh-refused", "a new renderer refuses what a used one draws: %s", absl::StrCat(st).c_str());
      if (Digest(c2.commands) != Digest(canvas->commands)) Fail("history-dependent", "a new renderer draws the same object differently");
    }
    R.Mixin(Digest(canvas->commands));
    Keep(canvas);
  }
  void Heal(Rend& rd) {
    SkFake::Calm();
    if (rd.store) rd.store->all = kStoreOk, rd.store->fault.clear();
  }
  void RenderSomething(uint64_t seed) {
    Rng r(seed);
    Rend& rd = rends[r.Below(rends.size())];
    bool gpu = r.P(mode == kAntialias ? 1 : 0.75), direct = r.P(0.45);
    if (SkFake::fail_mesh > 0) direct = false;  // a mesh is valid or not; it does not become invalid between creation and drawing
    AffineTransform m = Matrix(r);
    size_t which = r.Below(fins.size() + 2);
    if (which < fins.size()) {
      Expect x = ExpectStroke(fins[which].s, !gpu, fins[which].color, m);
      Render(rd, fins[which].s, x, gpu, direct, seed);
    } else {
      Expect x = ExpectLive(live.get(), !gpu, live_color, m);
      Render(rd, live.get(), x, gpu, direct, seed);
    }
  }
  void AddFin(Stroke s, const RawColor& c) {
    fins.push_back({std::move(s), c});
    if (fins.size() > 5) fins.erase(fins.begin());
  }
  // A stroke of several meshes per coat, put together from those of others (as one read from a file may be).
  void Compose(Rng& r) {
    if (fins.size() < 2) return;
    const Fin& a = fins[r.Below(fins.size())];
    const PartitionedMesh& sa = a.s.GetShape();
    if (sa.RenderGroupCount() == 0) return;
    std::vector<std::vector<Mesh>> store(sa.RenderGroupCount());
    for (uint32_t g = 0; g < sa.RenderGroupCount(); ++g) {
      auto own = sa.RenderGroupMeshes(g);
      store[g].assign(own.begin(), own.end());
      for (const Fin& b : fins) {
        const PartitionedMesh& sb = b.s.GetShape();
        if (&b == &a || sb.RenderGroupCount() <= g || sb.RenderGroupMeshes(g).empty() || !r.P(0.7)) continue;
        for (const Mesh& m : sb.RenderGroupMeshes(g))
          if (store[g].empty() || m.Format() == store[g][0].Format()) store[g].push_back(m);
      }
      if (r.P(0.3) && store[g].size() > 1) std::reverse(store[g].begin(), store[g].end());
    }
    std::vector<PartitionedMesh::MeshGroup> groups;
    std::vector<std::vector<std::vector<PartitionedMesh::VertexIndexPair>>> outs(store.size());
    std::vector<std::vector<absl::Span<const PartitionedMesh::VertexIndexPair>>> spans(store.size());
    for (size_t g = 0; g < store.size(); ++g) {
      for (size_t k = 0; k < store[g].size(); ++k) {
        uint32_t n = std::min<uint32_t>(store[g][k].VertexCount(), 4);
        std::vector<PartitionedMesh::VertexIndexPair> o;
        for (uint32_t v = 0; v < n; ++v) o.push_back({.mesh_index = uint16_t(k), .vertex_index = uint16_t(v)});
        if (k && r.P(0.5)) o.push_back({.mesh_index = 0, .vertex_index = 0});
        outs[g].push_back(o);
      }
      for (const auto& o : outs[g]) spans[g].push_back(o);
      groups.push_back({.meshes = store[g], .outlines = spans[g]});
    }
    auto shape = PartitionedMesh::FromMeshGroups(groups);
    if (!shape.ok()) return;
    R.Count("op.composed-shape");
    AddFin(Stroke(a.s.GetBrush(), a.s.GetInputs(), *shape), a.color);
  }
  void Aux(const Op& op) {
    uint64_t seed = uint64_t(op.A(0));
    Rng r(seed ^ 0x5151);
    const std::string& k = op.kind;
    if (k == "draw") {
      RenderSomething(seed);
    } else if (k == "rnew") {
      if (r.P(0.5) && rends.size() > 1) rends.erase(rends.begin() + r.Below(rends.size()));  // its drawables live on
      if (rends.size() < 3) rends.push_back(NewRend(r));
    } else if (k == "rmove") {
      Rend& rd = rends[r.Below(rends.size())];
      R.Count("fault.move");
      if (r.P(0.5)) {
        rd.r = std::make_unique<SkiaRenderer>(std::move(*rd.r));
      } else {
        auto n = std::make_unique<SkiaRenderer>(r.P(0.5) ? std::make_shared<Store>() : nullptr);
        *n = std::move(*rd.r);
        rd.r = std::move(n);
      }
    } else if (k == "drw") {
      if (draws.empty()) return;
      size_t i = r.Below(draws.size());
      switch (r.Below(7)) {
        case 0: {
          Draw c = draws[i];  // a copy; one of the two goes on
          draws.push_back(std::move(c));
          if (draws.size() > 7) draws.erase(draws.begin());
          break;
        }
        case 1: {
          if (draws[i].x.coats.empty() || !draws[i].d.HasBrushColor()) {
            for (const ECoat& e : draws[i].x.coats) if (e.cpu ? !e.outlines.empty() : !e.tris.empty()) Fail("no-brush-color", "a drawable that draws something has no brush colour");
            break;
          }
          RawColor c = RandomColor(r);
          draws[i].d.SetBrushColor(ToInk(c));
          draws[i].x.color = c;
          break;
        }
        case 2: {
          AffineTransform m = Matrix(r);
          draws[i].d.SetObjectToCanvas(m);
          draws[i].x.m = m;
          break;
        }
        case 3: draws.erase(draws.begin() + i); return;
        case 4: {
          size_t j = r.Below(draws.size());
          if (r.P(0.5)) { Draw t = std::move(draws[i]); draws[i] = draws[j]; draws[j] = std::move(t); }
          else draws[j] = draws[i];
          break;
        }
        default: break;
      }
      if (draws.empty()) return;
      i = std::min(i, draws.size() - 1);
      auto canvas = std::make_shared<SkCanvas>();
      int keep = SkFake::fail_mesh;
      SkFake::fail_mesh = 0;
      draws[i].d.Draw(*canvas);
      SkFake::fail_mesh = keep;
      R.Count("op.drawable-shown");
      if (!SameT(draws[i].d.ObjectToCanvas(), draws[i].x.m)) Fail("drawable-transform", "ObjectToCanvas is not what was set");
      CheckShow(mode, draws[i].x, *canvas, seed);
      Keep(canvas);
    } else if (k == "fin1") {
      size_t b = r.Below(brushes.size());
      std::vector<In> v;
      if (fins.empty() || r.P(0.4)) {
        PathCfg c = RandomPathCfg(r, 2, 12);
        c.scale = brushes[b].GetSize() * r.LogUni(0.3, 20);
        v = MakePath(r, c);
        FitPath(v, brushes[b]);
        auto in = MakeBatch(v);
        if (!in) return;
        AddFin(Stroke(brushes[b], *in), colors[b]);
      } else {
        Fin& f = fins[r.Below(fins.size())];
        if (r.P(0.5)) {
          f.color = RandomColor(r);
          f.s.SetBrushColor(ToInk(f.color));
        } else if (r.P(0.4)) {  // the same stroke with a brush that differs in its size or in one property of one layer
          std::vector<ink::BrushCoat> coats(f.s.GetBrush().GetCoats().begin(), f.s.GetBrush().GetCoats().end());
          double size = f.s.GetBrush().GetSize();
          if (coats.empty() || r.P(0.3)) {
            size *= r.LogUni(0.3, 3);
          } else {
            auto& ls = coats[r.Below(coats.size())].paint.texture_layers;
            if (ls.empty()) ls.push_back(MakeLayer(r.Below(1000000), r.P(0.5)));
            size_t at = r.Below(ls.size());
            if (r.P(0.15)) ls.push_back(ls[at]);
            else if (r.P(0.15)) std::swap(ls[at], ls[0]);
            else VaryLayer(ls[at], r.Int(1, kLayerVariations));
          }
          auto fam = ink::BrushFamily::Create(coats, std::nullopt, f.s.GetBrush().GetFamily().GetInputModel());
          if (!fam.ok()) return;
          auto nb = Brush::Create(*fam, ToInk(f.color), float(size), std::min(float(size), f.s.GetBrush().GetEpsilon()));
          if (!nb.ok()) return;
          R.Count("op.varied-brush");
          AddFin(Stroke(*nb, f.s.GetInputs(), f.s.GetShape()), f.color);
        } else if (r.P(0.5)) {
          AddFin(f.s, f.color);  // a copy
        } else {
          Stroke n(f.s.GetBrush());  // no inputs
          AddFin(n, f.color);
        }
      }
    } else if (k == "comp") {
      Compose(r);
    } else if (k == "flt") {
      if (mode != kFaults) return;
      Rend& rd = rends[r.Below(rends.size())];
      switch (r.Below(7)) {
        case 0: case 1: if (rd.store) rd.store->all = 1 + int(r.Below(3)); break;
        case 2: if (rd.store) rd.store->fault[std::string("ink://example/texture:t-") + char('a' + r.Below(4))] = 1 + int(r.Below(3)); break;
        case 3: SkFake::fail_alloc = r.Int(1, 3); break;
        case 4: SkFake::fail_mesh = r.Int(1, 8); break;
        case 5: if (r.P(0.4)) (r.P(0.5) ? SkFake::fail_vertex_buffer : SkFake::fail_index_buffer) = r.Int(1, 8); break;
        default: Heal(rd); break;
      }
    }
  }
  void Step(const Op& op, uint64_t n) {
    const std::string& k = op.kind;
    if (k == "draw" || k == "rnew" || k == "rmove" || k == "drw" || k == "fin1" || k == "comp" || k == "flt") {
      Trace("%s %g", k.c_str(), op.A(0));
      Aux(op);
    } else if (k == "snap") {
      if (live.get().GetBrush()) AddFin(live.get().CopyToStroke(op.A(0) ? ink::InProgressStroke::RetainAttributes::kAll : InProgressStroke::RetainAttributes::kUsedByThisBrush), live_color);
    } else {
      if (!sc.Usable(op)) return;
      if (k == "upd" && op.A(0) > sim_end && op.A(0) - sim_end < 60) {
        R.st.sim_seconds += op.A(0) - sim_end;
        sim_end = op.A(0);
      }
      if (k == "start") sim_end = 0;
      Outcome o = live.Apply(op, brushes);
      if (k == "start" || (k == "startself" && !started)) {
        live_color = colors[size_t(op.A(0)) % colors.size()];
        started = true;
      }
      if (k == "clr") started = false;
      R.Mixin(uint64_t(o));
    }
    R.State(Mix(HashBytes(k.data(), k.size()) ^ draws.size() << 3 ^ fins.size() << 7 ^ rends.size() << 11 ^ (live.get().GetBrush() ? live.get().BrushCoatCount() + 1 : 0) << 14 ^
                uint64_t(std::log2(1 + (started ? live.get().InputCount() : 0))) << 18 ^ (SkFake::fail_alloc > 0) << 25 ^ (SkFake::fail_mesh > 0) << 26 ^
                (rends[0].store ? rends[0].store->all : 9) << 28));
  }
};

Plan GenR(uint64_t seed, const char* prop, Mode mode) {
  SessionProfile f;
  f.sessions_max = 2;
  f.n_max = 16;
  f.p_invalid = 0.03;
  f.p_badclock = 0.03;
  f.p_snap = 0.1;
  f.p_move = 0.02;
  f.calls_outside = false;
  f.brush.max_coats = 3;
  Plan s = GenSession(seed, prop, f);
  Rng r(seed ^ 0xabcdef);
  Plan p;
  p.property = s.property;
  p.seed = s.seed;
  double px = r.Uni(0.1, 0.5), pf = mode == kFaults ? r.Uni(0.05, 0.4) : 0, ptex = r.U();
  auto sd = [&] { return double(r.Below(1u << 30)); };
  uint64_t pool[2] = {r.Below(1000000), r.Below(1000000)};
  double poolw = r.Below(2);
  for (Op& op : s.ops) {
    if (op.kind == "brush") {  // more textures than elsewhere
      std::vector<Group> g;
      auto tex = [&] {
        if (!r.P(ptex)) return;
        int n = r.Int(1, 3);
        double w = r.Below(2);
        for (int i = 0; i < n; ++i) {
          // some layers are the same in several brushes, or the same but for one property
          bool known = r.P(0.5);
          g.push_back({'t', {known ? double(pool[r.Below(2)]) : double(r.Below(1000000)), known ? poolw : w, r.P(0.5) ? 0 : double(r.Int(1, kLayerVariations))}});
        }
      };
      bool in = false;
      for (Group& q : op.g) {
        if (q.tag == 'c') { if (in) tex(); in = true; }
        if (q.tag != 't') g.push_back(q);
      }
      if (in) tex();
      op.g = g;
    }
    bool brush = op.kind == "brush";
    p.ops.push_back(op);
    if (brush) continue;
    if (r.P(pf)) p.Add("flt", {sd()});
    if (r.P(px)) p.Add("draw", {sd()});
    if (r.P(px * 0.7)) p.Add("drw", {sd()});
    if (r.P(px * 0.2)) p.Add("fin1", {sd()});
    if (r.P(px * 0.12)) p.Add("comp", {sd()});
    if (r.P(px * 0.1)) p.Add("rnew", {sd()});
    if (r.P(px * 0.1)) p.Add("rmove", {sd()});
  }
  for (int i = 0; i < 3; ++i) { p.Add("draw", {sd()}); p.Add("drw", {sd()}); }
  return p;
}
Plan GenR01(uint64_t s) { return GenR(s, "R01", kFaults); }
Plan GenR02(uint64_t s) { return GenR(s, "R02", kFaithful); }
Plan GenR03(uint64_t s) { return GenR(s, "R03", kAntialias); }

void ExecR(const Plan& plan, Mode mode) {
  g_check_hook = OnCheck;
  SkFake::Calm();
  SkFake::ClearFired();
  Script sc(plan);
  long live0 = SkFake::live;
  bool stopped = false;
  {
    auto w = std::make_unique<World>(mode, sc, plan.seed);
    uint64_t n = 0;
    try {
      for (const Op* op : sc.ops) {
        R.step = int(n);
        R.st.steps++;
        w->Step(*op, n++);
      }
      for (const Kept& k : w->kept) w->CheckKept(k);
    } catch (WorldStopped&) {
      stopped = true;
    }
  }
  SkFake::Calm();
  R.Check();
  if (!stopped && SkFake::live != live0) Fail("skia-objects", "%ld Skia objects alive after everything was released", SkFake::live - live0);
}
void ExecR01(const Plan& p) { ExecR(p, kFaults); }
void ExecR02(const Plan& p) { ExecR(p, kFaithful); }
void ExecR03(const Plan& p) { ExecR(p, kAntialias); }
}  // namespace

const std::vector<PropertyDef>& Properties() {
  static const std::vector<PropertyDef> all = {{"R01", GenR01, ExecR01}, {"R02", GenR02, ExecR02}, {"R03", GenR03, ExecR03}};
  return all;
}
}  // namespace dst
