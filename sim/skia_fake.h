// Stand-in for the parts of Skia that ink's native renderer uses: it records what is drawn, validates what Skia
// validates, and can be told to fail. Shaders are run by the interpreter in skia_sksl.
#ifndef DST_SKIA_FAKE_H_
#define DST_SKIA_FAKE_H_
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <memory>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

#include "skia_sksl.h"

// ---- fault switches and accounting -------------------------------------------------------------------
struct SkFake {
  // countdown until a failure (0: off); `fired` names the last failure
  static inline int fail_alloc = 0, fail_vertex_buffer = 0, fail_index_buffer = 0, fail_mesh = 0;
  static inline int fired_alloc = 0, fired_vertex_buffer = 0, fired_index_buffer = 0, fired_mesh = 0;
  static inline long live = 0;       // reference-counted objects alive
  static inline long meshes_made = 0, buffers_made = 0, images_made = 0, specs_made = 0;
  static bool Tick(int& c, int& fired) {
    if (c <= 0 || --c > 0) return false;
    ++fired;
    return true;
  }
  static void Calm() { fail_alloc = fail_vertex_buffer = fail_index_buffer = fail_mesh = 0; }
  static void ClearFired() { fired_alloc = fired_vertex_buffer = fired_index_buffer = fired_mesh = 0; }
  static int Fired() { return fired_alloc + fired_vertex_buffer + fired_index_buffer + fired_mesh; }
};

using SkScalar = float;
using SkColor = uint32_t;
using U8CPU = unsigned;
constexpr SkColor SK_ColorWHITE = 0xFFFFFFFF, SK_ColorBLACK = 0xFF000000, SK_ColorTRANSPARENT = 0;

class SkRefCnt {
 public:
  SkRefCnt() { ++SkFake::live; }
  SkRefCnt(const SkRefCnt&) = delete;
  SkRefCnt& operator=(const SkRefCnt&) = delete;
  virtual ~SkRefCnt() { --SkFake::live; }
  bool unique() const { return n_ == 1; }
  void ref() const { ++n_; }
  void unref() const { if (--n_ == 0) delete this; }
  int use_count() const { return n_; }

 private:
  mutable int n_ = 1;
};
template <class T> class sk_sp {
 public:
  using element_type = T;
  constexpr sk_sp() = default;
  constexpr sk_sp(std::nullptr_t) {}
  explicit sk_sp(T* p) : p_(p) {}
  sk_sp(const sk_sp& o) : p_(o.p_) { if (p_) p_->ref(); }
  sk_sp(sk_sp&& o) : p_(o.p_) { o.p_ = nullptr; }
  template <class U, class = std::enable_if_t<std::is_convertible_v<U*, T*>>> sk_sp(const sk_sp<U>& o) : p_(o.get()) { if (p_) p_->ref(); }
  template <class U, class = std::enable_if_t<std::is_convertible_v<U*, T*>>> sk_sp(sk_sp<U>&& o) : p_(o.release()) {}
  ~sk_sp() { if (p_) p_->unref(); }
  sk_sp& operator=(std::nullptr_t) { reset(); return *this; }
  sk_sp& operator=(const sk_sp& o) { if (this != &o) { sk_sp t(o); swap(t); } return *this; }
  sk_sp& operator=(sk_sp&& o) { sk_sp t(std::move(o)); swap(t); return *this; }
  template <class U, class = std::enable_if_t<std::is_convertible_v<U*, T*>>> sk_sp& operator=(const sk_sp<U>& o) { sk_sp t(o); swap(t); return *this; }
  template <class U, class = std::enable_if_t<std::is_convertible_v<U*, T*>>> sk_sp& operator=(sk_sp<U>&& o) { sk_sp t(std::move(o)); swap(t); return *this; }
  T& operator*() const { return *p_; }
  T* operator->() const { return p_; }
  explicit operator bool() const { return p_ != nullptr; }
  T* get() const { return p_; }
  void reset(T* p = nullptr) { T* o = p_; p_ = p; if (o) o->unref(); }
  [[nodiscard]] T* release() { T* p = p_; p_ = nullptr; return p; }
  void swap(sk_sp& o) { std::swap(p_, o.p_); }

 private:
  T* p_ = nullptr;
};
template <class A, class B> bool operator==(const sk_sp<A>& a, const sk_sp<B>& b) { return a.get() == b.get(); }
template <class A, class B> bool operator!=(const sk_sp<A>& a, const sk_sp<B>& b) { return a.get() != b.get(); }
template <class A> bool operator==(const sk_sp<A>& a, std::nullptr_t) { return !a; }
template <class A> bool operator!=(const sk_sp<A>& a, std::nullptr_t) { return !!a; }
template <class A> bool operator==(std::nullptr_t, const sk_sp<A>& a) { return !a; }
template <class A> bool operator!=(std::nullptr_t, const sk_sp<A>& a) { return !!a; }
template <class A> std::string& operator<<(std::string& o, const sk_sp<A>&) { return o; }
template <class T, class... A> sk_sp<T> sk_make_sp(A&&... a) { return sk_sp<T>(new T(std::forward<A>(a)...)); }
template <class T> sk_sp<T> sk_ref_sp(T* p) { if (p) p->ref(); return sk_sp<T>(p); }

template <class T> class SkSpan {
 public:
  constexpr SkSpan() = default;
  constexpr SkSpan(T* p, size_t n) : p_(p), n_(n) {}
  template <class C, class = std::enable_if_t<std::is_convertible_v<decltype(std::declval<C&>().data()), T*>>> constexpr SkSpan(C&& c) : p_(c.data()), n_(c.size()) {}
  constexpr T* begin() const { return p_; }
  constexpr T* end() const { return p_ + n_; }
  constexpr T* data() const { return p_; }
  constexpr size_t size() const { return n_; }
  constexpr bool empty() const { return n_ == 0; }
  constexpr T& operator[](size_t i) const { return p_[i]; }

 private:
  T* p_ = nullptr;
  size_t n_ = 0;
};

class SkString {
 public:
  SkString() = default;
  explicit SkString(const char* s) : s_(s ? s : "") {}
  SkString(const char* s, size_t n) : s_(s, n) {}
  explicit SkString(std::string_view s) : s_(s) {}
  explicit SkString(const std::string& s) : s_(s) {}
  const char* data() const { return s_.data(); }
  const char* c_str() const { return s_.c_str(); }
  size_t size() const { return s_.size(); }
  bool isEmpty() const { return s_.empty(); }
  bool operator==(const SkString& o) const { return s_ == o.s_; }

 private:
  std::string s_;
};

class SkData : public SkRefCnt {
 public:
  const void* data() const { return b_.data(); }
  void* writable_data() { return b_.data(); }
  const uint8_t* bytes() const { return b_.data(); }
  size_t size() const { return b_.size(); }
  bool isEmpty() const { return b_.empty(); }
  static constexpr uint8_t kPoison = 0xCB;
  static sk_sp<SkData> MakeUninitialized(size_t n) { auto d = sk_sp<SkData>(new SkData); d->b_.assign(n, kPoison); return d; }
  static sk_sp<SkData> MakeZeroInitialized(size_t n) { auto d = sk_sp<SkData>(new SkData); d->b_.assign(n, 0); return d; }
  static sk_sp<SkData> MakeWithCopy(const void* p, size_t n) {
    auto d = sk_sp<SkData>(new SkData);
    d->b_.assign(static_cast<const uint8_t*>(p), static_cast<const uint8_t*>(p) + n);
    return d;
  }
  static sk_sp<SkData> MakeEmpty() { return sk_sp<SkData>(new SkData); }

 private:
  std::vector<uint8_t> b_;
};

// ---- plain values ----------------------------------------------------------------------------------------
struct SkRect {
  float fLeft = 0, fTop = 0, fRight = 0, fBottom = 0;
  static SkRect MakeLTRB(float l, float t, float r, float b) { return {l, t, r, b}; }
  static SkRect MakeXYWH(float x, float y, float w, float h) { return {x, y, x + w, y + h}; }
  static SkRect MakeEmpty() { return {}; }
};
struct SkISize { int fWidth = 0, fHeight = 0; int width() const { return fWidth; } int height() const { return fHeight; } };
struct SkPoint { float fX = 0, fY = 0; };
struct SkColor4f { float fR = 0, fG = 0, fB = 0, fA = 0; };
class SkM44 {
 public:
  SkM44() : SkM44(1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1) {}
  SkM44(float m0, float m4, float m8, float m12, float m1, float m5, float m9, float m13, float m2, float m6, float m10, float m14, float m3, float m7, float m11, float m15)
      : r_{{m0, m4, m8, m12}, {m1, m5, m9, m13}, {m2, m6, m10, m14}, {m3, m7, m11, m15}} {}
  float rc(int r, int c) const { return r_[r][c]; }

 private:
  float r_[4][4];
};
class SkMatrix {
 public:
  SkMatrix() : m_{1, 0, 0, 0, 1, 0, 0, 0, 1} {}
  static SkMatrix MakeAll(float a, float b, float c, float d, float e, float f, float g, float h, float i) { SkMatrix m; float v[] = {a, b, c, d, e, f, g, h, i}; memcpy(m.m_, v, sizeof v); return m; }
  static SkMatrix I() { return {}; }
  static SkMatrix Scale(float x, float y) { return MakeAll(x, 0, 0, 0, y, 0, 0, 0, 1); }
  static SkMatrix Translate(float x, float y) { return MakeAll(1, 0, x, 0, 1, y, 0, 0, 1); }
  static SkMatrix Concat(const SkMatrix& a, const SkMatrix& b) {
    SkMatrix r;
    for (int i = 0; i < 3; ++i) for (int k = 0; k < 3; ++k) { double s = 0; for (int j = 0; j < 3; ++j) s += double(a.m_[i * 3 + j]) * b.m_[j * 3 + k]; r.m_[i * 3 + k] = float(s); }
    return r;
  }
  float operator[](int i) const { return m_[i]; }
  float get(int i) const { return m_[i]; }

 private:
  float m_[9];
};

enum SkAlphaType : int { kUnknown_SkAlphaType, kOpaque_SkAlphaType, kPremul_SkAlphaType, kUnpremul_SkAlphaType };
enum SkColorType : int { kUnknown_SkColorType, kAlpha_8_SkColorType, kRGB_565_SkColorType, kARGB_4444_SkColorType, kRGBA_8888_SkColorType, kBGRA_8888_SkColorType };
enum class SkTileMode { kClamp, kRepeat, kMirror, kDecal };
enum class SkBlendMode {
  kClear, kSrc, kDst, kSrcOver, kDstOver, kSrcIn, kDstIn, kSrcOut, kDstOut, kSrcATop, kDstATop, kXor, kPlus, kModulate, kScreen, kOverlay, kDarken, kLighten,
  kColorDodge, kColorBurn, kHardLight, kSoftLight, kDifference, kExclusion, kMultiply, kHue, kSaturation, kColor, kLuminosity
};
struct skcms_TransferFunction { int id; };
struct skcms_Matrix3x3 { int id; };
namespace SkNamedTransferFn { inline constexpr skcms_TransferFunction kSRGB{1}, kLinear{2}; }
namespace SkNamedGamut { inline constexpr skcms_Matrix3x3 kSRGB{1}, kDisplayP3{2}; }
class SkColorSpace : public SkRefCnt {
 public:
  int tf = 0, gamut = 0;
  static sk_sp<SkColorSpace> MakeRGB(const skcms_TransferFunction& t, const skcms_Matrix3x3& g) { auto c = sk_sp<SkColorSpace>(new SkColorSpace); c->tf = t.id; c->gamut = g.id; return c; }
  static sk_sp<SkColorSpace> MakeSRGB() { return MakeRGB(SkNamedTransferFn::kSRGB, SkNamedGamut::kSRGB); }
  static sk_sp<SkColorSpace> MakeSRGBLinear() { return MakeRGB(SkNamedTransferFn::kLinear, SkNamedGamut::kSRGB); }
};
class SkSamplingOptions {};

// ---- images -------------------------------------------------------------------------------------------------
class SkImageInfo {
 public:
  int w = 0, h = 0;
  SkColorType ct = kUnknown_SkColorType;
  SkAlphaType at = kUnknown_SkAlphaType;
  sk_sp<SkColorSpace> cs;
  static SkImageInfo Make(int w, int h, SkColorType ct, SkAlphaType at, sk_sp<SkColorSpace> cs = nullptr) { SkImageInfo i; i.w = w; i.h = h; i.ct = ct; i.at = at; i.cs = std::move(cs); return i; }
  int width() const { return w; }
  int height() const { return h; }
  int bytesPerPixel() const { return ct == kRGBA_8888_SkColorType || ct == kBGRA_8888_SkColorType ? 4 : ct == kAlpha_8_SkColorType ? 1 : ct == kUnknown_SkColorType ? 0 : 2; }
  size_t minRowBytes() const { return size_t(w) * bytesPerPixel(); }
  size_t computeMinByteSize() const { return h == 0 ? 0 : minRowBytes() * h; }
};
class SkImage : public SkRefCnt {
 public:
  SkImage(SkImageInfo i, std::vector<uint8_t> b) : info(std::move(i)), pixels(std::move(b)) { ++SkFake::images_made; }
  SkISize dimensions() const { return {info.w, info.h}; }
  int width() const { return info.w; }
  int height() const { return info.h; }
  const SkImageInfo info;
  const std::vector<uint8_t> pixels;
};
class SkBitmap {
 public:
  bool tryAllocPixels(const SkImageInfo& i) {
    if (SkFake::Tick(SkFake::fail_alloc, SkFake::fired_alloc)) return false;
    if (i.w < 0 || i.h < 0) return false;
    info_ = i;
    b_.assign(i.computeMinByteSize(), 0xAB);
    return true;
  }
  void* getPixels() const { return b_.empty() ? nullptr : const_cast<uint8_t*>(b_.data()); }
  void setImmutable() {}
  sk_sp<SkImage> asImage() const { return sk_sp<SkImage>(new SkImage(info_, b_)); }

 private:
  SkImageInfo info_;
  std::vector<uint8_t> b_;
};

// ---- shaders, blenders, paint, paths --------------------------------------------------------------------
class SkShader : public SkRefCnt {
 public:
  enum Kind { kImage, kLocal, kBlend } kind = kImage;
  sk_sp<SkImage> image;
  SkTileMode tx = SkTileMode::kClamp, ty = SkTileMode::kClamp;
  SkMatrix matrix;
  SkBlendMode mode = SkBlendMode::kSrcOver;
  sk_sp<SkShader> a, b;  // kLocal: a; kBlend: a = dst, b = src
  sk_sp<SkShader> makeWithLocalMatrix(const SkMatrix& m) const {
    auto s = sk_sp<SkShader>(new SkShader);
    s->kind = kLocal;
    s->matrix = m;
    s->a = sk_ref_sp(const_cast<SkShader*>(this));
    return s;
  }
};
namespace SkShaders {
inline sk_sp<SkShader> Image(sk_sp<SkImage> i, SkTileMode tx, SkTileMode ty, const SkSamplingOptions&, const SkMatrix* m = nullptr) {
  if (!i) return nullptr;
  auto s = sk_sp<SkShader>(new SkShader);
  s->image = std::move(i);
  s->tx = tx;
  s->ty = ty;
  if (m) s->matrix = *m;
  return s;
}
inline sk_sp<SkShader> Blend(SkBlendMode mode, sk_sp<SkShader> dst, sk_sp<SkShader> src) {
  if (!dst || !src) return nullptr;
  auto s = sk_sp<SkShader>(new SkShader);
  s->kind = SkShader::kBlend;
  s->mode = mode;
  s->a = std::move(dst);
  s->b = std::move(src);
  return s;
}
}  // namespace SkShaders
class SkBlender : public SkRefCnt {
 public:
  SkBlendMode mode;
  explicit SkBlender(SkBlendMode m) : mode(m) {}
  static sk_sp<SkBlender> Mode(SkBlendMode m) { return sk_sp<SkBlender>(new SkBlender(m)); }
};
class SkPaint {
 public:
  enum Style : uint8_t { kFill_Style, kStroke_Style, kStrokeAndFill_Style };
  void setShader(sk_sp<SkShader> s) { shader = std::move(s); }
  void setColor(SkColor c) { color = {((c >> 16) & 255) / 255.f, ((c >> 8) & 255) / 255.f, (c & 255) / 255.f, (c >> 24) / 255.f}; space_tf = 1; space_gamut = 1; }
  // kept as given; recorded together with the space it is in (null: sRGB)
  void setColor(const SkColor4f& c, const SkColorSpace* s = nullptr) { color = c; space_tf = s ? s->tf : 1; space_gamut = s ? s->gamut : 1; }
  void setColor4f(const SkColor4f& c, const SkColorSpace* s = nullptr) { setColor(c, s); }
  void setAntiAlias(bool b) { aa = b; }
  void setStyle(Style s) { style = s; }
  void setBlender(sk_sp<SkBlender> b) { blender = std::move(b); }
  void setBlendMode(SkBlendMode m) { blender = SkBlender::Mode(m); }
  void setAlphaf(float a) { color.fA = a; }
  SkColor4f color{0, 0, 0, 1};
  int space_tf = 1, space_gamut = 1;
  bool aa = false;
  Style style = kFill_Style;
  sk_sp<SkShader> shader;
  sk_sp<SkBlender> blender;
};
enum class SkPathFillType { kWinding, kEvenOdd, kInverseWinding, kInverseEvenOdd };
class SkPath {
 public:
  SkPath& moveTo(float x, float y) { v.push_back({'m', x, y}); return *this; }
  SkPath& lineTo(float x, float y) { v.push_back({'l', x, y}); return *this; }
  SkPath& moveTo(const SkPoint& p) { return moveTo(p.fX, p.fY); }
  SkPath& lineTo(const SkPoint& p) { return lineTo(p.fX, p.fY); }
  SkPath& close() { v.push_back({'z', 0, 0}); return *this; }
  void setFillType(SkPathFillType f) { fill = f; }
  void incReserve(int) {}
  bool isEmpty() const { return v.empty(); }
  struct Verb { char k; float x, y; };
  std::vector<Verb> v;
  SkPathFillType fill = SkPathFillType::kWinding;
};

// ---- meshes --------------------------------------------------------------------------------------------------
class GrDirectContext : public SkRefCnt {};
class SkRuntimeEffect {
 public:
  struct Uniform {
    enum class Type { kFloat, kFloat2, kFloat3, kFloat4, kFloat2x2, kFloat3x3, kFloat4x4, kInt, kInt2, kInt3, kInt4 };
    std::string_view name;
    size_t offset;
    Type type;
    int count;
    uint32_t flags;
  };
};
class SkMeshSpecification : public SkRefCnt {
 public:
  static constexpr size_t kMaxStride = 1024, kMaxAttributes = 8, kStrideAlignment = 4, kOffsetAlignment = 4, kMaxVaryings = 6;
  struct Attribute {
    enum class Type : uint32_t { kFloat, kFloat2, kFloat3, kFloat4, kUByte4_unorm, kLast = kUByte4_unorm };
    Type type;
    size_t offset;
    SkString name;
  };
  struct Varying {
    enum class Type : uint32_t { kFloat, kFloat2, kFloat3, kFloat4, kHalf, kHalf2, kHalf3, kHalf4, kLast = kHalf4 };
    Type type;
    SkString name;
  };
  using Uniform = SkRuntimeEffect::Uniform;
  struct Result { sk_sp<SkMeshSpecification> specification; SkString error; };
  static Result Make(SkSpan<const Attribute> attributes, size_t vertexStride, SkSpan<const Varying> varyings, const SkString& vs, const SkString& fs,
                     sk_sp<SkColorSpace> cs, SkAlphaType at);
  static Result Make(SkSpan<const Attribute> attributes, size_t vertexStride, SkSpan<const Varying> varyings, const SkString& vs, const SkString& fs) {
    return Make(attributes, vertexStride, varyings, vs, fs, SkColorSpace::MakeSRGB(), kPremul_SkAlphaType);
  }
  SkSpan<const Attribute> attributes() const { return attrs; }
  SkSpan<const Uniform> uniforms() const { return unis; }
  size_t uniformSize() const { return unis.empty() ? 0 : (unis.back().offset + Bytes(unis.back().type) + 3) / 4 * 4; }
  const Uniform* findUniform(std::string_view n) const { for (const Uniform& u : unis) if (u.name == n) return &u; return nullptr; }
  size_t stride() const { return stride_; }
  static size_t Bytes(Uniform::Type t);

  std::vector<Attribute> attrs;
  std::vector<Varying> varys;  // position first when it was not declared
  std::vector<Uniform> unis;
  std::vector<std::string> names;
  size_t stride_ = 0;
  sk_sp<SkColorSpace> space;
  SkAlphaType alpha = kPremul_SkAlphaType;
  std::string key;  // everything it was made of
  mutable sksl::Program vertex, fragment;
};
class SkMesh {
 public:
  class VertexBuffer : public SkRefCnt { public: std::vector<uint8_t> bytes; size_t size() const { return bytes.size(); } };
  class IndexBuffer : public SkRefCnt { public: std::vector<uint8_t> bytes; size_t size() const { return bytes.size(); } };
  enum class Mode { kTriangles, kTriangleStrip };
  struct ChildPtr {};
  struct Result;
  static Result MakeIndexed(sk_sp<SkMeshSpecification> spec, Mode mode, sk_sp<VertexBuffer> vb, size_t vcount, size_t voff, sk_sp<IndexBuffer> ib, size_t icount, size_t ioff,
                            sk_sp<const SkData> uniforms, SkSpan<ChildPtr> children, const SkRect& bounds);
  bool isValid() const { return spec != nullptr; }
  sk_sp<SkMeshSpecification> spec;
  Mode mode = Mode::kTriangles;
  sk_sp<VertexBuffer> vb;
  sk_sp<IndexBuffer> ib;
  size_t vcount = 0, voff = 0, icount = 0, ioff = 0;
  sk_sp<const SkData> uniforms;
  SkRect bounds;
};
struct SkMesh::Result { SkMesh mesh; SkString error; };
namespace SkMeshes {
sk_sp<SkMesh::VertexBuffer> MakeVertexBuffer(GrDirectContext*, const void* data, size_t size);
sk_sp<SkMesh::IndexBuffer> MakeIndexBuffer(GrDirectContext*, const void* data, size_t size);
inline sk_sp<SkMesh::VertexBuffer> MakeVertexBuffer(const void* data, size_t size) { return MakeVertexBuffer(nullptr, data, size); }
inline sk_sp<SkMesh::IndexBuffer> MakeIndexBuffer(const void* data, size_t size) { return MakeIndexBuffer(nullptr, data, size); }
}  // namespace SkMeshes

class SkCanvas {
 public:
  struct Command {
    char kind;  // m mesh, p path
    SkM44 matrix;
    SkMesh mesh;
    sk_sp<SkBlender> blender;
    SkPath path;
    SkPaint paint;
  };
  void setMatrix(const SkM44& m) { matrix_ = m; }
  SkM44 getLocalToDevice() const { return matrix_; }
  int save() { stack_.push_back(matrix_); return int(stack_.size()); }
  void restore() { if (!stack_.empty()) { matrix_ = stack_.back(); stack_.pop_back(); } }
  void drawMesh(const SkMesh& m, sk_sp<SkBlender> b, const SkPaint& p) { commands.push_back({'m', matrix_, m, std::move(b), {}, p}); }
  void drawPath(const SkPath& path, const SkPaint& p) { commands.push_back({'p', matrix_, {}, nullptr, path, p}); }
  std::vector<Command> commands;

 private:
  SkM44 matrix_;
  std::vector<SkM44> stack_;
};
#endif
