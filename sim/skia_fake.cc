#include "skia_fake.h"

#include <set>

namespace {
bool GoodName(const SkString& n) {
  if (n.isEmpty()) return false;
  std::string s = n.c_str();
  if (!isalpha((unsigned char)s[0]) && s[0] != '_') return false;
  for (char c : s) if (!isalnum((unsigned char)c) && c != '_') return false;
  return s.rfind("gl_", 0) != 0;
}
size_t AttrBytes(SkMeshSpecification::Attribute::Type t) {
  using T = SkMeshSpecification::Attribute::Type;
  switch (t) {
    case T::kFloat: return 4;
    case T::kFloat2: return 8;
    case T::kFloat3: return 12;
    case T::kFloat4: return 16;
    case T::kUByte4_unorm: return 4;
  }
  return 1 << 20;
}
sksl::Type AttrType(SkMeshSpecification::Attribute::Type t) {
  using T = SkMeshSpecification::Attribute::Type;
  if (t == T::kUByte4_unorm) return {'h', 4};
  return {'f', int(AttrBytes(t) / 4)};
}
sksl::Type VaryType(SkMeshSpecification::Varying::Type t) {
  int i = int(t);
  return i < 4 ? sksl::Type{'f', i + 1} : sksl::Type{'h', i - 3};
}
bool UniformType(sksl::Type t, SkMeshSpecification::Uniform::Type* o) {
  using T = SkMeshSpecification::Uniform::Type;
  if (t.base == 'f' || t.base == 'h') *o = T(int(T::kFloat) + t.n - 1);
  else if (t.base == 'i') *o = T(int(T::kInt) + t.n - 1);
  else if (t.base == 'm') *o = T(int(T::kFloat2x2) + t.n - 2);
  else return false;
  return true;
}
}  // namespace

size_t SkMeshSpecification::Bytes(Uniform::Type t) {
  static const size_t b[] = {4, 8, 12, 16, 16, 36, 64, 4, 8, 12, 16};
  return b[int(t)];
}

SkMeshSpecification::Result SkMeshSpecification::Make(SkSpan<const Attribute> attributes, size_t stride, SkSpan<const Varying> varyings, const SkString& vs, const SkString& fs,
                                                      sk_sp<SkColorSpace> cs, SkAlphaType at) {
  auto bad = [](std::string m) { return Result{nullptr, SkString(m)}; };
  if (attributes.empty()) return bad("At least 1 attribute is required.");
  if (attributes.size() > kMaxAttributes) return bad("A maximum of 8 attributes is allowed.");
  if (stride == 0 || stride % kStrideAlignment) return bad("Vertex stride must be a non-zero multiple of 4.");
  if (stride > kMaxStride) return bad("Vertex stride cannot exceed 1024.");
  std::set<std::string> seen;
  for (const Attribute& a : attributes) {
    if (a.offset % kOffsetAlignment) return bad("Attribute offset must be a multiple of 4.");
    if (a.offset + AttrBytes(a.type) > stride) return bad("Attribute offset plus size is beyond the stride.");
    if (!GoodName(a.name) || !seen.insert(a.name.c_str()).second) return bad("Bad attribute name.");
  }
  if (varyings.size() > kMaxVaryings) return bad("A maximum of 6 varyings is allowed.");
  seen.clear();
  for (const Varying& v : varyings)
    if (!GoodName(v.name) || !seen.insert(v.name.c_str()).second || SkString("gl_Position") == v.name) return bad("Bad varying name.");
  if (!cs) return bad("Must provide a color space if FS returns a color.");
  auto s = sk_sp<SkMeshSpecification>(new SkMeshSpecification);
  s->stride_ = stride;
  s->attrs.assign(attributes.begin(), attributes.end());
  if (!seen.count("position")) s->varys.push_back({Varying::Type::kFloat2, SkString("position")});
  s->varys.insert(s->varys.end(), varyings.begin(), varyings.end());
  s->space = std::move(cs);
  s->alpha = at;
  sksl::StructDef ad{"Attributes", {}}, vd{"Varyings", {}};
  s->key = std::to_string(stride) + "|" + std::to_string(int(at)) + "|" + std::to_string(s->space->tf) + "," + std::to_string(s->space->gamut);
  for (const Attribute& a : s->attrs) {
    ad.fields.push_back({a.name.c_str(), AttrType(a.type)});
    s->key += "|a" + std::to_string(int(a.type)) + "@" + std::to_string(a.offset) + a.name.c_str();
  }
  for (const Varying& v : s->varys) {
    vd.fields.push_back({v.name.c_str(), VaryType(v.type)});
    s->key += "|v" + std::to_string(int(v.type)) + v.name.c_str();
  }
  s->key += std::string("|") + vs.c_str() + "|" + fs.c_str();
  std::string e = s->vertex.Compile(vs.c_str(), {ad, vd});
  if (!e.empty()) return bad("vertex shader: " + e);
  e = s->fragment.Compile(fs.c_str(), {ad, vd});
  if (!e.empty()) return bad("fragment shader: " + e);
  size_t off = 0;
  std::vector<std::pair<std::string, Uniform::Type>> us;
  for (auto* p : {&s->vertex, &s->fragment})
    for (const auto& u : p->Uniforms()) {
      Uniform::Type t;
      if (!UniformType(u.type, &t)) return bad("Invalid uniform type.");
      bool dup = false;
      for (auto& x : us) if (x.first == u.name) { if (x.second != t) return bad("Uniform declared with different types."); dup = true; }
      if (!dup) us.emplace_back(u.name, t);
    }
  s->names.reserve(us.size());
  for (auto& [n, t] : us) {
    s->names.push_back(n);
    s->unis.push_back({s->names.back(), off, t, 1, 0});
    off += Bytes(t);
  }
  ++SkFake::specs_made;
  return {std::move(s), SkString()};
}

SkMesh::Result SkMesh::MakeIndexed(sk_sp<SkMeshSpecification> spec, Mode mode, sk_sp<VertexBuffer> vb, size_t vcount, size_t voff, sk_sp<IndexBuffer> ib, size_t icount, size_t ioff,
                                   sk_sp<const SkData> uniforms, SkSpan<ChildPtr> children, const SkRect& bounds) {
  auto bad = [](std::string m) { return Result{SkMesh(), SkString(m)}; };
  if (!ib) return bad("An index buffer is required.");
  if (!spec) return bad("SkMeshSpecification is required.");
  if (!vb) return bad("A vertex buffer is required.");
  if (!children.empty()) return bad("The mesh specification declares 0 child effects.");
  if (vcount > (size_t(1) << 40) || icount > (size_t(1) << 40)) return bad("Overflow");
  if (vcount * spec->stride() + voff > vb->size()) return bad("The vertex buffer offset and vertex count reads beyond the end of the vertex buffer.");
  if (voff % spec->stride()) return bad("The vertex offset is not a multiple of the stride.");
  if (spec->uniformSize() && (!uniforms || uniforms->size() < spec->uniformSize())) return bad("The uniform data is too small.");
  if (icount < 3) return bad("triangles mode requires at least 3 indices but index count is " + std::to_string(icount) + ".");
  if (icount * 2 + ioff > ib->size()) return bad("The index buffer offset and index count reads beyond the end of the index buffer.");
  if (ioff % 2) return bad("The index offset must be a multiple of 2.");
  if (SkFake::Tick(SkFake::fail_mesh, SkFake::fired_mesh)) return bad("simulated failure");
  ++SkFake::meshes_made;
  SkMesh m;
  m.spec = std::move(spec);
  m.mode = mode;
  m.vb = std::move(vb);
  m.ib = std::move(ib);
  m.vcount = vcount;
  m.voff = voff;
  m.icount = icount;
  m.ioff = ioff;
  m.uniforms = std::move(uniforms);
  m.bounds = bounds;
  return {std::move(m), SkString()};
}
namespace SkMeshes {
template <class B> static sk_sp<B> Make(const void* d, size_t n) {
  auto b = sk_sp<B>(new B);
  if (d) b->bytes.assign(static_cast<const uint8_t*>(d), static_cast<const uint8_t*>(d) + n);
  else b->bytes.assign(n, 0);
  ++SkFake::buffers_made;
  return b;
}
sk_sp<SkMesh::VertexBuffer> MakeVertexBuffer(GrDirectContext* c, const void* d, size_t n) {
  if (c && SkFake::Tick(SkFake::fail_vertex_buffer, SkFake::fired_vertex_buffer)) return nullptr;
  return Make<SkMesh::VertexBuffer>(d, n);
}
sk_sp<SkMesh::IndexBuffer> MakeIndexBuffer(GrDirectContext* c, const void* d, size_t n) {
  if (c && SkFake::Tick(SkFake::fail_index_buffer, SkFake::fired_index_buffer)) return nullptr;
  return Make<SkMesh::IndexBuffer>(d, n);
}
}  // namespace SkMeshes
