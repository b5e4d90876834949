// M01: spatial queries of caller threads on copies of shared shapes, against a brute-force oracle in plain doubles.
#include <algorithm>
#include <memory>
#include <optional>

#include "ink/geometry/affine_transform.h"
#include "ink/geometry/intersects.h"
#include "ink/geometry/mesh.h"
#include "ink/geometry/mesh_format.h"
#include "ink/geometry/mutable_mesh.h"
#include "ink/geometry/partitioned_mesh.h"
#include "props.h"
#include "vthreads.h"
#include "world.h"

namespace dst {
namespace {
using ink::PartitionedMesh;
using FC = PartitionedMesh::FlowControl;
using Pair = PartitionedMesh::TriangleIndexPair;

// ---- exact-enough convex geometry ---------------------------------------------------------------------
struct Poly { P2 p[4]; int n = 0; };
struct Aff {
  double a, b, c, d, e, f;
  P2 operator()(P2 p) const { return {a * p.x + b * p.y + c, d * p.x + e * p.y + f}; }
  double Det() const { return a * e - b * d; }
};
Poly Map(const Aff& t, const Poly& q) { Poly o = q; for (int i = 0; i < q.n; ++i) o.p[i] = t(q.p[i]); return o; }
Poly Of(const Tri& t) { Poly o; o.n = 3; o.p[0] = t.a; o.p[1] = t.b; o.p[2] = t.c; return o; }
// Signed gap: positive = certainly at least that far apart, negative = overlap by at least that much along every axis.
double Gap(const Poly& P, const Poly& Q, double enough = 1e300) {
  double best = -1e300;
  auto axis = [&](double nx, double ny) {
    double l = std::sqrt(nx * nx + ny * ny);
    if (l < 1e-12) return;
    nx /= l; ny /= l;
    double p0 = 1e300, p1 = -1e300, q0 = 1e300, q1 = -1e300;
    for (int i = 0; i < P.n; ++i) { double d = P.p[i].x * nx + P.p[i].y * ny; p0 = std::min(p0, d); p1 = std::max(p1, d); }
    for (int i = 0; i < Q.n; ++i) { double d = Q.p[i].x * nx + Q.p[i].y * ny; q0 = std::min(q0, d); q1 = std::max(q1, d); }
    best = std::max(best, std::max(p0 - q1, q0 - p1));
  };
  axis(1, 0);
  axis(0, 1);
  if (best > enough) return best;  // a lower bound is all the caller needs
  for (const Poly* s : {&P, &Q})
    for (int i = 0; i < s->n; ++i) {
      const P2& u = s->p[i];
      const P2& v = s->p[(i + 1) % s->n];
      axis(v.y - u.y, u.x - v.x);
      axis(v.x - u.x, v.y - u.y);
    }
  return best;
}
double MaxAbs(const Poly& p) { double m = 0; for (int i = 0; i < p.n; ++i) m = std::max({m, std::fabs(p.p[i].x), std::fabs(p.p[i].y)}); return m; }

// ---- shapes -----------------------------------------------------------------------------------------------
struct Truth {
  std::vector<std::vector<Tri>> tris;  // per mesh
  std::vector<double> area;            // flattened
  double total = 0, maxc = 1;
  size_t count = 0;
  bool empty = true;
};
constexpr int kShapes = 3;

ink::MutableMesh RandomMesh(Rng& r, int kind, int n) {
  ink::MeshFormat fmt;
  if (r.P(0.3)) {
    auto f = ink::MeshFormat::Create({{ink::MeshFormat::AttributeType::kFloat2PackedIn3UnsignedBytes_XY12, ink::MeshFormat::AttributeId::kPosition},
                                      {ink::MeshFormat::AttributeType::kFloat1Unpacked, ink::MeshFormat::AttributeId::kCustom0}},
                                     ink::MeshFormat::IndexFormat::k32BitUnpacked16BitPacked);
    if (f.ok()) fmt = *f;
  }
  ink::MutableMesh m(fmt);
  auto pt = [&](double x, double y) { m.AppendVertex({float(x), float(y)}); return m.VertexCount() - 1; };
  double scale = r.P(0.2) ? r.LogUni(1e-2, 1e3) : 50;
  if (kind == 0) {  // soup
    for (int i = 0; i < n; ++i) {
      double cx = r.Uni(-scale, scale), cy = r.Uni(-scale, scale), s = scale * r.LogUni(0.01, 0.5);
      uint32_t a = pt(cx + r.Uni(-s, s), cy + r.Uni(-s, s)), b = pt(cx + r.Uni(-s, s), cy + r.Uni(-s, s)), c = pt(cx + r.Uni(-s, s), cy + r.Uni(-s, s));
      if (r.P(0.1)) c = b;
      m.AppendTriangleIndices({a, b, c});
    }
  } else if (kind == 1) {  // grid of touching triangles
    int k = std::max(1, int(std::sqrt(n / 2.0)));
    for (int y = 0; y <= k; ++y) for (int x = 0; x <= k; ++x) pt(-scale + 2 * scale * x / k, -scale + 2 * scale * y / k);
    for (int y = 0; y < k; ++y) for (int x = 0; x < k; ++x) {
      uint32_t i = y * (k + 1) + x;
      m.AppendTriangleIndices({i, i + 1, i + k + 1});
      m.AppendTriangleIndices({i + 1, i + k + 2, i + k + 1});
    }
  } else if (kind == 2) {  // strip, many triangles share the same x (sort ties)
    for (int i = 0; i < n + 2; ++i) pt(i % 2 ? scale : -scale, r.P(0.5) ? i : r.Uni(-scale, scale));
    for (uint32_t i = 0; i < uint32_t(n); ++i) m.AppendTriangleIndices({i, i + 1, i + 2});
  } else {  // identical triangles stacked
    pt(-scale, -scale); pt(scale, -scale); pt(0, scale);
    for (int i = 0; i < n; ++i) m.AppendTriangleIndices(i % 2 ? std::array<uint32_t, 3>{0, 1, 2} : std::array<uint32_t, 3>{2, 1, 0});
  }
  return m;
}
PartitionedMesh BuildShape(const Op& op) {
  Rng r(uint64_t(op.A(1)));
  int kind = int(op.A(2)), n = std::clamp(int(op.A(3)), 1, 200000);
  if (kind == 0) return PartitionedMesh();
  if (kind == 1) return PartitionedMesh::WithEmptyGroups(n % 4);
  if (kind == 2) {  // shape of a stroke
    Plan p;
    BrushLimits lim;
    lim.time_behaviors = false;
    GenBrush(r, p, lim);
    ink::Brush b = BuildBrush(p.ops[0]);
    PathCfg c = RandomPathCfg(r, 1, 3 + n % 30);
    std::vector<In> v = MakePath(r, c);
    FitPath(v, b);
    auto batch = MakeBatch(v);
    return batch ? ink::Stroke(b, *batch).GetShape() : PartitionedMesh();
  }
  if (kind == 7) {  // more triangles in one mesh than 16 bits can count
    ink::MutableMesh m;
    int k = 260;
    for (int y = 0; y <= k / 4; ++y) for (int x = 0; x <= k; ++x) m.AppendVertex({float(x) - 130, float(y) - 30});
    for (int rep = 0; rep < 2; ++rep)
      for (uint32_t y = 0; y < uint32_t(k / 4); ++y) for (uint32_t x = 0; x < uint32_t(k); ++x) {
        uint32_t i = y * (k + 1) + x;
        m.AppendTriangleIndices({i, i + 1, i + k + 1});
        m.AppendTriangleIndices({i + 1, i + k + 2, i + k + 1});
      }
    auto s = PartitionedMesh::FromMutableMesh(m);
    if (!s.ok()) Fail("shape-rejected", "a large mesh was rejected: %s", std::string(s.status().message()).c_str());
    return *s;
  }
  int groups = kind == 3 ? 1 : r.Int(1, 4);
  std::vector<ink::MutableMesh> ms;
  for (int i = 0; i < groups; ++i) {
    if (groups > 1 && r.P(0.25)) ms.emplace_back(ink::MeshFormat());  // empty group
    else ms.push_back(RandomMesh(r, r.Int(0, 3), std::max(1, kind == 3 ? n : r.Int(1, n))));
  }
  if (kind == 5) {  // several meshes per group
    std::vector<ink::Mesh> meshes;
    for (auto& m : ms) {
      if (m.TriangleCount() == 0) continue;
      auto r1 = m.AsMeshes();
      if (!r1.ok()) continue;
      for (const ink::Mesh& x : *r1) if (meshes.empty() || ink::MeshFormat::IsPackedEquivalent(x.Format(), meshes[0].Format())) meshes.push_back(x);
    }
    auto s = PartitionedMesh::FromMeshes(meshes);
    return s.ok() ? *s : PartitionedMesh();
  }
  std::vector<PartitionedMesh::MutableMeshGroup> gs;
  for (auto& m : ms) gs.push_back({.mesh = &m});
  auto s = PartitionedMesh::FromMutableMeshGroups(gs);
  return s.ok() ? *s : PartitionedMesh();
}
Truth Measure(const PartitionedMesh& s) {
  Truth t;
  for (const ink::Mesh& m : s.Meshes()) {
    t.tris.push_back(TrianglesOf(absl::MakeConstSpan(&m, 1)));
    for (const Tri& x : t.tris.back()) {
      double a = std::fabs((x.b.x - x.a.x) * (x.c.y - x.a.y) - (x.c.x - x.a.x) * (x.b.y - x.a.y)) / 2;
      t.area.push_back(a);
      t.total += a;
      t.maxc = std::max(t.maxc, MaxAbs(Of(x)));
    }
    t.count += t.tris.back().size();
  }
  t.empty = s.Meshes().empty();
  return t;
}

// ---- queries -----------------------------------------------------------------------------------------------
// op "t<k>.<method>": a = [shape, qkind, other, break_after, nested, threshold, A,B,C,D,E,F, params...]
enum QKind { kPoint, kSegment, kTriangle, kRect, kQuad, kMesh };
struct Query {
  int shape, kind, other, stop;
  bool nested;
  float thr;
  ink::AffineTransform tr;
  Aff aff;
  Poly poly;           // in query space, for non-mesh kinds
  ink::Point pt;
  ink::Segment seg;
  ink::Triangle tri;
  ink::Rect rect;
  ink::Quad quad = ink::Quad::FromCenterAndDimensions({0, 0}, 0, 0);
  bool singular = false;
};
Query Decode(const Op& op) {
  Query q;
  q.shape = int(op.A(0)) % kShapes;
  q.kind = std::clamp(int(op.A(1)), 0, 5);
  q.other = int(op.A(2)) % kShapes;
  q.stop = int(op.A(3));
  q.nested = op.A(4) != 0;
  q.thr = float(op.A(5));
  float m[6];
  for (int i = 0; i < 6; ++i) m[i] = float(op.A(6 + i, i == 0 || i == 4));
  q.tr = ink::AffineTransform(m[0], m[1], m[2], m[3], m[4], m[5]);
  q.aff = {m[0], m[1], m[2], m[3], m[4], m[5]};
  q.singular = !q.tr.Inverse().has_value();
  float v[6];
  for (int i = 0; i < 6; ++i) v[i] = float(op.A(12 + i));
  auto set = [&](std::initializer_list<P2> l) { q.poly.n = 0; for (const P2& p : l) q.poly.p[q.poly.n++] = p; };
  switch (q.kind) {
    case kPoint: q.pt = {v[0], v[1]}; set({{v[0], v[1]}}); break;
    case kSegment: q.seg = {{v[0], v[1]}, {v[2], v[3]}}; set({{v[0], v[1]}, {v[2], v[3]}}); break;
    case kTriangle: q.tri = {{v[0], v[1]}, {v[2], v[3]}, {v[4], v[5]}}; set({{v[0], v[1]}, {v[2], v[3]}, {v[4], v[5]}}); break;
    case kRect: {
      q.rect = ink::Rect::FromTwoPoints({v[0], v[1]}, {v[2], v[3]});
      set({{v[0], v[1]}, {v[2], v[1]}, {v[2], v[3]}, {v[0], v[3]}});
      break;
    }
    case kQuad: {
      q.quad = ink::Quad::FromCenterDimensionsRotationAndShear({v[0], v[1]}, std::fabs(v[2]), v[3], ink::Angle::Radians(v[4]), v[5]);
      double w = std::fabs(v[2]), h = v[3], th = v[4], s = v[5];
      double ux = .5 * w * std::cos(th), uy = .5 * w * std::sin(th), vx = .5 * h * (s * std::cos(th) - std::sin(th)), vy = .5 * h * (s * std::sin(th) + std::cos(th));
      set({{v[0] - ux - vx, v[1] - uy - vy}, {v[0] + ux - vx, v[1] + uy - vy}, {v[0] + ux + vx, v[1] + uy + vy}, {v[0] - ux + vx, v[1] - uy + vy}});
      break;
    }
  }
  return q;
}
struct Judge {  // verdict per flattened triangle: 1 must be hit, 0 must not, 2 either
  std::vector<char> v;
  double lo = 0, hi = 0;  // area of must / may
};
// The union of the collapsed triangles (must) and the segment they span (may), under a singular transform.
void Collapse(const Aff& t, const Truth& o, std::vector<Poly>* parts, Poly* hull) {
  std::vector<P2> all;
  for (auto& m : o.tris) for (const Tri& x : m) { Poly p = Map(t, Of(x)); parts->push_back(p); for (int i = 0; i < 3; ++i) all.push_back(p.p[i]); }
  hull->n = 2;
  double best = -1;
  P2 a = all[0];
  for (int pass = 0; pass < 2; ++pass) {
    best = -1;
    P2 far = a;
    for (const P2& p : all) { double d = std::hypot(p.x - a.x, p.y - a.y); if (d > best) { best = d; far = p; } }
    hull->p[pass] = far;
    a = far;
  }
}
Judge Brute(const Query& q, const std::vector<Truth>& truth) {
  const Truth& t = truth[q.shape];
  Judge j;
  std::vector<Poly> parts;
  Poly hull;
  if (q.kind == kMesh) {
    if (!truth[q.other].empty) {
      if (q.singular) Collapse(q.aff, truth[q.other], &parts, &hull);
      else for (auto& m : truth[q.other].tris) for (const Tri& x : m) parts.push_back(Map(q.aff, Of(x)));
    }
  } else {
    parts.push_back(Map(q.aff, q.poly));
  }
  double mag = t.maxc;
  for (const Poly& p : parts) mag = std::max(mag, MaxAbs(p));
  double smax = std::hypot(std::hypot(q.aff.a, q.aff.b), std::hypot(q.aff.d, q.aff.e));
  double cond = q.singular ? 1 : std::max(1.0, smax * smax / std::max(1e-9, std::fabs(q.aff.Det())));
  double off = std::max(std::fabs(q.aff.c), std::fabs(q.aff.f));
  double eps = 3e-6 * (mag + off) * cond;
  size_t k = 0;
  for (auto& m : t.tris)
    for (const Tri& x : m) {
      Poly p = Of(x);
      double g = 1e300;
      for (const Poly& o : parts) { g = std::min(g, Gap(p, o, eps)); if (g < -eps) break; }
      char verdict = g < -eps ? 1 : g > eps ? 0 : 2;
      if (verdict == 0 && hull.n && Gap(p, hull, eps) <= eps) verdict = 2;
      j.v.push_back(verdict);
      if (verdict == 1) j.lo += t.area[k];
      if (verdict) j.hi += t.area[k];
      ++k;
    }
  return j;
}

struct Actor {
  PartitionedMesh s[kShapes];
  uint64_t log = 1, checks = 0, visits = 0, breaks = 0, nested = 0, hits = 0, ambiguous = 0, singular = 0, first = 0;
};
void VisitAny(const PartitionedMesh& s, const Query& q, const PartitionedMesh& other, absl::FunctionRef<FC(Pair)> f) {
  switch (q.kind) {
    case kPoint: s.VisitIntersectedTriangles(q.pt, f, q.tr); break;
    case kSegment: s.VisitIntersectedTriangles(q.seg, f, q.tr); break;
    case kTriangle: s.VisitIntersectedTriangles(q.tri, f, q.tr); break;
    case kRect: s.VisitIntersectedTriangles(q.rect, f, q.tr); break;
    case kQuad: s.VisitIntersectedTriangles(q.quad, f, q.tr); break;
    case kMesh: s.VisitIntersectedTriangles(other, f, q.tr); break;
  }
}
size_t Flat(const Truth& t, Pair p) {
  if (p.mesh_index >= t.tris.size() || p.triangle_index >= t.tris[p.mesh_index].size())
    Fail("bad-triangle-index", "the visitor was given triangle %u of mesh %u, which does not exist", unsigned(p.triangle_index), unsigned(p.mesh_index));
  size_t k = p.triangle_index;
  for (size_t i = 0; i < p.mesh_index; ++i) k += t.tris[i].size();
  return k;
}
std::vector<char> VisitAll(Actor& a, const Query& q, const std::vector<Truth>& truth, const Judge& j, int stop, bool nested) {
  const Truth& t = truth[q.shape];
  std::vector<char> seen(t.count, 0);
  int n = 0;
  bool stopped = false;
  VisitAny(a.s[q.shape], q, a.s[q.other], [&](Pair p) {
    if (stopped) Fail("visit-after-break", "the visitor was called again after it asked to stop");
    size_t k = Flat(t, p);
    if (seen[k]++) Fail("visited-twice", "triangle %zu of shape %d was visited twice in one query", k, q.shape);
    ++a.visits;
    if (j.v[k] == 0) Fail("visited-disjoint", "triangle %zu of shape %d does not intersect the query (kind %d) but was visited", k, q.shape, q.kind);
    if (nested && n == 0) {
      ++a.nested;
      Query sub = q;  // the visitor queries the same shape (and the other one)
      auto inner = VisitAll(a, sub, truth, j, -1, false);
      for (size_t i = 0; i < inner.size(); ++i) if (j.v[i] == 1 && !inner[i]) Fail("missed-triangle", "a query made by a visitor missed triangle %zu of shape %d", i, q.shape);
    }
    if (++n == stop) { stopped = true; ++a.breaks; return FC::kBreak; }
    return FC::kContinue;
  });
  if (stop < 0 || n < stop)
    for (size_t i = 0; i < seen.size(); ++i)
      if (j.v[i] == 1 && !seen[i]) Fail("missed-triangle", "triangle %zu of shape %d intersects the query (kind %d) but was not visited", i, q.shape, q.kind);
  a.log = Mix(a.log ^ HashBytes(seen.data(), seen.size()));
  return seen;
}
void Apply(Actor& a, const std::string& method, const Op& op, const std::vector<Truth>& truth) {
  Query q = Decode(op);
  PartitionedMesh& s = a.s[q.shape];
  const PartitionedMesh& o = a.s[q.other];
  const Truth& t = truth[q.shape];
  if (q.kind == kMesh && double(t.count) * truth[q.other].count > 400000) return;  // the oracle's cost is the product
  ++a.checks;
  if (method == "copy") { a.s[q.shape] = PartitionedMesh(s); return; }
  if (method == "movecopy") { PartitionedMesh c(s); a.s[q.shape] = std::move(c); return; }
  if (method == "init") {
    s.InitializeSpatialIndex();
    if (!t.empty && !s.IsSpatialIndexInitialized()) Fail("index-not-initialised", "the index is reported missing right after InitializeSpatialIndex()");
    return;
  }
  if (method == "isinit") {
    bool b = s.IsSpatialIndexInitialized();
    if (t.empty && b) Fail("index-of-empty", "an empty shape reports an index");
    return;
  }
  if (q.singular) ++a.singular;
  if (!s.IsSpatialIndexInitialized()) ++a.first;
  if (method == "inter") {  // Intersects(shape, shape-to-query, query): the transform maps the shape here
    bool got = false;
    Judge j;
    Query r = q;
    double gmin = 1e300, eps = 0;
    const Truth& ot = truth[q.other];
    std::vector<Poly> mine, theirs;
    Poly hull;
    for (auto& m : t.tris) for (const Tri& x : m) mine.push_back(Map(q.aff, Of(x)));
    if (q.singular && !t.empty) { std::vector<Poly> tmp; Collapse(q.aff, t, &tmp, &hull); }
    if (q.kind == kMesh) { for (auto& m : ot.tris) for (const Tri& x : m) theirs.push_back(Of(x)); }
    else theirs.push_back(q.poly);
    double mag = std::max(t.maxc, std::max(std::fabs(q.aff.c), std::fabs(q.aff.f)));
    for (auto& p : mine) mag = std::max(mag, MaxAbs(p));
    for (auto& p : theirs) mag = std::max(mag, MaxAbs(p));
    double smax = std::hypot(std::hypot(q.aff.a, q.aff.b), std::hypot(q.aff.d, q.aff.e));
    double cond = q.singular ? 1 : std::max(1.0, smax * smax / std::max(1e-9, std::fabs(q.aff.Det())));
    eps = 3e-6 * mag * cond * std::max(1.0, smax);
    for (auto& p : mine) { for (auto& x : theirs) { gmin = std::min(gmin, Gap(p, x, eps)); if (gmin < -eps) break; } if (gmin < -eps) break; }
    switch (q.kind) {
      case kPoint: got = ink::Intersects(s, q.tr, q.pt); break;
      case kSegment: got = ink::Intersects(s, q.tr, q.seg); break;
      case kTriangle: got = ink::Intersects(s, q.tr, q.tri); break;
      case kRect: got = ink::Intersects(s, q.tr, q.rect); break;
      case kQuad: got = ink::Intersects(s, q.tr, q.quad); break;
      case kMesh: got = (q.stop & 1) ? ink::Intersects(s, q.tr, o, {}) : ink::Intersects(o, {}, s, q.tr); break;
    }
    if ((t.empty || (q.kind == kMesh && ot.empty)) && got) Fail("empty-intersects", "an empty shape is reported to intersect something");
    if (got && gmin > eps) {
      bool may = false;
      if (hull.n) for (auto& x : theirs) may |= Gap(hull, x) <= eps;
      if (!may) Fail("intersects-wrong", "Intersects() is true for shape %d and a query (kind %d) at a distance of at least %g", q.shape, q.kind, gmin);
    }
    if (!got && gmin < -eps) Fail("intersects-wrong", "Intersects() is false for shape %d and a query (kind %d) that overlap by %g", q.shape, q.kind, -gmin);
    if (got) ++a.hits;
    a.log = Mix(a.log ^ (got ? 7 : 9));
    return;
  }
  Judge j = Brute(q, truth);
  for (char c : j.v) a.ambiguous += c == 2;
  if (method == "visit") {
    auto seen = VisitAll(a, q, truth, j, q.stop > 0 ? q.stop : -1, q.nested);
    for (char c : seen) if (c) { ++a.hits; break; }
  } else if (method == "cover" || method == "greater") {
    if (q.kind < kTriangle) return;
    auto greater = [&](float thr) {
      switch (q.kind) {
        case kTriangle: return s.CoverageIsGreaterThan(q.tri, thr, q.tr);
        case kRect: return s.CoverageIsGreaterThan(q.rect, thr, q.tr);
        case kQuad: return s.CoverageIsGreaterThan(q.quad, thr, q.tr);
        default: return s.CoverageIsGreaterThan(o, thr, q.tr);
      }
    };
    float c = 0;
    switch (q.kind) {
      case kTriangle: c = s.Coverage(q.tri, q.tr); break;
      case kRect: c = s.Coverage(q.rect, q.tr); break;
      case kQuad: c = s.Coverage(q.quad, q.tr); break;
      case kMesh: c = s.Coverage(o, q.tr); break;
    }
    bool gt = greater(q.thr), gt0 = greater(0);
    if (t.empty) {
      if (c != 0 || gt || gt0) Fail("empty-coverage", "the coverage of an empty shape is %g", c);
      return;
    }
    // "Greater" is strict: nothing covered is not more than nothing, and anything covered is.
    if (gt0 && !(j.hi > 0)) Fail("coverage-threshold", "CoverageIsGreaterThan(0) is true although no triangle is covered");
    if (!(t.total > 1e-6 * t.maxc * t.maxc)) return;  // no area to cover a fraction of
    double lo = j.lo / t.total, hi = j.hi / t.total, tol = 1e-4;
    if (!gt0 && lo > 1e-12) Fail("coverage-threshold", "CoverageIsGreaterThan(0) is false, the coverage is at least %g", lo);
    if (!(c >= lo - tol && c <= hi + tol)) Fail("coverage-wrong", "the coverage of shape %d by a query (kind %d) is %g, expected %g..%g", q.shape, q.kind, c, lo, hi);
    for (int k = 0; k < 3; ++k) {
      float thr = k == 0 ? q.thr : c + (k == 1 ? -2e-4f : 2e-4f);
      bool g = k == 0 ? gt : greater(thr);
      if (g && thr > hi + tol) Fail("coverage-threshold", "CoverageIsGreaterThan(%g) is true, the coverage is at most %g", thr, hi);
      if (!g && thr < lo - tol) Fail("coverage-threshold", "CoverageIsGreaterThan(%g) is false, the coverage is at least %g", thr, lo);
      if (k == 1 && !g) Fail("coverage-threshold", "CoverageIsGreaterThan(%g) is false, the coverage is %g", thr, c);
      if (k == 2 && g) Fail("coverage-threshold", "CoverageIsGreaterThan(%g) is true, the coverage is %g", thr, c);
    }
    if (c > 0) ++a.hits;
    a.log = Mix(a.log ^ uint64_t(std::lround(c * 100)) ^ gt);
  } else {
    return;
  }
  if (!t.empty && (q.kind != kMesh || !truth[q.other].empty) && !q.singular && !s.IsSpatialIndexInitialized())
    Fail("index-not-initialised", "a query on a shape left no index behind");
}

// ---- generator ---------------------------------------------------------------------------------------------
Op GenQuery(Rng& r, const double* scale) {
  Op o;
  int sh = r.Int(0, kShapes - 1);
  double S = scale[sh];
  static const char* kM[] = {"visit", "visit", "visit", "cover", "greater", "inter", "inter", "copy", "movecopy", "init", "isinit"};
  o.kind = kM[r.Int(0, 10)];
  int kind = r.Int(0, 5);
  bool nested = r.P(0.2);
  double thr = r.P(0.2) ? r.Int(0, 1) : r.P(0.1) ? -0.5 : r.U();
  o.a = {double(sh), double(kind), double(r.Int(0, kShapes - 1)), double(r.P(0.3) ? r.Int(1, 4) : 0), double(nested), double(float(thr))};
  double m[6] = {1, 0, 0, 0, 1, 0};
  bool quad = kind == kRect || kind == kQuad;
  int tk = r.Int(0, 9);
  if (tk >= 4) {
    double th = r.Uni(0, 6.28), s1 = r.LogUni(0.2, 5), s2 = r.P(0.5) ? s1 : r.LogUni(0.2, 5) * (r.P(0.3) ? -1 : 1);
    m[0] = s1 * std::cos(th); m[1] = -s2 * std::sin(th); m[2] = r.P(0.3) ? 0 : r.Uni(-S, S);
    m[3] = s1 * std::sin(th); m[4] = s2 * std::cos(th); m[5] = r.P(0.3) ? 0 : r.Uni(-S, S);
  }
  if (tk == 9 && (kind == kMesh || o.kind == "inter" || !quad)) {  // exactly singular
    switch (r.Int(0, 3)) {
      case 0: m[0] = m[1] = m[3] = m[4] = 0; break;
      case 1: m[0] = 0; m[1] = 0; m[3] = 0; m[4] = r.Uni(0.3, 2); break;
      case 2: m[0] = r.Uni(0.3, 2); m[1] = 0; m[3] = 0; m[4] = 0; break;
      case 3: m[0] = 0.5; m[1] = 0.25; m[3] = 1; m[4] = 0.5; break;
    }
  }
  if (quad && o.kind != "inter" && r.P(0.0)) m[0] = 0;
  for (double x : m) o.a.push_back(double(float(x)));
  double s = S * r.LogUni(0.01, 1.5);
  auto c = [&] { return double(float(r.P(0.05) ? 0 : r.Uni(-S, S) * 1.1)); };
  double v[6] = {c(), c(), 0, 0, 0, 0};
  auto near = [&](int i, double base) { v[i] = double(float(base + r.Uni(-s, s))); };
  if (kind == kQuad) {
    v[2] = double(float(r.P(0.08) ? 0 : r.Uni(0, s))); v[3] = double(float(r.P(0.08) ? 0 : r.Uni(-s, s)));
    v[4] = double(float(r.Uni(0, 6.28))); v[5] = r.P(0.5) ? 0 : double(float(r.Uni(-1.5, 1.5)));
  } else {
    near(2, v[0]); near(3, v[1]); near(4, v[0]); near(5, v[1]);
    if (r.P(0.05)) { v[2] = v[0]; v[3] = v[1]; }
    if (r.P(0.05)) { v[4] = v[2]; v[5] = v[3]; }
  }
  for (double x : v) o.a.push_back(x);
  return o;
}
Plan GenM01(uint64_t seed) {
  Plan p;
  p.property = "M01";
  p.seed = seed;
  Rng r(seed ^ 0x3e50);
  int nt = r.P(0.15) ? 1 : r.Int(2, 4);
  p.Add("sched", {double(r.P(0.35)), double(r.P(0.5) ? r.Int(5, 100) : r.Int(100, 4000))});
  double scale[kShapes];
  for (int i = 0; i < kShapes; ++i) {
    int kind = r.P(0.12) ? r.Int(0, 1) : r.P(0.0006) ? 7 : r.Int(2, 5);
    int n = kind == 2 ? r.Int(0, 29) : int(r.LogUni(1, i == 2 ? 40 : 400));
    p.Add("shape", {double(i), double(r.Below(1u << 30)), double(kind), double(n)});
    scale[i] = kind == 7 ? 100 : 50;
    // aim at what the shape really covers
    if (kind == 7) continue;
    Truth t = Measure(BuildShape(p.ops.back()));
    if (!t.empty) scale[i] = std::min(t.maxc, 1e4);
  }
  int n = r.Int(2, 8) * nt;
  for (int i = 0; i < n; ++i) {
    Op o = GenQuery(r, scale);
    o.kind = Fmt("t%d.", int(i < nt ? i : r.Below(nt))) + o.kind;
    p.ops.push_back(o);
  }
  return p;
}
void ExecM01(const Plan& plan) {
  Actor origin;
  std::vector<Truth> truth(kShapes);
  std::vector<std::vector<std::pair<std::string, const Op*>>> work;
  for (const Op& op : plan.ops) {
    if (op.kind == "shape") {
      int i = int(op.A(0)) % kShapes;
      origin.s[i] = BuildShape(op);
      truth[i] = Measure(origin.s[i]);
      if (origin.s[i].IsSpatialIndexInitialized()) Fail("index-early", "a new shape already has an index");
      R.Count(truth[i].empty ? "shape.empty" : truth[i].tris.size() > 1 ? "shape.multi_mesh" : "shape.single_mesh");
    } else if (op.kind.size() > 3 && op.kind[0] == 't' && op.kind[2] == '.') {
      size_t k = size_t(op.kind[1] - '0') % 8;
      while (work.size() <= k) work.emplace_back();
      work[k].emplace_back(op.kind.substr(3), &op);
      ++R.st.steps;
    }
  }
  std::vector<std::unique_ptr<Actor>> actors;
  std::vector<std::function<void()>> bodies;
  for (size_t k = 0; k < work.size(); ++k) {
    actors.push_back(std::make_unique<Actor>());
    Actor* a = actors.back().get();
    for (int i = 0; i < kShapes; ++i) a->s[i] = origin.s[i];
    bodies.push_back([a, ops = &work[k], &truth] {
      for (auto& [m, op] : *ops) {
        YieldApi();
        Apply(*a, m, *op, truth);
        if (HeldMutexes()) Fail("lock-leaked", "a query returned while its thread still holds a mutex");
      }
      for (int i = 0; i < kShapes; ++i) a->s[i] = PartitionedMesh();  // the last owner frees the shared data
    });
  }
  if (plan.seed % 3) for (int i = 0; i < kShapes; ++i) origin.s[i] = PartitionedMesh();
  SchedResult res = RunPlanned(plan, 0, bodies);
  uint64_t h = res.switches, hits = 0;
  for (auto& t : res.taken) h = Mix(h ^ t.n * 16 ^ t.to);
  R.State(h);
  R.Mixin(h);
  for (auto& a : actors) {
    R.Check(a->checks);
    R.Mixin(a->log);
    R.Count("op.triangles_visited", a->visits);
    R.Count("fault.visitor_stopped", a->breaks);
    R.Count("fault.reentrant_query", a->nested);
    R.Count("fault.singular_transform", a->singular);
    R.Count("probe.query_without_index", a->first);
    R.Count("probe.ambiguous_triangles", a->ambiguous);
    hits += a->hits;
  }
  R.Count("probe.hits", hits);
  if (hits && (res.switches > work.size() || work.size() == 1)) R.Nontrivial();
}
}  // namespace

const std::vector<PropertyDef>& MeshProperties() {
  static const std::vector<PropertyDef> v = {{"M01", GenM01, ExecM01}};
  return v;
}
}  // namespace dst
