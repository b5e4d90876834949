// Building blocks shared by the simulated worlds: brushes, input paths, observations.
#ifndef DST_WORLD_H_
#define DST_WORLD_H_
#include <optional>
#include <string>
#include <vector>

#include "core.h"
#include "ink/brush/brush.h"
#include "ink/geometry/mutable_mesh.h"
#include "ink/geometry/partitioned_mesh.h"
#include "ink/strokes/in_progress_stroke.h"
#include "ink/strokes/input/stroke_input.h"
#include "ink/strokes/input/stroke_input_batch.h"
#include "ink/strokes/stroke.h"

namespace dst {

// ---- brushes -----------------------------------------------------------------------------------
struct BrushLimits {
  int max_coats = 4;
  bool time_behaviors = true;
  bool particles = true;
  bool behaviors = true;
  bool allow_zero_coats = true;
  bool simple_only = false;
};
// Appends op "brush <size> <eps> <model> | c | s ... | g ... | b seed kind | t seed ..."
void GenBrush(Rng& r, Plan& p, const BrushLimits& lim, const char* kind = "brush");
// Builds the brush of such an op. Never fails: invalid parts (after shrinking) are dropped.
ink::Brush BuildBrush(const Op& op);
// Upper bound in seconds of every time-since-input source range of the brush.
double MaxTimeSinceInput(const ink::Brush& b);
bool HasParticles(const ink::Brush& b);
ink::BrushBehavior MakeBehavior(uint64_t seed, int kind);
ink::BrushPaint::TextureLayer MakeLayer(uint64_t seed, bool winding);
constexpr int kLayerVariations = 16;
void VaryLayer(ink::BrushPaint::TextureLayer& l, int k);  // changes one property; 0: none

// ---- inputs ------------------------------------------------------------------------------------
struct In {  // one raw input event, plain data, independent of ink's own containers
  float x = 0, y = 0, t = 0;
  int tool = 0;
  float unit = 0;
  float p = -1, tilt = -1, ori = -1;
  bool operator==(const In&) const = default;
};
Group ToGroup(char tag, const In& in);
In FromGroup(const Group& g);
ink::StrokeInput ToInk(const In& in);
In FromInk(const ink::StrokeInput& in);
std::string Show(const In& in);
// Reference validation (written from the documentation of StrokeInputBatch).
bool ValidSingle(const In& a);
bool ValidPair(const In& a, const In& b);
bool ValidSeq(const std::vector<In>& v);
std::optional<ink::StrokeInputBatch> MakeBatch(const std::vector<In>& v);

struct PathCfg {
  int n = 20;
  int shape = 0;
  double scale = 50, speed = 1, dt = 0.008;
  double jitter = 0;
  bool pressure = false, tilt = false, ori = false;
  int tool = 3;
  float unit = 0;
  double stall_p = 0, stall_len = 0.1, dup_time_p = 0, still_p = 0;
  double x0 = 0, y0 = 0, t0 = 0;
};
PathCfg RandomPathCfg(Rng& r, int min_n, int max_n);
std::vector<In> MakePath(Rng& r, const PathCfg& c);
// Shrinks the path around its first point until `b` leaves at most about `max_particles` particles
// on it (the cost of shaping grows with the square of their number).
void FitPath(std::vector<In>& v, const ink::Brush& b, double max_particles = 60);
// Continues a path after `last` for predictions.
std::vector<In> MakePrediction(Rng& r, const In& prev, const In& last, int n, double err);

// ---- observations -------------------------------------------------------------------------------
struct Obs {
  std::vector<uint32_t> w;
  std::vector<std::pair<uint32_t, const char*>> marks;
  void Mark(const char* m) { marks.emplace_back(w.size(), m); }
  void U(uint64_t v) { w.push_back(uint32_t(v)); w.push_back(uint32_t(v >> 32)); }
  void F(float f) { uint32_t b; memcpy(&b, &f, 4); w.push_back(b); }
  void Bytes(const void* p, size_t n);
  void Str(const std::string& s) { U(s.size()); Bytes(s.data(), s.size()); }
  uint64_t Hash() const { return HashBytes(w.data(), w.size() * 4); }
  bool operator==(const Obs& o) const { return w == o.w; }
};
std::string DiffObs(const Obs& a, const Obs& b);

void ObserveInputs(const ink::StrokeInputBatch& b, Obs& o);
void ObserveEnvelope(const ink::Envelope& e, Obs& o);
void ObserveBrush(const ink::Brush& b, Obs& o);
void ObserveShape(const ink::PartitionedMesh& s, Obs& o);
void ObserveMutableMesh(const ink::MutableMesh& m, Obs& o, bool skip_approx = false);
// kNoApprox: leave out the anti-aliasing derivatives and margins, which are documented as approximate and which
// incremental recalculation does not bring back exactly (see DESIGN.md); the labels' categories stay in.
enum ObsWhat { kObsAll = 0, kNoRegion = 1, kNoNeedsUpdate = 2, kNoBrush = 4, kNoApprox = 8 };
Obs ObserveLive(const ink::InProgressStroke& s, int flags = 0);
Obs ObserveStroke(const ink::Stroke& s);
Obs ObserveStrokeNoIndexState(const ink::Stroke& s);

// ---- geometry helpers (plain doubles, independent of ink's geometry code) --------------------------
struct P2 { double x, y; };
struct Tri { P2 a, b, c; };
std::vector<Tri> TrianglesOf(const ink::MutableMesh& m);
std::vector<Tri> TrianglesOf(absl::Span<const ink::Mesh> meshes);
// Distance from p to the closest of `tris` (0 when inside one).
double DistanceToTriangles(const P2& p, const std::vector<Tri>& tris, double give_up = 1e300);
// Greatest distance from a sampled point of `a` to the region of `b`.
double OneSidedDeviation(const std::vector<Tri>& a, const std::vector<Tri>& b, P2* where);

}  // namespace dst
#endif
