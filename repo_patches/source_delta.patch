From bc1be48945066d1ca9c779986385a47021544f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:52 +0000
Subject: [PATCH 01/34] fix: keep the mesh of a live stroke alive when its
 StrokeShapeBuilder is moved

The extruders of a StrokeShapeBuilder point at its mesh for the duration of
a stroke. The mesh was an inline member, so moving an InProgressStroke (or
growing a container of them) in the middle of a stroke left those pointers
dangling: later updates wrote to freed memory.
---
 ink/strokes/internal/stroke_shape_builder.cc |  6 +++++-
 ink/strokes/internal/stroke_shape_builder.h  | 12 +++++++++---
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/ink/strokes/internal/stroke_shape_builder.cc b/ink/strokes/internal/stroke_shape_builder.cc
index 2a6fecb..c8f37a9 100644
--- a/ink/strokes/internal/stroke_shape_builder.cc
+++ b/ink/strokes/internal/stroke_shape_builder.cc
@@ -16,6 +16,7 @@
 
 #include <cstddef>
 #include <cstdint>
+#include <memory>
 
 #include "absl/log/absl_check.h"
 #include "absl/types/span.h"
@@ -49,6 +50,9 @@ void StrokeShapeBuilder::StartStroke(const BrushFamily::InputModel& input_model,
   // greater than zero.
   input_modeler_.StartStroke(input_model, brush_epsilon);
 
+  if (mesh_ == nullptr) {
+    mesh_ = std::make_unique<MutableMesh>(StrokeVertex::FullMeshFormat());
+  }
   mesh_bounds_.Reset();
 
   tip_count_ = coat.tips.size();
@@ -79,7 +83,7 @@ void StrokeShapeBuilder::StartStroke(const BrushFamily::InputModel& input_model,
     // this will need to be more careful about how the various extruders append
     // onto the same mesh.
     tips_[i].extruder.StartStroke(brush_epsilon,
-                                  is_winding_texture_particle_brush, mesh_);
+                                  is_winding_texture_particle_brush, *mesh_);
   }
 }
 
diff --git a/ink/strokes/internal/stroke_shape_builder.h b/ink/strokes/internal/stroke_shape_builder.h
index 28ef824..c91b0b6 100644
--- a/ink/strokes/internal/stroke_shape_builder.h
+++ b/ink/strokes/internal/stroke_shape_builder.h
@@ -17,6 +17,7 @@
 
 #include <cstddef>
 #include <cstdint>
+#include <memory>
 
 #include "absl/container/inlined_vector.h"
 #include "absl/types/span.h"
@@ -107,7 +108,10 @@ class StrokeShapeBuilder {
   uint32_t BrushTipCount() const;
 
   StrokeInputModeler input_modeler_;
-  MutableMesh mesh_;
+  // The mesh is heap-allocated so that its address stays the same when this
+  // object is moved: the extruders in `tips_` keep pointers to it for the
+  // duration of a stroke. It is null only if this object has been moved from.
+  std::unique_ptr<MutableMesh> mesh_;
   Envelope mesh_bounds_;
 
   // The outlines for the brush coat. The size of this is at least equal to the
@@ -134,9 +138,11 @@ class StrokeShapeBuilder {
 //                     Implementation details below
 
 inline StrokeShapeBuilder::StrokeShapeBuilder()
-    : mesh_(StrokeVertex::FullMeshFormat()) {}
+    : mesh_(std::make_unique<MutableMesh>(StrokeVertex::FullMeshFormat())) {}
 
-inline const MutableMesh& StrokeShapeBuilder::GetMesh() const { return mesh_; }
+inline const MutableMesh& StrokeShapeBuilder::GetMesh() const {
+  return *mesh_;
+}
 
 inline const Envelope& StrokeShapeBuilder::GetMeshBounds() const {
   return mesh_bounds_;
-- 
2.43.0


From 5372bbbfdf409e794f7c8d608afd7925b2bf4142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:52 +0000
Subject: [PATCH 02/34] fix: leave a moved-from StrokeOutline empty

The defaulted move kept the capacity and index counts of an outline whose
storage had been moved away, so restarting a moved-from InProgressStroke
wrote through a null pointer.
---
 ink/strokes/internal/stroke_outline.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ink/strokes/internal/stroke_outline.h b/ink/strokes/internal/stroke_outline.h
index 546b5d8..65f4e62 100644
--- a/ink/strokes/internal/stroke_outline.h
+++ b/ink/strokes/internal/stroke_outline.h
@@ -19,6 +19,7 @@
 #include <cstddef>
 #include <cstdint>
 #include <memory>
+#include <utility>
 
 #include "absl/base/nullability.h"
 #include "absl/log/absl_check.h"
@@ -44,9 +45,14 @@ class StrokeOutline {
 
   StrokeOutline() = default;
   StrokeOutline(const StrokeOutline&) = delete;
-  StrokeOutline(StrokeOutline&&) = default;
+  // The moved-from outline is left empty, so that it may be reused.
+  StrokeOutline(StrokeOutline&& other) noexcept
+      : index_storage_(std::exchange(other.index_storage_, {})) {}
   StrokeOutline& operator=(const StrokeOutline&) = delete;
-  StrokeOutline& operator=(StrokeOutline&&) = default;
+  StrokeOutline& operator=(StrokeOutline&& other) noexcept {
+    index_storage_ = std::exchange(other.index_storage_, {});
+    return *this;
+  }
   ~StrokeOutline() = default;
 
   // Adds new "left" and "right" indices to the outline at the end of the
-- 
2.43.0


From b0fe98d79d76bda9f0e174d076c7ae757a2a9797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:41 +0000
Subject: [PATCH 03/34] fix: drop superseded predicted inputs on every
 UpdateShape

Extending the shape always clears geometry that came from an earlier
prediction, but when nothing was queued UpdateShape kept the old predicted
inputs in GetInputs()/PredictedInputCount() and in copies of the stroke, so
recorded inputs and geometry disagreed.
---
 ink/strokes/in_progress_stroke.cc | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/ink/strokes/in_progress_stroke.cc b/ink/strokes/in_progress_stroke.cc
index fb38212..1ee5f8c 100644
--- a/ink/strokes/in_progress_stroke.cc
+++ b/ink/strokes/in_progress_stroke.cc
@@ -122,11 +122,10 @@ absl::Status InProgressStroke::UpdateShape(Duration32 current_elapsed_time) {
       !status.ok()) {
     return status;
   }
-  if (inputs_are_finished_ || !queued_real_inputs_.IsEmpty() ||
-      !queued_predicted_inputs_.IsEmpty()) {
-    // Erase any old predicted inputs.
-    processed_inputs_.Erase(real_input_count_);
-  }
+  // Erase any old predicted inputs. This must be done even if there are no new
+  // inputs, because extending the shape always drops the geometry of any
+  // previous prediction.
+  processed_inputs_.Erase(real_input_count_);
 
   if (absl::Status status = processed_inputs_.Append(queued_real_inputs_);
       !status.ok()) {
-- 
2.43.0


From 30e9bbad61986af9efb8f833a85b1b589b46da8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:41 +0000
Subject: [PATCH 04/34] fix: report that a finished stroke still showing a
 prediction needs an update

FinishInputs() drops the queued prediction but a prediction processed by an
earlier UpdateShape() stayed in the inputs and geometry while NeedsUpdate()
returned false, so the stroke was considered dry with predicted inputs in
it, and one more update changed it.
---
 ink/strokes/in_progress_stroke.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ink/strokes/in_progress_stroke.cc b/ink/strokes/in_progress_stroke.cc
index 1ee5f8c..3d3dbc7 100644
--- a/ink/strokes/in_progress_stroke.cc
+++ b/ink/strokes/in_progress_stroke.cc
@@ -167,6 +167,11 @@ bool InProgressStroke::NeedsUpdate() const {
   if (!queued_real_inputs_.IsEmpty() || !queued_predicted_inputs_.IsEmpty()) {
     return true;
   }
+  // Once the inputs are finished, any prediction that is still part of the
+  // stroke has to be removed by one more update.
+  if (inputs_are_finished_ && PredictedInputCount() > 0) {
+    return true;
+  }
   uint32_t num_coats = BrushCoatCount();
   for (uint32_t coat_index = 0; coat_index < num_coats; ++coat_index) {
     if (shape_builders_[coat_index].HasUnfinishedTimeBehaviors()) {
-- 
2.43.0


From 00cc52d2e92de2fd7999152e0eb381cf82fb45f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:41 +0000
Subject: [PATCH 05/34] fix: allow restarting a live stroke with its own brush

Start() cleared the current brush before copying its argument, so
stroke.Start(*stroke.GetBrush()) read a destroyed brush.
---
 ink/strokes/in_progress_stroke.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ink/strokes/in_progress_stroke.cc b/ink/strokes/in_progress_stroke.cc
index 3d3dbc7..dca2ead 100644
--- a/ink/strokes/in_progress_stroke.cc
+++ b/ink/strokes/in_progress_stroke.cc
@@ -16,6 +16,7 @@
 
 #include <cstdint>
 #include <optional>
+#include <utility>
 #include <vector>
 
 #include "absl/algorithm/container.h"
@@ -57,8 +58,11 @@ void InProgressStroke::Clear() {
 }
 
 void InProgressStroke::Start(const Brush& brush) {
+  // Copy the brush before clearing, since `brush` may refer to the current
+  // `brush_`, for example in `stroke.Start(*stroke.GetBrush())`.
+  Brush new_brush = brush;
   Clear();
-  brush_ = brush;
+  brush_ = std::move(new_brush);
   inputs_are_finished_ = false;
 
   absl::Span<const BrushCoat> coats = brush_->GetCoats();
-- 
2.43.0


From 20b749f6f36164d022b7757e15f6868ace184270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:54 +0000
Subject: [PATCH 06/34] fix: keep the inputs when a stroke is given its own
 inputs

SetInputs() cleared the current inputs before reading its argument, so
stroke.SetInputs(stroke.GetInputs()) erased the stroke.
---
 ink/strokes/stroke.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ink/strokes/stroke.cc b/ink/strokes/stroke.cc
index cd6ad7f..666adda 100644
--- a/ink/strokes/stroke.cc
+++ b/ink/strokes/stroke.cc
@@ -125,8 +125,7 @@ absl::Status Stroke::SetBrushEpsilon(float epsilon) {
 }
 
 void Stroke::SetInputs(const StrokeInputBatch& inputs) {
-  inputs_.Clear();
-  ABSL_CHECK_OK(inputs_.Append(inputs));
+  inputs_ = inputs;
   RegenerateShape();
 }
 
-- 
2.43.0


From 9c2eb2de608f9f6a95bbd648aaaca9b9791092fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:54 +0000
Subject: [PATCH 07/34] fix: append a batch of inputs to itself without invalid
 reads

StrokeInputBatch::Append(const StrokeInputBatch&) inserted a vector's own
range into it when a batch was appended to itself, reading freed memory
after the reallocation.
---
 ink/strokes/input/stroke_input_batch.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ink/strokes/input/stroke_input_batch.cc b/ink/strokes/input/stroke_input_batch.cc
index d22da46..fb8a953 100644
--- a/ink/strokes/input/stroke_input_batch.cc
+++ b/ink/strokes/input/stroke_input_batch.cc
@@ -340,6 +340,10 @@ absl::Status StrokeInputBatch::Append(const StrokeInputBatch& inputs) {
     return status;
   }
 
+  // Inserting a vector's own elements into it is not allowed, so append a copy
+  // instead. Note that the copy shares `data_` until `MutableValue()` below.
+  if (&inputs == this) return Append(StrokeInputBatch(inputs));
+
   // We don't call `vector::reserve` on purpose. Depending on the STL
   // implementation, it could degrade performance given the expectation that
   // this function will be called repeatedly with relatively small batches of
-- 
2.43.0


From b7a162aa65fd0514120b39db520c8c971d642531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:24 +0000
Subject: [PATCH 08/34] fix: answer queries on a shape whose render groups are
 all empty

A PartitionedMesh with render groups but no meshes (the shape of every
stroke without inputs) CHECK-failed in InitializeSpatialIndex(), the
Visit/Coverage queries and Intersects(), which are documented to treat a
shape without meshes as empty.
---
 ink/geometry/partitioned_mesh.cc | 28 ++++++++++++++--------------
 ink/geometry/partitioned_mesh.h  |  2 +-
 2 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/ink/geometry/partitioned_mesh.cc b/ink/geometry/partitioned_mesh.cc
index 4201951..55536a7 100644
--- a/ink/geometry/partitioned_mesh.cc
+++ b/ink/geometry/partitioned_mesh.cc
@@ -328,7 +328,7 @@ void VisitIntersectedTrianglesHelper(
 void PartitionedMesh::VisitIntersectedTriangles(
     Point query, absl::FunctionRef<FlowControl(TriangleIndexPair)> visitor,
     const AffineTransform& query_to_this) const {
-  if (!data_) return;
+  if (Meshes().empty()) return;
 
   VisitIntersectedTrianglesHelper(query, visitor, query_to_this,
                                   data_->Meshes(), data_->SpatialIndex());
@@ -338,7 +338,7 @@ void PartitionedMesh::VisitIntersectedTriangles(
     const Segment& query,
     absl::FunctionRef<FlowControl(TriangleIndexPair)> visitor,
     const AffineTransform& query_to_this) const {
-  if (!data_) return;
+  if (Meshes().empty()) return;
 
   VisitIntersectedTrianglesHelper(query, visitor, query_to_this,
                                   data_->Meshes(), data_->SpatialIndex());
@@ -348,7 +348,7 @@ void PartitionedMesh::VisitIntersectedTriangles(
     const Triangle& query,
     absl::FunctionRef<FlowControl(TriangleIndexPair)> visitor,
     const AffineTransform& query_to_this) const {
-  if (!data_) return;
+  if (Meshes().empty()) return;
 
   VisitIntersectedTrianglesHelper(query, visitor, query_to_this,
                                   data_->Meshes(), data_->SpatialIndex());
@@ -358,7 +358,7 @@ void PartitionedMesh::VisitIntersectedTriangles(
     const Rect& query,
     absl::FunctionRef<FlowControl(TriangleIndexPair)> visitor,
     const AffineTransform& query_to_this) const {
-  if (!data_) return;
+  if (Meshes().empty()) return;
 
   VisitIntersectedTrianglesHelper(query, visitor, query_to_this,
                                   data_->Meshes(), data_->SpatialIndex());
@@ -368,7 +368,7 @@ void PartitionedMesh::VisitIntersectedTriangles(
     const Quad& query,
     absl::FunctionRef<FlowControl(TriangleIndexPair)> visitor,
     const AffineTransform& query_to_this) const {
-  if (!data_) return;
+  if (Meshes().empty()) return;
 
   VisitIntersectedTrianglesHelper(query, visitor, query_to_this,
                                   data_->Meshes(), data_->SpatialIndex());
@@ -424,7 +424,7 @@ void PartitionedMesh::VisitIntersectedTriangles(
     const PartitionedMesh& query,
     absl::FunctionRef<FlowControl(TriangleIndexPair)> visitor,
     const AffineTransform& query_to_this) const {
-  if (!data_) return;
+  if (Meshes().empty()) return;
 
   // If `query` is empty, it can't intersect this shape.
   if (query.Meshes().empty()) return;
@@ -475,28 +475,28 @@ float ComputeCoverage(const QueryType& query,
 
 float PartitionedMesh::Coverage(const Triangle& query,
                                 const AffineTransform& query_to_this) const {
-  if (data_ == nullptr) return 0;
+  if (Meshes().empty()) return 0;
   return ComputeCoverage(query, query_to_this, *this,
                          data_->TotalAbsoluteArea());
 }
 
 float PartitionedMesh::Coverage(const Rect& query,
                                 const AffineTransform& query_to_this) const {
-  if (data_ == nullptr) return 0;
+  if (Meshes().empty()) return 0;
   return ComputeCoverage(query, query_to_this, *this,
                          data_->TotalAbsoluteArea());
 }
 
 float PartitionedMesh::Coverage(const Quad& query,
                                 const AffineTransform& query_to_this) const {
-  if (data_ == nullptr) return 0;
+  if (Meshes().empty()) return 0;
   return ComputeCoverage(query, query_to_this, *this,
                          data_->TotalAbsoluteArea());
 }
 
 float PartitionedMesh::Coverage(const PartitionedMesh& query,
                                 const AffineTransform& query_to_this) const {
-  if (data_ == nullptr) return 0;
+  if (Meshes().empty()) return 0;
   return ComputeCoverage(query, query_to_this, *this,
                          data_->TotalAbsoluteArea());
 }
@@ -533,7 +533,7 @@ float CoverageIsGreaterThanHelper(const QueryType& query,
 bool PartitionedMesh::CoverageIsGreaterThan(
     const Triangle& query, float coverage_threshold,
     const AffineTransform& query_to_this) const {
-  if (data_ == nullptr) return false;
+  if (Meshes().empty()) return false;
   return CoverageIsGreaterThanHelper(query, query_to_this, *this,
                                      coverage_threshold,
                                      data_->TotalAbsoluteArea());
@@ -542,7 +542,7 @@ bool PartitionedMesh::CoverageIsGreaterThan(
 bool PartitionedMesh::CoverageIsGreaterThan(
     const Rect& query, float coverage_threshold,
     const AffineTransform& query_to_this) const {
-  if (data_ == nullptr) return false;
+  if (Meshes().empty()) return false;
   return CoverageIsGreaterThanHelper(query, query_to_this, *this,
                                      coverage_threshold,
                                      data_->TotalAbsoluteArea());
@@ -551,7 +551,7 @@ bool PartitionedMesh::CoverageIsGreaterThan(
 bool PartitionedMesh::CoverageIsGreaterThan(
     const Quad& query, float coverage_threshold,
     const AffineTransform& query_to_this) const {
-  if (data_ == nullptr) return false;
+  if (Meshes().empty()) return false;
   return CoverageIsGreaterThanHelper(query, query_to_this, *this,
                                      coverage_threshold,
                                      data_->TotalAbsoluteArea());
@@ -560,7 +560,7 @@ bool PartitionedMesh::CoverageIsGreaterThan(
 bool PartitionedMesh::CoverageIsGreaterThan(
     const PartitionedMesh& query, float coverage_threshold,
     const AffineTransform& query_to_this) const {
-  if (data_ == nullptr) return false;
+  if (Meshes().empty()) return false;
   return CoverageIsGreaterThanHelper(query, query_to_this, *this,
                                      coverage_threshold,
                                      data_->TotalAbsoluteArea());
diff --git a/ink/geometry/partitioned_mesh.h b/ink/geometry/partitioned_mesh.h
index 34b5876..a8ee5a0 100644
--- a/ink/geometry/partitioned_mesh.h
+++ b/ink/geometry/partitioned_mesh.h
@@ -474,7 +474,7 @@ inline uint32_t PartitionedMesh::OutlineVertexCount(
 }
 
 inline void PartitionedMesh::InitializeSpatialIndex() {
-  if (!data_) return;
+  if (Meshes().empty()) return;
 
   (void)data_->SpatialIndex();
 }
-- 
2.43.0


From 57b200c4da2e5c1a0480fd7c18f6f95139819a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:24 +0000
Subject: [PATCH 09/34] fix: keep the shape when an outline uses no triangle
 vertices

FromMutableMeshGroups() drops vertices that no triangle uses, but an outline
left empty by this made it fail. One coat without triangles (for example a
single point drawn with a zero-width tip) then cost a stroke the geometry of
all of its coats.
---
 ink/geometry/partitioned_mesh.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ink/geometry/partitioned_mesh.cc b/ink/geometry/partitioned_mesh.cc
index 55536a7..1ab29fc 100644
--- a/ink/geometry/partitioned_mesh.cc
+++ b/ink/geometry/partitioned_mesh.cc
@@ -160,6 +160,9 @@ absl::StatusOr<PartitionedMesh> PartitionedMesh::FromMutableMeshGroups(
             outline_index_pairs.push_back(it->second);
           }
         }
+        // An outline has nothing left if none of its vertices is used by any
+        // triangle, for example if the mesh has no triangles at all.
+        if (outline_index_pairs.empty()) group_partitioned_outlines.pop_back();
       }
     }
 
-- 
2.43.0


From 36d41df3d4fd5c2ab1ba88ff2091538dc2614c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:21 +0000
Subject: [PATCH 10/34] fix: remodel the last real input when a dropped
 prediction goes away

StrokeInputModeler::ExtendStroke() skipped remodeling when no modeled input
came from the previous prediction. If every predicted result was dropped (e.g.
closer than the epsilon), the last real input stayed modeled as a move instead
of as the end of the stroke, so the prediction left a trace in the shape.
---
 ink/strokes/internal/stroke_input_modeler.cc | 12 ++++++++----
 ink/strokes/internal/stroke_input_modeler.h  |  2 ++
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/ink/strokes/internal/stroke_input_modeler.cc b/ink/strokes/internal/stroke_input_modeler.cc
index d278753..686c8ae 100644
--- a/ink/strokes/internal/stroke_input_modeler.cc
+++ b/ink/strokes/internal/stroke_input_modeler.cc
@@ -65,6 +65,7 @@ void StrokeInputModeler::StartStroke(const BrushFamily::InputModel& input_model,
   state_.total_real_distance = 0;
   state_.total_real_elapsed_time = Duration32::Zero();
   modeled_inputs_.clear();
+  has_predicted_inputs_ = false;
 }
 
 namespace {
@@ -176,12 +177,15 @@ void StrokeInputModeler::ExtendStroke(const StrokeInputBatch& real_inputs,
   };
 
   if (real_inputs.IsEmpty() && predicted_inputs.IsEmpty() &&
-      state_.real_input_count == modeled_inputs_.size()) {
-    // We can return early, because there are no new inputs, and none of the
-    // modeled inputs came from previous `predicted_inputs`. This allows us to
-    // skip re-modeling the `last_real_stroke_input_`.
+      !has_predicted_inputs_) {
+    // We can return early, because there are no new inputs, and there were no
+    // previous `predicted_inputs`. This allows us to skip re-modeling the
+    // `last_real_stroke_input_`. Note that it is not sufficient for there to be
+    // no modeled inputs that came from `predicted_inputs`: even if those were
+    // all dropped, they change how the `last_real_stroke_input_` was modeled.
     return;
   }
+  has_predicted_inputs_ = !predicted_inputs.IsEmpty();
 
   if (!last_real_stroke_input_.has_value()) {
     state_.tool_type = real_inputs.IsEmpty() ? predicted_inputs.GetToolType()
diff --git a/ink/strokes/internal/stroke_input_modeler.h b/ink/strokes/internal/stroke_input_modeler.h
index 1063679..8917c9c 100644
--- a/ink/strokes/internal/stroke_input_modeler.h
+++ b/ink/strokes/internal/stroke_input_modeler.h
@@ -181,6 +181,8 @@ class StrokeInputModeler {
   // All modeled inputs for a stroke.
   std::vector<ModeledStrokeInput> modeled_inputs_;
   bool stroke_modeler_has_input_ = false;
+  // True if the last update that modeled inputs had any predicted inputs.
+  bool has_predicted_inputs_ = false;
   State state_;
 };
 
-- 
2.43.0


From 7950b4d0bc62b536ff7e5c689880737e8c9bf961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:34 +0000
Subject: [PATCH 11/34] fix: keep tip states volatile while their travel
 direction may change

Forward and lateral position offsets depend on the travel direction, and thus
on the next modeled input, just like the direction sources. The last stable
tip state was fixed using an unstable (possibly predicted) next input.
---
 ink/strokes/internal/brush_tip_modeler.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/ink/strokes/internal/brush_tip_modeler.cc b/ink/strokes/internal/brush_tip_modeler.cc
index b96db30..5ee1f08 100644
--- a/ink/strokes/internal/brush_tip_modeler.cc
+++ b/ink/strokes/internal/brush_tip_modeler.cc
@@ -260,6 +260,15 @@ bool SourceDependsOnNextModeledInput(BrushBehavior::Source source) {
   return false;
 }
 
+// Returns true if the effect of `target` on a tip state depends on the travel
+// direction, which in turn depends on the next modeled input.
+bool TargetDependsOnNextModeledInput(BrushBehavior::Target target) {
+  return target == BrushBehavior::Target::
+                       kPositionOffsetForwardInMultiplesOfBrushSize ||
+         target == BrushBehavior::Target::
+                       kPositionOffsetLateralInMultiplesOfBrushSize;
+}
+
 Duration32 TimeSinceLastInput(
     const StrokeInputModeler::State& input_modeler_state) {
   // TODO: b/287041801 - Do we need to consider predicted inputs here too?
@@ -373,6 +382,9 @@ void BrushTipModeler::AppendBehaviorNode(
   float initial_modifier = InitialTargetModifierValue(node.target);
   current_target_modifiers_.push_back(initial_modifier);
   fixed_target_modifiers_.push_back(initial_modifier);
+  if (TargetDependsOnNextModeledInput(node.target)) {
+    behaviors_depend_on_next_input_ = true;
+  }
 }
 
 namespace {
-- 
2.43.0


From 4cffbcbc839796bd9f6fe9b693c30a3d958029cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:04 +0000
Subject: [PATCH 12/34] fix: do not let predictions decide whether the last
 fixed tip state is extruded

A fixed tip state too close to its predecessor was dropped for good when there
happened to be volatile (e.g. predicted) states after it, so the stroke lagged
behind the input once those went away.
---
 ink/strokes/internal/brush_tip_extruder.cc | 16 +++++++++++++---
 ink/strokes/internal/brush_tip_extruder.h  |  5 +++++
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/ink/strokes/internal/brush_tip_extruder.cc b/ink/strokes/internal/brush_tip_extruder.cc
index eef4538..09bd728 100644
--- a/ink/strokes/internal/brush_tip_extruder.cc
+++ b/ink/strokes/internal/brush_tip_extruder.cc
@@ -66,6 +66,7 @@ void BrushTipExtruder::StartStroke(float brush_epsilon,
   extrusions_.clear();
   saved_extrusion_data_count_ = 0;
   deleted_save_point_extrusions_.clear();
+  rejected_last_fixed_state_.reset();
   geometry_.Reset(MutableMeshView(mesh));
   bounds_ = {};
   outlines_.resize(1);
@@ -110,14 +111,22 @@ StrokeShapeUpdate BrushTipExtruder::ExtendStroke(
   Restore();
 
   for (size_t i = 0; i < new_fixed_states.size(); ++i) {
-    const BrushTipState& tip_state = new_fixed_states[i];
-    Extrude(tip_state, /* is_volatile_state = */ false,
-            volatile_states.empty() && i == new_fixed_states.size() - 1);
+    rejected_last_fixed_state_.reset();
+    Extrude(new_fixed_states[i], /* is_volatile_state = */ false,
+            /* is_last_state = */ false);
   }
 
   UpdateCachedPartialBounds();
   Save();
 
+  if (volatile_states.empty() && rejected_last_fixed_state_.has_value()) {
+    // The last state should not be rejected for being too close to the previous
+    // one. Whether it is the last one can change in a future update, so it must
+    // be extruded as a volatile state.
+    Extrude(*rejected_last_fixed_state_, /* is_volatile_state = */ true,
+            /* is_last_state = */ true);
+  }
+
   for (size_t i = 0; i < volatile_states.size(); ++i) {
     const BrushTipState& tip_state = volatile_states[i];
     Extrude(tip_state, /* is_volatile_state = */ true,
@@ -322,6 +331,7 @@ bool BrushTipExtruder::TryAppendNonBreakPointState(
       // TODO: b/317366793 - This value may need to be tuned.
       constexpr float kMinimumLerpAmount = 0.1;
       if (!is_last_state && result.lerp_amount < kMinimumLerpAmount) {
+        if (!is_volatile_state) rejected_last_fixed_state_ = tip_state;
         return false;
       }
 
diff --git a/ink/strokes/internal/brush_tip_extruder.h b/ink/strokes/internal/brush_tip_extruder.h
index a153906..7af14a7 100644
--- a/ink/strokes/internal/brush_tip_extruder.h
+++ b/ink/strokes/internal/brush_tip_extruder.h
@@ -17,6 +17,7 @@
 
 #include <cstddef>
 #include <cstdint>
+#include <optional>
 #include <vector>
 
 #include "absl/container/inlined_vector.h"
@@ -205,6 +206,10 @@ class BrushTipExtruder {
   // The list of extrusions that were present when `Save()` was last called and
   // have since been deleted.
   std::vector<BrushTipExtrusion> deleted_save_point_extrusions_;
+  // The last fixed state, if it was rejected for resulting in an extrusion that
+  // is too similar to the previous one. It still gets extruded whenever it is
+  // the last state of the stroke.
+  std::optional<BrushTipState> rejected_last_fixed_state_;
 
   float brush_epsilon_ = 0;
   // Parameter controlling the number of points created to approximate arcs.
-- 
2.43.0


From 8b692763373d077e17425ccc31047ee3fae2d164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:36 +0000
Subject: [PATCH 13/34] fix: keep the bounds of a stroke tight when
 self-intersections move vertices

Handling a self-intersection can move vertices whose positions had already
been added to the cached partial bounds of the extruder. The cached value was
then stale: GetMeshBounds() no longer was the bounding region of the current
positions in the mesh.
---
 ink/strokes/internal/brush_tip_extruder.cc    | 37 ++++++++++++++-----
 ink/strokes/internal/brush_tip_extruder.h     |  4 ++
 .../internal/brush_tip_extruder/geometry.cc   | 10 +++++
 .../internal/brush_tip_extruder/geometry.h    | 31 ++++++++++++++++
 4 files changed, 72 insertions(+), 10 deletions(-)

diff --git a/ink/strokes/internal/brush_tip_extruder.cc b/ink/strokes/internal/brush_tip_extruder.cc
index 09bd728..e791ce6 100644
--- a/ink/strokes/internal/brush_tip_extruder.cc
+++ b/ink/strokes/internal/brush_tip_extruder.cc
@@ -181,7 +181,17 @@ void UpdateCachedPartialBoundsForSide(
 
 }  // namespace
 
+bool BrushTipExtruder::CachedPartialBoundsAreStale() const {
+  return geometry_.FirstMovedLeftIndexOffset() <
+             bounds_.cached_partial_bounds_left_index_count ||
+         geometry_.FirstMovedRightIndexOffset() <
+             bounds_.cached_partial_bounds_right_index_count;
+}
+
 void BrushTipExtruder::UpdateCachedPartialBounds() {
+  // Handling self-intersections can move older vertices.
+  if (CachedPartialBoundsAreStale()) ClearCachedPartialBounds();
+
   // Note that updating the cached partial bounds is strictly a performance
   // optimization, and the effect of calling the following two functions would
   // only be observable through benchmarks. If they were not called,
@@ -200,18 +210,25 @@ void BrushTipExtruder::UpdateCachedPartialBounds() {
 }
 
 void BrushTipExtruder::UpdateCurrentBounds() {
+  uint32_t left_index_count = bounds_.cached_partial_bounds_left_index_count;
+  uint32_t right_index_count = bounds_.cached_partial_bounds_right_index_count;
   bounds_.current = bounds_.cached_partial_bounds;
+  if (CachedPartialBoundsAreStale()) {
+    // Extruding the volatile states has moved some of the fixed vertices. They
+    // will be restored on the next update, so the cached value is kept.
+    bounds_.current.Reset();
+    left_index_count = 0;
+    right_index_count = 0;
+  }
 
-  AddPositionsToEnvelope(
-      geometry_.GetMeshView(),
-      absl::MakeSpan(geometry_.LeftSide().indices)
-          .subspan(bounds_.cached_partial_bounds_left_index_count),
-      bounds_.current);
-  AddPositionsToEnvelope(
-      geometry_.GetMeshView(),
-      absl::MakeSpan(geometry_.RightSide().indices)
-          .subspan(bounds_.cached_partial_bounds_right_index_count),
-      bounds_.current);
+  AddPositionsToEnvelope(geometry_.GetMeshView(),
+                         absl::MakeSpan(geometry_.LeftSide().indices)
+                             .subspan(left_index_count),
+                         bounds_.current);
+  AddPositionsToEnvelope(geometry_.GetMeshView(),
+                         absl::MakeSpan(geometry_.RightSide().indices)
+                             .subspan(right_index_count),
+                         bounds_.current);
 }
 
 void BrushTipExtruder::Save() {
diff --git a/ink/strokes/internal/brush_tip_extruder.h b/ink/strokes/internal/brush_tip_extruder.h
index 7af14a7..474b2cf 100644
--- a/ink/strokes/internal/brush_tip_extruder.h
+++ b/ink/strokes/internal/brush_tip_extruder.h
@@ -132,6 +132,10 @@ class BrushTipExtruder {
   // partial bounds were mutated or deleted.
   void ClearCachedPartialBounds();
 
+  // Returns true if a vertex that contributed to the cached partial bounds was
+  // moved since the geometry was last saved or restored.
+  bool CachedPartialBoundsAreStale() const;
+
   // Updates the value of `bounds_.cached_partial_bounds`.
   //
   // This function expects to be called right after `ExtendStroke()` has
diff --git a/ink/strokes/internal/brush_tip_extruder/geometry.cc b/ink/strokes/internal/brush_tip_extruder/geometry.cc
index d94e6ad..526b3e8 100644
--- a/ink/strokes/internal/brush_tip_extruder/geometry.cc
+++ b/ink/strokes/internal/brush_tip_extruder/geometry.cc
@@ -80,6 +80,7 @@ Geometry::Geometry(const MutableMeshView& mesh) : Geometry() {
 }
 
 void Geometry::SetSavePoint() {
+  ResetMovedVertexTracking();
   if (!mesh_.HasMeshData()) return;
 
   auto set_side_state = [](const Side& side,
@@ -260,6 +261,7 @@ void Geometry::RevertToSavePoint() {
               first_mutated_right_index_offset_in_current_partition_,
               save_point_state_.right_side_state);
   last_extrusion_break_ = save_point_state_.saved_last_extrusion_break;
+  ResetMovedVertexTracking();
 
   save_point_state_.is_active = false;
 }
@@ -706,6 +708,7 @@ void Geometry::Reset(const MutableMeshView& mesh) {
   last_extrusion_break_ = {};
   save_point_state_.is_active = false;
   ResetMutationTracking();
+  ResetMovedVertexTracking();
 }
 
 namespace {
@@ -2971,6 +2974,13 @@ void Geometry::SetVertex(IndexType index, const ExtrudedVertex& new_vertex,
     UpdateFirstMutatedSideIndexValue(index, first_mutated_right_index_);
   }
 
+  if (mesh_.GetPosition(index) != new_vertex.position) {
+    uint32_t& first_moved_offset = vertex_side_ids_[index] == SideId::kLeft
+                                       ? first_moved_left_index_offset_
+                                       : first_moved_right_index_offset_;
+    first_moved_offset = std::min(first_moved_offset, side_offsets_[index]);
+  }
+
   mesh_.SetVertex(index, new_vertex);
 }
 
diff --git a/ink/strokes/internal/brush_tip_extruder/geometry.h b/ink/strokes/internal/brush_tip_extruder/geometry.h
index 40a3951..bccf6f3 100644
--- a/ink/strokes/internal/brush_tip_extruder/geometry.h
+++ b/ink/strokes/internal/brush_tip_extruder/geometry.h
@@ -18,6 +18,7 @@
 #include <array>
 #include <cstddef>
 #include <cstdint>
+#include <limits>
 #include <optional>
 #include <vector>
 
@@ -168,6 +169,13 @@ class Geometry {
   uint32_t FirstMutatedLeftIndexOffsetInCurrentPartition() const;
   uint32_t FirstMutatedRightIndexOffsetInCurrentPartition() const;
 
+  // The following return the offsets into `Side::indices` for the first vertex
+  // whose position was changed since the last call to `SetSavePoint()`,
+  // `RevertToSavePoint()` or `Reset()`, or the maximum value of `uint32_t` if
+  // there is none.
+  uint32_t FirstMovedLeftIndexOffset() const;
+  uint32_t FirstMovedRightIndexOffset() const;
+
   const MutableMeshView& GetMeshView() const;
 
   // Resets the values of member variables tracking mutations, including the
@@ -606,6 +614,9 @@ class Geometry {
                           const std::array<IndexType, 3>& new_indices,
                           bool update_save_state = true);
 
+  // Forgets which vertices were moved, see `FirstMovedLeftIndexOffset()`.
+  void ResetMovedVertexTracking();
+
   // Sets a new value for an existing index's `opposite_side_offset_`. If
   // `update_save_state` is true and a save point is set, the function will save
   // the current value as needed.
@@ -699,6 +710,13 @@ class Geometry {
   uint32_t first_mutated_left_index_offset_in_current_partition_ = 0;
   uint32_t first_mutated_right_index_offset_in_current_partition_ = 0;
 
+  // The following members keep track of the vertices of each side that were
+  // moved since the geometry was last saved, reverted or reset.
+  uint32_t first_moved_left_index_offset_ =
+      std::numeric_limits<uint32_t>::max();
+  uint32_t first_moved_right_index_offset_ =
+      std::numeric_limits<uint32_t>::max();
+
   DerivativeCalculator derivative_calculator_;
 };
 
@@ -725,6 +743,19 @@ inline uint32_t Geometry::FirstMutatedRightIndexOffsetInCurrentPartition()
   return first_mutated_right_index_offset_in_current_partition_;
 }
 
+inline uint32_t Geometry::FirstMovedLeftIndexOffset() const {
+  return first_moved_left_index_offset_;
+}
+
+inline uint32_t Geometry::FirstMovedRightIndexOffset() const {
+  return first_moved_right_index_offset_;
+}
+
+inline void Geometry::ResetMovedVertexTracking() {
+  first_moved_left_index_offset_ = std::numeric_limits<uint32_t>::max();
+  first_moved_right_index_offset_ = std::numeric_limits<uint32_t>::max();
+}
+
 }  // namespace brush_tip_extruder_internal
 }  // namespace ink
 
-- 
2.43.0


From 94106738888fb6ca1470c746f1846d241f2bc1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:16 +0000
Subject: [PATCH 14/34] fix: do not crash when rounding leaves no tangents
 between two tip shapes

For two brush tips that differ by little more than the rounding error of their
coordinates, one of the circles that are to be connected can contain the other
although neither shape contains the other. RoundedPolygon then CHECK-failed.
---
 ink/strokes/internal/brush_tip_extrusion.cc | 37 ++++++++++++++++++---
 1 file changed, 33 insertions(+), 4 deletions(-)

diff --git a/ink/strokes/internal/brush_tip_extrusion.cc b/ink/strokes/internal/brush_tip_extrusion.cc
index a720bfa..4f5307f 100644
--- a/ink/strokes/internal/brush_tip_extrusion.cc
+++ b/ink/strokes/internal/brush_tip_extrusion.cc
@@ -1,7 +1,9 @@
 #include "ink/strokes/internal/brush_tip_extrusion.h"
 
 #include <algorithm>
+#include <cstddef>
 #include <cstdlib>
+#include <optional>
 
 #include "absl/container/inlined_vector.h"
 #include "absl/log/absl_check.h"
@@ -30,11 +32,15 @@ using ::ink::geometry_internal::Circle;
 // `offset` specifies how much the returned `RoundedPolygon` should be offset
 // from the actual joined shape. This value must be >= 0.
 //
+// Returns `std::nullopt` if there are no tangents between two of the circles
+// that would be joined. This can happen due to floating-point precision loss if
+// the shapes are very close to each other.
+//
 // Note that not all of the component circles of `first` and `second` are
 // guaranteed to be contained in the returned shape; e.g. you could have two
 // rectangular `BrushTipShape`s that form a cross, which would leave two
 // circles outside the `RoundedPolygon`.
-static RoundedPolygon ConstructJoinedShape(
+static std::optional<RoundedPolygon> ConstructJoinedShape(
     const BrushTipShape& first, const BrushTipShape& second,
     const BrushTipShape::TangentCircleIndices& indices, float offset) {
   ABSL_DCHECK(!first.Contains(second));
@@ -64,6 +70,13 @@ static RoundedPolygon ConstructJoinedShape(
   add_circles(first, indices.left.first, indices.right.first);
   add_circles(second, indices.right.second, indices.left.second);
 
+  for (size_t i = 0; i < circles.size(); ++i) {
+    const Circle& next = circles[(i + 1) % circles.size()];
+    if (circles[i].Contains(next) || next.Contains(circles[i])) {
+      return std::nullopt;
+    }
+  }
+
   return RoundedPolygon(circles);
 }
 
@@ -89,6 +102,18 @@ BrushTipExtrusion::TangentQuality EvaluateTangentQualityInternal(
   BrushTipShape::TangentCircleIndices indices =
       BrushTipShape::GetTangentCircleIndices(first, second);
 
+  // Due to floating-point precision loss, there may be no tangents between the
+  // circles even though neither shape contains the other one.
+  if (!first.PerimeterCircles()[indices.left.first]
+           .GetTangentAngles(second.PerimeterCircles()[indices.left.second])
+           .has_value() ||
+      !first.PerimeterCircles()[indices.right.first]
+           .GetTangentAngles(second.PerimeterCircles()[indices.right.second])
+           .has_value()) {
+    return BrushTipExtrusion::TangentQuality::
+        kBadTangentsJoinedShapeDoesNotCoverInputShapes;
+  }
+
   // If the first circle is immediately *clockwise* to the last circle for
   // each shape, then all circles contribute to the boundary of the joined
   // shape and there are no unused circles.
@@ -113,22 +138,26 @@ BrushTipExtrusion::TangentQuality EvaluateTangentQualityInternal(
   float offset = 1e-6 * max_absolute_coordinate;
 
   // Construct the joined shape, with the offset.
-  RoundedPolygon joined_shape =
+  std::optional<RoundedPolygon> joined_shape =
       ConstructJoinedShape(first, second, indices, offset);
+  if (!joined_shape.has_value()) {
+    return BrushTipExtrusion::TangentQuality::
+        kBadTangentsJoinedShapeDoesNotCoverInputShapes;
+  }
 
   // Finally, check whether the unused circles are contained inside the joined
   // shape.
   for (int index = first.GetNextPerimeterIndexCcw(indices.right.first);
        index != indices.left.first;
        index = first.GetNextPerimeterIndexCcw(index)) {
-    if (!joined_shape.ContainsCircle(first.PerimeterCircles()[index]))
+    if (!joined_shape->ContainsCircle(first.PerimeterCircles()[index]))
       return BrushTipExtrusion::TangentQuality::
           kBadTangentsJoinedShapeDoesNotCoverInputShapes;
   }
   for (int index = second.GetNextPerimeterIndexCcw(indices.left.second);
        index != indices.right.second;
        index = second.GetNextPerimeterIndexCcw(index)) {
-    if (!joined_shape.ContainsCircle(second.PerimeterCircles()[index]))
+    if (!joined_shape->ContainsCircle(second.PerimeterCircles()[index]))
       return BrushTipExtrusion::TangentQuality::
           kBadTangentsJoinedShapeDoesNotCoverInputShapes;
   }
-- 
2.43.0


From c91e32ece030893821a0b48dbd37a067b1a1cdef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:20 +0000
Subject: [PATCH 15/34] fix: do not crash on tip shapes whose extent is lost to
 rounding

If a brush behavior moves a tip so far away that its control circles coincide
after rounding, no tangents exist between them and shaping CHECK-failed.
---
 ink/strokes/internal/brush_tip_shape.cc | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/ink/strokes/internal/brush_tip_shape.cc b/ink/strokes/internal/brush_tip_shape.cc
index 13a5536..18d1935 100644
--- a/ink/strokes/internal/brush_tip_shape.cc
+++ b/ink/strokes/internal/brush_tip_shape.cc
@@ -63,7 +63,7 @@ float CalculateCircleRadius(float percent_radius, float half_width,
   return unmodified_radius;
 }
 
-SmallArray<Circle, 4> MakeShapeControlCircles(
+SmallArray<Circle, 4> MakeShapeControlCirclesIgnoringRounding(
     const BrushTipState& tip_state, float min_nonzero_radius_and_separation) {
   ABSL_CHECK_GE(tip_state.width, 0);
   ABSL_CHECK_GE(tip_state.height, 0);
@@ -143,6 +143,23 @@ SmallArray<Circle, 4> MakeShapeControlCircles(
   };
 }
 
+SmallArray<Circle, 4> MakeShapeControlCircles(
+    const BrushTipState& tip_state, float min_nonzero_radius_and_separation) {
+  SmallArray<Circle, 4> circles = MakeShapeControlCirclesIgnoringRounding(
+      tip_state, min_nonzero_radius_and_separation);
+
+  // The separation between the circles can be lost to rounding if the position
+  // or the radius is very large in comparison. The shape is then too small to
+  // be represented as anything but a single circle.
+  absl::Span<const Circle> values = circles.Values();
+  for (size_t i = 0; values.size() > 1 && i < values.size(); ++i) {
+    if (values[i].Contains(values[(i + 1) % values.size()])) {
+      return {Circle(tip_state.position, values[i].Radius())};
+    }
+  }
+  return circles;
+}
+
 }  // namespace
 
 BrushTipShape::BrushTipShape(const BrushTipState& tip_state,
-- 
2.43.0


From 18987604d0717cdf39f87618eacca81fc8a48111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:59 +0000
Subject: [PATCH 16/34] fix: query shapes with more than 65536 triangles in one
 mesh correctly

A Mesh is limited to 65536 vertices, but it can have more triangles than
that. The 16-bit triangle_index of PartitionedMesh::TriangleIndexPair wrapped
around while the spatial index was built, so that such shapes visited some
triangles more than once and never visited others.
---
 ink/geometry/partitioned_mesh.cc | 2 +-
 ink/geometry/partitioned_mesh.h  | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/ink/geometry/partitioned_mesh.cc b/ink/geometry/partitioned_mesh.cc
index 1ab29fc..661bfdb 100644
--- a/ink/geometry/partitioned_mesh.cc
+++ b/ink/geometry/partitioned_mesh.cc
@@ -587,7 +587,7 @@ const RTree& PartitionedMesh::Data::SpatialIndex() const {
   // in order of mesh index, then triangle index.
   //
   // We want to start at mesh_index = 0, triangle_index = 0, but since they're
-  // `uint16_t`s, we have to make a copy of the current index, then increment
+  // unsigned, we have to make a copy of the current index, then increment
   // the current value, then return the copy (analogous to the post-increment
   // operator).
   auto triangle_index_pair_generator =
diff --git a/ink/geometry/partitioned_mesh.h b/ink/geometry/partitioned_mesh.h
index a8ee5a0..9dc58be 100644
--- a/ink/geometry/partitioned_mesh.h
+++ b/ink/geometry/partitioned_mesh.h
@@ -77,8 +77,9 @@ class PartitionedMesh {
   struct TriangleIndexPair {
     // The index of the `Mesh` that the triangle belongs to.
     uint16_t mesh_index;
-    // The index of the triangle within the `Mesh`.
-    uint16_t triangle_index;
+    // The index of the triangle within the `Mesh`. This is wider than the index
+    // of a vertex, because a `Mesh` can have more triangles than vertices.
+    uint32_t triangle_index;
   };
 
   // One render group for a `PartitionedMesh`, expressed using `MutableMesh`.
-- 
2.43.0


From b285733faf643c789769b429a69dd3030d9f1434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:50 +0000
Subject: [PATCH 17/34] fix: do not crash when a break without triangles
 follows the save point

If the geometry extruded between a save point and the next extrusion break has
vertices but no triangles, ClearSinceLastExtrusionBreak() took the save point
to be after the break and CHECK-failed while capturing the geometry between
them. Compare the breaks themselves instead of the triangle counts.
---
 ink/strokes/internal/brush_tip_extruder/geometry.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ink/strokes/internal/brush_tip_extruder/geometry.cc b/ink/strokes/internal/brush_tip_extruder/geometry.cc
index 526b3e8..5c9cf23 100644
--- a/ink/strokes/internal/brush_tip_extruder/geometry.cc
+++ b/ink/strokes/internal/brush_tip_extruder/geometry.cc
@@ -519,10 +519,14 @@ void Geometry::ClearSinceLastExtrusionBreak() {
   // multiple times after the save point was set). Doing so would overwrite the
   // state of the geometry when the save point was set with geometry that was
   // created after the save point.
+  //
+  // Note that comparing triangle counts would not be enough to tell whether the
+  // save point is after the last extrusion break, because the geometry between
+  // the two may consist of only vertices.
   if (save_point_state_.is_active &&
       !save_point_state_.contains_all_geometry_since_last_extrusion_break &&
-      save_point_state_.n_mesh_triangles >=
-          last_extrusion_break_.triangle_count) {
+      save_point_state_.saved_last_extrusion_break.break_count ==
+          last_extrusion_break_.break_count) {
     CaptureGeometrySinceLastExtrusionBreak(
         mesh_, vertex_side_ids_, side_offsets_, opposite_side_offsets_,
         left_side_, right_side_, last_extrusion_break_, save_point_state_);
-- 
2.43.0


From eac26415455dcd2ab3dfe66b6b4389767dcb72c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:10 +0000
Subject: [PATCH 18/34] fix: do not go on without the characters of a string

JStringView did not look at the results of NewGlobalRef() and
GetStringUTFChars(). When the VM is out of memory, it called
GetStringUTFLength() with an exception pending, and made a string_view of a
null pointer with a nonzero length. Stop there instead, as the other JNI code
does when it cannot get the contents of an array.
---
 ink/jni/internal/jni_string_util.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ink/jni/internal/jni_string_util.cc b/ink/jni/internal/jni_string_util.cc
index a43a6e8..a0d6813 100644
--- a/ink/jni/internal/jni_string_util.cc
+++ b/ink/jni/internal/jni_string_util.cc
@@ -22,9 +22,15 @@ namespace jni {
 JStringView::JStringView(JNIEnv* env, jstring j_string) : env_(env) {
   if (j_string != nullptr) {
     j_string_ = static_cast<jstring>(env_->NewGlobalRef(j_string));
+    if (j_string_ == nullptr) {
+      env_->FatalError("Out of memory for a global reference to a string");
+    }
+    const char* chars = env_->GetStringUTFChars(j_string_, nullptr);
+    if (chars == nullptr) {
+      env_->FatalError("Out of memory for the characters of a string");
+    }
     string_view_ =
-        absl::string_view(env_->GetStringUTFChars(j_string_, nullptr),
-                          env_->GetStringUTFLength(j_string_));
+        absl::string_view(chars, env_->GetStringUTFLength(j_string_));
   }
 }
 
-- 
2.43.0


From 422b70bb998a9064e7d06e52890489f1abf78cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:01 +0000
Subject: [PATCH 19/34] fix: return whole elapsed milliseconds over JNI as they
 were given

Duration32 holds seconds as a float, so that an elapsed time of 4 ms is
3.99999976 ms when it is read back. The bridge truncated that to 3 ms. Round to
the nearest millisecond instead.
---
 ink/strokes/internal/jni/stroke_input_batch_jni.cc  | 5 ++++-
 ink/strokes/internal/jni/stroke_input_jni_helper.cc | 6 +++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/ink/strokes/internal/jni/stroke_input_batch_jni.cc b/ink/strokes/internal/jni/stroke_input_batch_jni.cc
index b7b782c..8bd1eaf 100644
--- a/ink/strokes/internal/jni/stroke_input_batch_jni.cc
+++ b/ink/strokes/internal/jni/stroke_input_batch_jni.cc
@@ -14,6 +14,7 @@
 
 #include <jni.h>
 
+#include <cmath>
 #include <optional>
 
 #include "absl/log/absl_check.h"
@@ -67,7 +68,9 @@ STROKE_INPUT_BATCH_JNI_METHOD(jlong, getDurationMillis)
 (JNIEnv* env, jobject thiz, jlong native_pointer) {
   const ink::StrokeInputBatch& batch =
       ink::CastToStrokeInputBatch(native_pointer);
-  return batch.GetDuration().ToMillis();
+  // Rounded, because a whole number of milliseconds need not be exact in
+  // `Duration32`.
+  return std::llround(batch.GetDuration().ToMillis());
 }
 
 STROKE_INPUT_BATCH_JNI_METHOD(jint, getToolType)
diff --git a/ink/strokes/internal/jni/stroke_input_jni_helper.cc b/ink/strokes/internal/jni/stroke_input_jni_helper.cc
index 8fc31f5..1a23387 100644
--- a/ink/strokes/internal/jni/stroke_input_jni_helper.cc
+++ b/ink/strokes/internal/jni/stroke_input_jni_helper.cc
@@ -16,6 +16,8 @@
 
 #include <jni.h>
 
+#include <cmath>
+
 #include "absl/log/absl_check.h"
 #include "ink/geometry/angle.h"
 #include "ink/jni/internal/jni_defines.h"
@@ -89,7 +91,9 @@ void UpdateJObjectInput(JNIEnv* env, const StrokeInput& input_in,
   ABSL_CHECK(strokeinput_update_methodID)
       << "StrokeInput.update method not found.";
 
-  jlong elapsed_time_millis = input_in.elapsed_time.ToMillis();
+  // Rounded, because a whole number of milliseconds need not be exact in
+  // `Duration32`.
+  jlong elapsed_time_millis = std::llround(input_in.elapsed_time.ToMillis());
   env->CallVoidMethod(
       j_input_out, strokeinput_update_methodID, input_in.position.x,
       input_in.position.y, elapsed_time_millis, j_inputtooltype,
-- 
2.43.0


From d2742e7820006dce3efc39c78895b6a450f29eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:32 +0000
Subject: [PATCH 20/34] fix: return to the VM when a geometry object cannot be
 made or filled over JNI

When a setter of a mutable object threw, or an immutable object could not be
allocated, the geometry bridge went on to call further JNI functions with the
exception pending, which JNI forbids: such a call aborts the app under CheckJNI
and is undefined without it.
---
 .../internal/jni/parallelogram_jni.cc         | 27 ++++++++++++-------
 .../internal/jni/parallelogram_jni_helper.cc  |  7 ++---
 ink/geometry/internal/jni/point_jni_helper.cc |  1 +
 ink/geometry/internal/jni/rect_jni_helper.cc  | 15 ++++++-----
 ink/geometry/internal/jni/vec_jni_helper.cc   |  2 ++
 5 files changed, 34 insertions(+), 18 deletions(-)

diff --git a/ink/geometry/internal/jni/parallelogram_jni.cc b/ink/geometry/internal/jni/parallelogram_jni.cc
index 1c0d636..82c9abf 100644
--- a/ink/geometry/internal/jni/parallelogram_jni.cc
+++ b/ink/geometry/internal/jni/parallelogram_jni.cc
@@ -72,12 +72,15 @@ JNI_METHOD(geometry_internal, ParallelogramNative, jobjectArray, createSemiAxes)
   std::pair<Vec, Vec> axes = quad.SemiAxes();
   jobjectArray vector_array =
       env->NewObjectArray(2, immutable_vec_class, nullptr);
-  env->SetObjectArrayElement(
-      vector_array, 0,
-      ink::CreateJImmutableVecFromVec(env, axes.first, immutable_vec_class));
-  env->SetObjectArrayElement(
-      vector_array, 1,
-      ink::CreateJImmutableVecFromVec(env, axes.second, immutable_vec_class));
+  if (vector_array == nullptr) return nullptr;
+  jobject first =
+      ink::CreateJImmutableVecFromVec(env, axes.first, immutable_vec_class);
+  if (first == nullptr) return nullptr;
+  env->SetObjectArrayElement(vector_array, 0, first);
+  jobject second =
+      ink::CreateJImmutableVecFromVec(env, axes.second, immutable_vec_class);
+  if (second == nullptr) return nullptr;
+  env->SetObjectArrayElement(vector_array, 1, second);
   return vector_array;
 }
 
@@ -90,6 +93,7 @@ JNI_METHOD(geometry_internal, ParallelogramNative, void, populateSemiAxes)
       shear_factor);
   std::pair<Vec, Vec> axes = quad.SemiAxes();
   ink::FillJMutableVecFromVec(env, out_axis1, axes.first);
+  if (env->ExceptionCheck()) return;
   ink::FillJMutableVecFromVec(env, out_axis2, axes.second);
 }
 
@@ -103,10 +107,12 @@ JNI_METHOD(geometry_internal, ParallelogramNative, jobjectArray, createCorners)
   std::array<Point, 4> corners = quad.Corners();
   jobjectArray vector_array =
       env->NewObjectArray(4, immutable_vec_class, nullptr);
+  if (vector_array == nullptr) return nullptr;
   for (int i = 0; i < 4; ++i) {
-    env->SetObjectArrayElement(vector_array, i,
-                               ink::CreateJImmutableVecFromPoint(
-                                   env, corners[i], immutable_vec_class));
+    jobject corner = ink::CreateJImmutableVecFromPoint(env, corners[i],
+                                                       immutable_vec_class);
+    if (corner == nullptr) return nullptr;
+    env->SetObjectArrayElement(vector_array, i, corner);
   }
   return vector_array;
 }
@@ -120,8 +126,11 @@ JNI_METHOD(geometry_internal, ParallelogramNative, void, populateCorners)
       shear_factor);
   std::array<Point, 4> corners = quad.Corners();
   ink::FillJMutableVecFromPoint(env, out_corner1, corners[0]);
+  if (env->ExceptionCheck()) return;
   ink::FillJMutableVecFromPoint(env, out_corner2, corners[1]);
+  if (env->ExceptionCheck()) return;
   ink::FillJMutableVecFromPoint(env, out_corner3, corners[2]);
+  if (env->ExceptionCheck()) return;
   ink::FillJMutableVecFromPoint(env, out_corner4, corners[3]);
 }
 
diff --git a/ink/geometry/internal/jni/parallelogram_jni_helper.cc b/ink/geometry/internal/jni/parallelogram_jni_helper.cc
index 6859a5a..1d25f60 100644
--- a/ink/geometry/internal/jni/parallelogram_jni_helper.cc
+++ b/ink/geometry/internal/jni/parallelogram_jni_helper.cc
@@ -34,10 +34,11 @@ jobject CreateJImmutableParallelogram(JNIEnv* env, const Quad& quad,
       "(L" INK_PACKAGE "/geometry/ImmutableVec;FFFF)L" INK_PACKAGE
       "/geometry/ImmutableParallelogram;");
   ABSL_CHECK(from_center_dim_rot_shear_method);
+  jobject center = ink::CreateJImmutableVecFromPoint(
+      env, {quad.Center().x, quad.Center().y}, immutable_vec_class);
+  if (center == nullptr) return nullptr;
   return env->CallStaticObjectMethod(
-      immutable_parallelogram_class, from_center_dim_rot_shear_method,
-      ink::CreateJImmutableVecFromPoint(env, {quad.Center().x, quad.Center().y},
-                                        immutable_vec_class),
+      immutable_parallelogram_class, from_center_dim_rot_shear_method, center,
       quad.Width(), quad.Height(), quad.Rotation().ValueInRadians(),
       quad.ShearFactor());
 }
diff --git a/ink/geometry/internal/jni/point_jni_helper.cc b/ink/geometry/internal/jni/point_jni_helper.cc
index 0800b76..e0fcac4 100644
--- a/ink/geometry/internal/jni/point_jni_helper.cc
+++ b/ink/geometry/internal/jni/point_jni_helper.cc
@@ -28,6 +28,7 @@ void FillJMutablePoint(JNIEnv* env, jobject mutable_point, Point point) {
       env->GetMethodID(mutable_point_class, "setX", "(F)V");
   ABSL_CHECK(set_x_method);
   env->CallVoidMethod(mutable_point, set_x_method, point.x);
+  if (env->ExceptionCheck()) return;
 
   jmethodID set_y_method =
       env->GetMethodID(mutable_point_class, "setY", "(F)V");
diff --git a/ink/geometry/internal/jni/rect_jni_helper.cc b/ink/geometry/internal/jni/rect_jni_helper.cc
index 474e27b..010f546 100644
--- a/ink/geometry/internal/jni/rect_jni_helper.cc
+++ b/ink/geometry/internal/jni/rect_jni_helper.cc
@@ -33,12 +33,14 @@ jobject CreateJImmutableBoxFromRect(JNIEnv* env, Rect rect,
       "(L" INK_PACKAGE "/geometry/Vec;L" INK_PACKAGE
       "/geometry/Vec;)L" INK_PACKAGE "/geometry/ImmutableBox;");
   ABSL_CHECK(from_two_points_method);
-  return env->CallStaticObjectMethod(
-      immutable_box_class, from_two_points_method,
-      ink::CreateJImmutableVecFromPoint(env, {rect.XMin(), rect.YMin()},
-                                        immutable_vec_class),
-      ink::CreateJImmutableVecFromPoint(env, {rect.XMax(), rect.YMax()},
-                                        immutable_vec_class));
+  jobject min = ink::CreateJImmutableVecFromPoint(
+      env, {rect.XMin(), rect.YMin()}, immutable_vec_class);
+  if (min == nullptr) return nullptr;
+  jobject max = ink::CreateJImmutableVecFromPoint(
+      env, {rect.XMax(), rect.YMax()}, immutable_vec_class);
+  if (max == nullptr) return nullptr;
+  return env->CallStaticObjectMethod(immutable_box_class,
+                                     from_two_points_method, min, max);
 }
 
 void FillJMutableBoxFromRect(JNIEnv* env, jobject mutable_box, Rect rect) {
@@ -50,6 +52,7 @@ void FillJMutableBoxFromRect(JNIEnv* env, jobject mutable_box, Rect rect) {
   ABSL_CHECK(set_x_bound_method);
   env->CallObjectMethod(mutable_box, set_x_bound_method, rect.XMin(),
                         rect.XMax());
+  if (env->ExceptionCheck()) return;
 
   jmethodID set_y_bound_method =
       env->GetMethodID(mutable_box_class, "setYBounds",
diff --git a/ink/geometry/internal/jni/vec_jni_helper.cc b/ink/geometry/internal/jni/vec_jni_helper.cc
index f184e54..7bdd48c 100644
--- a/ink/geometry/internal/jni/vec_jni_helper.cc
+++ b/ink/geometry/internal/jni/vec_jni_helper.cc
@@ -46,6 +46,7 @@ void FillJMutableVecFromVec(JNIEnv* env, jobject mutable_vec, Vec vec) {
   jmethodID set_x_method = env->GetMethodID(mutable_vec_class, "setX", "(F)V");
   ABSL_CHECK(set_x_method);
   env->CallVoidMethod(mutable_vec, set_x_method, vec.x);
+  if (env->ExceptionCheck()) return;
 
   jmethodID set_y_method = env->GetMethodID(mutable_vec_class, "setY", "(F)V");
   ABSL_CHECK(set_y_method);
@@ -58,6 +59,7 @@ void FillJMutableVecFromPoint(JNIEnv* env, jobject mutable_vec, Point point) {
   jmethodID set_x_method = env->GetMethodID(mutable_vec_class, "setX", "(F)V");
   ABSL_CHECK(set_x_method);
   env->CallVoidMethod(mutable_vec, set_x_method, point.x);
+  if (env->ExceptionCheck()) return;
 
   jmethodID set_y_method = env->GetMethodID(mutable_vec_class, "setY", "(F)V");
   ABSL_CHECK(set_y_method);
-- 
2.43.0


From 417e07b9669970059ec31b090c9689fc09844064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:32 +0000
Subject: [PATCH 21/34] fix: do not leak the meshes of a shape when the VM is
 out of memory

getNativeAddressesOfMeshes copied the meshes before it knew whether there is an
array to return their addresses in, and filled that array even if it is null.
---
 ink/geometry/internal/jni/partitioned_mesh_jni.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ink/geometry/internal/jni/partitioned_mesh_jni.cc b/ink/geometry/internal/jni/partitioned_mesh_jni.cc
index 213a73d..dbb2d1f 100644
--- a/ink/geometry/internal/jni/partitioned_mesh_jni.cc
+++ b/ink/geometry/internal/jni/partitioned_mesh_jni.cc
@@ -62,6 +62,8 @@ JNI_METHOD(geometry, PartitionedMeshNative, jlongArray,
   absl::Span<const Mesh> meshes =
       GetPartitionedMesh(raw_ptr_to_partitioned_mesh)
           ->RenderGroupMeshes(group_index);
+  jlongArray meshes_addresses = env->NewLongArray(meshes.size());
+  if (meshes_addresses == nullptr) return nullptr;
   std::vector<jlong> meshes_ptrs(meshes.size());
   for (int i = 0; i < meshes.size(); ++i) {
     // Create new heap-allocated copies of each `Mesh` object, to be owned by
@@ -70,7 +72,6 @@ JNI_METHOD(geometry, PartitionedMeshNative, jlongArray,
     // keeps a `shared_ptr` to its (immutable) data.
     meshes_ptrs[i] = reinterpret_cast<jlong>(new Mesh(meshes[i]));
   }
-  jlongArray meshes_addresses = env->NewLongArray(meshes.size());
   env->SetLongArrayRegion(meshes_addresses, 0, meshes.size(),
                           meshes_ptrs.data());
   return meshes_addresses;
-- 
2.43.0


From bac85a523996da7e8c4bc5e7c6b84affefb3baa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:32 +0000
Subject: [PATCH 22/34] fix: stop filling a mesh specification when a string
 cannot be made

fillSkiaMeshSpecData went on to call JNI functions with an OutOfMemoryError
pending after NewStringUTF() had failed, which JNI forbids.
---
 .../jni/canvas_mesh_renderer_jni.cc           | 37 +++++++++++--------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/ink/rendering/skia/common_internal/jni/canvas_mesh_renderer_jni.cc b/ink/rendering/skia/common_internal/jni/canvas_mesh_renderer_jni.cc
index 63e4162..c8c59be 100644
--- a/ink/rendering/skia/common_internal/jni/canvas_mesh_renderer_jni.cc
+++ b/ink/rendering/skia/common_internal/jni/canvas_mesh_renderer_jni.cc
@@ -34,6 +34,15 @@ const MeshFormat* GetMeshFormat(jlong native_address) {
   return reinterpret_cast<MeshFormat*>(native_address);
 }
 
+// Puts a new string into the array, unless an exception is pending already.
+void SetStringElement(JNIEnv* env, jobjectArray array, int index,
+                      const char* value) {
+  if (env->ExceptionCheck()) return;
+  jstring string = env->NewStringUTF(value);
+  if (string == nullptr) return;
+  env->SetObjectArrayElement(array, index, string);
+}
+
 absl::StatusOr<MeshSpecificationData> GetMeshSpecificationData(
     jlong raw_ptr_to_mesh_format, jboolean packed) {
   const MeshFormat* mesh_format = GetMeshFormat(raw_ptr_to_mesh_format);
@@ -70,10 +79,10 @@ JNI_METHOD(rendering_android_canvas_internal, CanvasMeshRenderer, void,
   for (int i = 0; i < attributes.Size(); i++) {
     attribute_types[i] = static_cast<int>(attributes[i].type);
     attribute_offsets[i] = attributes[i].offset;
-    env->SetObjectArrayElement(
-        attribute_names_out, i,
-        env->NewStringUTF(std::string(attributes[i].name).c_str()));
+    SetStringElement(env, attribute_names_out, i,
+                     std::string(attributes[i].name).c_str());
   }
+  if (env->ExceptionCheck()) return;
   env->SetIntArrayRegion(attribute_types_out, 0,
                          MeshSpecificationData::kMaxAttributes,
                          attribute_types.data());
@@ -90,10 +99,10 @@ JNI_METHOD(rendering_android_canvas_internal, CanvasMeshRenderer, void,
   varying_types.fill(-1);
   for (int i = 0; i < varyings.Size(); ++i) {
     varying_types[i] = static_cast<int>(varyings[i].type);
-    env->SetObjectArrayElement(
-        varying_names_out, i,
-        env->NewStringUTF(std::string(varyings[i].name).c_str()));
+    SetStringElement(env, varying_names_out, i,
+                     std::string(varyings[i].name).c_str());
   }
+  if (env->ExceptionCheck()) return;
   env->SetIntArrayRegion(varying_types_out, 0,
                          MeshSpecificationData::kMaxVaryings,
                          varying_types.data());
@@ -112,10 +121,10 @@ JNI_METHOD(rendering_android_canvas_internal, CanvasMeshRenderer, void,
     }
     absl::string_view uniform_name =
         MeshSpecificationData::GetUniformName(uniforms[i].id);
-    env->SetObjectArrayElement(
-        uniform_names_out, i,
-        env->NewStringUTF(std::string(uniform_name).c_str()));
+    SetStringElement(env, uniform_names_out, i,
+                     std::string(uniform_name).c_str());
   }
+  if (env->ExceptionCheck()) return;
   env->SetIntArrayRegion(uniform_ids_out, 0,
                          MeshSpecificationData::kMaxUniforms,
                          uniform_ids.data());
@@ -124,14 +133,12 @@ JNI_METHOD(rendering_android_canvas_internal, CanvasMeshRenderer, void,
                          uniform_unpacking_indices.data());
 
   // Vertex shader
-  env->SetObjectArrayElement(
-      vertex_shader_out, 0,
-      env->NewStringUTF(spec_data->vertex_shader_source.c_str()));
+  SetStringElement(env, vertex_shader_out, 0,
+                   spec_data->vertex_shader_source.c_str());
 
   // Fragment shader
-  env->SetObjectArrayElement(
-      fragment_shader_out, 0,
-      env->NewStringUTF(spec_data->fragment_shader_source.c_str()));
+  SetStringElement(env, fragment_shader_out, 0,
+                   spec_data->fragment_shader_source.c_str());
 }
 
 // TODO: b/306376686 - add the `BrushPaint` argument to this method to check if
-- 
2.43.0


From 210b1ba9123b74f50646c4318b7d827feec8ab27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:32 +0000
Subject: [PATCH 23/34] fix: do not leak a texture layer that is not valid

nativeCreateTextureLayer threw without freeing the layer, which nobody else can
reach.
---
 ink/brush/internal/jni/brush_paint_jni.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ink/brush/internal/jni/brush_paint_jni.cc b/ink/brush/internal/jni/brush_paint_jni.cc
index 89ad8fd..53d4f5f 100644
--- a/ink/brush/internal/jni/brush_paint_jni.cc
+++ b/ink/brush/internal/jni/brush_paint_jni.cc
@@ -124,7 +124,7 @@ JNI_METHOD_INNER(brush, BrushPaint, TextureLayer, jlong,
 
   if (!status.ok()) {
     ink::jni::ThrowExceptionFromStatus(env, status);
-    // delete texture_layer;
+    delete texture_layer;
     return -1;
   }
   return reinterpret_cast<jlong>(texture_layer);
-- 
2.43.0


From de748345c94dfcfb3446179ccde70035498d9104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:32 +0000
Subject: [PATCH 24/34] fix: do not keep a texture layer that was not accepted

nativeAppendTextureLayer threw when the paint is not valid with the new layer,
but left the layer in the paint, which stayed usable in its invalid state.
---
 ink/brush/internal/jni/brush_paint_jni.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ink/brush/internal/jni/brush_paint_jni.cc b/ink/brush/internal/jni/brush_paint_jni.cc
index 53d4f5f..186f007 100644
--- a/ink/brush/internal/jni/brush_paint_jni.cc
+++ b/ink/brush/internal/jni/brush_paint_jni.cc
@@ -77,6 +77,7 @@ JNI_METHOD(brush, BrushPaint, void, nativeAppendTextureLayer)
   absl::Status status = ink::brush_internal::ValidateBrushPaint(*brush_paint);
 
   if (!status.ok()) {
+    brush_paint->texture_layers.pop_back();
     ink::jni::ThrowExceptionFromStatus(env, status);
     return;
   }
-- 
2.43.0


From 5b6862952c2532b80cf69d8f60f8339045fdfc0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:32 +0000
Subject: [PATCH 25/34] fix: do not read the points of a response curve through
 a null pointer

GetFloatArrayElements() returns null, and throws, when the VM is out of
memory.
---
 ink/brush/internal/jni/brush_behavior_jni.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ink/brush/internal/jni/brush_behavior_jni.cc b/ink/brush/internal/jni/brush_behavior_jni.cc
index dc78c4c..f5b5e85 100644
--- a/ink/brush/internal/jni/brush_behavior_jni.cc
+++ b/ink/brush/internal/jni/brush_behavior_jni.cc
@@ -164,6 +164,7 @@ JNI_METHOD_INNER(brush, BrushBehavior, ResponseNode, void,
       reinterpret_cast<ink::BrushBehavior*>(native_behavior_pointer);
   jsize num_points = env->GetArrayLength(points_array) / 2;
   jfloat* points_elements = env->GetFloatArrayElements(points_array, nullptr);
+  if (points_elements == nullptr) return;
   std::vector<ink::Point> points_vector;
   points_vector.reserve(num_points);
   for (int i = 0; i < num_points; ++i) {
-- 
2.43.0


From eedd4323adeb207739130438e1d8fd99ba162921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:17 +0000
Subject: [PATCH 26/34] fix: draw meshes of one coat that have different
 unpacking transforms

---
 ink/rendering/skia/native/skia_renderer.cc | 93 ++++++++++++++--------
 1 file changed, 60 insertions(+), 33 deletions(-)

diff --git a/ink/rendering/skia/native/skia_renderer.cc b/ink/rendering/skia/native/skia_renderer.cc
index cb0337b..f7b90af 100644
--- a/ink/rendering/skia/native/skia_renderer.cc
+++ b/ink/rendering/skia/native/skia_renderer.cc
@@ -96,6 +96,24 @@ float OpacityMultiplierForPath(const Brush& brush, uint32_t coat_index) {
   return brush.GetCoats()[coat_index].tips.front().opacity_multiplier;
 }
 
+// Returns true if every vertex attribute of `a` unpacks in the same way as the
+// corresponding attribute of `b`. The two meshes must have the same format.
+bool HaveSameUnpackingParams(const Mesh& a, const Mesh& b) {
+  const size_t num_attributes = a.Format().Attributes().size();
+  for (size_t i = 0; i < num_attributes; ++i) {
+    const auto& a_components = a.VertexAttributeUnpackingParams(i).components;
+    const auto& b_components = b.VertexAttributeUnpackingParams(i).components;
+    if (a_components.Size() != b_components.Size()) return false;
+    for (int j = 0; j < a_components.Size(); ++j) {
+      if (a_components[j].offset != b_components[j].offset ||
+          a_components[j].scale != b_components[j].scale) {
+        return false;
+      }
+    }
+  }
+  return true;
+}
+
 // Returns the `TextureMapping` used by the given `BrushPaint`. Right now, we
 // don't support rendering a `BrushPaint` that mixes different `TextureMapping`
 // modes, so this just returns the `TextureMapping` of the first texture layer,
@@ -217,40 +235,49 @@ absl::StatusOr<SkiaRenderer::Drawable> SkiaRenderer::CreateDrawable(
         specification_cache_.GetForStroke(stroke_shape, coat_index);
     if (!specification.ok()) return specification.status();
 
-    absl::InlinedVector<MeshDrawable::Partition, 1> partitions;
-    partitions.reserve(meshes.size());
-    for (const Mesh& mesh : meshes) {
-      absl::Span<const std::byte> vertex_data = mesh.RawVertexData();
-      absl::Span<const std::byte> index_data = mesh.RawIndexData();
-      partitions.push_back({
-          .vertex_buffer = SkMeshes::MakeVertexBuffer(
-              context, vertex_data.data(), vertex_data.size()),
-          .index_buffer = SkMeshes::MakeIndexBuffer(context, index_data.data(),
-                                                    index_data.size()),
-          .vertex_count = static_cast<int32_t>(mesh.VertexCount()),
-          .index_count = static_cast<int32_t>(3 * mesh.TriangleCount()),
-          .bounds = ToSkiaRect(*mesh.Bounds().AsRect()),
-      });
+    // All of the partitions of a `MeshDrawable` share the uniforms that hold the
+    // unpacking transforms. The meshes of a render group are not required to
+    // have the same unpacking transforms, so start a new `MeshDrawable` whenever
+    // they change from one mesh to the next.
+    while (!meshes.empty()) {
+      const Mesh& first_mesh = meshes.front();
+      absl::InlinedVector<MeshDrawable::Partition, 1> partitions;
+      do {
+        const Mesh& mesh = meshes.front();
+        absl::Span<const std::byte> vertex_data = mesh.RawVertexData();
+        absl::Span<const std::byte> index_data = mesh.RawIndexData();
+        partitions.push_back({
+            .vertex_buffer = SkMeshes::MakeVertexBuffer(
+                context, vertex_data.data(), vertex_data.size()),
+            .index_buffer = SkMeshes::MakeIndexBuffer(
+                context, index_data.data(), index_data.size()),
+            .vertex_count = static_cast<int32_t>(mesh.VertexCount()),
+            .index_count = static_cast<int32_t>(3 * mesh.TriangleCount()),
+            .bounds = ToSkiaRect(*mesh.Bounds().AsRect()),
+        });
+        meshes.remove_prefix(1);
+      } while (!meshes.empty() &&
+               HaveSameUnpackingParams(first_mesh, meshes.front()));
+
+      auto get_attribute_unpacking_transform =
+          [&first_mesh](
+              int attribute_index) -> const MeshAttributeCodingParams& {
+        return first_mesh.VertexAttributeUnpackingParams(attribute_index);
+      };
+
+      MeshUniformData uniform_data(**specification,
+                                   first_mesh.Format().Attributes(),
+                                   get_attribute_unpacking_transform);
+      absl::StatusOr<MeshDrawable> mesh_drawable = MeshDrawable::Create(
+          *specification, shader_cache_.GetBlenderForPaint(brush_paint),
+          *shader, std::move(partitions), std::move(uniform_data));
+      if (!mesh_drawable.ok()) return mesh_drawable.status();
+
+      mesh_drawable->SetBrushColor(brush.GetColor());
+      mesh_drawable->SetTextureMapping(
+          GetBrushPaintTextureMapping(brush_paint));
+      drawables.push_back(*std::move(mesh_drawable));
     }
-
-    const Mesh& first_mesh = meshes.front();
-    auto get_attribute_unpacking_transform =
-        [&first_mesh](int attribute_index) -> const MeshAttributeCodingParams& {
-      return first_mesh.VertexAttributeUnpackingParams(attribute_index);
-    };
-
-    MeshUniformData uniform_data(**specification,
-                                 first_mesh.Format().Attributes(),
-                                 get_attribute_unpacking_transform);
-    absl::StatusOr<MeshDrawable> mesh_drawable = MeshDrawable::Create(
-        *std::move(specification),
-        shader_cache_.GetBlenderForPaint(brush_paint), *std::move(shader),
-        std::move(partitions), std::move(uniform_data));
-    if (!mesh_drawable.ok()) return mesh_drawable.status();
-
-    mesh_drawable->SetBrushColor(brush.GetColor());
-    mesh_drawable->SetTextureMapping(GetBrushPaintTextureMapping(brush_paint));
-    drawables.push_back(*std::move(mesh_drawable));
   }
 
   return Drawable(object_to_canvas, std::move(drawables));
-- 
2.43.0


From 0c9fadf12850d929cbaa10a48f9f0b1c80a73feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:17 +0000
Subject: [PATCH 27/34] fix: keep the vertex outset finite where a derivative
 vanishes

---
 .../skia/common_internal/sksl_vertex_shader_helper_functions.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ink/rendering/skia/common_internal/sksl_vertex_shader_helper_functions.h b/ink/rendering/skia/common_internal/sksl_vertex_shader_helper_functions.h
index c33f09a..05ef0e2 100644
--- a/ink/rendering/skia/common_internal/sksl_vertex_shader_helper_functions.h
+++ b/ink/rendering/skia/common_internal/sksl_vertex_shader_helper_functions.h
@@ -221,7 +221,8 @@ inline constexpr absl::string_view kSkSLVertexShaderHelpers =
 
       float pixelOutsetTarget =
           targetAntialiasingPixelOutset(pixelsPerDimension.x);
-      float2 outsetTargets = float2(pixelOutsetTarget) / pixelsPerDimension;
+      float2 outsetTargets = float2(pixelOutsetTarget) /
+                             max(float2(0.000001), pixelsPerDimension);
       float2 outsets = min(outsetTargets, decodeMargins(labels));
       outsets.x = mix(outsetTargets.x, outsets.x,
                       saturate(4.0 * pixelsPerDimension.x - 1.0));
-- 
2.43.0


From a624bcdd2247d7ae96ab359ce9ab684b45109611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:12 +0000
Subject: [PATCH 28/34] fix: do not refuse to draw a live stroke that has no
 triangles yet

---
 ink/rendering/skia/native/skia_renderer.cc | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/ink/rendering/skia/native/skia_renderer.cc b/ink/rendering/skia/native/skia_renderer.cc
index f7b90af..97ee3d2 100644
--- a/ink/rendering/skia/native/skia_renderer.cc
+++ b/ink/rendering/skia/native/skia_renderer.cc
@@ -157,6 +157,11 @@ absl::StatusOr<SkiaRenderer::Drawable> SkiaRenderer::CreateDrawable(
       continue;
     }
 
+    const MutableMesh& mesh = stroke.GetMesh(coat_index);
+    // A mesh can have vertices before it has triangles, but an `SkMesh` cannot
+    // be made without any.
+    if (mesh.TriangleCount() == 0) continue;
+
     const BrushPaint& brush_paint = brush->GetCoats()[coat_index].paint;
     absl::StatusOr<sk_sp<SkShader>> shader = shader_cache_.GetShaderForPaint(
         brush_paint, brush->GetSize(), stroke.GetInputs());
@@ -166,7 +171,6 @@ absl::StatusOr<SkiaRenderer::Drawable> SkiaRenderer::CreateDrawable(
         specification_cache_.GetFor(stroke);
     if (!specification.ok()) return specification.status();
 
-    const MutableMesh& mesh = stroke.GetMesh(coat_index);
     if (mesh.VertexCount() >= std::numeric_limits<uint16_t>::max()) {
       return absl::UnimplementedError(
           "Strokes requiring at least 2^16 indices are not supported yet.");
@@ -235,10 +239,10 @@ absl::StatusOr<SkiaRenderer::Drawable> SkiaRenderer::CreateDrawable(
         specification_cache_.GetForStroke(stroke_shape, coat_index);
     if (!specification.ok()) return specification.status();
 
-    // All of the partitions of a `MeshDrawable` share the uniforms that hold the
-    // unpacking transforms. The meshes of a render group are not required to
-    // have the same unpacking transforms, so start a new `MeshDrawable` whenever
-    // they change from one mesh to the next.
+    // All of the partitions of a `MeshDrawable` share the uniforms that hold
+    // the unpacking transforms. The meshes of a render group are not required
+    // to have the same unpacking transforms, so start a new `MeshDrawable`
+    // whenever they change from one mesh to the next.
     while (!meshes.empty()) {
       const Mesh& first_mesh = meshes.front();
       absl::InlinedVector<MeshDrawable::Partition, 1> partitions;
-- 
2.43.0


From 0cc44eb75ef1d634e79121921792746d380a0aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:45 +0000
Subject: [PATCH 29/34] fix: keep surface coordinates finite for particles
 without width or height

---
 ink/strokes/internal/brush_tip_extruder.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ink/strokes/internal/brush_tip_extruder.cc b/ink/strokes/internal/brush_tip_extruder.cc
index e791ce6..58cfbb9 100644
--- a/ink/strokes/internal/brush_tip_extruder.cc
+++ b/ink/strokes/internal/brush_tip_extruder.cc
@@ -413,11 +413,16 @@ namespace {
 // `StrokeVertex::surface_uv`.
 AffineTransform ComputeParticleSurfaceUvTransform(
     const BrushTipState& tip_state) {
+  // A tip without any extent in one dimension covers no more than the middle of
+  // the texture in that dimension.
+  auto inverse = [](float extent) {
+    return extent > 1e-20f ? 1.0f / extent : 0.0f;
+  };
   // This transform takes tip size, position, and rotation into account, but
   // deliberately ignores tip slant, pinch, and corner rounding.
   return AffineTransform::Translate({0.5, 0.5}) *
-         AffineTransform::Scale(1.0f / tip_state.width,
-                                1.0f / tip_state.height) *
+         AffineTransform::Scale(inverse(tip_state.width),
+                                inverse(tip_state.height)) *
          AffineTransform::Rotate(-tip_state.rotation) *
          AffineTransform::Translate(
              {-tip_state.position.x, -tip_state.position.y});
-- 
2.43.0


From b704c3816cc0b54081d8a49763827fe61f46a558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:09 +0000
Subject: [PATCH 30/34] fix: shape finished strokes as of their last input when
 inputs do not start at time zero

---
 ink/strokes/stroke.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ink/strokes/stroke.cc b/ink/strokes/stroke.cc
index 666adda..eb66a2d 100644
--- a/ink/strokes/stroke.cc
+++ b/ink/strokes/stroke.cc
@@ -172,7 +172,10 @@ void Stroke::RegenerateShape() {
     StrokeShapeBuilder& builder = shape_gen.builders[i];
     builder.StartStroke(brush_.GetFamily().GetInputModel(), coats[i],
                         brush_.GetSize(), brush_.GetEpsilon());
-    builder.ExtendStroke(inputs_, StrokeInputBatch(), inputs_.GetDuration());
+    // The elapsed times of inputs count from the start of the stroke, which may
+    // lie before the first input.
+    builder.ExtendStroke(inputs_, StrokeInputBatch(),
+                         inputs_.Get(inputs_.Size() - 1).elapsed_time);
 
     const MutableMesh& mesh = builder.GetMesh();
     shape_gen.custom_packing_arrays.push_back(
-- 
2.43.0


From 760d1120b1793ba2c4c40082b6543e7755fd88e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:07 +0000
Subject: [PATCH 31/34] fix: use the stroke unit length of predicted inputs
 when there are no real inputs yet

---
 ink/strokes/internal/stroke_input_modeler.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ink/strokes/internal/stroke_input_modeler.cc b/ink/strokes/internal/stroke_input_modeler.cc
index 686c8ae..8e107c4 100644
--- a/ink/strokes/internal/stroke_input_modeler.cc
+++ b/ink/strokes/internal/stroke_input_modeler.cc
@@ -194,7 +194,7 @@ void StrokeInputModeler::ExtendStroke(const StrokeInputBatch& real_inputs,
                                     ? predicted_inputs.GetStrokeUnitLength()
                                     : real_inputs.GetStrokeUnitLength();
     ResetStrokeModeler(stroke_modeler_, input_model_, brush_epsilon_,
-                       real_inputs.GetStrokeUnitLength());
+                       state_.stroke_unit_length);
     stroke_modeler_has_input_ = false;
   }
 
-- 
2.43.0


From 5073f74be72aecd73c3d808208edf5efed8a74c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:07 +0000
Subject: [PATCH 32/34] fix: keep the front of the tip when a stroke moves
 along the line of its tip's control points

---
 ink/strokes/internal/brush_tip_shape.cc | 62 +++++++++++++++++++++++++
 1 file changed, 62 insertions(+)

diff --git a/ink/strokes/internal/brush_tip_shape.cc b/ink/strokes/internal/brush_tip_shape.cc
index 18d1935..aaab928 100644
--- a/ink/strokes/internal/brush_tip_shape.cc
+++ b/ink/strokes/internal/brush_tip_shape.cc
@@ -534,6 +534,18 @@ void BrushTipShape::AppendTurnExtrusionPoints(
   Circle::TangentAngles outgoing_angles =
       GetTangentAngles(middle, end, outgoing_tangent_indices);
 
+  // Snap nearly-collinear angles together, to prevent adding an unnecessary
+  // loop.
+  constexpr Angle kCollinearTol = Angle::Radians(1e-5);
+  if (Angle left_delta = Abs(incoming_angles.left - outgoing_angles.left);
+      left_delta < kCollinearTol || left_delta + kCollinearTol > kFullTurn) {
+    outgoing_angles.left = incoming_angles.left;
+  }
+  if (Angle right_delta = Abs(incoming_angles.right - outgoing_angles.right);
+      right_delta < kCollinearTol || right_delta + kCollinearTol > kFullTurn) {
+    outgoing_angles.right = incoming_angles.right;
+  }
+
   // We follow similar logic to `AppendCircularTurnExtrusionPoints` to order the
   // angles starting with `incoming_angles.left`. See that function and
   // circular_turn_extrusion_points.svg for the breakdown of cases using a
@@ -699,6 +711,50 @@ void MoveNewRightPointsOutOfLeft(Vec forward, Point shape_center,
   }
 }
 
+// Returns the index of the frontmost circle of `last` if both of the tangents
+// from `second_to_last` also touch that circle after touching a single circle
+// at the rear of `last`.
+//
+// A tie in turn angle yields the closest circle in `GetTangentCircleIndices()`.
+// When a tip with two control points moves along the line between them, that is
+// the rear circle for both sides, and the front one would be left out of the
+// endcap.
+std::optional<int> GetFrontIndexIfTied(
+    const BrushTipShape& second_to_last, const BrushTipShape& last,
+    const BrushTipShape::TangentCircleIndices& indices) {
+  constexpr Angle kTieTol = Angle::Radians(1e-3);
+
+  absl::Span<const Circle> last_circles = last.PerimeterCircles();
+  if (last_circles.size() != 2 || indices.left.second != indices.right.second) {
+    return std::nullopt;
+  }
+
+  int rear_index = indices.left.second;
+  int front_index = 1 - rear_index;
+  Vec forward = GetForwardDirectionWithFallback(second_to_last, last);
+  if (Vec::DotProduct(forward, last_circles[front_index].Center() -
+                                   last_circles[rear_index].Center()) <= 0) {
+    return std::nullopt;
+  }
+
+  absl::Span<const Circle> second_to_last_circles =
+      second_to_last.PerimeterCircles();
+  for (auto [index, side] :
+       {std::make_pair(indices.left.first, TangentSide::kLeft),
+        std::make_pair(indices.right.first, TangentSide::kRight)}) {
+    const Circle& start = second_to_last_circles[index];
+    std::optional<TangentProperties> rear_tangent = CalculateTangentProperties(
+        start, last_circles[rear_index], forward, side);
+    std::optional<TangentProperties> front_tangent = CalculateTangentProperties(
+        start, last_circles[front_index], forward, side);
+    if (!rear_tangent.has_value() || !front_tangent.has_value() ||
+        Abs(rear_tangent->turn_angle - front_tangent->turn_angle) > kTieTol) {
+      return std::nullopt;
+    }
+  }
+  return front_index;
+}
+
 }  // namespace
 
 void BrushTipShape::AppendStartcapExtrusionPoints(
@@ -735,6 +791,12 @@ void BrushTipShape::AppendEndcapExtrusionPoints(
     float max_chord_height, ExtrusionPoints& extrusion_points) {
   TangentCircleIndices tangent_indices =
       GetTangentCircleIndices(second_to_last, last);
+  if (std::optional<int> front_index =
+          GetFrontIndexIfTied(second_to_last, last, tangent_indices);
+      front_index.has_value()) {
+    tangent_indices.left.second = *front_index;
+    tangent_indices.right.second = *front_index;
+  }
 
   absl::InlinedVector<Circle, 5> circles;
   circles.push_back(second_to_last.circles_[tangent_indices.left.first]);
-- 
2.43.0


From fe287bcc518f060c462570346765186f3d0fca05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:54 +0000
Subject: [PATCH 33/34] fix: angles between nearly parallel vectors lost half
 of their digits

---
 ink/geometry/vec.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ink/geometry/vec.cc b/ink/geometry/vec.cc
index 97479d0..67b3995 100644
--- a/ink/geometry/vec.cc
+++ b/ink/geometry/vec.cc
@@ -69,8 +69,12 @@ Angle Vec::SignedAngleBetween(const Vec &a, const Vec &b) {
   // again in the determinant calculation below. Since we only care about the
   // sign of the determinant, mathematically it would be just as good to use
   // Determinant(a, b); however, using the unit vectors avoids problems such as
-  // Determinant returning NaN if both multiplications overflow to infinity.
-  Angle angle = Acos(std::clamp(DotProduct(a_unit, b_unit), -1.0f, 1.0f));
+  // Determinant returning NaN if both multiplications overflow to infinity. We
+  // also don't use Acos(), which loses half of the digits of angles close to 0
+  // and π radians.
+  Angle angle =
+      Abs(Angle::Radians(std::atan2(Determinant(a_unit, b_unit),
+                                    DotProduct(a_unit, b_unit))));
   // Negate the angle if the determinant is negative, with one weird exception
   // for `angle == kHalfTurn` that's needed due to floating point rounding.
   //
-- 
2.43.0


From 1cb679713b8c70bf590b25e879eae61c1a4a2c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:24 +0000
Subject: [PATCH 34/34] fix: tolerate rounding where a tip's tangents are tied,
 which left holes in straight strokes

---
 ink/strokes/internal/brush_tip_shape.cc | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/ink/strokes/internal/brush_tip_shape.cc b/ink/strokes/internal/brush_tip_shape.cc
index aaab928..f004513 100644
--- a/ink/strokes/internal/brush_tip_shape.cc
+++ b/ink/strokes/internal/brush_tip_shape.cc
@@ -178,6 +178,11 @@ absl::Span<const geometry_internal::Circle> BrushTipShape::PerimeterCircles()
 
 namespace {
 
+// Turn angles of tangents are considered to be tied if they are within this
+// tolerance. The precision of an angle is that of the circles' positions
+// relative to the distance between them, which may be much smaller.
+constexpr Angle kTurnAngleTieTol = Angle::Radians(1e-4);
+
 // Returns the left-right pair of indices into `tip_shape.PerimeterCircles()`
 // for the points that are farthest from `tip_shape.Center()` opposite the given
 // `forward` direction.
@@ -268,8 +273,9 @@ std::optional<int> GetLeftmostTurningIndex(const Circle& starting_circle,
     if (!tangent.has_value() || tangent->turn_angle > kQuarterTurn) continue;
 
     if (!leftmost_index.has_value() ||
-        tangent->turn_angle > leftmost_tangent.turn_angle ||
-        (tangent->turn_angle == leftmost_tangent.turn_angle &&
+        tangent->turn_angle > leftmost_tangent.turn_angle + kTurnAngleTieTol ||
+        (tangent->turn_angle >=
+             leftmost_tangent.turn_angle - kTurnAngleTieTol &&
          tangent->length < leftmost_tangent.length)) {
       leftmost_index = i;
       leftmost_tangent = *tangent;
@@ -277,7 +283,7 @@ std::optional<int> GetLeftmostTurningIndex(const Circle& starting_circle,
   }
 
   if (leftmost_index.has_value() &&
-      leftmost_tangent.turn_angle >= threshold_angle) {
+      leftmost_tangent.turn_angle >= threshold_angle - kTurnAngleTieTol) {
     return *leftmost_index;
   }
   return std::nullopt;
@@ -303,8 +309,9 @@ std::optional<int> GetRightmostTurningIndex(const Circle& starting_circle,
     if (!tangent.has_value() || tangent->turn_angle < -kQuarterTurn) continue;
 
     if (!rightmost_index.has_value() ||
-        tangent->turn_angle < rightmost_tangent.turn_angle ||
-        (tangent->turn_angle == rightmost_tangent.turn_angle &&
+        tangent->turn_angle < rightmost_tangent.turn_angle - kTurnAngleTieTol ||
+        (tangent->turn_angle <=
+             rightmost_tangent.turn_angle + kTurnAngleTieTol &&
          tangent->length < rightmost_tangent.length)) {
       rightmost_index = i;
       rightmost_tangent = *tangent;
@@ -312,7 +319,7 @@ std::optional<int> GetRightmostTurningIndex(const Circle& starting_circle,
   }
 
   if (rightmost_index.has_value() &&
-      rightmost_tangent.turn_angle <= limit_angle) {
+      rightmost_tangent.turn_angle <= limit_angle + kTurnAngleTieTol) {
     return *rightmost_index;
   }
   return std::nullopt;
@@ -722,8 +729,6 @@ void MoveNewRightPointsOutOfLeft(Vec forward, Point shape_center,
 std::optional<int> GetFrontIndexIfTied(
     const BrushTipShape& second_to_last, const BrushTipShape& last,
     const BrushTipShape::TangentCircleIndices& indices) {
-  constexpr Angle kTieTol = Angle::Radians(1e-3);
-
   absl::Span<const Circle> last_circles = last.PerimeterCircles();
   if (last_circles.size() != 2 || indices.left.second != indices.right.second) {
     return std::nullopt;
@@ -748,7 +753,8 @@ std::optional<int> GetFrontIndexIfTied(
     std::optional<TangentProperties> front_tangent = CalculateTangentProperties(
         start, last_circles[front_index], forward, side);
     if (!rear_tangent.has_value() || !front_tangent.has_value() ||
-        Abs(rear_tangent->turn_angle - front_tangent->turn_angle) > kTieTol) {
+        Abs(rear_tangent->turn_angle - front_tangent->turn_angle) >
+            kTurnAngleTieTol) {
       return std::nullopt;
     }
   }
-- 
2.43.0

