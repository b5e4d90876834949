// The bridge functions as the managed side declares them (names and parameter types of the native methods).
#ifndef DST_JNI_DECL_H_
#define DST_JNI_DECL_H_
#include <jni.h>
extern "C" {
jlong Java_androidx_ink_brush_BrushBehavior_nativeCreateEmptyBrushBehavior(JNIEnv* env, jobject thiz);
jlong Java_androidx_ink_brush_BrushBehavior_nativeValidateOrDeleteAndThrow(JNIEnv* env, jobject thiz, jlong native_pointer);
void Java_androidx_ink_brush_BrushBehavior_nativeFreeBrushBehavior(JNIEnv* env, jobject thiz, jlong native_pointer);
void Java_androidx_ink_brush_BrushBehavior_00024SourceNode_nativeAppendSourceNode(JNIEnv* env, jobject thiz, jlong native_behavior_pointer, jint source, jfloat source_value_lower_bound, jfloat source_value_upper_bound, jint source_out_of_range_behavior);
void Java_androidx_ink_brush_BrushBehavior_00024ConstantNode_nativeAppendConstantNode(JNIEnv* env, jobject thiz, jlong native_behavior_pointer, jfloat value);
void Java_androidx_ink_brush_BrushBehavior_00024FallbackFilterNode_nativeAppendFallbackFilterNode(JNIEnv* env, jobject thiz, jlong native_behavior_pointer, jint is_fallback_for);
void Java_androidx_ink_brush_BrushBehavior_00024ToolTypeFilterNode_nativeAppendToolTypeFilterNode(JNIEnv* env, jobject thiz, jlong native_behavior_pointer, jboolean mouse_enabled, jboolean touch_enabled, jboolean stylus_enabled, jboolean unknown_enabled);
void Java_androidx_ink_brush_BrushBehavior_00024DampingNode_nativeAppendDampingNode(JNIEnv* env, jobject thiz, jlong native_behavior_pointer, jint damping_source, jfloat damping_gap);
void Java_androidx_ink_brush_BrushBehavior_00024ResponseNode_nativeAppendResponseNodePredefined(JNIEnv* env, jobject thiz, jlong native_behavior_pointer, jint predefined_response_curve);
void Java_androidx_ink_brush_BrushBehavior_00024ResponseNode_nativeAppendResponseNodeCubicBezier(JNIEnv* env, jobject thiz, jlong native_behavior_pointer, jfloat x1, jfloat y1, jfloat x2, jfloat y2);
void Java_androidx_ink_brush_BrushBehavior_00024ResponseNode_nativeAppendResponseNodeSteps(JNIEnv* env, jobject thiz, jlong native_behavior_pointer, jint step_count, jint step_position);
void Java_androidx_ink_brush_BrushBehavior_00024ResponseNode_nativeAppendResponseNodeLinear(JNIEnv* env, jobject thiz, jlong native_behavior_pointer, jfloatArray points_array);
void Java_androidx_ink_brush_BrushBehavior_00024BinaryOpNode_nativeAppendBinaryOpNode(JNIEnv* env, jobject thiz, jlong native_behavior_pointer, jint operation);
void Java_androidx_ink_brush_BrushBehavior_00024InterpolationNode_nativeAppendInterpolationNode(JNIEnv* env, jobject thiz, jlong native_behavior_pointer, jint interpolation);
void Java_androidx_ink_brush_BrushBehavior_00024TargetNode_nativeAppendTargetNode(JNIEnv* env, jobject thiz, jlong native_behavior_pointer, jint target, jfloat target_modifier_lower_bound, jfloat target_modifier_upper_bound);
jlong Java_androidx_ink_brush_BrushCoat_nativeCreateBrushCoat(JNIEnv* env, jobject thiz, jlongArray tip_native_pointer_array, jlong paint_native_pointer);
void Java_androidx_ink_brush_BrushCoat_nativeFreeBrushCoat(JNIEnv* env, jobject thiz, jlong native_pointer);
jlong Java_androidx_ink_brush_BrushFamily_nativeCreateBrushFamily(JNIEnv* env, jobject thiz, jlongArray coat_native_pointer_array, jstring j_uri, jboolean use_spring_model_v2);
void Java_androidx_ink_brush_BrushFamily_nativeFreeBrushFamily(JNIEnv* env, jobject thiz, jlong native_pointer);
jlong Java_androidx_ink_brush_Brush_nativeCreateBrush(JNIEnv* env, jobject thiz, jlong family_native_pointer, jfloat color_red, jfloat color_green, jfloat color_blue, jfloat color_alpha, jint color_space_id, jfloat size, jfloat epsilon);
void Java_androidx_ink_brush_Brush_nativeFreeBrush(JNIEnv* env, jobject thiz, jlong native_pointer);
jlong Java_androidx_ink_brush_BrushPaint_nativeCreateBrushPaint(JNIEnv* env, jobject thiz, jint texture_layers_count);
void Java_androidx_ink_brush_BrushPaint_nativeAppendTextureLayer(JNIEnv* env, jobject thiz, jlong native_pointer, jlong texture_layer_pointer);
void Java_androidx_ink_brush_BrushPaint_nativeFreeBrushPaint(JNIEnv* env, jobject thiz, jlong native_pointer);
jlong Java_androidx_ink_brush_BrushPaint_00024TextureLayer_nativeCreateTextureLayer(JNIEnv* env, jobject thiz, jstring color_texture_uri, jfloat size_x, jfloat size_y, jfloat offset_x, jfloat offset_y, jfloat rotation_in_radians, jfloat opacity, jint size_unit, jint origin, jint mapping, jint wrap_x, jint wrap_y, jint blend_mode);
void Java_androidx_ink_brush_BrushPaint_00024TextureLayer_nativeFreeTextureLayer(JNIEnv* env, jobject thiz, jlong native_pointer);
jlong Java_androidx_ink_brush_BrushTip_nativeCreateBrushTip(JNIEnv* env, jobject thiz, jfloat scale_x, jfloat scale_y, jfloat corner_rounding, jfloat slant_radians, jfloat pinch, jfloat rotation_radians, jfloat opacity_multiplier, jfloat particle_gap_distance_scale, jlong particle_gap_duration_millis, jint behaviors_count);
void Java_androidx_ink_brush_BrushTip_nativeAppendBehavior(JNIEnv* env, jobject thiz, jlong tip_native_pointer, jlong behavior_native_pointer);
void Java_androidx_ink_brush_BrushTip_nativeFreeBrushTip(JNIEnv* env, jobject thiz, jlong native_pointer);
jobject Java_androidx_ink_geometry_internal_AffineTransformNative_createFromApplyParallelogram(JNIEnv* env, jclass clazz, jfloat affine_transform_A, jfloat affine_transform_B, jfloat affine_transform_C, jfloat affine_transform_D, jfloat affine_transform_E, jfloat affine_transform_F, jfloat quad_center_x, jfloat quad_center_y, jfloat quad_width, jfloat quad_height, jfloat quad_rotation, jfloat quad_shear_factor, jclass immutable_parallelogram_class, jclass immutable_vec_class);
void Java_androidx_ink_geometry_internal_AffineTransformNative_populateFromApplyParallelogram(JNIEnv* env, jclass clazz, jfloat affine_transform_A, jfloat affine_transform_B, jfloat affine_transform_C, jfloat affine_transform_D, jfloat affine_transform_E, jfloat affine_transform_F, jfloat quad_center_x, jfloat quad_center_y, jfloat quad_width, jfloat quad_height, jfloat quad_rotation, jfloat quad_shear_factor, jobject mutable_quad);
jfloat Java_androidx_ink_geometry_Angle_nativeNormalized(JNIEnv* env, jclass clazz, jfloat angle_radians);
jfloat Java_androidx_ink_geometry_Angle_nativeNormalizedAboutZero(JNIEnv* env, jclass clazz, jfloat angle_radians);
jboolean Java_androidx_ink_geometry_Intersection_nativeVecSegmentIntersects(JNIEnv* env, jclass clazz, jfloat vec_x, jfloat vec_y, jfloat segment_start_x, jfloat segment_start_y, jfloat segment_end_x, jfloat segment_end_y);
jboolean Java_androidx_ink_geometry_Intersection_nativeVecTriangleIntersects(JNIEnv* env, jclass clazz, jfloat vec_x, jfloat vec_y, jfloat triangle_p0_x, jfloat triangle_p0_y, jfloat triangle_p1_x, jfloat triangle_p1_y, jfloat triangle_p2_x, jfloat triangle_p2_y);
jboolean Java_androidx_ink_geometry_Intersection_nativeVecBoxIntersects(JNIEnv* env, jclass clazz, jfloat vec_x, jfloat vec_y, jfloat box_x_min, jfloat box_y_min, jfloat box_x_max, jfloat box_y_max);
jboolean Java_androidx_ink_geometry_Intersection_nativeVecParallelogramIntersects(JNIEnv* env, jclass clazz, jfloat vec_x, jfloat vec_y, jfloat parallelogram_center_x, jfloat parallelogram_center_y, jfloat parallelogram_width, jfloat parallelogram_height, jfloat parallelogram_angle_radian, jfloat parallelogram_shear_factor);
jboolean Java_androidx_ink_geometry_Intersection_nativeSegmentSegmentIntersects(JNIEnv* env, jclass clazz, jfloat segment_1_start_x, jfloat segment_1_start_y, jfloat segment_1_end_x, jfloat segment_1_end_y, jfloat segment_2_start_x, jfloat segment_2_start_y, jfloat segment_2_end_x, jfloat segment_2_end_y);
jboolean Java_androidx_ink_geometry_Intersection_nativeSegmentTriangleIntersects(JNIEnv* env, jclass clazz, jfloat segment_start_x, jfloat segment_start_y, jfloat segment_end_x, jfloat segment_end_y, jfloat triangle_p0_x, jfloat triangle_p0_y, jfloat triangle_p1_x, jfloat triangle_p1_y, jfloat triangle_p2_x, jfloat triangle_p2_y);
jboolean Java_androidx_ink_geometry_Intersection_nativeSegmentBoxIntersects(JNIEnv* env, jclass clazz, jfloat segment_start_x, jfloat segment_start_y, jfloat segment_end_x, jfloat segment_end_y, jfloat box_x_min, jfloat box_y_min, jfloat box_x_max, jfloat box_y_max);
jboolean Java_androidx_ink_geometry_Intersection_nativeSegmentParallelogramIntersects(JNIEnv* env, jclass clazz, jfloat segment_start_x, jfloat segment_start_y, jfloat segment_end_x, jfloat segment_end_y, jfloat parallelogram_center_x, jfloat parallelogram_center_y, jfloat parallelogram_width, jfloat parallelogram_height, jfloat parallelogram_angle_radian, jfloat parallelogram_shear_factor);
jboolean Java_androidx_ink_geometry_Intersection_nativeTriangleTriangleIntersects(JNIEnv* env, jclass clazz, jfloat triangle_1_p0_x, jfloat triangle_1_p0_y, jfloat triangle_1_p1_x, jfloat triangle_1_p1_y, jfloat triangle_1_p2_x, jfloat triangle_1_p2_y, jfloat triangle_2_p0_x, jfloat triangle_2_p0_y, jfloat triangle_2_p1_x, jfloat triangle_2_p1_y, jfloat triangle_2_p2_x, jfloat triangle_2_p2_y);
jboolean Java_androidx_ink_geometry_Intersection_nativeTriangleBoxIntersects(JNIEnv* env, jclass clazz, jfloat triangle_p0_x, jfloat triangle_p0_y, jfloat triangle_p1_x, jfloat triangle_p1_y, jfloat triangle_p2_x, jfloat triangle_p2_y, jfloat box_x_min, jfloat box_y_min, jfloat box_x_max, jfloat box_y_max);
jboolean Java_androidx_ink_geometry_Intersection_nativeTriangleParallelogramIntersects(JNIEnv* env, jclass clazz, jfloat triangle_p0_x, jfloat triangle_p0_y, jfloat triangle_p1_x, jfloat triangle_p1_y, jfloat triangle_p2_x, jfloat triangle_p2_y, jfloat parallelogram_center_x, jfloat parallelogram_center_y, jfloat parallelogram_width, jfloat parallelogram_height, jfloat parallelogram_angle_radian, jfloat parallelogram_shear_factor);
jboolean Java_androidx_ink_geometry_Intersection_nativeBoxBoxIntersects(JNIEnv* env, jclass clazz, jfloat box_1_x_min, jfloat box_1_y_min, jfloat box_1_x_max, jfloat box_1_y_max, jfloat box_2_x_min, jfloat box_2_y_min, jfloat box_2_x_max, jfloat box_2_y_max);
jboolean Java_androidx_ink_geometry_Intersection_nativeBoxParallelogramIntersects(JNIEnv* env, jclass clazz, jfloat box_x_min, jfloat box_y_min, jfloat box_x_max, jfloat box_y_max, jfloat parallelogram_center_x, jfloat parallelogram_center_y, jfloat parallelogram_width, jfloat parallelogram_height, jfloat parallelogram_angle_radian, jfloat parallelogram_shear_factor);
jboolean Java_androidx_ink_geometry_Intersection_nativeParallelogramParallelogramIntersects(JNIEnv* env, jclass clazz, jfloat parallelogram_1_center_x, jfloat parallelogram_1_center_y, jfloat parallelogram_1_width, jfloat parallelogram_1_height, jfloat parallelogram_1_angle_in_radian, jfloat parallelogram_1_shear_factor, jfloat parallelogram_2_center_x, jfloat parallelogram_2_center_y, jfloat parallelogram_2_width, jfloat parallelogram_2_height, jfloat parallelogram_2_angle_in_radian, jfloat parallelogram_2_shear_factor);
jboolean Java_androidx_ink_geometry_Intersection_nativeMeshVecIntersects(JNIEnv* env, jclass clazz, jlong raw_ptr_to_partitioned_mesh, jfloat vec_x, jfloat vec_y, jfloat vec_to_partitionedMesh_transform_a, jfloat vec_to_partitionedMesh_transform_b, jfloat vec_to_partitionedMesh_transform_c, jfloat vec_to_partitionedMesh_transform_d, jfloat vec_to_partitionedMesh_transform_e, jfloat vec_to_partitionedMesh_transform_f);
jboolean Java_androidx_ink_geometry_Intersection_nativeMeshSegmentIntersects(JNIEnv* env, jclass clazz, jlong raw_ptr_to_partitioned_mesh, jfloat segment_start_x, jfloat segment_start_y, jfloat segment_end_x, jfloat segment_end_y, jfloat segment_to_partitionedMesh_transform_a, jfloat segment_to_partitionedMesh_transform_b, jfloat segment_to_partitionedMesh_transform_c, jfloat segment_to_partitionedMesh_transform_d, jfloat segment_to_partitionedMesh_transform_e, jfloat segment_to_partitionedMesh_transform_f);
jboolean Java_androidx_ink_geometry_Intersection_nativeMeshTriangleIntersects(JNIEnv* env, jclass clazz, jlong raw_ptr_to_partitioned_mesh, jfloat triangle_p0_x, jfloat triangle_p0_y, jfloat triangle_p1_x, jfloat triangle_p1_y, jfloat triangle_p2_x, jfloat triangle_p2_y, jfloat triangle_to_partitionedMesh_transform_a, jfloat triangle_to_partitionedMesh_transform_b, jfloat triangle_to_partitionedMesh_transform_c, jfloat triangle_to_partitionedMesh_transform_d, jfloat triangle_to_partitionedMesh_transform_e, jfloat triangle_to_partitionedMesh_transform_f);
jboolean Java_androidx_ink_geometry_Intersection_nativeMeshBoxIntersects(JNIEnv* env, jclass clazz, jlong raw_ptr_to_partitioned_mesh, jfloat box_x_min, jfloat box_y_min, jfloat box_x_max, jfloat box_y_max, jfloat box_to_partitionedMesh_transform_a, jfloat box_to_partitionedMesh_transform_b, jfloat box_to_partitionedMesh_transform_c, jfloat box_to_partitionedMesh_transform_d, jfloat box_to_partitionedMesh_transform_e, jfloat box_to_partitionedMesh_transform_f);
jboolean Java_androidx_ink_geometry_Intersection_nativeMeshParallelogramIntersects(JNIEnv* env, jclass clazz, jlong raw_ptr_to_partitioned_mesh, jfloat parallelogram_center_x, jfloat parallelogram_center_y, jfloat parallelogram_width, jfloat parallelogram_height, jfloat parallelogram_angle_radian, jfloat parallelogram_shear_factor, jfloat parallelogram_to_partitionedMesh_transform_a, jfloat parallelogram_to_partitionedMesh_transform_b, jfloat parallelogram_to_partitionedMesh_transform_c, jfloat parallelogram_to_partitionedMesh_transform_d, jfloat parallelogram_to_partitionedMesh_transform_e, jfloat parallelogram_to_partitionedMesh_transform_f);
jboolean Java_androidx_ink_geometry_Intersection_nativeMeshPartitionedMeshIntersects(JNIEnv* env, jclass clazz, jlong raw_pointer_to_this_partitioned_mesh, jlong raw_pointer_to_other_partitioned_mesh, jfloat this_to_common_transform_a, jfloat this_to_common_transform_b, jfloat this_to_common_transform_c, jfloat this_to_common_transform_d, jfloat this_to_common_transform_e, jfloat this_to_common_transform_f, jfloat other_to_common_transform_a, jfloat other_to_common_transform_b, jfloat other_to_common_transform_c, jfloat other_to_common_transform_d, jfloat other_to_common_transform_e, jfloat other_to_common_transform_f);
jboolean Java_androidx_ink_geometry_MeshFormat_nativeIsPackedEquivalent(JNIEnv* env, jobject obj, jlong first_raw_ptr, jlong second_raw_ptr);
jboolean Java_androidx_ink_geometry_MeshFormat_nativeIsUnpackedEquivalent(JNIEnv* env, jobject obj, jlong first_raw_ptr, jlong second_raw_ptr);
void Java_androidx_ink_geometry_MeshFormat_nativeFree(JNIEnv* env, jobject obj, jlong raw_ptr);
void Java_androidx_ink_geometry_MeshNative_freeNative(JNIEnv* env, jclass clazz, jlong raw_ptr_to_mesh);
jobject Java_androidx_ink_geometry_MeshNative_createRawVertexBuffer(JNIEnv* env, jclass clazz, jlong raw_ptr_to_shared_ptr_mesh);
jint Java_androidx_ink_geometry_MeshNative_getVertexStride(JNIEnv* env, jclass clazz, jlong raw_ptr_to_mesh);
jint Java_androidx_ink_geometry_MeshNative_getVertexCount(JNIEnv* env, jclass clazz, jlong raw_ptr_to_mesh);
jobject Java_androidx_ink_geometry_MeshNative_createRawTriangleIndexBuffer(JNIEnv* env, jclass clazz, jlong raw_ptr_to_mesh);
jint Java_androidx_ink_geometry_MeshNative_getTriangleCount(JNIEnv* env, jclass clazz, jlong raw_ptr_to_mesh);
jint Java_androidx_ink_geometry_MeshNative_getAttributeCount(JNIEnv* env, jclass clazz, jlong raw_ptr_to_mesh);
void Java_androidx_ink_geometry_MeshNative_fillBounds(JNIEnv* env, jclass clazz, jlong raw_ptr_to_mesh, jobject mutable_envelope);
jint Java_androidx_ink_geometry_MeshNative_fillAttributeUnpackingParams(JNIEnv* env, jclass clazz, jlong raw_ptr_to_mesh, jint attribute_index, jfloatArray offsets, jfloatArray scales);
jlong Java_androidx_ink_geometry_MeshNative_allocCopyOfFormat(JNIEnv* env, jclass clazz, jlong raw_ptr_to_mesh);
void Java_androidx_ink_geometry_MeshNative_fillPosition(JNIEnv* env, jclass clazz, jlong raw_ptr_to_mesh, jint vertex_index, jobject mutable_vec);
jlong Java_androidx_ink_geometry_MeshNative_allocNativeNewEmptyMesh(JNIEnv* env, jclass clazz);
void Java_androidx_ink_geometry_BoxAccumulatorNative_nativeAddSegment(JNIEnv* env, jclass clazz, jboolean envelope_has_bounds, jfloat envelope_bounds_x_min, jfloat envelope_bounds_y_min, jfloat envelope_bounds_x_max, jfloat envelope_bounds_y_max, jfloat segment_start_x, jfloat segment_start_y, jfloat segment_end_x, jfloat segment_end_y, jobject output);
void Java_androidx_ink_geometry_BoxAccumulatorNative_nativeAddTriangle(JNIEnv* env, jclass clazz, jboolean envelope_has_bounds, jfloat envelope_bounds_x_min, jfloat envelope_bounds_y_min, jfloat envelope_bounds_x_max, jfloat envelope_bounds_y_max, jfloat triangle_p0_x, jfloat triangle_p0_y, jfloat triangle_p1_x, jfloat triangle_p1_y, jfloat triangle_p2_x, jfloat triangle_p2_y, jobject output);
void Java_androidx_ink_geometry_BoxAccumulatorNative_nativeAddParallelogram(JNIEnv* env, jclass clazz, jboolean envelope_has_bounds, jfloat envelope_bounds_x_min, jfloat envelope_bounds_y_min, jfloat envelope_bounds_x_max, jfloat envelope_bounds_y_max, jfloat quad_center_x, jfloat quad_center_y, jfloat quad_width, jfloat quad_height, jfloat quad_angle_radian, jfloat quad_shear_factor, jobject output);
void Java_androidx_ink_geometry_BoxAccumulatorNative_nativeAddPoint(JNIEnv* env, jclass clazz, jboolean envelope_has_bounds, jfloat envelope_bounds_x_min, jfloat envelope_bounds_y_min, jfloat envelope_bounds_x_max, jfloat envelope_bounds_y_max, jfloat point_x, jfloat point_y, jobject output);
void Java_androidx_ink_geometry_BoxAccumulatorNative_nativeAddOptionalBox(JNIEnv* env, jclass clazz, jboolean envelope_has_bounds, jfloat envelope_bounds_x_min, jfloat envelope_bounds_y_min, jfloat envelope_bounds_x_max, jfloat envelope_bounds_y_max, jboolean box_has_bounds, jfloat box_x_min, jfloat box_y_min, jfloat box_x_max, jfloat box_y_max, jobject output);
jobject Java_androidx_ink_geometry_internal_ParallelogramNative_createBoundingBox(JNIEnv* env, jclass clazz, jfloat center_x, jfloat center_y, jfloat width, jfloat height, jfloat rotation, jfloat shear_factor, jclass immutable_box_class, jclass immutable_vec_class);
void Java_androidx_ink_geometry_internal_ParallelogramNative_populateBoundingBox(JNIEnv* env, jclass clazz, jfloat center_x, jfloat center_y, jfloat width, jfloat height, jfloat rotation, jfloat shear_factor, jobject mutable_box);
jobjectArray Java_androidx_ink_geometry_internal_ParallelogramNative_createSemiAxes(JNIEnv* env, jclass clazz, jfloat center_x, jfloat center_y, jfloat width, jfloat height, jfloat rotation, jfloat shear_factor, jclass immutable_vec_class);
void Java_androidx_ink_geometry_internal_ParallelogramNative_populateSemiAxes(JNIEnv* env, jclass clazz, jfloat center_x, jfloat center_y, jfloat width, jfloat height, jfloat rotation, jfloat shear_factor, jobject out_axis1, jobject out_axis2);
jobjectArray Java_androidx_ink_geometry_internal_ParallelogramNative_createCorners(JNIEnv* env, jclass clazz, jfloat center_x, jfloat center_y, jfloat width, jfloat height, jfloat rotation, jfloat shear_factor, jclass immutable_vec_class);
void Java_androidx_ink_geometry_internal_ParallelogramNative_populateCorners(JNIEnv* env, jclass clazz, jfloat center_x, jfloat center_y, jfloat width, jfloat height, jfloat rotation, jfloat shear_factor, jobject out_corner1, jobject out_corner2, jobject out_corner3, jobject out_corner4);
jboolean Java_androidx_ink_geometry_internal_ParallelogramNative_contains(JNIEnv* env, jclass clazz, jfloat center_x, jfloat center_y, jfloat width, jfloat height, jfloat rotation, jfloat shear_factor, jfloat point_x, jfloat point_y);
void Java_androidx_ink_geometry_PartitionedMeshNative_free(JNIEnv* env, jclass clazz, jlong raw_ptr_to_partitioned_mesh);
jlongArray Java_androidx_ink_geometry_PartitionedMeshNative_getNativeAddressesOfMeshes(JNIEnv* env, jclass clazz, jlong raw_ptr_to_partitioned_mesh, jint group_index);
jint Java_androidx_ink_geometry_PartitionedMeshNative_getRenderGroupCount(JNIEnv* env, jclass clazz, jlong raw_ptr_to_partitioned_mesh);
jlong Java_androidx_ink_geometry_PartitionedMeshNative_getRenderGroupFormat(JNIEnv* env, jclass clazz, jlong raw_ptr_to_partitioned_mesh, jint group_index);
jint Java_androidx_ink_geometry_PartitionedMeshNative_getOutlineCount(JNIEnv* env, jclass clazz, jlong raw_ptr_to_partitioned_mesh, jint group_index);
jint Java_androidx_ink_geometry_PartitionedMeshNative_getOutlineVertexCount(JNIEnv* env, jclass clazz, jlong raw_ptr_to_partitioned_mesh, jint group_index, jint outline_index);
void Java_androidx_ink_geometry_PartitionedMeshNative_fillOutlineMeshIndexAndMeshVertexIndex(JNIEnv* env, jclass clazz, jlong raw_ptr_to_partitioned_mesh, jint group_index, jint outline_index, jint outline_vertex_index, jintArray out_mesh_index_and_mesh_vertex_index);
jlong Java_androidx_ink_geometry_PartitionedMeshNative_alloc(JNIEnv* env, jclass clazz);
jfloat Java_androidx_ink_geometry_PartitionedMeshNative_partitionedMeshTriangleCoverage(JNIEnv* env, jclass clazz, jlong raw_ptr_to_partitioned_mesh, jfloat triangle_p0_x, jfloat triangle_p0_y, jfloat triangle_p1_x, jfloat triangle_p1_y, jfloat triangle_p2_x, jfloat triangle_p2_y, jfloat triangle_to_partitionedMesh_transform_a, jfloat triangle_to_partitionedMesh_transform_b, jfloat triangle_to_partitionedMesh_transform_c, jfloat triangle_to_partitionedMesh_transform_d, jfloat triangle_to_partitionedMesh_transform_e, jfloat triangle_to_partitionedMesh_transform_f);
jfloat Java_androidx_ink_geometry_PartitionedMeshNative_partitionedMeshBoxCoverage(JNIEnv* env, jclass clazz, jlong raw_ptr_to_partitioned_mesh, jfloat rect_x_min, jfloat rect_y_min, jfloat rect_x_max, jfloat rect_y_max, jfloat rect_to_partitionedMesh_transform_a, jfloat rect_to_partitionedMesh_transform_b, jfloat rect_to_partitionedMesh_transform_c, jfloat rect_to_partitionedMesh_transform_d, jfloat rect_to_partitionedMesh_transform_e, jfloat rect_to_partitionedMesh_transform_f);
jfloat Java_androidx_ink_geometry_PartitionedMeshNative_partitionedMeshParallelogramCoverage(JNIEnv* env, jclass clazz, jlong raw_ptr_to_partitioned_mesh, jfloat quad_center_x, jfloat quad_center_y, jfloat quad_width, jfloat quad_height, jfloat quad_angle_radian, jfloat quad_shear_factor, jfloat quad_to_partitionedMesh_transform_a, jfloat quad_to_partitionedMesh_transform_b, jfloat quad_to_partitionedMesh_transform_c, jfloat quad_to_partitionedMesh_transform_d, jfloat quad_to_partitionedMesh_transform_e, jfloat quad_to_partitionedMesh_transform_f);
jfloat Java_androidx_ink_geometry_PartitionedMeshNative_partitionedMeshPartitionedMeshCoverage(JNIEnv* env, jclass clazz, jlong raw_ptr_to_this_partitioned_mesh, jlong raw_ptr_to_other_partitioned_mesh, jfloat other_to_this_transform_a, jfloat other_to_this_transform_b, jfloat other_to_this_transform_c, jfloat other_to_this_transform_d, jfloat other_to_this_transform_e, jfloat other_to_this_transform_f);
jboolean Java_androidx_ink_geometry_PartitionedMeshNative_partitionedMeshTriangleCoverageIsGreaterThan(JNIEnv* env, jclass clazz, jlong raw_ptr_to_partitioned_mesh, jfloat triangle_p0_x, jfloat triangle_p0_y, jfloat triangle_p1_x, jfloat triangle_p1_y, jfloat triangle_p2_x, jfloat triangle_p2_y, jfloat coverage_threshold, jfloat triangle_to_partitionedMesh_transform_a, jfloat triangle_to_partitionedMesh_transform_b, jfloat triangle_to_partitionedMesh_transform_c, jfloat triangle_to_partitionedMesh_transform_d, jfloat triangle_to_partitionedMesh_transform_e, jfloat triangle_to_partitionedMesh_transform_f);
jboolean Java_androidx_ink_geometry_PartitionedMeshNative_partitionedMeshBoxCoverageIsGreaterThan(JNIEnv* env, jclass clazz, jlong raw_ptr_to_partitioned_mesh, jfloat rect_x_min, jfloat rect_y_min, jfloat rect_x_max, jfloat rect_y_max, jfloat coverage_threshold, jfloat rect_to_partitionedMesh_transform_a, jfloat rect_to_partitionedMesh_transform_b, jfloat rect_to_partitionedMesh_transform_c, jfloat rect_to_partitionedMesh_transform_d, jfloat rect_to_partitionedMesh_transform_e, jfloat rect_to_partitionedMesh_transform_f);
jboolean Java_androidx_ink_geometry_PartitionedMeshNative_partitionedMeshParallelogramCoverageIsGreaterThan(JNIEnv* env, jclass clazz, jlong raw_ptr_to_partitioned_mesh, jfloat quad_center_x, jfloat quad_center_y, jfloat quad_width, jfloat quad_height, jfloat quad_angle_radian, jfloat quad_shear_factor, jfloat coverage_threshold, jfloat quad_to_partitionedMesh_transform_a, jfloat quad_to_partitionedMesh_transform_b, jfloat quad_to_partitionedMesh_transform_c, jfloat quad_to_partitionedMesh_transform_d, jfloat quad_to_partitionedMesh_transform_e, jfloat quad_to_partitionedMesh_transform_f);
jboolean Java_androidx_ink_geometry_PartitionedMeshNative_partitionedMeshPartitionedMeshCoverageIsGreaterThan(JNIEnv* env, jclass clazz, jlong raw_ptr_to_this_partitioned_mesh, jlong raw_ptr_to_other_partitioned_mesh, jfloat coverage_threshold, jfloat other_to_this_transform_a, jfloat other_to_this_transform_b, jfloat other_to_this_transform_c, jfloat other_to_this_transform_d, jfloat other_to_this_transform_e, jfloat other_to_this_transform_f);
void Java_androidx_ink_geometry_PartitionedMeshNative_initializeSpatialIndex(JNIEnv* env, jclass clazz, jlong raw_ptr_to_this_partitioned_mesh);
jboolean Java_androidx_ink_geometry_PartitionedMeshNative_isSpatialIndexInitialized(JNIEnv* env, jclass clazz, jlong raw_ptr_to_this_partitioned_mesh);
jobject Java_androidx_ink_geometry_internal_BoxNative_createCenter(JNIEnv* env, jclass clazz, float rect_x_min, jfloat rect_y_min, jfloat rect_x_max, jfloat rect_y_max, jclass immutable_vec_class);
void Java_androidx_ink_geometry_internal_BoxNative_populateCenter(JNIEnv* env, jclass clazz, float rect_x_min, jfloat rect_y_min, jfloat rect_x_max, jfloat rect_y_max, jobject mutable_vec);
jboolean Java_androidx_ink_geometry_internal_BoxNative_containsPoint(JNIEnv* env, jclass clazz, jfloat rect_x_min, jfloat rect_y_min, jfloat rect_x_max, jfloat rect_y_max, jfloat point_x, jfloat point_y);
jboolean Java_androidx_ink_geometry_internal_BoxNative_containsBox(JNIEnv* env, jclass clazz, jfloat rect_x_min, jfloat rect_y_min, jfloat rect_x_max, jfloat rect_y_max, jfloat other_x_min, jfloat other_y_min, jfloat other_x_max, jfloat other_y_max);
jboolean Java_androidx_ink_geometry_TriangleNative_nativeContains(JNIEnv* env, jclass clazz, jfloat triangle_p0_x, jfloat triangle_p0_y, jfloat triangle_p1_x, jfloat triangle_p1_y, jfloat triangle_p2_x, jfloat triangle_p2_y, jfloat point_x, jfloat point_y);
jobject Java_androidx_ink_geometry_internal_VecNative_unitVec(JNIEnv* env, jclass clazz, jfloat vec_X, jfloat vec_Y, jclass immutable_vec_class);
void Java_androidx_ink_geometry_internal_VecNative_populateUnitVec(JNIEnv* env, jclass clazz, jfloat vec_X, jfloat vec_Y, jobject output_mutable_vec);
jfloat Java_androidx_ink_geometry_internal_VecNative_absoluteAngleBetween(JNIEnv* env, jclass clazz, jfloat first_vec_X, jfloat first_vec_Y, jfloat second_vec_X, jfloat second_vec_Y);
jfloat Java_androidx_ink_geometry_internal_VecNative_signedAngleBetween(JNIEnv* env, jclass clazz, jfloat first_vec_X, jfloat first_vec_Y, jfloat second_vec_X, jfloat second_vec_Y);
void Java_androidx_ink_rendering_android_canvas_internal_CanvasMeshRenderer_fillSkiaMeshSpecData(JNIEnv* env, jclass clazz, jlong raw_ptr_to_mesh_format, jboolean packed, jintArray attribute_types_out, jintArray attribute_offsets_out, jobjectArray attribute_names_out, jintArray vertex_stride_out, jintArray varying_types_out, jobjectArray varying_names_out, jintArray uniform_ids_out, jintArray uniform_unpacking_indices_out, jobjectArray uniform_names_out, jobjectArray vertex_shader_out, jobjectArray fragment_shader_out);
jboolean Java_androidx_ink_rendering_android_canvas_internal_CanvasMeshRenderer_nativeIsMeshFormatRenderable(JNIEnv* env, jclass clazz, jlong raw_ptr_to_mesh_format, jboolean packed);
jlong Java_androidx_ink_strokes_InProgressStroke_nativeCreateInProgressStroke(JNIEnv* env, jobject thiz);
void Java_androidx_ink_strokes_InProgressStroke_nativeFreeInProgressStroke(JNIEnv* env, jobject thiz, jlong native_pointer);
void Java_androidx_ink_strokes_InProgressStroke_nativeClear(JNIEnv* env, jobject thiz, jlong native_pointer);
void Java_androidx_ink_strokes_InProgressStroke_nativeStart(JNIEnv* env, jobject thiz, jlong native_pointer, jlong brush_native_pointer);
jstring Java_androidx_ink_strokes_InProgressStroke_nativeEnqueueInputs(JNIEnv* env, jobject thiz, jlong native_pointer, jlong real_inputs_pointer, jlong predicted_inputs_pointer);
jstring Java_androidx_ink_strokes_InProgressStroke_nativeUpdateShape(JNIEnv* env, jobject thiz, jlong native_pointer, jlong j_current_elapsed_time_millis);
void Java_androidx_ink_strokes_InProgressStroke_nativeFinishInput(JNIEnv* env, jobject thiz, jlong native_pointer);
jboolean Java_androidx_ink_strokes_InProgressStroke_nativeIsInputFinished(JNIEnv* env, jobject thiz, jlong native_pointer);
jboolean Java_androidx_ink_strokes_InProgressStroke_nativeNeedsUpdate(JNIEnv* env, jobject thiz, jlong native_pointer);
jlong Java_androidx_ink_strokes_InProgressStroke_nativeCopyToStroke(JNIEnv* env, jobject thiz, jlong native_pointer);
jint Java_androidx_ink_strokes_InProgressStroke_nativeInputCount(JNIEnv* env, jobject thiz, jlong native_pointer);
jint Java_androidx_ink_strokes_InProgressStroke_nativeRealInputCount(JNIEnv* env, jobject thiz, jlong native_pointer);
jint Java_androidx_ink_strokes_InProgressStroke_nativePredictedInputCount(JNIEnv* env, jobject thiz, jlong native_pointer);
jint Java_androidx_ink_strokes_InProgressStroke_nativeFillInputs(JNIEnv* env, jobject thiz, jlong native_pointer, jlong mutable_stroke_input_batch_pointer, jint from, jint to);
void Java_androidx_ink_strokes_InProgressStroke_nativeGetAndOverwriteInput(JNIEnv* env, jobject thiz, jlong native_pointer, jobject j_input, jint index, jclass input_tool_type_class);
jint Java_androidx_ink_strokes_InProgressStroke_nativeBrushCoatCount(JNIEnv* env, jobject thiz, jlong native_pointer);
void Java_androidx_ink_strokes_InProgressStroke_nativeGetMeshBounds(JNIEnv* env, jobject thiz, jlong native_pointer, jint coat_index, jobject j_out_envelope);
void Java_androidx_ink_strokes_InProgressStroke_nativeFillUpdatedRegion(JNIEnv* env, jobject thiz, jlong native_pointer, jobject j_out_envelope);
void Java_androidx_ink_strokes_InProgressStroke_nativeResetUpdatedRegion(JNIEnv* env, jobject thiz, jlong native_pointer);
jint Java_androidx_ink_strokes_InProgressStroke_nativeGetOutlineCount(JNIEnv* env, jobject thiz, jlong native_pointer, jint coat_index);
jint Java_androidx_ink_strokes_InProgressStroke_nativeGetOutlineVertexCount(JNIEnv* env, jobject thiz, jlong native_pointer, jint coat_index, jint outline_index);
void Java_androidx_ink_strokes_InProgressStroke_nativeFillOutlinePosition(JNIEnv* env, jobject thiz, jlong native_pointer, jint coat_index, jint outline_index, jint outline_vertex_index, jobject out_position);
jint Java_androidx_ink_strokes_InProgressStroke_nativeGetMeshPartitionCount(JNIEnv* env, jobject thiz, jlong native_pointer, jint coat_index);
jint Java_androidx_ink_strokes_InProgressStroke_nativeGetVertexCount(JNIEnv* env, jobject thiz, jlong native_pointer, jint coat_index, jint mesh_index);
jobject Java_androidx_ink_strokes_InProgressStroke_nativeGetRawVertexData(JNIEnv* env, jobject thiz, jlong native_pointer, jint coat_index, jint mesh_index);
jobject Java_androidx_ink_strokes_InProgressStroke_nativeGetRawTriangleIndexData(JNIEnv* env, jobject thiz, jlong native_pointer, jint coat_index, jint mesh_index);
jint Java_androidx_ink_strokes_InProgressStroke_nativeGetTriangleIndexStride(JNIEnv* env, jobject thiz, jlong native_pointer, jint mesh_index);
jlong Java_androidx_ink_strokes_InProgressStroke_nativeAllocMeshFormatCopy(JNIEnv* env, jobject thiz, jlong native_pointer, jint coat_index, jint mesh_index);
jlong Java_androidx_ink_strokes_StrokeInputBatchNative_createNativePeer(JNIEnv* env, jobject thiz);
void Java_androidx_ink_strokes_StrokeInputBatchNative_freeNativePeer(JNIEnv* env, jobject thiz, jlong native_pointer);
jint Java_androidx_ink_strokes_StrokeInputBatchNative_getSize(JNIEnv* env, jobject thiz, jlong native_pointer);
void Java_androidx_ink_strokes_StrokeInputBatchNative_populate(JNIEnv* env, jobject thiz, jlong native_pointer, jint index, jobject j_input, jclass input_tool_type_class);
jlong Java_androidx_ink_strokes_StrokeInputBatchNative_getDurationMillis(JNIEnv* env, jobject thiz, jlong native_pointer);
jint Java_androidx_ink_strokes_StrokeInputBatchNative_getToolType(JNIEnv* env, jobject thiz, jlong native_pointer);
jfloat Java_androidx_ink_strokes_StrokeInputBatchNative_getStrokeUnitLengthCm(JNIEnv* env, jobject thiz, jlong native_pointer);
jboolean Java_androidx_ink_strokes_StrokeInputBatchNative_hasStrokeUnitLength(JNIEnv* env, jobject thiz, jlong native_pointer);
jboolean Java_androidx_ink_strokes_StrokeInputBatchNative_hasPressure(JNIEnv* env, jobject thiz, jlong native_pointer);
jboolean Java_androidx_ink_strokes_StrokeInputBatchNative_hasTilt(JNIEnv* env, jobject thiz, jlong native_pointer);
jboolean Java_androidx_ink_strokes_StrokeInputBatchNative_hasOrientation(JNIEnv* env, jobject thiz, jlong native_pointer);
jstring Java_androidx_ink_strokes_MutableStrokeInputBatchNative_appendSingle(JNIEnv* env, jobject thiz, jlong native_pointer, jint tool_type, jfloat x, jfloat y, jlong elapsed_time_millis, jfloat stroke_unit_length_cm, jfloat pressure, jfloat tilt, jfloat orientation);
jstring Java_androidx_ink_strokes_MutableStrokeInputBatchNative_appendBatch(JNIEnv* env, jobject thiz, jlong native_pointer, jlong append_from_native_pointer);
void Java_androidx_ink_strokes_MutableStrokeInputBatchNative_clear(JNIEnv* env, jobject thiz, jlong native_pointer);
jlong Java_androidx_ink_strokes_MutableStrokeInputBatchNative_copy(JNIEnv* env, jobject thiz, jlong native_pointer);
jlong Java_androidx_ink_strokes_StrokeJni_createWithBrushAndInputs(JNIEnv* env, jclass clazz, jlong brush_native_pointer, jlong inputs_native_pointer);
jlong Java_androidx_ink_strokes_StrokeJni_createWithBrushInputsAndShape(JNIEnv* env, jclass clazz, jlong brush_native_pointer, jlong inputs_native_pointer, jlong partitioned_mesh_native_pointer);
jlong Java_androidx_ink_strokes_StrokeJni_allocShallowCopyOfInputs(JNIEnv* env, jclass clazz, jlong raw_ptr_to_stroke);
jlong Java_androidx_ink_strokes_StrokeJni_allocShallowCopyOfShape(JNIEnv* env, jclass clazz, jlong raw_ptr_to_stroke);
void Java_androidx_ink_strokes_StrokeJni_free(JNIEnv* env, jclass clazz, jlong raw_ptr_to_stroke);
}
#endif
