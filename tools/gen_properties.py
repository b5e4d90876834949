#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     observe_at=list(observe), hook_needed=hook)))

IPS='ink/strokes/in_progress_stroke.cc'; SSB='ink/strokes/internal/stroke_shape_builder.cc'
SIM='ink/strokes/internal/stroke_input_modeler.cc'; BTE='ink/strokes/internal/brush_tip_extruder.cc'
BTM='ink/strokes/internal/brush_tip_modeler.cc'; GEO='ink/strokes/internal/brush_tip_extruder/geometry.cc'
SIB='ink/strokes/input/stroke_input_batch.cc'; PM='ink/geometry/partitioned_mesh.cc'; STR='ink/strokes/stroke.cc'

prop('S01','Live strokes conserve every accepted real input exactly once and in order',
 'While a stroke is drawn, its recorded inputs are always exactly the accepted real inputs handed over so far, each once, in order and with every field (position, time, pressure, tilt, orientation, tool type) bit-identical, followed only by the inputs most recently predicted. '
 'Once inputs are finished and the last update has run no predicted input remains, so the finished stroke carries exactly the real inputs, and no sequence of enqueues, updates, rejected calls, retries or finish instants loses, duplicates or reorders one.',
 ['histories','schedules','inputs'],'Every interleaving of event delivery, prediction, frame updates, duplicated/late/rejected deliveries and finish instant.',
 'Unit tests drive short fixed scripts; loss or duplication needs a particular interleaving of queued, predicted and processed inputs.',
 [IPS,SIB],[('queue then append real inputs, erase and replace predictions',IPS+':EnqueueInputs/UpdateShape')],
 [('processed inputs','real inputs followed by current predictions','ink/strokes/in_progress_stroke.h'),('queued inputs','accepted but not yet shaped','ink/strokes/in_progress_stroke.h')],
 ['InProgressStroke::GetInputs','CopyToStroke'])
prop('S02','A rejected call leaves a live stroke exactly as if it had never been made',
 'Any call a live stroke rejects (duplicate or out-of-order inputs, a mismatching tool type, stroke unit length or set of optional fields, a clock that is negative or runs backwards, inputs after finish, any call before start) reports an error and changes nothing observable: recorded inputs, geometry, outlines, bounds, updated region and pending-work flags. '
 'All later behaviour is also identical to that of a stroke that never received the call, including accepting the corrected call.',
 ['histories','fault_sequences'],'Every history of valid calls with invalid deliveries injected at any point.',
 'Tests check the returned error for a few hand-written bad inputs, not that all later behaviour is unaffected by a rejection at an arbitrary point of a session.',
 [IPS,'ink/strokes/input/internal/stroke_input_validation_helpers.cc',SIB],[('validate before mutate',IPS+':EnqueueInputs, UpdateShape'),('append validation',SIB+':ValidateNewInput')],
 observe=['status results','all InProgressStroke getters'])
prop('S03','Predicted inputs never leave a trace',
 'Predictions only affect what is shown until the next update that supersedes them. From then on the stroke is identical to the stroke that results from the same real inputs and update times without any prediction ever having been offered: in recorded inputs, triangles, vertex positions, colour, opacity and texture attributes, outlines and bounds, while live and once finished. (The anti-aliasing derivatives and margins, documented as approximate, are excluded.)',
 ['histories','schedules'],'Every assignment of (arbitrarily wrong, long, short, empty, multi-frame) predictions to the frames of every session.',
 'Tests compare single updates; a prediction can leak through save/restore of modeler, tip-state, extrusion or mesh state many frames later.',
 [IPS,SIM,BTM,BTE,GEO],[('erase prediction from recorded inputs',IPS+':UpdateShape'),('modeler save/restore of stable state',SIM),('tip modeler volatile state rollback',BTM),('geometry save points and mesh undo',GEO+':RevertToLastSave')],
 observe=['InProgressStroke::GetInputs','GetMesh','GetCoatOutlines'])
prop('S04','The finished stroke does not depend on how delivery was batched into frames',
 'Real inputs may be delivered one at a time or in bulk, with any number of updates between deliveries and at any elapsed times that reach the same final time: the recorded inputs of the finished stroke are identical and its inked region is the same up to sub-pixel-scale simplification differences. '
 'In particular the finished live stroke covers the same region as a stroke built in one step from the same brush and recorded inputs, which shows the brush as of its last input.',
 ['schedules','histories'],'Every partition of an input sequence into enqueue calls and updates, for every brush.',
 'Tests pick one or two batchings; incremental state handed from one update to the next (fixed versus volatile tip states, saved extrusion state, spring model state) is only exercised by arbitrary frame boundaries.',
 [IPS,SIM,BTM,BTE,GEO,STR],[('incremental modelling of stable inputs',SIM),('fixed/volatile tip state split',BTM),('incremental extrusion with save points',BTE)],
 observe=['CopyToStroke','Stroke(brush, inputs)'])
prop('S05','The updated region covers everything that changed since it was last reset',
 'At every moment of a live stroke, every triangle that was added, removed or moved (in any coat) since the updated region was last reset lies inside the reported updated region. The region is empty right after a start, clear or reset and stays so until an update is made.',
 ['histories','schedules'],'Every history of updates, predictions and region resets at arbitrary points, all brushes and coats.',
 'Tests check the region for a single extension; a renderer relying on partial redraw needs it for every combination of rollback, re-extrusion, several updates between resets and several coats.',
 [IPS,SSB,BTE,GEO,'ink/strokes/internal/brush_tip_extruder/mutable_mesh_view.cc'],[('accumulate updated region',IPS+':UpdateShape'),('first mutated / truncated vertex tracking','ink/strokes/internal/brush_tip_extruder/mutable_mesh_view.cc'),('bounds of removed and added geometry',BTE+':ExtendStroke')],
 observe=['InProgressStroke::GetUpdatedRegion','GetMesh'])
prop('S06','Live stroke geometry is well formed after every step',
 'After every step of a session each coat has a mesh whose triangle indices all refer to existing vertices and whose vertex positions and attributes are finite and within their documented ranges, outlines that refer only to existing vertices and never list one twice in a row, and mesh bounds that exactly enclose the vertices. '
 'Copying the live stroke into a finished stroke preserves this: every coat keeps one render group, triangles and outlines survive, and positions move by no more than the packing precision.',
 ['histories','schedules','inputs'],'Every reachable session state, including states reached after rollbacks, degenerate motion (jitter, reversals, stationary input, huge gaps) and every tip shape and behaviour.',
 'Tests assert specific vertex lists on short extrusions; dangling indices or stale outline entries appear after particular rollback and simplification histories.',
 [BTE,GEO,'ink/strokes/internal/brush_tip_extruder/mutable_mesh_view.cc','ink/strokes/internal/brush_tip_extruder/directed_partial_outline.cc',SSB,PM,'ink/geometry/mutable_mesh.cc'],[('vertex/triangle/outline truncation on restore',GEO),('outline assembly','ink/strokes/internal/stroke_outline.cc'),('bounds tracking',SSB)],
 observe=['InProgressStroke::GetMesh, GetCoatOutlines, GetMeshBounds','CopyToStroke'])
prop('S07','Reusing a live stroke object is indistinguishable from using a fresh one',
 'Starting a new stroke in an object that previously drew, abandoned, cleared or half-finished any other strokes (with any brushes, coat counts and predictions) behaves in every observable way, for the whole new session, like starting it in a newly constructed object. '
 'The same holds for finished strokes: their geometry never depends on which strokes were shaped earlier on the same thread.',
 ['histories'],'Every pair of a previous history cut at an arbitrary point and a new session.',
 'Buffers, modelers, extruders and thread-local builders are recycled; tests mostly use fresh objects.',
 [IPS,SSB,SIM,BTM,BTE,GEO,STR],[('Clear/Start reset',IPS),('StartStroke resets',SSB),('thread-local shape builder cache',STR)],
 observe=['all getters'])
prop('S08','Pending-work reporting is truthful and finished strokes complete',
 'If a live stroke reports that no update is needed, updating it at any permitted later time changes nothing observable (superseded predictions of an unfinished stroke aside), so a renderer may stop polling. After inputs are finished, finitely many updates with advancing time (one, once the elapsed time passes every time-based behaviour of the brush) bring it to a state reporting no pending work and holding no predictions, from which it never changes again.',
 ['histories','schedules'],'Every session state and every finish instant, with and without time-based brush behaviours, queued inputs and outstanding predictions.',
 'Tests check the flag in a handful of states; truthfulness is a claim about all states and all future clock values.',
 [IPS,BTM,SSB],[('needs-update flag',IPS+':NeedsUpdate/FinishInputs'),('time-dependence bound',BTM+':HasUnfinishedTimeBehaviors')],
 observe=['NeedsUpdate','InputsAreFinished','GetMesh'])
prop('S09','Moving a live stroke between any two steps preserves it',
 'A live stroke may be moved (move construction or move assignment, for example by growth of a container) between any two operations; the destination continues exactly as the original would have, and the moved-from object can be destroyed, assigned to or restarted safely.',
 ['crash_points','histories'],'Every relocation point of every session.',
 'The type is declared movable, but tests never move a stroke in the middle of a session with live geometry and predictions.',
 ['ink/strokes/in_progress_stroke.h','ink/strokes/internal/stroke_shape_builder.h','ink/strokes/internal/brush_tip_extruder.h',GEO],[('movable members that refer to each other','ink/strokes/internal/stroke_shape_builder.h')],
 observe=['all getters','AddressSanitizer'])
prop('S10','Snapshots are immutable',
 'A finished stroke, input batch, shape or brush copied out of a live or finished stroke at any moment never changes afterwards, whatever is later done to its source or to other copies, on the same or other threads, including destruction of the source. The batches a caller handed to a stroke likewise stay as they were.',
 ['histories','schedules'],'Every history of copies and later mutations.',
 'Value semantics are implemented by copy-on-write sharing; a missed detach shows only for particular copy/mutate orders.',
 [STR,SIB,PM,IPS,'ink/types/internal/copy_on_write.h'],[('copy-on-write detach','ink/types/internal/copy_on_write.h'),('shared immutable shape data',PM)],
 observe=['Stroke::GetInputs, GetShape, GetBrush'])
prop('S11','What is shown depends on the inputs, not on how they arrived',
 'After any update, a live stroke shows the region that a fresh stroke of the same brush shows once the same real inputs and the same outstanding prediction have been delivered to it at once and it has been updated to the same time, within the brush epsilon. '
 'Where the brush has no behaviours and the stroke keeps going one way, a predicted input is drawn like a real one, to within a tenth of the brush size.',
 ['histories'],'Every session history: batching, earlier predictions, refused calls, frames, moves, restarts.',
 'Tests compare a few short sequences; incremental state (saved modeler, tip and extruder states, distance and unit-length bookkeeping) goes wrong only after particular sequences.',
 [IPS,SSB,SIM,BTM,BTE,GEO],[('modeler save and restore',SIM),('fixed and volatile tip states',BTM),('save points of the extrusion',GEO)],
 observe=['GetMesh','EnqueueInputs','UpdateShape'])
prop('S12','The ink is the brush tip swept along the path: all of it and nothing more',
 'A live stroke of a brush without behaviours whose path never turns back covers the brush tip (its documented size, corner rounding, slant and rotation; without pinch also its edge, to within half of its size) placed at every point of the modeled path, which starts at the first input and follows to the last, and reaches no further in any direction than the tip along that path does, within a small multiple of epsilon. Nothing is missing at the start, in the middle or at the end, at any update of any session.',
 ['histories','inputs'],'Every gesture that keeps going, delivered in any way, with every tip shape, epsilon, position and scale.',
 'Tests assert vertex lists of a few extrusions; rounding ties between tangents, rejected tip states and truncated histories leave holes only for particular paths.',
 [BTE,GEO,'ink/strokes/internal/brush_tip_shape.cc','ink/strokes/internal/circular_extrusion_helpers.cc','ink/strokes/internal/constrain_brush_tip_extrusion.cc',BTM,SIM],[('tangents between tips','ink/strokes/internal/brush_tip_shape.cc'),('rejected tip states','ink/strokes/internal/constrain_brush_tip_extrusion.cc'),('extrusion',BTE)],
 observe=['GetMesh'])
prop('B01','Input batches behave like a validated list under any history of edits',
 'After any history of successful and rejected operations a batch of inputs reads back exactly as a plain list on which only the successful edits were made; the accepted operations are exactly those that keep times non-decreasing and non-negative, no two identical position-and-time pairs adjacent, one tool type, one stroke unit length and one set of optional fields. '
 'A rejected operation changes nothing, and arguments that alias the batch itself are handled as if they had been copied first.',
 ['histories','inputs'],'Every operation history (append of one, several or another batch, set, erase, clear, copy, move, transform, reserve), including failing operations and self-aliasing arguments.',
 'Unit tests sample single operations on fresh batches.',
 [SIB,'ink/strokes/input/stroke_input_batch.h','ink/strokes/input/internal/stroke_input_validation_helpers.cc'],[('validate before mutate',SIB),('packed float storage',SIB)],
 observe=['Size, Get, iteration, has-field queries, duration'])
prop('B02','Input batches shared between threads are isolated copies',
 'Copies of an input batch held by different threads can be read, edited, copied and destroyed concurrently without coordination, and each thread only ever observes its own sequential history.',
 ['schedules','histories'],'Every interleaving of operations of several caller threads on copies that share storage.',
 'Tests are single threaded.',
 [SIB,'ink/types/internal/copy_on_write.h'],[('reference-counted copy-on-write storage','ink/types/internal/copy_on_write.h')],
 observe=['per-thread reads'],hook='yield points inside the copy-on-write holder')
prop('M01','Concurrent spatial queries on a shared shape agree with brute force',
 'Intersection, visiting and coverage queries on a shape return what an exhaustive check of all its triangles returns (each intersecting triangle visited exactly once unless the visitor stops, coverage equal to the area fraction), whether or not the index was built beforehand, and empty shapes answer as containing nothing. '
 'This holds when several threads query copies of one shape for the first time at once, under every interleaving, without deadlock, also when a visitor itself queries the shape.',
 ['schedules','histories','inputs'],'Every interleaving of first queries by several threads on copies of one shape, every query type, transform and early exit.',
 'Tests query from one thread; the lazily built index and cached area are shared mutable state behind a mutex.',
 [PM,'ink/geometry/partitioned_mesh.h','ink/geometry/internal/static_rtree.h','ink/geometry/internal/intersects_internal.cc'],[('lazy index under mutex',PM+':SpatialIndex'),('lazy total absolute area',PM+':TotalAbsoluteArea')],
 observe=['VisitIntersectedTriangles','Coverage','CoverageIsGreaterThan','IsSpatialIndexInitialized'],hook='yield points around lock acquisition (mutex seam)')
prop('T01','Strokes are consistent values: edits are atomic and shaping is deterministic',
 'A stroke always shows the shape its brush and inputs produce: after any history of brush, colour, size, epsilon, family and input changes (including rejected ones, which change nothing, and arguments that refer into the stroke itself) its shape equals that of a stroke newly built from the same inputs and the brush it had when its tips, size, epsilon or inputs last changed, with every brush property other than the one set preserved. '
 'Changes that cannot affect geometry keep the existing shape, and the result does not depend on thread, on concurrent shaping elsewhere or on earlier work.',
 ['histories','schedules','inputs'],'Every history of setter calls on several strokes by several threads in any interleaving.',
 'Tests check single setters on one thread.',
 [STR,'ink/strokes/stroke.h','ink/brush/brush.cc'],[('regenerate shape on change',STR+':RegenerateShape'),('thread-local builder',STR)],
 observe=['Stroke getters'],hook=None)
prop('J01','The Java bridge conserves native objects and survives failures',
 'Every native object handed to the managed side is owned by exactly one live handle and released by exactly one free call; a failing or throwing bridge call hands out no handle, leaks nothing, reports the failure once (as a managed exception or an error string) and leaves existing handles unchanged. '
 'When the virtual machine fails to allocate (strings, arrays, objects, callbacks returning with an exception), the bridge reports it or stops with a diagnostic but never touches invalid memory, makes no forbidden virtual-machine call while an exception is pending, and releases every pinned string and array.',
 ['histories','fault_sequences'],'Every history of bridge calls with validation failures and injected virtual-machine failures at any call.',
 'No test in the tree runs the bridge against a failing virtual machine.',
 ['ink/strokes/internal/jni/stroke_input_batch_jni.cc','ink/strokes/internal/jni/in_progress_stroke_jni.cc','ink/geometry/internal/jni/partitioned_mesh_jni.cc','ink/brush/internal/jni/brush_paint_jni.cc','ink/jni/internal/jni_throw_util.cc','ink/jni/internal/jni_string_util.cc'],
 [('status to exception','ink/jni/internal/jni_throw_util.cc'),('RAII string view','ink/jni/internal/jni_string_util.h')],
 observe=['handle table','pending exception state','AddressSanitizer/leak accounting'])
prop('J02','Driving a stroke over the Java bridge equals driving it natively',
 'For any history of calls, every value read back through the bridge (inputs, geometry, raw vertex and index data, outlines, bounds, updated region, flags, brush properties, colours, query results, exception or success) equals what the same calls on the native objects give, and whole milliseconds come back as they were passed in.',
 ['histories','inputs'],'Every history of bridge calls over sessions, batches, strokes, brushes and shapes.',
 'The Java side is not in this tree, so no test runs the bridge functions at all.',
 ['ink/strokes/internal/jni/in_progress_stroke_jni.cc','ink/strokes/internal/jni/stroke_input_batch_jni.cc','ink/strokes/internal/jni/stroke_jni.cc','ink/geometry/internal/jni/mesh_jni.cc','ink/geometry/internal/jni/partitioned_mesh_jni.cc','ink/brush/internal/jni/brush_jni.cc'],
 [('argument and result marshalling','ink/*/internal/jni')],observe=['bridge return values'])
prop('R01','Rendering failures are never remembered',
 'A failure to load a texture, allocate pixels, compile a shader or allocate or validate a GPU mesh makes that draw request report an error and draws nothing wrong; once the fault is gone the same renderer produces exactly what a renderer that never saw the fault produces. '
 'Successfully loaded resources are reused and shared without mixing up textures, layers, colour spaces or brushes.',
 ['fault_sequences','histories'],'Every sequence of draw requests for arbitrary brushes with resource failures injected at any request and later healed.',
 'Tests use an always-succeeding or always-failing store and need a GPU library that is not available here.',
 ['ink/rendering/skia/native/internal/shader_cache.cc','ink/rendering/skia/native/skia_renderer.cc','ink/rendering/skia/native/internal/mesh_drawable.cc','ink/rendering/skia/native/internal/create_mesh_specification.cc'],
 [('keyed caches filled only on success','ink/rendering/skia/native/internal/shader_cache.cc')],observe=['CreateDrawable status','draw calls recorded by the canvas'])
prop('R02','What is drawn is the geometry of the stroke, and drawables are independent',
 'Each drawable paints, in coat order and under the object-to-canvas transform it has at that moment, exactly the triangles (on a CPU canvas: the outline paths) of its own stroke as it was when the drawable was made, with its own brush colour, per-vertex colour and opacity shifts, texture coordinates, texture layers, blend modes and texture origins, whatever other drawables from the same renderer are created, copied, recoloured, retransformed, drawn or destroyed in between, and whatever happens to the stroke, the renderer or a canvas afterwards.',
 ['histories'],'Every interleaving of creating, copying, mutating, drawing and destroying drawables of live, finished and composed strokes of arbitrary brushes through several renderers.',
 'Drawables share uniform data, specifications and shaders copy-on-write; what a shader makes of packed vertices is not tested at all, and the tests cannot run without the GPU library.',
 ['ink/rendering/skia/native/skia_renderer.cc','ink/rendering/skia/native/internal/mesh_uniform_data.cc','ink/rendering/skia/native/internal/mesh_drawable.cc','ink/rendering/skia/native/internal/path_drawable.cc','ink/rendering/skia/native/internal/shader_cache.cc','ink/rendering/skia/common_internal/mesh_specification_data.cc'],
 [('copy-on-write uniform data','ink/rendering/skia/native/internal/mesh_uniform_data.cc'),('vertex unpacking in the shader','ink/rendering/skia/common_internal/sksl_vertex_shader_helper_functions.h')],observe=['draw calls decoded from vertex buffers and uniforms through the shader source'])
prop('R03','Anti-aliasing widens a stroke only to its pixel target and fades only its edges',
 'For every vertex of every stroke drawn through a GPU mesh and every invertible object-to-canvas transform, the shader yields finite values; a vertex that is not on an exterior edge is not moved; an exterior vertex is moved outwards along its own derivatives by no more than the target outset in pixels, and within its margin wherever the stroke is at least half a pixel wide; the pixels-per-dimension varying is the distance in canvas pixels; and the coverage of a fragment is in [0, 1], is 1 in the interior, scales the colour, and, where the stroke is at least half a pixel wide, rises linearly from 0 at the widened edge to 1 twice the target outset further in, in each direction.',
 ['histories','transforms'],'Every brush, gesture and moment of a stroke session (live, predicted, finished, copied, composed), under arbitrary invertible transforms.',
 'Shader code only runs on a GPU; the only existing tests compare a few golden images, which are not available here.',
 ['ink/rendering/skia/common_internal/sksl_vertex_shader_helper_functions.h','ink/rendering/skia/common_internal/sksl_fragment_shader_helper_functions.h','ink/rendering/skia/common_internal/sksl_common_shader_helper_functions.h','ink/rendering/skia/common_internal/mesh_specification_data.cc','ink/strokes/internal/stroke_vertex.cc'],
 [('label and margin encoding','ink/strokes/internal/stroke_vertex.cc'),('outset computation','ink/rendering/skia/common_internal/sksl_vertex_shader_helper_functions.h')],observe=['shader outputs at mesh vertices and at points inside triangles'])

pure='A pure function of its arguments: no schedule, clock, fault or history.'
prop('N01','Colours convert between spaces and formats without loss beyond rounding',
 'Converting a colour to another colour space, encoding or alpha format and back reproduces it up to rounding whenever it is in gamut.',
 ['inputs'],'Every colour and pair of formats.','Tests sample colours.',['ink/color/color.cc','ink/color/color_space.cc'],[('conversion matrices','ink/color/color_space.cc')])
prop('N02','Geometric predicates and measures agree with exact geometry',
 'Intersection, containment, distance and transform operations on points, segments, triangles, rectangles and quads agree with exact geometry up to the documented tolerance and are symmetric in their arguments.',
 ['inputs'],'Every pair of shapes.','Tests sample shapes.',['ink/geometry/intersects.cc','ink/geometry/distance.cc','ink/geometry/affine_transform.cc'],[('separating tests','ink/geometry/internal/intersects_internal.cc')])
prop('N03','Packed mesh attributes round-trip within the packing precision',
 'Packing then unpacking any representable attribute value with parameters computed for its range gives a value within one quantisation step.',
 ['inputs'],'Every attribute type and value.','Tests sample values.',['ink/geometry/internal/mesh_packing.cc','ink/geometry/mesh_format.cc'],[('attribute coding parameters','ink/geometry/internal/mesh_packing.cc')])
prop('N04','Brush validation accepts exactly the documented brushes',
 'A brush family, tip, paint or behaviour is accepted if and only if every documented range and structural rule is met.',
 ['inputs'],'Every brush description.','Tests sample invalid values one at a time.',['ink/brush/brush_family.cc','ink/brush/brush_tip.cc','ink/brush/brush_behavior.cc','ink/brush/brush_paint.cc'],[('validation','ink/brush/brush_behavior.cc')])
prop('N05','Tessellating an outline covers its interior',
 'The mesh made from a closed polyline covers exactly the polyline interior by the non-zero rule.',
 ['inputs'],'Every polyline.','Tests sample polylines.',['ink/geometry/tessellator.cc'],[('libtess2','ink/geometry/tessellator.cc')])
prop('N06','Generated shader programs and mesh layouts describe the stroke vertex format',
 'For every legal vertex attribute layout the generated shader source and attribute layout agree with each other and with the vertex data.',
 ['configurations'],'Every attribute layout.','Tests sample layouts.',['ink/rendering/skia/common_internal/mesh_specification_data.cc'],[('specification generation','ink/rendering/skia/common_internal/mesh_specification_data.cc')])
prop('N07','Scalar value types parse, format and normalise exactly',
 'Angles, durations, physical distances and resource identifiers normalise, compare, parse and format consistently, and parsing a formatted identifier gives the same identifier.',
 ['inputs'],'Every value.','Tests sample values.',['ink/types/uri.cc','ink/types/duration.cc','ink/geometry/angle.cc'],[('parsing','ink/types/uri.cc')])
prop('N08','Easing functions hit their end points and are continuous where documented',
 'Every valid easing function maps 0 to 0 and 1 to 1 and is evaluated without discontinuity except at documented steps.',
 ['inputs'],'Every easing function and parameter.','Tests sample points.',['ink/strokes/internal/easing_implementation.cc'],[('bezier root finding','ink/strokes/internal/easing_implementation.cc')])

if __name__=='__main__':
    out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
    with open(out,'w') as f:
        for p in P:
            assert len(p['title'])<=80,p['title']
            f.write(json.dumps(p,ensure_ascii=False)+'\n')
    print(len(P),'properties')
