"""Per-property settings of the simulation checks."""
SESSION_REAL = ["InProgressStroke", "StrokeInputBatch", "StrokeShapeBuilder", "StrokeInputModeler", "BrushTipModeler",
                "BrushTipExtruder and its geometry", "PartitionedMesh", "MutableMesh", "Stroke", "Brush"]
SESSION_STUB = ["abseil headers (reference re-implementations under /verif/shim)",
                "ink_stroke_modeler (re-implementation under /verif/shim, same interface)",
                "input device, predictor, frame clock, renderer and client (simulated actors)"]
A = ["DCHECKs are not evaluated (release behaviour); CHECK failures are violations",
     "the external ink_stroke_modeler library is replaced by a re-implementation"]
ST_SESSION = "hash of (started, finished, queued/real/predicted input count classes, coat count, vertex count class, update kind) after each step"
PROPS = {}
QUICK = 0.5  # share of the run counts below that the quick tier explores
TARGETS = ["core", "tsan", "jni", "skia"]
NOTE = ("Seeded search over whole simulated executions of the real code in one process; every violation is replayed and minimised. "
        "Assurance is statistical over the explored seeds, not a proof; ")


def two(core, tsan, caps=((200, 700), (120, 150))):
    return [dict(target="core", runs=dict(quick=int(core[0] * QUICK), thorough=core[1]), cap=dict(quick=caps[0][0], thorough=caps[0][1])),
            dict(target="tsan", runs=dict(quick=int(tsan[0] * QUICK), thorough=tsan[1]), cap=dict(quick=caps[1][0], thorough=caps[1][1]))]


def add(pid, rule, runs, target="core", phases=None, caps=(240, 800), states=ST_SESSION, real=SESSION_REAL, stub=SESSION_STUB, assume=A,
        technique="deterministic simulation of live stroke sessions with fault injection (seeded schedules, twin and model oracles)", note=None):
    PROPS[pid] = dict(target=target, rule=rule, states=states, real=real, stub=stub, assume=assume,
                      technique=technique, note=note or NOTE + "trusts: " + "; ".join(assume) + ". Stubs: " + "; ".join(stub),
                      phases=phases or [dict(target=target, runs=dict(quick=int(runs[0] * QUICK), thorough=runs[1]),
                                             cap=dict(quick=caps[0], thorough=caps[1]))])


S = "each seed generates a whole session plan: brushes, gesture, predictor, delivery batching, frame times and faults; "
add("S01", S + "non-trivial when at least one real input was delivered and one fault or prediction occurred", (24000, 240000))
add("S02", S + "non-trivial when at least one call was rejected in mid-session", (18000, 200000))
add("S03", S + "non-trivial when a prediction was shown and later superseded", (16000, 200000))
add("S04", S + "non-trivial when the compared deliveries differ in batching and the region is not empty", (30000, 300000))
add("S05", S + "non-trivial when some triangle changed between two resets", (24000, 240000))
add("S06", S + "non-trivial when some coat had triangles", (16000, 160000))
add("S07", S + "non-trivial when the object had drawn before the compared session", (8000, 200000))
add("S08", S + "non-trivial when a stroke reported no pending work and was updated again", (12000, 200000))
add("S09", S + "non-trivial when the object was moved in mid-session", (12000, 200000))
add("S10", S + "non-trivial when a snapshot outlived a later mutation of its source", (5000, 150000))
add("S11", S + "non-trivial when the compared update was not the first one of the run", (16000, 300000))
add("S12", S + "non-trivial when a judged path had more than two points", (40000, 400000))

ST_T = "hash of the preemption sequence that actually happened in the run"
A_T = ["virtual threads are switched at mutex operations, API calls and every instrumented basic block of ink code; one runs at a time"]
add("B01", "each seed generates a history of 5..70 edits on four batches that share storage; non-trivial when at least one edit was rejected or aliased its own batch", (400000, 4000000),
    states="hash of (op kind, size class of each of the four batches, outcome) after each step",
    real=["StrokeInputBatch", "CopyOnWrite"], stub=["abseil headers (reference re-implementations under /verif/shim)"], assume=A[:1],
    technique="deterministic simulation of edit histories with rejected and aliasing edits injected, against a sequential list model")
add("B02", "each seed generates 2..4 caller threads with their own edit histories on shared copies and a schedule; non-trivial when more preemptions happened than threads", (90000, 900000),
    states=ST_T, real=["StrokeInputBatch", "CopyOnWrite"], stub=["abseil headers incl. Mutex (scheduler seam)", "operating-system scheduler (seeded)"], assume=A[:1] + A_T,
    technique="deterministic simulation of caller threads under a seeded scheduler, against per-thread sequential models")
add("M01", "each seed generates three shapes (strokes, soups, grids, strips, stacked, multi-mesh, empty), 1..4 caller threads with copies of all of them, a history of queries per thread and a schedule; non-trivial when a query hit something and the threads were preempted",
    None, phases=two((50000, 1000000), (12000, 100000)), states=ST_T, real=["PartitionedMesh", "StaticRTree", "intersection and envelope code", "AffineTransform", "Mesh", "MutableMesh"],
    stub=["abseil headers incl. Mutex (scheduler seam)", "operating-system scheduler (seeded)"],
    assume=A[:1] + A_T + ["triangles within rounding distance of touching the query may be answered either way"],
    technique="deterministic simulation of caller threads querying shared shapes under a seeded scheduler, against a brute-force oracle")
add("T01", "each seed generates brushes and variants of them, input batches, 1..4 caller threads with a history of edits on three strokes each, and a schedule; non-trivial when shapes were regenerated and threads were preempted",
    None, phases=two((9000, 150000), (2500, 12000)), states=ST_T, real=["Stroke", "Brush", "StrokeInputBatch", "StrokeShapeBuilder and everything below it", "PartitionedMesh"],
    stub=["abseil headers (reference re-implementations)", "ink_stroke_modeler (re-implementation)", "operating-system scheduler (seeded)"], assume=A + A_T,
    technique="deterministic simulation of caller threads editing strokes under a seeded scheduler, against a reference model and freshly built strokes")

J_REAL = ["every JNI entry point of ink/brush, ink/geometry, ink/strokes and ink/rendering/skia/common_internal", "jni_throw_util, jni_string_util", "the native objects behind the handles", "MeshSpecificationData"]
J_STUB = ["Java virtual machine (a simulated JNIEnv with handle, reference, pin and exception bookkeeping)", "managed classes (simulated)",
          "abseil headers (reference re-implementations)", "ink_stroke_modeler (re-implementation)"]
J_A = A + ["the simulated virtual machine rejects what the JNI specification forbids (calls with an exception pending, use of dead references, out-of-bounds regions, wrong signatures)",
           "a CHECK or FatalError right after the machine failed in the same call counts as stopping with a diagnostic"]
add("J01", "each seed generates a history of bridge calls over brushes, batches, live and finished strokes, shapes, meshes, formats and queries, with machine failures armed at chosen calls; non-trivial when a machine failure or an accepted input happened",
    (30000, 1200000), target="jni", states="hash of (op kind, number of live handles of each kind, function the machine failed in) after each step", real=J_REAL, stub=J_STUB, assume=J_A,
    technique="deterministic simulation of a managed caller over a simulated JVM with injected allocation failures and throwing callbacks, with handle, allocation and exception ledgers")
add("J02", "each seed generates a history of bridge calls over brushes, batches, live and finished strokes, shapes, meshes, formats and queries; non-trivial when an input was accepted over the bridge",
    (20000, 400000), target="jni", states="hash of (op kind, number of live handles of each kind) after each step", real=J_REAL, stub=J_STUB, assume=J_A,
    technique="deterministic simulation of a managed caller over a simulated JVM, every value read back compared with a native twin driven by the same history")

R_REAL = ["SkiaRenderer and its Drawable", "MeshDrawable, MeshUniformData, PathDrawable", "ShaderCache, MeshSpecificationCache, CreateMeshSpecification", "MeshSpecificationData and the SkSL sources of all shaders",
          "InProgressStroke, Stroke, PartitionedMesh and everything below them"]
R_STUB = ["Skia and its GPU backend (a recording re-implementation of the API that ink uses, under /verif/shim_skia)", "SkSL compiler and GPU (an interpreter that runs ink's real shader source vertex by vertex)",
          "texture store (simulated, fallible)", "abseil headers (reference re-implementations)", "ink_stroke_modeler (re-implementation)"]
R_A = A + ["the stand-in for Skia accepts and rejects what Skia's documented API does; mesh creation and buffer allocation may fail at any call",
           "a CHECK on a null GPU buffer counts as stopping with a diagnostic", "shaders are evaluated in double precision with the rounding of the vertex formats"]
ST_R = "hash of (op kind, number of drawables, strokes and renderers, coat count, input count class, armed faults) after each step"
S_R = "each seed generates a live stroke session, several renderers (with, without and with failing texture stores), finished, copied and composed strokes, and drawables that are kept, copied, moved, recoloured and shown later; "
add("R01", S_R + "failures of the texture store, pixel memory, mesh creation and GPU buffers are injected; non-trivial when a failure was injected", (16000, 200000), target="skia", states=ST_R, real=R_REAL, stub=R_STUB, assume=R_A,
    technique="deterministic simulation of a client with several renderers over a recording Skia with injected store, memory and GPU failures, against freshly made renderers")
add("R02", S_R + "non-trivial when something with triangles or outlines was drawn", (12000, 150000), target="skia", states=ST_R, real=R_REAL, stub=R_STUB, assume=R_A,
    technique="deterministic simulation of a client that keeps and changes drawables over a recording Skia; vertices run through ink's shader source in an interpreter and are compared with the stroke's own geometry")
add("R03", S_R + "non-trivial when something with triangles was drawn", (5000, 80000), target="skia", states=ST_R, real=R_REAL, stub=R_STUB, assume=R_A,
    technique="deterministic simulation of a client drawing live and finished strokes over a recording Skia; ink's vertex and fragment shader source runs in an interpreter, against the documented anti-aliasing formulas")
