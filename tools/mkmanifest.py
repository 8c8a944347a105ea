#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
HIST = "TLA+ model of the C API checked by TLC; model-generated histories replayed on the library"
T = {}
def c(i, tech, note):
    T[i] = (tech, note)
c("A01", HIST, "The layout/outcome model is checked exhaustively for small arguments; the binding to the code is by replay of random model histories under many contents (guard pages, ASan/UBSan, AVX2 and SSE4.1 builds). Exploration of contents is sampled, not exhaustive.")
c("A02", HIST, "As A01, with every capacity from 0 to the bound for small contents. Bounds are enforced by guard pages and ASan.")
c("A03", HIST, "As A01, with every capacity from 0 to the content size for small frames.")
c("A04", HIST, "The model says the output is a function of content and parameters; histories repeat calls on shared contexts, after failures, and in fresh contexts with other heap contents.")
c("A05", HIST, "Setter, reset, layout and frame information outcomes are predicted by the model and compared field by field with the real frames.")
c("A08", "TLA+ models of the API with time limits and of the parallel time-limited call (adversarial clock) checked by TLC; model-generated histories replayed on the library under a simulated clock", "The clock read by the library is replaced by the model's: frozen, steady, jumping at any reading (for small inputs every reading in turn), random, or stopping just before the limit. Contents, limits and clocks are sampled.")
c("A11", "TLA+ model of the API with failing allocations checked by TLC; model-generated histories replayed on the library with an allocator failing at every point", "Each call of a history is repeated with its first, second, ... n-th allocation refused (once, or that one and all the following ones) until it needs no more; outcome, bytes, retried call and memory balance are compared with the model. The C runtime's own registration of thread destructors, fatal when it fails, is exempt.")
SCH = "TLA+ design model checked by TLC (refinement, termination); executions of the real code under a deterministic scheduler validated against the TLA+ trace specification"
c("A09", SCH, "Interleavings of sequentially consistent steps; schedules are sampled (random, PCT) or enumerated with a bound on preemptions for small scenarios.")
c("A10", SCH, "As A09, with spurious wakeups, failing allocations and throwing tasks.")
c("B05", SCH, "As A09, for 2 to 5 threads on vectors of 3 to 40 chunks (int, move-only and wide elements), also with failing allocations of the vector; every execution is checked against the abstract specification Visits, and the final contents, element lives and memory are compared.")
c("B06", SCH, "As A09; starvation is decided with an adversarial scheduler and a bound on the number of sections entered before a waiting writer.")
c("A12", "TLA+ specification of the happens-before order (vector clocks) and design model of the publication of a chunk checked by TLC; synchronisations and conflicting accesses recorded from the real code under a deterministic scheduler validated against it", "Executions are interleavings; within each, every pair of conflicting accesses must be ordered by the language's rules, whatever the order they happened in. Values that only a weakly ordered processor could read are not explored. Accesses of libzstd and of the C library are recorded at their calls (memcpy, memset, ZSTD_*).")
CV = "TLA+ models of the vector (observable behaviour) and of its chunk cache (refinement) checked by TLC; model-generated histories replayed on stenos::cvector"
CVN = "Histories are sampled by TLC's random simulation of the model over 11 element types (trivial, non-trivial, move-only, 1 to 4 chunk sizes, several levels); every observable result, the whole contents and the life of every element are compared after each operation."
for i in ("B01", "B02", "B03", "B04", "B07", "B09", "B10", "B11", "B12"):
    c(i, CV, CVN)
DM = "TLA+ model of damaged frames and of their readers checked by TLC; model-generated damages applied to real frames and read by the library"
c("A06", DM, "The reader machine agrees with the predicted outcomes for every combination of two damages of small frames; the binding is by replay of random sequences of damages, plus every prefix and random alterations of real frames, with guard pages, ASan/UBSan and a time limit per call.")
c("B08", DM, "As A06, for cvector::deserialize from memory and from streams; after each refused or doubtful input the vector is cleared, refilled, moved or destroyed, and the memory it holds is accounted for.")
c("A07", "TLA+ specification of the block format (BlockCodec) checked by TLC; streams built by the specification decoded by the library, frames of the library decoded by the specification", "The specified decoder and encoder of rows, codings and block headers are model checked for agreement on small blocks; the binding uses streams chosen by TLC (including codings the encoder rarely or never emits) and the library's own frames in three instruction-set builds. zstd payloads and the LZ block are opaque to the specification except for their framing.")
c("A13", "TLA+ models of the memory kept by contexts and of timers checked by TLC; model-generated histories replayed on the library under an accounting allocator and a simulated clock", "The bound of the memory kept follows the model's superblock sizes and workers; the reported footprint is compared with the bytes released by the destruction of the context. Histories are sampled. Only the POSIX timer is built here.")
exec(open(V + "/tools/manifest_extra.py").read()) if os.path.exists(V + "/tools/manifest_extra.py") else None
NA = {}
checks = [{"property": p, "quick_cmd": "tools/check " + p, "thorough_cmd": "VERIF_TIER=thorough tools/check " + p, "technique": T[p][0], "level": "model_checking", "level_note": T[p][1]} for p in props if p in T]
na = [{"property": p, "reason": NA.get(p, "Check under construction.")} for p in props if p not in T]
m = {"version": 1, "setup_cmd": "mkdir -p evidence build replays", "hooks": {"guard": "none", "enable": "No hooks: the drivers observe the library through its interface, compiler instrumentation and interposed system functions.", "source_commits": []},
     "checks": checks, "not_applicable": na, "notes": "tools/check ID --replay FILE reproduces a violation."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
