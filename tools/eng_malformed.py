"""Engine E3: damaged frames of spec/Malformed.tla read by the library (A06) and by vectors (B08, spec/BadVector.tla)."""
import re
from vlib import *
from eng_api import parse

KEYS = ["want", "bt", "n", "level", "threads", "blk", "ss", "shift", "v", "i", "j", "r", "cap", "k"]


def line(r):
    p = [r["op"]] + ["%s=%s" % (k, r[k]) for k in KEYS if k in r]
    if "d" in r:
        p.append("d=%d,%d" % tuple(r["d"]))
    return " ".join(p)


MC = """SPECIFICATION MSpec
CONSTANT MaxDamage = %d
INVARIANTS InBounds Agree Complete
PROPERTY Ends
CHECK_DEADLOCK FALSE
"""
GEN = """SPECIFICATION GSpec
CONSTANTS
 Steps = %d
 MaxN = %d
 Focus = "mix"
CHECK_DEADLOCK FALSE
"""
MCV = """SPECIFICATION VSpec
CONSTANT MaxDamage = %d
INVARIANTS Sound Safe
CHECK_DEADLOCK FALSE
"""
GENV = """SPECIFICATION GSpec
CONSTANTS
 Steps = %d
 Bt = %d
 Chunk = %d
 Raw = %s
 MaxChunks = %d
CHECK_DEADLOCK FALSE
"""
# histories, steps, largest content, variant
PLAN = [(60, 120, 60000, "asan"), (60, 120, 3000, "asan"), (60, 120, 20000, "native"), (60, 120, 300000, "native"), (60, 120, 6000, "asanv2"), (40, 120, 60000, "v2"), (60, 120, 3000, "native")]
# element types of harness/cvmal.cpp: size, elements per chunk, raw
TYPES = [(4, 256, False), (12, 256, False), (1, 512, False), (2, 512, False), (3, 256, True), (40, 256, False), (8, 1024, False)]
PLANV = [(0, "asan"), (1, "asan"), (2, "native"), (3, "asan"), (4, "asan"), (5, "native"), (6, "asan"), (0, "native")]


def jobs_of(chk):
    """[(executable name, driver source, variant, flags, generator module, configuration, depth)]"""
    m = 1 if QUICK else 4
    if chk.prop == "A06":
        return [("maldrv_" + v, "maldrv.cpp", v, [], "Gen_Malformed", GEN % (steps, maxn), nh * m * (steps + 1)) for nh, steps, maxn, v in PLAN], ("MC_Malformed", MC % (1 if QUICK else 2))
    r = []
    for i, (ty, v) in enumerate(PLANV):
        bt, per, raw = TYPES[ty]
        r.append(("cvmal%d_%s" % (ty, v), "cvmal.cpp", v, ["-std=gnu++17", "-DTY=%d" % ty], "Gen_BadVector", GENV % (100, bt, bt * per, str(raw).upper(), 6 if i % 3 else 16), 80 * m * 101))
    return r, ("MC_BadVector", MCV % (1 if QUICK else 2))


def run(chk):
    budget = 22 if QUICK else 500
    todo, (mcmod, mccfg) = jobs_of(chk)
    with ThreadPoolExecutor(7) as ex:
        fbuild = ex.submit(lambda: build(sorted({j[0]: (j[0], j[1], j[2], j[3], True) for j in todo}.values())))
        fmc = ex.submit(model_check, chk, chk.scratch, mcmod, mccfg, 2)
        gens = [(j, ex.submit(tlc_generate, chk.scratch, j[4], j[5], j[6], SEED * 1000 + i + 1)) for i, j in enumerate(todo)]
        jobs = []
        for k, (j, f) in enumerate(gens):
            recs, (tr, st) = f.result()
            chk.add(transitions=tr, states=st)
            jobs.append((j, chk.scratch.file("m%d.txt" % k, "\n".join(line(r) for r in recs) + "\n"), recs))
        exes = fbuild.result()
        fmc.result()
    outs = run_procs([[exes[j[0]], fn, "-t", str(budget)] for j, fn, recs in jobs], timeout=budget * 3 + 240, stop=lambda rc, out: parse(out, rc)[0])
    for (j, fn, recs), (rc, out) in zip(jobs, outs):
        v = j[0]
        viols, done = parse(out, rc)
        if done:
            chk.add(traces_validated_against_impl=int(done["hists"]), calls=int(done["calls"]), refused=int(done["errors"]))
            chk.note("%s: %s" % (v, " ".join("%s=%s" % x for x in done.items())))
        elif not viols:
            driver_failed(chk, v, rc, out, {"engine": "malformed", "driver": list(j[:4]), "binding": -1, "history": [line(r) for r in recs]})
        chk.sample({"variant": v, "history": [line(r) for r in recs[1:8]]})
        for tags, msg in viols:
            hs = []
            for r in recs:
                if r["op"] == "start":
                    hs.append([])
                hs[-1].append(line(r))
            h, b = (re.search(k + r"=(\d+)", msg) for k in ("hist", "bind"))
            chk.violation("[%s] %s" % (v, msg), {"engine": "malformed", "driver": list(j[:4]), "binding": int(b.group(1)) if b else 0, "history": hs[int(h.group(1))] if h else []})


def replay(chk, rep):
    n, src, v, fl = rep["driver"]
    exe = build([(n, src, v, fl, True)])[n]
    fn = chk.scratch.file("replay.txt", "\n".join(rep["history"]) + "\n")
    rc, out = run_procs([[exe, fn] + (["-b", str(rep["binding"]), "-h", "0"] if rep["binding"] >= 0 else ["-t", "60"])], 300)[0]
    viols, done = parse(out, rc)
    print(out[-3000:])
    return 1 if viols or not done else 0
