"""Engine E5: histories of the vector model (spec/CVector.tla) replayed on stenos::cvector."""
import json, re
from vlib import *

CFG = '''SPECIFICATION GSpec
CONSTANTS
 Vec = {1,2,3}
 Refs = {1,2,3,4}
 Its = {1,2}
 BS = %d
 Steps = %d
 Focus = "%s"
 MaxChunks = %d
CHECK_DEADLOCK FALSE
'''
# element types of harness/cvdrv.cpp: TY -> log2(elements per chunk / 256)
SHIFT = {0: 0, 1: 0, 2: 0, 3: 0, 4: 0, 5: 1, 6: 0, 7: 0, 8: 1, 9: 0, 10: 2}
NAMES = {0: "int32", 1: "int64/L2", 2: "12 bytes", 3: "non-trivial", 4: "move-only", 5: "uint16/512 per chunk/L3", 6: "3 bytes/L0", 7: "8 random bytes", 8: "non-trivial/512 per chunk/L5", 9: "40 bytes/L9", 10: "double/1024 per chunk"}
# property -> list of (focus, chunks, steps, histories, [(type, variant)], driver options)
A, N = "asan", "native"
PLANS = {
    "B01": [("all", 6, 60, 260, [(0, N), (3, N), (4, N), (7, N), (2, A), (6, N), (4, A)], []), ("all", 5, 60, 160, [(5, N), (8, N), (5, A)], []), ("all", 4, 60, 60, [(10, N)], []), ("life", 6, 60, 160, [(3, A), (1, N), (9, N)], [])],
    "B02": [("mod", 8, 80, 240, [(0, N), (3, N), (7, N), (4, N), (1, N), (9, N), (3, A)], []), ("mod", 20, 80, 120, [(0, N), (2, N), (3, N)], []), ("mod", 5, 60, 160, [(5, N), (8, N), (8, A)], []), ("all", 6, 60, 200, [(0, N), (3, N), (7, N)], [])],
    "B03": [("ref", 8, 80, 260, [(0, N), (3, N), (7, N), (4, N), (6, N), (3, A), (0, A)], []), ("ref", 20, 80, 140, [(0, N), (1, N), (3, N)], []), ("ref", 5, 60, 160, [(5, N), (8, N), (8, A)], [])],
    "B04": [("visit", 8, 60, 260, [(0, N), (3, N), (7, N), (4, N), (9, N), (3, A), (2, A)], []), ("visit", 5, 60, 160, [(5, N), (8, N)], []), ("visit", 4, 60, 80, [(10, N)], [])],
    "B07": [("serial", 6, 60, 220, [(0, N), (1, N), (2, N), (6, N), (7, N), (9, N), (0, A), (6, A)], []), ("serial", 5, 60, 160, [(5, N), (5, A)], []), ("serial", 4, 60, 80, [(10, N), (10, A)], [])],
    "B09": [("life", 8, 60, 260, [(3, N), (4, N), (3, A), (4, A), (0, A)], []), ("life", 5, 60, 160, [(8, N), (8, A)], []), ("ref", 8, 60, 160, [(3, N), (4, N)], []), ("serial", 6, 60, 120, [(0, N), (7, N)], [])],
    "B10": [("fail", 6, 60, 260, [(0, N), (3, N), (4, N), (7, N), (3, A), (4, A), (0, A)], ["-fail"]), ("fail", 4, 60, 200, [(8, N), (5, N), (8, A)], ["-fail"]), ("fail", 16, 60, 100, [(3, N), (1, N)], ["-fail"])],
    "B11": [("cache", 40, 120, 100, [(0, N), (3, N), (7, N), (4, N)], []), ("cache", 16, 120, 100, [(5, N), (8, N), (9, N), (2, N)], []), ("cache", 40, 120, 60, [(3, N), (1, N)], []), ("cache", 150, 120, 24, [(0, N), (7, N), (4, N)], [])],
    "B12": [("bin", 4, 40, 300, [(0, N), (1, N), (2, N), (6, N), (7, N), (9, N), (0, A), (6, A), (9, A)], []), ("bin", 3, 40, 160, [(5, N), (5, A)], []), ("bin", 3, 40, 80, [(10, N), (10, A)], [])],
}

# element types left to the thorough tier (their drivers take most of the compile time)
LATER = [(1, N), (9, N), (4, A), (2, A), (6, A), (9, A), (10, A)]


def text(recs):
    out = []
    for (name, args, runs), sizes, gu in recs:
        if name == "start":
            out.append("start")
            continue
        s = name + " " + " ".join(map(str, args))
        s += " | " + " ".join("%d %d %d" % tuple(r) for r in runs)
        s += " | " + " ".join(map(str, sizes))
        s += " | " + " ".join(map(str, gu))
        out.append(s)
    return out


def parse(out, rc):
    res = [(m.group(1).split(","), m.group(2)) for m in re.finditer(r"^VIOL (\S+) (.*)$", out, re.M)]
    for w in ("CRASH", "HANG"):
        m = re.search(r"^" + w + r" (\S+) (.*)$", out, re.M)
        if m:
            res.append((m.group(1).split(","), ("crash in " if w == "CRASH" else "no end of ") + m.group(2) + " " + sanitizer_summary(out)))
    d = re.search(r"^DONE (.*)$", out, re.M)
    done = dict(x.split("=") for x in d.group(1).split()) if d else {}
    if not res and not done and rc != SKIPPED:
        res.append((None, "driver ended with code %s: %s %s" % (rc, sanitizer_summary(out), out[-300:])))
    return res, done


# the driver is compiled with less than the library, which keeps the flags of its variant
FLAGS = {N: ["-O1"], A: ["-fno-sanitize=undefined"]} if QUICK else {N: [], A: []}


def drivers(types):
    return build([("cvdrv%d_%s" % (ty, v), "cvdrv.cpp", v, ["-std=gnu++17", "-DTY=%d" % ty] + FLAGS[v], True) for ty, v in types])


def matters(prop, tags, msg):
    # a call that crashes or never returns breaks every property
    return tags is None or prop in tags or msg.startswith(("crash", "no end"))


def run(chk):
    prop = chk.prop
    plan = [(f, c, s, h, [x for x in tys if x not in LATER] or tys, a) for f, c, s, h, tys, a in PLANS[prop]] if QUICK else PLANS[prop]
    types = sorted({t for p in plan for t in p[4]})
    rounds = 2 if QUICK else 12
    budget = 20 if QUICK else 400
    gens = {}
    with ThreadPoolExecutor(8) as ex:
        fb = ex.submit(drivers, types)
        fm = ex.submit(design, chk)
        for i, (focus, chunks, steps, nh, tys, args) in enumerate(plan):
            for sh in sorted({SHIFT[t] for t, v in tys}):
                for r in range(rounds):
                    cfg = CFG % (256 << sh, steps, focus, chunks)
                    gens[(i, sh, r)] = ex.submit(tlc_generate, chk.scratch, "Gen_CVector", cfg, nh * (steps + 1) + 1, chk.rng.randrange(1 << 30), 300)
        exes = fb.result()
        cmds, meta = [], []
        for (i, sh, r), f in gens.items():
            recs, st = f.result()
            chk.add(states=st[1], transitions=st[0])
            lines = text(recs)
            fn = chk.scratch.file("h%d_%d_%d.txt" % (i, sh, r), "\n".join(lines) + "\n")
            if r == 0:
                chk.sample({"focus": plan[i][0], "operations": lines[1:12]})
            for ty, v in plan[i][4]:
                if SHIFT[ty] != sh:
                    continue
                for part in range(2):
                    n = plan[i][3]
                    cmds.append([exes["cvdrv%d_%s" % (ty, v)], fn, "-t", str(budget), "-from", str(part * n // 2), "-n", str(n // 2)] + plan[i][5])
                    meta.append((ty, v, lines))
        res = run_procs(cmds, budget * 3 + 200, stop=lambda rc, out: any(matters(prop, *x) for x in parse(out, rc)[0]))
        fm.result()
    ops = hist = fails = fired = 0
    per = {}
    for (ty, v, lines), cmd, (rc, out) in zip(meta, cmds, res):
        viols, done = parse(out, rc)
        ops += int(done.get("ops", 0)); hist += int(done.get("histories", 0)); fails += int(done.get("fails", 0)); fired += int(done.get("fired", 0))
        per[NAMES[ty] + "/" + v] = per.get(NAMES[ty] + "/" + v, 0) + int(done.get("histories", 0))
        for tags, msg in viols:
            if matters(prop, tags, msg):
                m = re.search(r"history (\d+)", msg)
                h = int(m.group(1)) if m else 0
                starts = [k for k, l in enumerate(lines) if l == "start"]
                seg = lines[starts[h]:starts[h + 1]] if m and h + 1 < len(starts) else lines[starts[h]:] if m else lines
                chk.violation("%s: %s" % (NAMES[ty], msg), {"type": ty, "variant": v, "history": seg, "number": h, "args": cmd[7:] if False else plan_args(cmd)})
                break
    chk.add(traces_validated_against_impl=hist, operations=ops)
    chk.note("histories per element type and build: " + json.dumps(per, sort_keys=True))
    if fails:
        chk.note("operations with an injected failure: %d, of which %d reached it" % (fails, fired))


def plan_args(cmd):
    return ["-fail"] if "-fail" in cmd else []


MC = '''SPECIFICATION Spec
CONSTANTS
 Chunks = %s
 Keepers = %s
 MaxVal = 1
INVARIANTS TypeOK ReadsLatest Bounded Distinct Coherent
PROPERTIES Refines PinnedInPlace
CHECK_DEADLOCK FALSE
'''


ITER = '''SPECIFICATION Spec
CONSTANTS
 MaxN = %d
 Slots = {1,2}
INVARIANTS Answers Coherent
CHECK_DEADLOCK FALSE
'''


def design(chk):
    """Design model of the chunk cache; of the record iterator."""
    if chk.prop == "B12":
        model_check(chk, chk.scratch, "RecordIter", ITER % (6 if QUICK else 12), 1, 300, (), True, "RecordIter, up to %d records" % (6 if QUICK else 12))
    if not os.path.exists(SPEC + "/CVecCache.tla"):
        return
    for ch, kp in ([("{1,2,3}", "{1}")] if QUICK else [("{1,2,3}", "{1,2}"), ("{1,2,3,4}", "{1,2}"), ("{1,2,3}", "{1,2,3}")]):
        model_check(chk, chk.scratch, "CVecCache", MC % (ch, kp), 2, 800, (), True, "CVecCache %s chunks, %s references" % (ch.count(",") + 1, kp.count(",") + 1))


def replay(chk, rep):
    exe = drivers([(rep["type"], rep["variant"])]).popitem()[1]
    # the pseudo-random choices of the driver depend on the number of the history
    fn = chk.scratch.file("h.txt", "\n".join(["start"] * rep["number"] + rep["history"]) + "\n")
    rc, out = run_procs([[exe, fn, "-from", str(rep["number"])] + rep["args"]], 300)[0]
    print(out[-3000:])
    return 1 if parse(out, rc)[0] else 0
