"""Engine E2: the encodings of superblocks (A07), spec/BlockCodec.tla.
Streams built by the specification go to the decoder of every instruction-set variant, superblocks written by the
encoder are given their meaning by the specification, frames written by one variant are read by the others."""
import re
from vlib import *
from eng_api import parse

MC = """SPECIFICATION BSpec
CONSTANT Deep = %s
INVARIANT Agree
CHECK_DEADLOCK FALSE
"""
GEN = """SPECIFICATION GSpec
CONSTANTS
 Steps = %d
 MaxBytes = %d
CHECK_DEADLOCK FALSE
"""
CHECK = "SPECIFICATION TSpec\nCHECK_DEADLOCK TRUE\n"
# variant, records, largest blocks (bytes), bytes recorded for the specification
PLAN = [("native", 1200, 4000, 1800000), ("native", 600, 12000, 1800000), ("v2", 1200, 4000, 1800000), ("asan", 600, 6000, 900000), ("asanv2", 600, 6000, 900000), ("native", 50, 300000, 1800000), ("v2", 50, 300000, 1800000)]
READERS = ["native", "v2", "v1"]


class SubScratch:
    def __init__(self, s, i):
        self.s, self.d, self.i = s, s.sub("sub%d" % i), i

    def sub(self, n):
        return self.s.sub("sub%d/%s" % (self.i, n))


def line(r):
    p = [r["op"]] + ["%s=%s" % (k, r[k]) for k in ("bt", "n", "level", "threads", "blk", "v", "r") if k in r]
    if "d" in r:
        p.append("d=%d,%d" % tuple(r["d"]))
    for k in ("s", "c"):
        if k in r:
            p.append("%s=%s" % (k, bytes(r[k]).hex()))
    return " ".join(p)


def short(l):
    return l if len(l) < 300 else l[:300] + "..."


def run(chk):
    m = 1 if QUICK else 8
    budget = 30 if QUICK else 600
    with ThreadPoolExecutor(8) as ex:
        vs = sorted({p[0] for p in PLAN} | set(READERS))
        fb = ex.submit(lambda: build([("fmt_" + v, "fmtdrv.cpp", v, [], True) for v in vs]))
        gens = [ex.submit(tlc_generate, chk.scratch, "Gen_BlockCodec", GEN % (nr * m, mx), nr * m, SEED * 100 + i + 1, 600) for i, (v, nr, mx, mb) in enumerate(PLAN)]
        fm = ex.submit(model_check, chk, chk.scratch, "MC_BlockCodec", MC % ("FALSE" if QUICK else "TRUE"), 3)
        files = []
        for i, g in enumerate(gens):
            recs, (tr, st) = g.result()
            chk.add(transitions=tr, states=st)
            files.append([line(r) for r in recs if r["op"] != "start"])
        exes = fb.result()
        fm.result()
    cmds = []
    for i, (v, nr, mx, mb) in enumerate(PLAN):
        fn = chk.scratch.file("c%d.txt" % i, "\n".join(files[i]) + "\n")
        cmds.append([exes["fmt_" + v], fn, "-t", str(budget), "-o", chk.scratch.file("r%d.json" % i), "-m", str(mb * m), "-x", chk.scratch.file("x%d.bin" % i)])
    outs = run_procs(cmds, timeout=budget * 3 + 240, stop=lambda rc, out: parse(out, rc)[0])

    def report(i, msg, how):
        l = re.search(r"line (\d+)", msg)
        t = files[i][int(l.group(1))] if l and int(l.group(1)) < len(files[i]) else ""
        chk.violation("[%s] %s" % (how, msg), {"engine": "codec", "writer": PLAN[i][0], "reader": how, "line": t})

    def outcome(i, rc, out, how):
        viols, done = parse(out, rc)
        if done:
            chk.note("%s: %s" % (how, " ".join("%s=%s" % x for x in done.items() if x[1] != "0")))
            chk.add(traces_validated_against_impl=int(done["streams"]) + int(done["orders"]) + int(done["cross"]), frames=int(done["frames"]))
        elif not viols:
            driver_failed(chk, how, rc, out, {"engine": "codec", "writer": PLAN[i][0], "reader": PLAN[i][0], "all": files[i]})
        for _, msg in viols:
            report(i, msg, how)
    for i, (rc, out) in enumerate(outs):
        outcome(i, rc, out, PLAN[i][0])
        chk.sample({"variant": PLAN[i][0], "records": [short(l) for l in files[i][:2]]})
    if chk.viols:
        return
    # the other variants read what was written
    cross = [(i, r, [exes["fmt_" + r], "-t", str(budget // 3), "-y", chk.scratch.file("x%d.bin" % i)]) for i, p in enumerate(PLAN) for r in READERS if r != p[0].replace("asanv2", "v2").replace("asan", "native")]
    for (i, r, c), (rc, out) in zip(cross, run_procs([c for _, _, c in cross], timeout=budget + 120)):
        viols, done = parse(out, rc)
        outcome(i, rc, out, "frames of %s read by %s" % (PLAN[i][0], r)) if not viols else [chk.violation("[frames of %s read by %s] %s" % (PLAN[i][0], r, msg), {"engine": "codec", "writer": PLAN[i][0], "reader": r, "all": files[i]}) for _, msg in viols]
    # what the encoder wrote
    with ThreadPoolExecutor(3) as ex:
        def one(i):
            recs = json.load(open(chk.scratch.file("r%d.json" % i)))
            return i, recs, validate_traces(chk, SubScratch(chk.scratch, i), "CheckCodec", CHECK, recs, shards=3, timeout=600)
        for i, recs, bad in ex.map(one, range(len(PLAN))):
            for t, p in bad:
                code, bt, s, c, l = recs[t][0]
                report(i, "line %d : a superblock of code %d written by the encoder (%d bytes for %d bytes of content, element size %d) does not mean its content" % (l, code, len(s), len(c), bt), PLAN[i][0])


def replay(chk, rep):
    vs = sorted({rep["writer"], rep["reader"] if rep["reader"] in VARIANTS else rep["writer"]})
    exes = build([("fmt_" + v, "fmtdrv.cpp", v, [], True) for v in vs])
    fn = chk.scratch.file("replay.txt", "\n".join(rep.get("all") or [rep["line"]]) + "\n")
    rc, out = run_procs([[exes["fmt_" + rep["writer"]], fn, "-o", chk.scratch.file("r.json"), "-m", "100000000", "-x", chk.scratch.file("x.bin")]], 600)[0]
    print(out[-2000:])
    viols, done = parse(out, rc)
    if viols or not done:
        return 1
    if rep["reader"] in VARIANTS and rep["reader"] != rep["writer"]:
        rc, out = run_procs([[exes["fmt_" + rep["reader"]], "-y", chk.scratch.file("x.bin")]], 600)[0]
        print(out[-2000:])
        if parse(out, rc)[0]:
            return 1
    bad = validate_traces(chk, chk.scratch, "CheckCodec", CHECK, json.load(open(chk.scratch.file("r.json"))), timeout=900)
    print("records refused by the specification: %d" % len(bad))
    return 1 if bad else 0
