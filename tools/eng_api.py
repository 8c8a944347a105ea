"""Engine E1: histories of the C API model (spec/Stenos.tla) replayed on the library (A01-A05, A08, A11)."""
import os, re, json
from vlib import *

KEYS = ["c", "s", "s2", "want", "bt", "n", "level", "threads", "cap", "err", "ss", "shift", "lo", "hi", "ret", "v", "cut", "len", "delta", "full", "lim"]


def line(r):
    p = [r["op"]]
    for k in KEYS:
        if k in r:
            v = r[k]
            if v is True or v is False:
                v = int(v)
            if isinstance(v, list):  # digits in base 65536 (Huge)
                v = sum(x << (16 * i) for i, x in enumerate(v))
            p.append("%s=%s" % (k, v))
    if "d" in r:
        p.append("d=%d,%d" % tuple(r["d"]))
    if "clk" in r:
        p.append("clk=" + ",".join(map(str, (list(r["clk"]) + [0, 0, 0])[:3])))
    if "key" in r:
        p.append("key=" + (r["key"].replace(" ", "") if isinstance(r["key"], str) else ".".join(map(str, r["key"]))))
    return " ".join(p)


def cfg(focus, steps, maxn):
    return '''SPECIFICATION GSpec
CONSTANTS
  Ctx = {"a", "b", "c"}
  Slot = {"f", "g", "h"}
  Steps = %d
  Focus = "%s"
  MaxN = %d
CHECK_DEADLOCK FALSE
''' % (steps, focus, maxn)


MC_CFG = '''SPECIFICATION Spec
CONSTANTS
  Ctx = {"a"}
  Slot = {"f"}
VIEW View
INVARIANTS TypeOK FrameOK BoundOK SelfDescribing
CHECK_DEADLOCK FALSE
'''

# contents of 0.5 to 6 GB: kind of calls, calls in quick and thorough
HUGE = {"A01": ("any", 1, 6), "A02": ("raw", 1, 4), "A03": ("any", 1, 5), "A05": ("any", 1, 5), "A08": ("timed", 1, 6)}
HUGE_CFG = 'SPECIFICATION Spec\nCONSTANT Focus = "%s"\n'
HUGE_MC = "SPECIFICATION Spec\nINVARIANT Agrees\nCHECK_DEADLOCK FALSE\n"
HUGE_MEM = 14 << 30


def available():
    m = re.search(r"MemAvailable:\s*(\d+) kB", open("/proc/meminfo").read())
    return int(m.group(1)) << 10 if m else 0


TIME_CFG = '''SPECIFICATION Spec
CONSTANTS
 Workers = {"w1","w2"}
 Calls = %d
 Blocks = %d
 Limit = %d
INVARIANTS TypeOK Partition Alone Complete NoLegacy FlagCause
PROPERTIES Returns
CHECK_DEADLOCK FALSE
'''

# per property: list of (focus, histories per shard, steps, MaxN, variants, share of time, extra driver args)
PLANS = {
    "A01": [("mix", 70, 24, 300000, ["native", "asan"], []), ("small", 120, 24, 20000, ["native", "native", "v2", "asan"], []), ("thr", 60, 20, 600000, ["native"], [])],
    "A02": [("caps", 60, 24, 60000, ["native", "asan", "v2"], []), ("small", 60, 24, 20000, ["native", "asan"], []), ("mix", 50, 24, 300000, ["native", "asan"], [])],
    "A03": [("caps", 60, 24, 60000, ["native"], []), ("small", 80, 24, 20000, ["native", "asan", "v2"], []), ("mix", 60, 24, 300000, ["native", "asan"], []), ("thr", 60, 20, 600000, ["native"], [])],
    "A04": [("det", 60, 24, 100000, ["native", "native"], ["-f"]), ("det", 60, 24, 20000, ["native", "v2", "asan"], ["-f"]), ("det", 30, 24, 600000, ["native"], ["-f"])],
    "A08": [("time", 60, 30, 60000, ["native", "native", "asan", "v2"], ["-f"]), ("time", 50, 24, 300000, ["native", "asan"], ["-f"]), ("time", 30, 24, 1500000, ["native"], ["-f"])],
    "A11": [("alloc", 60, 30, 20000, ["hook", "hook", "hook"], []), ("alloc", 50, 24, 300000, ["hook", "hook"], []), ("alloc", 20, 24, 900000, ["hook"], [])],
    "A05": [("params", 80, 30, 300000, ["native", "native", "asan"], []), ("mix", 60, 24, 300000, ["native", "v2"], [])],
}


def parse(out, rc):
    """[(tags, message)], done record"""
    res = []
    for m in re.finditer(r"^VIOL (\S+) (.*)$", out, re.M):
        res.append((m.group(1).split(","), m.group(2)))
    m = re.search(r"^CRASH (\S+) (.*)$", out, re.M)
    if m:
        res.append((m.group(1).split(","), "crash in " + m.group(2) + " " + sanitizer_summary(out)))
    m = re.search(r"^HANG (\S+) (.*)$", out, re.M)
    if m:
        res.append((m.group(1).split(","), "no end of " + m.group(2)))
    d = re.search(r"^DONE (.*)$", out, re.M)
    done = dict(x.split("=") for x in d.group(1).split()) if d else {}
    return res, done


def matters(prop, tags, msg):
    # a call that crashes or never returns breaks every property
    return prop in tags or msg.startswith(("crash", "no end"))


def run(chk):
    prop = chk.prop
    plan = PLANS[prop]
    variants = sorted({v for p in plan for v in p[4]})
    budget = 17 if QUICK else 500
    with ThreadPoolExecutor(6) as ex:
        fb = {v: None for v in variants}
        fbuild = ex.submit(lambda: build([("apidrv_" + v, "apidrv.cpp", v, ["-DHOOK=1"] if v == "hook" else [], True) for v in variants]))
        fmc = ex.submit(model_check, chk, chk.scratch, "MC_Stenos", MC_CFG + ("CONSTANT Small = %s\n" % ("TRUE" if QUICK else "FALSE")), 2)
        ftl = ex.submit(model_check, chk, chk.scratch, "TimeLimit", TIME_CFG % ((2, 3, 2) if QUICK else (3, 4, 3)), 2, 800, (), True, "TimeLimit") if prop == "A08" else None
        gens = []
        for i, (focus, nh, steps, maxn, vs, args) in enumerate(plan):
            for j, v in enumerate(vs):
                mult = 1 if QUICK else 4
                gens.append((focus, v, args, ex.submit(tlc_generate, chk.scratch, "Gen_Stenos", cfg(focus, steps, maxn), nh * mult * (steps + 1), SEED * 100 + i * 10 + j + 1)))
        if prop in HUGE:
            focus, q, t = HUGE[prop]
            fhm = ex.submit(model_check, chk, chk.scratch, "MC_Huge", HUGE_MC, 1)
            if available() > HUGE_MEM:
                gens.append(("huge", "native", ["-B", "1", "-b", "0"], ex.submit(tlc_generate, chk.scratch, "Gen_Huge", HUGE_CFG % focus, (q if QUICK else t) + 2, SEED * 100 + 77)))
            else:
                chk.note("less than %d GB of memory available: no call with huge contents" % (HUGE_MEM >> 30))
            fhm.result()
        jobs = []
        for k, (focus, v, args, f) in enumerate(gens):
            recs, (tr, st) = f.result()
            chk.add(transitions=tr, states=st)
            fn = chk.scratch.file("h%d.txt" % k, "\n".join(line(r) for r in recs) + "\n")
            jobs.append((focus, v, args, fn, recs))
        exes = fbuild.result()
        fmc.result()
        ftl and ftl.result()
    njobs = len(jobs)
    t = budget
    cmds = [[exes["apidrv_" + v], fn, "-t", str(t), "-p", prop] + args for focus, v, args, fn, recs in jobs]
    outs = run_procs(cmds, timeout=t * 3 + 240, stop=lambda rc, out: any(matters(prop, *x) for x in parse(out, rc)[0]))
    for (focus, v, args, fn, recs), (rc, out) in zip(jobs, outs):
        viols, done = parse(out, rc)
        if done:
            chk.add(traces_validated_against_impl=int(done["hists"]), calls=int(done["calls"]), distinct_calls=int(done["distinct"]))
            chk.note("%s/%s: %s" % (focus, v, " ".join("%s=%s" % x for x in done.items())))
        elif not viols:
            driver_failed(chk, v, rc, out, {"engine": "api", "variant": v, "binding": -1, "args": args, "history": [line(r) for r in recs]})
        chk.sample({"variant": v, "focus": focus, "history": [line(r) for r in recs[1:6]]})
        for tags, msg in viols:
            if matters(prop, tags, msg):
                hist = hist_of(recs, msg)
                m = re.search(r"bind=(\d+)", msg)
                chk.violation("[%s] %s" % (v, msg), {"engine": "api", "variant": v, "binding": int(m.group(1)) if m else 0, "args": args, "history": hist})


def hist_of(recs, msg):
    m = re.search(r"hist=(\d+)", msg)
    hs, cur = [], None
    for r in recs:
        if r["op"] == "start":
            cur = []
            hs.append(cur)
        cur.append(line(r))
    return hs[int(m.group(1))] if m and int(m.group(1)) < len(hs) else []


def replay(chk, rep):
    v = rep["variant"]
    exe = build([("apidrv_" + v, "apidrv.cpp", v, ["-DHOOK=1"] if v == "hook" else [], True)])["apidrv_" + v]
    fn = chk.scratch.file("replay.txt", "\n".join(rep["history"]) + "\n")
    rc, out = run_procs([[exe, fn, "-p", chk.prop] + (["-b", str(rep["binding"]), "-h", "0"] if rep["binding"] >= 0 else ["-t", "60"]) + rep.get("args", [])], 300)[0]
    viols, done = parse(out, rc)
    print(out[-4000:])
    for tags, msg in viols:
        if matters(chk.prop, tags, msg):
            return 1
    return 1 if not done else 0
