"""Engine E7: memory footprint of the contexts and timers (A13), spec/Memory.tla, Timer.tla, Gen_Accounting.tla."""
import re
from vlib import *
from eng_api import KEYS, line, parse, matters, hist_of

if "held" not in KEYS:
    KEYS.append("held")
GEN = '''SPECIFICATION ASpec
CONSTANTS
  Ctx = {"a", "b", "c"}
  MCtx = {"a", "b", "c"}
  Slot = {"f", "g", "h"}
  Timers = {1, 2, 3}
  Unit = 1000000000
  Steps = %d
  Focus = "acct"
  MaxN = %d
CHECK_DEADLOCK FALSE
'''
MEM = '''SPECIFICATION MSpec
CONSTANTS
 MCtx = {"a"}
 Sizes = {1, 2}
 Workers = 2
 Calls = %d
INVARIANTS Within OneSize
CHECK_DEADLOCK FALSE
'''
TIM = '''SPECIFICATION MSpec
CONSTANTS
 Timers = {1, 2}
 Unit = %d
 Seconds = %d
INVARIANTS Elapsed SaidOK
PROPERTIES Monotone
CHECK_DEADLOCK FALSE
'''
# histories, steps, largest content
PLAN = [(60, 40, 20000), (60, 40, 300000), (40, 40, 300000), (30, 40, 1500000)]


def driver():
    return build([("acctdrv", "acctdrv.cpp", "hook", ["-DHOOK=1"], True)])["acctdrv"]


def run(chk):
    t = 12 if QUICK else 300
    m = 1 if QUICK else 5
    with ThreadPoolExecutor(8) as ex:
        fb = ex.submit(driver)
        gens = [ex.submit(tlc_generate, chk.scratch, "Gen_Accounting", GEN % (st, mx), nh * m * (st + 1), SEED * 100 + i + 1) for i, (nh, st, mx) in enumerate(PLAN)]
        fm = ex.submit(model_check, chk, chk.scratch, "MC_Memory", MEM % (4 if QUICK else 5), 2)
        ft = ex.submit(model_check, chk, chk.scratch, "MC_Timer", TIM % ((3, 3) if QUICK else (4, 4)), 2)
        recs = []
        for i, g in enumerate(gens):
            r, (tr, st) = g.result()
            chk.add(transitions=tr, states=st)
            recs.append((chk.scratch.file("h%d.txt" % i, "\n".join(line(x) for x in r) + "\n"), r))
        exe = fb.result()
        fm.result()
        ft.result()
    outs = run_procs([[exe, fn, "-t", str(t)] for fn, r in recs], timeout=t * 3 + 200)
    for (fn, r), (rc, out) in zip(recs, outs):
        viols, done = parse(out, rc)
        if done:
            chk.add(traces_validated_against_impl=int(done["hists"]), calls=int(done["calls"]), footprints=int(done["footprints"]), elapsed_times=int(done["tocks"]))
            chk.note(" ".join("%s=%s" % x for x in done.items()))
        elif not viols:
            driver_failed(chk, "hook", rc, out, {"engine": "acct", "history": [line(x) for x in r]})
        chk.sample({"history": [line(x) for x in r[1:6]]})
        for tags, msg in viols:
            if matters(chk.prop, tags, msg):
                b = re.search(r"bind=(\d+)", msg)
                chk.violation(msg, {"engine": "acct", "binding": int(b.group(1)) if b else 0, "history": hist_of(r, msg)})


def replay(chk, rep):
    fn = chk.scratch.file("replay.txt", "\n".join(rep["history"]) + "\n")
    rc, out = run_procs([[driver(), fn] + (["-b", str(rep["binding"])] if "binding" in rep else ["-t", "60"])], 300)[0]
    viols, done = parse(out, rc)
    print(out[-4000:])
    return 1 if viols or not done else 0
