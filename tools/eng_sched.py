"""Engine E4: real threads under a deterministic scheduler; the recorded executions are checked by TLC (A09, A10, B05, B06)."""
import os, re, json
from vlib import *
from vlib import _sh

POOL_CFG = '''SPECIFICATION Spec
CONSTANTS
 Tasks = {%s}
 Waits = {1,2,3}
 Workers = {%s}
 Clients <- %s
 Script <- %s
 MaxSpurious = %d
INVARIANTS PoolTypeOK WaitMeans Balance
PROPERTIES Refines Terminates
'''
TRACE_POOL = '''SPECIFICATION TSpec
CONSTANTS
 Tasks = {%s}
 Waits = {%s}
CHECK_DEADLOCK TRUE
''' % (",".join(map(str, range(0, 200))), ",".join(map(str, range(0, 200))))


def events(log):
    """'P1 p1:1:0 ...' -> [["P",1],["p",1,1,0],...]"""
    r = []
    for w in log.split():
        m = re.match(r"([A-Za-z]+)(.*)$", w)
        r.append([m.group(1)] + [int(x) for x in m.group(2).split(":") if x != ""])
    return r


def parse(out):
    traces = re.findall(r"^T (\d+) (.*)$", out, re.M)
    viols = re.findall(r"^(STUCK|VIOL|CRASH) (\S+) run=(-?\d+) scenario=(.*?) : (.*)$", out, re.M)
    d = re.search(r"^DONE (.*)$", out, re.M)
    done = dict(x.split("=") for x in d.group(1).split()) if d else {}
    return traces, viols, done


def sched_runs(chk, exe, cmds, timeout, module, tcfg, name, known_ok=None):
    """Runs the scheduled driver with each argument list, validates the distinct traces with TLC."""
    outs = run_procs([[exe] + a for a in cmds], timeout, stop=lambda rc, out: any(chk.prop in v[1].split(",") for v in parse(out)[1]))
    seen = {}
    for a, (rc, out) in zip(cmds, outs):
        traces, viols, done = parse(out)
        for kind, tags, run, scen, why in viols:
            if chk.prop in tags.split(","):
                chk.violation("%s %s: %s" % (kind, scen, why[:1500]), {"engine": "sched", "driver": name, "args": (a if "-dfs" in a else a + ["-from", "0", "-n", str(int(run) + 1), "-t", "600"]), "log": why})
        if done:
            chk.add(schedules=int(done["runs"]), scheduling_points=int(done["steps"]))
            if "-dfs" in a:
                chk.note("%s %s: %s schedules, complete=%s" % (name, " ".join(a), done["runs"], done["complete"]))
        elif not viols:
            driver_failed(chk, name, rc, out, {"engine": "sched", "driver": name, "args": a, "log": out[-1000:]})
        for n, t in traces:
            if t not in seen:
                seen[t] = a
    logs, races = list(seen), set()
    bad = validate_traces(chk, chk.scratch, module, tcfg, [events(t.split(" | ")[0]) for t in logs], shards=NCPU)
    for k in range(0, len(logs), max(1, len(logs) // 4)):
        chk.sample({"driver": name, "trace": logs[k][:400]})
    for i, p in bad:
        ev = logs[i].split()
        if module == "TraceRaces":
            where = race_at(exe, logs[i], p)
            key = tuple(re.sub(r" \(discriminator \d+\)", "", x) for x in where)
            if key not in races:
                races.add(key)
                chk.violation("data race in %s: %s  and  %s are not ordered" % (name, where[0], where[1]), {"engine": "sched", "driver": name, "args": seen[logs[i]], "trace": logs[i], "event": p})
            continue
        chk.violation("execution refused by %s at event %d (%s): %s" % (module, p, ev[p - 1] if p <= len(ev) else "?", logs[i][:1500]),
                      {"engine": "sched", "driver": name, "args": seen[logs[i]], "trace": logs[i], "event": p})
    chk.note("%s: %d distinct executions validated by %s" % (name, len(logs), module))
    return logs


def race_at(exe, text, p):
    """The two accesses of the refused event p: function and line of each."""
    w = text.split()
    pair = int(w[p - 1].split(":")[1])
    pcs = text.split(" | ")[1].split()[pair - 1].split("/")
    r = []
    for pc in pcs:
        o = _sh(["addr2line", "-Cfpie", exe, pc]).stdout.strip().split("\n")
        o = [re.sub(r"\S*/(stenos|harness)/", r"\1/", re.sub(r"^ \(inlined by\) ", "", x)) for x in o]
        r.append(" < ".join(x[-150:] for x in o[-2:]))
    return r


def build_driver(name):
    spec = {"pooldrv": ("pooldrv", "pooldrv.cpp", "sched", [], False), "apisched": ("apisched", "apisched.cpp", "sched", [], True),
            "lockdrv": ("lockdrv", "lockdrv.cpp", "sched", [], False), "cvsched": ("cvsched", "cvsched.cpp", "sched", [], True, "native"), "cvrace": ("cvrace", "cvsched.cpp", "sched", [], True)}[name]
    return build([spec])[name]


TRACE_CFG = {"pooldrv": ("TracePool", TRACE_POOL), "apisched": ("TraceCalls", "SPECIFICATION TSpec\n"),
             "cvsched": ("TraceVisits", "SPECIFICATION TSpec\n"), "races": ("TraceRaces", "SPECIFICATION TSpec\n"),
             "lockdrv": ("TraceLock", "SPECIFICATION TSpec\nCONSTANTS\n Threads = {%s}\n MaxBypass = 100\nINVARIANT Exclusion\n" % ",".join(map(str, range(12))))}
SPIN_CFG = '''SPECIFICATION Spec
CONSTANTS
 Writers = {%s}
 Readers = {%s}
 TryWriters = {%s}
 TryReaders = {%s}
 Forever = {%s}
CONSTRAINT Bounded
INVARIANTS Exclusion EndsFree WriterBit
PROPERTIES Refines WriterEnters OnceEnds
'''
PAR_CFG = '''SPECIFICATION Spec
CONSTANTS
 Clients = {%s}
 Workers = {%s}
 Rounds <- R2
 Width = %d
 MaxFail = 1
INVARIANTS NoDangling Exclusive Complete
PROPERTIES Terminates
'''


def run_A09(chk):
    with ThreadPoolExecutor(4) as ex:
        fb = ex.submit(build_driver, "apisched")
        insts = [('"a","b"', '"w1","w2"', 2)] + ([] if QUICK else [('"a","b"', '"w1","w2"', 3), ('"a","b","c"', '"w1"', 2)])
        fm = [ex.submit(model_check, chk, chk.scratch, "Parallel", PAR_CFG % i, 2, 800, (), True, "Parallel %s clients, %s workers, width %d" % (i[0].count(",") + 1, i[1].count("w"), i[2])) for i in insts]
        exe = fb.result()
        for f in fm:
            f.result()
    t = 24 if QUICK else 450
    cmds = [["-t", str(t), "-n", "10000000", "-s", str(SEED * 10 + k), "-traces", "400" if QUICK else "4000"] for k in range(6)]
    cmds += [["-dfs", "-scen", str(k), "-bound", "2", "-t", str(t // 2), "-traces", "500"] for k in range(4)]
    sched_runs(chk, exe, cmds, t * 4 + 100, *TRACE_CFG["apisched"], "apisched")


def run_A11(chk):
    """Concurrent calls with failing allocations (used with the histories of eng_api)."""
    t = 14 if QUICK else 200
    sched_runs(chk, build_driver("apisched"), [["-fault", "-t", str(t), "-n", "10000000", "-s", str(SEED * 10 + k), "-traces", "400" if QUICK else "4000"] for k in range(3 if QUICK else 6)], t * 4 + 100, *TRACE_CFG["apisched"], "apisched")


def run_A10(chk):
    with ThreadPoolExecutor(4) as ex:
        fb = ex.submit(build_driver, "pooldrv")
        insts = [("{}", '"w1","w2"', "C1", "ScriptA", 2, "1,2,3"), ("{}", '"w1","w2"', "C2", "ScriptB", 1, "1,2,3")]
        if not QUICK:
            insts += [("{}", '"w1"', "C2", "ScriptC", 2, "1,2,3"), ("{}", '"w1","w2","w3"', "C2", "ScriptB", 1, "1,2,3"), ("{}", '"w1","w2"', "C2", "ScriptC", 2, "1,2,3")]
        fm = [ex.submit(model_check, chk, chk.scratch, "TinyPool", POOL_CFG % (i[5], i[1], i[2], i[3], i[4]), 2, 700, (), True, "TinyPool/%s/%s workers" % (i[3], i[1].count("w"))) for i in insts]
        exe = fb.result()
        t = 18 if QUICK else 300
        cmds = [["-t", str(t), "-n", "10000000", "-s", str(SEED * 10 + k), "-traces", "3000" if QUICK else "20000"] for k in range(4 if QUICK else 6)]
        cmds += [["-dfs", "-scen", str(k), "-bound", "2" if QUICK else "3", "-t", str(8 if QUICK else 120), "-traces", "2000"] for k in range(8)]
        sched_runs(chk, exe, cmds, t * 4 + 100, "TracePool", TRACE_POOL, "pooldrv")
        for f in fm:
            f.result()


def run_B06(chk):
    with ThreadPoolExecutor(4) as ex:
        fb = ex.submit(build_driver, "lockdrv")
        insts = [('"w1"', '"r1"', '"t1"', '"u1"', ''), ('"w1"', '"r1","r2"', '', '', '"r1","r2"'), ('"w1","w2"', '"r1"', '', '', '"r1"')]
        if not QUICK:
            insts += [('"w1","w2"', '"r1"', '"t1"', '"u1"', ''), ('"w1"', '"r1","r2"', '', '"u1"', '"r1","r2"'), ('"w1","w2"', '"r1","r2"', '', '', '"r1","r2"')]
        fm = [ex.submit(model_check, chk, chk.scratch, "Spinner", SPIN_CFG % i, 2, 800, (), True, "Spinner %s" % (i,)) for i in insts]
        exe = fb.result()
        t = 9 if QUICK else 200
        cmds = [["-t", str(t), "-n", "10000000", "-s", str(SEED * 10 + k), "-traces", "3000" if QUICK else "20000"] for k in range(3)]
        cmds += [["-scen", "100", "-t", str(t), "-n", "10000000", "-s", str(SEED * 10 + k), "-traces", "60" if QUICK else "400"] for k in range(2)]
        cmds += [["-dfs", "-scen", str(k), "-bound", "2" if QUICK else "4", "-t", str(7 if QUICK else 150), "-traces", "2000"] for k in range(12)]
        sched_runs(chk, exe, cmds, t * 4 + 100, *TRACE_CFG["lockdrv"], "lockdrv")
        for f in fm:
            f.result()


CONC_CFG = '''SPECIFICATION Spec
CONSTANTS
 Chunks = %d
 Script <- %s
 MaxRefusals = %d
 MaxCtx = 5
INVARIANTS Pinned Bijective Released Bounded
PROPERTIES Refines
'''


def run_B05(chk):
    with ThreadPoolExecutor(3) as ex:
        fb = ex.submit(build_driver, "cvsched")
        insts = [(3, "TwoA", 2, 1), (3, "ThreeA", 1, 1)] + ([] if QUICK else [(3, "TwoB", 1, 1), (3, "ThreeB", 0, 1), (4, "ThreeC", 0, 0)])
        fm = [ex.submit(model_check, chk, chk.scratch, "MC_CVecConc", CONC_CFG % i[:3] + ("PROPERTY Terminates\n" if i[3] else ""), 2 if QUICK else 4, 900, (), True, "CVecConc/" + i[1]) for i in insts]
        exe = fb.result()
        for f in fm:
            f.result()
    t = 14 if QUICK else 400
    cmds = [["-t", str(t), "-n", "10000000", "-s", str(SEED * 10 + k), "-traces", "1500" if QUICK else "10000"] for k in range(5)]
    cmds += [["-dfs", "-scen", str(k), "-bound", "2" if QUICK else "3", "-t", str(9 if QUICK else 200), "-traces", "1000"] for k in range(6 if QUICK else 18)]
    sched_runs(chk, exe, cmds, t * 4 + 100, *TRACE_CFG["cvsched"], "cvsched")


PUBLICATION = """SPECIFICATION Spec
CONSTANTS
 Users = %d
 Evictors = %d
 Rounds = %d
 LoadAcq = %s
 StoreRel = %s
 PinAcq = %s
 UnpinRel = %s
 TakeAcq = %s
 GiveRel = %s
INVARIANTS NoRace Shape
"""
T6 = ("TRUE",) * 6
PUB_QUICK = [(2, 1, 2) + T6, (3, 1, 1) + T6]
PUB_MORE = [(2, 2, 2) + T6]


def run_A12(chk):
    """Ordering of the memory accesses: the drivers of the other schedules, with the record of their accesses."""
    drivers = ["pooldrv", "lockdrv", "apisched", "cvrace"]
    with ThreadPoolExecutor(4) as ex:
        fm = [ex.submit(model_check, chk, chk.scratch, "Publication", PUBLICATION % i, 2, 800, (), True, "Publication/%s" % (i,)) for i in (PUB_QUICK if QUICK else PUB_QUICK + PUB_MORE)]
        spec = [("pooldrv", "pooldrv.cpp", "sched", [], False), ("lockdrv", "lockdrv.cpp", "sched", [], False), ("apisched", "apisched.cpp", "sched", [], True), ("cvrace", "cvsched.cpp", "sched", [], True)]
        exes = build(spec)
        for f in fm:
            f.result()
    t, n = (12, "100") if QUICK else (200, "700")

    def args(k, *more):
        return ["-race", "-t", str(t), "-n", "10000000", "-s", str(SEED * 10 + k), "-traces", n] + list(more)
    cmds = {"pooldrv": [args(k) for k in range(4)] + [["-race", "-dfs", "-scen", str(k), "-bound", "2", "-t", str(t // 4), "-traces", n] for k in range(8)],
            "lockdrv": [args(k) for k in range(4)] + [["-race", "-dfs", "-scen", str(k), "-bound", "2", "-t", str(t // 4), "-traces", n] for k in range(12)],
            "apisched": [args(k) for k in range(4)] + [args(10 + k, "-fault") for k in range(4)],
            "cvrace": [args(k) for k in range(6)] + [["-race", "-dfs", "-scen", str(k), "-bound", "2", "-t", str(t // 4), "-traces", n] for k in range(6)]}
    for d in drivers:
        sched_runs(chk, exes[d], cmds[d], t * 4 + 100, *TRACE_CFG["races"], d)


def run(chk):
    globals()["run_" + chk.prop](chk)


def replay(chk, rep):
    exe = build_driver(rep["driver"])
    rc, out = run_procs([[exe] + rep["args"]], 600)[0]
    traces, viols, done = parse(out)
    for v in viols:
        print(*v)
    if rep.get("trace"):
        race = "-race" in rep["args"]
        bad = validate_traces(chk, chk.scratch, *TRACE_CFG["races" if race else rep["driver"]], [events(t.split(" | ")[0]) for n, t in traces])
        for i, p in bad:
            print(*(race_at(exe, traces[i][1], p) if race else ("refused at event", p, traces[i][1])))
        return 1 if bad else 0
    return 1 if viols else 0
