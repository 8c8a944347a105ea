"""Infrastructure of the checks: builds from /repo's working tree, TLC runs, violation reports, evidence."""
import os, sys, re, json, time, glob, hashlib, shutil, subprocess, tempfile, threading, random
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("STENOS_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
BUILD = os.environ.get("STENOS_BUILD") or os.path.join(VERIF, "build")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
QUICK = TIER != "thorough"
NCPU = min(8, os.cpu_count() or 1)
TLCJARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

VARIANTS = {
    # library and drivers compiled together with these flags
    "native": ["-O2", "-march=native"],
    "v2": ["-O2", "-march=x86-64-v2"],
    "v1": ["-O2", "-march=x86-64"],
    "asan": ["-O1", "-march=native", "-fsanitize=address,undefined", "-fno-sanitize=alignment", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"],
    "asanv2": ["-O1", "-march=x86-64-v2", "-fsanitize=address,undefined", "-fno-sanitize=alignment", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"],
    "cov": ["-O1", "-march=native", "--coverage"],
    # under the deterministic scheduler: everything instrumented / only the driver instrumented
    "sched": ["-O1", "-march=native", "-fsanitize=thread", "--param", "tsan-distinguish-volatile=1", "--param", "tsan-instrument-func-entry-exit=0"],
    "hook": ["-O2", "-march=native"],
}
LINK = {"sched": ["-rdynamic"] + ["-Wl,--wrap=" + f for f in ("memcpy", "memmove", "memset", "memcmp", "ZSTD_compressCCtx", "ZSTD_decompress")]}                                       # default: the compile flags
EXTRA_OBJS = {"sched": ["dsched.cpp", "allochook.cpp"], "hook": ["allochook.cpp"]}  # compiled without instrumentation
BASE = ["-g1", "-w", "-DNDEBUG", "-std=gnu++14", "-DSTENOS_STATIC", "-DSTENOS_BUILD_STATIC_LIBRARY"]


class CheckError(Exception):
    """An error of the check itself (not a verdict)."""


class BuildError(Exception):
    pass


def log(*a):
    print(time.strftime("[%H:%M:%S]"), *a, file=sys.stderr, flush=True)


def _sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


_hash_cache = {}


def tree_hash():
    """Hash of everything the drivers are compiled from."""
    if "h" in _hash_cache:
        return _hash_cache["h"]
    h = hashlib.sha256()
    files = sorted(glob.glob(REPO + "/stenos/**/*", recursive=True)) + sorted(glob.glob(HARN + "/*"))
    for f in files:
        if os.path.isfile(f):
            h.update(f.encode())
            h.update(open(f, "rb").read())
    h.update(repr((VARIANTS, BASE, LINK, EXTRA_OBJS, QUICK)).encode())
    _hash_cache["h"] = h.hexdigest()[:16]
    return _hash_cache["h"]


def bdir():
    d = os.path.join(BUILD, tree_hash())
    if not os.path.isdir(d):
        os.makedirs(d, exist_ok=True)
        # keep at most three builds
        olds = sorted([x for x in glob.glob(BUILD + "/*") if os.path.isdir(x) and x != d], key=os.path.getmtime)
        for o in olds[:-2]:
            shutil.rmtree(o, ignore_errors=True)
        inc = os.path.join(d, "inc")
        os.makedirs(inc, exist_ok=True)
        with open(inc + "/stenos_config.h", "w") as f:
            f.write('#ifndef STENOS_CONFIG_HPP\n#define STENOS_CONFIG_HPP\n#define STENOS_VERSION_MAJOR 0\n#define STENOS_VERSION_MINOR 2\n#define STENOS_VERSION "0.2"\n#endif\n')
    return d


def includes():
    return ["-I" + REPO, "-I" + bdir() + "/inc", "-I" + HARN]


def compile_all(jobs):
    """jobs: list of (command, output).  Runs those whose output is missing, in parallel."""
    todo = [(c, o) for c, o in jobs if not os.path.exists(o)]

    def one(j):
        c, o = j
        tmp = o + ".tmp%d" % os.getpid()
        r = _sh([x if x != "@OUT@" else tmp for x in c])
        if r.returncode:
            raise BuildError(" ".join(c) + "\n" + r.stdout[-4000:])
        os.rename(tmp, o)
    with ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(one, todo))


def lib_sources():
    return sorted(glob.glob(REPO + "/stenos/internal/*.cpp"))


def build(specs, cxx="g++"):
    """specs: list of (name, driver source, variant, extra compile flags, needs library[, library variant]).
    Returns {name: executable}."""
    d = bdir()
    jobs, links, libs = [], [], {}
    seen = set()
    for sp in specs:
        name, src, variant, extra, lib = sp[:5]
        flags = VARIANTS[variant]
        objs = []
        lv = sp[5] if len(sp) > 5 else variant
        if lib and lv not in libs:
            libs[lv] = []
            for s in lib_sources():
                o = "%s/%s.%s.o" % (d, os.path.basename(s)[:-4], lv)
                jobs.append(([cxx] + VARIANTS[lv] + BASE + includes() + ["-c", s, "-o", "@OUT@"], o))
                libs[lv].append(o)
        for s in EXTRA_OBJS.get(variant, []):
            o = "%s/%s.x.o" % (d, s[:-4])
            if o not in seen:
                seen.add(o)
                jobs.append(([cxx, "-O2", "-g1", "-w", "-std=gnu++17", "-fno-threadsafe-statics", "-I" + HARN, "-c", os.path.join(HARN, s), "-o", "@OUT@"], o))
            objs.append(o)
        o = "%s/%s.%s.drv.o" % (d, name, variant)
        if o not in seen:
            seen.add(o)
            jobs.append(([cxx] + flags + BASE + includes() + list(extra) + ["-c", os.path.join(HARN, src), "-o", "@OUT@"], o))
        exe = "%s/%s.%s" % (d, name, variant)
        links.append((name, exe, variant, [o] + objs, lv if lib else None))
    jobs.sort(key=lambda j: 0 if "asan" in j[1] or "drv" in j[1] else 1)
    compile_all(jobs)
    lj = []
    for name, exe, variant, o, lv in links:
        lj.append(([cxx] + LINK.get(variant, VARIANTS[variant]) + o + libs.get(lv, []) + ["-o", "@OUT@", "-lzstd", "-lpthread", "-ldl"], exe))
    compile_all(lj)
    return {name: exe for name, exe, *_ in links}


# ----------------------------------------------------------------------------- TLC

class Scratch:
    def __init__(self):
        self.d = tempfile.mkdtemp(prefix="stenosv.")

    def sub(self, n):
        p = os.path.join(self.d, n)
        os.makedirs(p, exist_ok=True)
        return p

    def file(self, n, text=None):
        p = os.path.join(self.d, n)
        if text is not None:
            open(p, "w").write(text)
        return p

    def clean(self):
        shutil.rmtree(self.d, ignore_errors=True)


def tlc(scratch, module, cfg_text, args=(), workers=1, timeout=300, heap="3g", files=(), jvm=()):
    """Runs TLC on /verif/spec/<module>.tla (copied to a scratch directory) with the given configuration.
    Returns (exit code, output)."""
    run = tempfile.mkdtemp(prefix="tlc.", dir=scratch.d)
    for f in glob.glob(SPEC + "/*.tla"):
        shutil.copy(f, run)
    for f in files:
        shutil.copy(f, run)
    open(run + "/" + module + ".cfg", "w").write(cfg_text)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss16m"] + list(jvm) + ["-Djava.io.tmpdir=" + run, "-cp", TLCJARS, "tlc2.TLC",
           "-workers", str(workers), "-metadir", run + "/md", "-noGenerateSpecTE", "-config", module + ".cfg"] + list(args) + [module + ".tla"]
    try:
        p = subprocess.run(cmd, cwd=run, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
        rc, out = p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        out = e.stdout or b""
        out = out.decode(errors="replace") if isinstance(out, bytes) else out
        rc = 124
    shutil.rmtree(run, ignore_errors=True)
    return rc, out


def tlc_stats(out):
    """(transitions generated, distinct states) of a TLC run."""
    m = re.search(r"^([\d,]{1,20}) states generated, ([\d,]{1,20}) distinct states found", out, re.M)
    if m:
        return int(m.group(1).replace(",", "")), int(m.group(2).replace(",", ""))
    m = re.search(r"^The number of states generated: ([\d,]+)", out, re.M)
    if m:
        n = int(m.group(1).replace(",", ""))
        return n, n
    return 0, 0


def tlc_generate(scratch, module, cfg_text, depth, seed, timeout=200):
    """One random behaviour of the generator module; returns the printed JSON records."""
    rc, out = tlc(scratch, module, cfg_text, ["-simulate", "num=1", "-depth", str(depth), "-seed", str(seed)], timeout=timeout)
    recs = []
    for line in out.splitlines():
        if line.startswith('"@@'):
            recs.append(json.loads(json.loads(line)[2:]))
    if rc != 0 or not recs:
        raise CheckError("generation with %s failed (rc %s)\n%s" % (module, rc, "\n".join(l for l in out.splitlines() if "@@" not in l)[-3000:]))
    return recs, tlc_stats(out)


def model_check(chk, scratch, module, cfg_text, workers=2, timeout=600, args=(), expect_ok=True, label=None):
    """Exhaustive check of a design model.  A failure of the model is an error of the check."""
    rc, out = tlc(scratch, module, cfg_text, args, workers=workers, timeout=timeout, heap="4g")
    gen, dist = tlc_stats(out)
    if rc != 0:
        raise CheckError("model checking %s failed (rc %s)\n%s" % (label or module, rc, out[-5000:]))
    chk.add(states=dist, transitions=gen)
    chk.note("design model %s: %d states, %d transitions, no error" % (label or module, dist, gen))
    return gen, dist


def validate_traces(chk, scratch, module, cfg_text, traces, timeout=400, shards=4, heap="3g"):
    """Checks recorded executions (lists of events) with the trace specification `module`.
    Returns [(index of the trace, number of the first event the specification refuses)]."""
    bad = []
    n = len(traces)
    if not n:
        return bad
    shards = max(1, min(shards, (n + 199) // 200))
    parts = [list(range(k, n, shards)) for k in range(shards)]

    def one(k):
        idx, res = parts[k], []
        while idx:
            d = scratch.sub("tv%d" % k)
            fn = os.path.join(d, "traces.json")
            json.dump([traces[i] for i in idx], open(fn, "w"))
            rc, out = tlc(scratch, module, cfg_text, timeout=timeout, heap=heap, files=[fn])
            gen, dist = tlc_stats(out)
            chk.add(states=dist, transitions=gen)
            if rc == 0:
                break
            # the state that has no successor: its trace and position
            mt = re.findall(r"^(?:/\\ )?(?:tr|trace) (?:=|\|->) (\d+)", out, re.M)
            mi = re.findall(r"^(?:/\\ )?i = (\d+)", out, re.M)
            if rc not in (11, 12, 13) or not mt or not mi:
                raise CheckError("trace validation with %s failed (rc %s)\n%s" % (module, rc, out[-4000:]))
            t, p = int(mt[-1]), int(mi[-1])
            res.append((idx[t - 1], p))
            if len(res) >= 3:
                break
            idx = idx[:t - 1] + idx[t:]
        return res
    with ThreadPoolExecutor(shards) as ex:
        for r in ex.map(one, range(shards)):
            bad += r
    chk.add(traces_validated_against_impl=n)
    return bad


# ----------------------------------------------------------------------------- checks

class Check:
    def __init__(self, prop):
        self.prop = prop
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.extra = {}
        self.notes = []
        self.viols = []
        self.known = []
        self.assumptions = []
        self.lock = threading.Lock()
        self.scratch = Scratch()
        self.rng = random.Random(SEED * 1000003 + sum(map(ord, prop)))

    def add(self, **kw):
        with self.lock:
            for k, v in kw.items():
                if k in self.cov:
                    self.cov[k] += v
                else:
                    self.extra[k] = self.extra.get(k, 0) + v

    def sample(self, s):
        with self.lock:
            if len(self.cov["samples"]) < 8:
                self.cov["samples"].append(s)

    def note(self, s):
        with self.lock:
            self.notes.append(s)
        log(self.prop, s)

    def violation(self, message, replay):
        """replay: a JSON-serialisable description from which `tools/check ID --replay FILE` reproduces."""
        with self.lock:
            for k in known_findings():
                if k[0] == self.prop and k[1] in message:
                    if message not in self.known:
                        self.known.append(k[1])
                    return
            os.makedirs(VERIF + "/replays", exist_ok=True)
            name = "%s/replays/%s-%d-%d.json" % (VERIF, self.prop, SEED, len(self.viols))
            replay = dict(replay)
            replay.update(property=self.prop, message=message)
            json.dump(replay, open(name, "w"), indent=1)
            self.viols.append((message, name))
            log(self.prop, "VIOLATION:", message)

    def finish(self):
        cov = dict(self.cov)
        cov.update(self.extra)
        cov["notes"] = self.notes
        ev = {"property": self.prop, "tier": "quick" if QUICK else "thorough", "seed": SEED, "level": "model_checking",
              "coverage": cov, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.viols)}
        if self.assumptions:
            ev["assumptions"] = self.assumptions
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        json.dump(ev, open("%s/evidence/%s.json" % (VERIF, self.prop), "w"), indent=1)
        self.scratch.clean()
        for k in sorted(set(self.known)):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        for m, p in self.viols[:5]:
            print("  " + m)
            print("VIOLATION property=%s replay=%s" % (self.prop, os.path.relpath(p, VERIF)))
        if not self.viols:
            print("OK property=%s traces=%d states=%d wall=%.0fs" % (self.prop, cov["traces_validated_against_impl"], cov["states"], ev["wall_s"]))
        sys.stdout.flush()
        return 1 if self.viols else 0


def known_findings():
    """Lines 'known: property=<id> <identifying text>' of known-findings.txt."""
    r = []
    try:
        for l in open(VERIF + "/known-findings.txt"):
            m = re.match(r"known: property=(\S+) (.*)", l.strip())
            if m:
                r.append((m.group(1), m.group(2)))
    except OSError:
        pass
    return r


SKIPPED = -99   # not run to its end because another one found a violation


def run_procs(cmds, timeout, env=None, ncpu=None, stop=None):
    """Runs commands in parallel; returns [(rc, output)] in order.  rc 124: timeout.
    stop(rc, output): tells that a violation was found, the processes that remain can be left out."""
    e = dict(os.environ)
    e.setdefault("ASAN_OPTIONS", "detect_leaks=0:abort_on_error=0:exitcode=97:allocator_may_return_null=1:detect_stack_use_after_return=0:max_allocation_size_mb=4000")
    e.setdefault("UBSAN_OPTIONS", "print_stacktrace=1:halt_on_error=1:exitcode=97")
    if env:
        e.update(env)

    found = threading.Event()   # a violation was reported: the other processes get some more seconds only

    def one(c):
        if found.is_set():
            return SKIPPED, ""
        with tempfile.TemporaryFile() as f:
            p = subprocess.Popen(c, stdout=f, stderr=subprocess.STDOUT, env=e, stdin=subprocess.DEVNULL)
            t0, t1, rc = time.time(), None, None
            while rc is None:
                try:
                    rc = p.wait(0.5)
                except subprocess.TimeoutExpired:
                    now = time.time()
                    if t1 is None and found.is_set():
                        t1 = now
                    if now - t0 > timeout or (t1 and now - t1 > 25):
                        p.kill()
                        p.wait()
                        rc = 124 if now - t0 > timeout else SKIPPED
            f.seek(0)
            out = f.read().decode(errors="replace")
        if stop is not None and rc != SKIPPED and stop(rc, out):
            found.set()
        return rc, out
    with ThreadPoolExecutor(ncpu or NCPU) as ex:
        return list(ex.map(one, cmds))


def driver_failed(chk, name, rc, out, replay):
    """A driver ended without a verdict of its own.  The drivers come to their end with every library that keeps
    the properties: a signal, a sanitizer report or no end at all is the library's doing, which breaks every property."""
    if rc == SKIPPED:
        return
    if rc in (-9, 137, 1, 2, 3):    # killed for memory, or an error of the driver itself
        raise CheckError("driver %s failed (rc %s): %s" % (name, rc, out[-2000:]))
    why = "does not end" if rc == 124 else "ends with code %s %s" % (rc, sanitizer_summary(out) or out[-300:].replace("\n", " "))
    chk.violation("[%s] driver %s" % (name, why), replay)


def sanitizer_summary(out):
    m = re.search(r"^SUMMARY: (.*)$", out, re.M)
    if m:
        return m.group(1)[:300]
    m = re.search(r"^.*runtime error: (.*)$", out, re.M)
    return m.group(0)[:300] if m else ""
