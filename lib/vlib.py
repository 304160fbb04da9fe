"""Shared machinery: building the driver from /repo, running scripts, validating traces with TLC, evidence and verdicts."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
OUT = os.environ.get("VERIF_OUT", os.path.join(VERIF, "out"))
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = int(os.environ.get("VERIF_CORES", "8"))

COMMON_DEFS = {"TECS_SPINLOCK_RETRY_YIELD": "0", "TECS_ENTITY_ALLOCATION_BATCH_SIZE": "2"}


class MachineryError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def _tree_hash(paths, extra):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def _sources():
    r = []
    for base in (os.path.join(REPO, "inc"), os.path.join(REPO, "src"), HARNESS):
        for d, _, fs in os.walk(base):
            r += [os.path.join(d, f) for f in fs]
    return r


def run(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace", **kw)


def compile_jobs(jobs):
    """jobs: list of command lists, run in parallel; raises with the output of the first that fails."""
    with ThreadPoolExecutor(CORES) as ex:
        for cmd, r in zip(jobs, ex.map(lambda c: run(c, 800), jobs)):
            if r.returncode:
                raise MachineryError("build failed: " + " ".join(cmd) + "\n" + r.stdout[-3000:])


def build_driver(name="std", std="c++20", defs=None, opt="-O0", cxx="g++", header_only=False, main="driver.cc", unset=(), tsan=False):
    d = dict(COMMON_DEFS)
    d.update(defs or {})
    for u in unset:
        d.pop(u, None)
    flags = [f"-std={std}", opt, "-w", f"-I{REPO}/inc", f"-I{HARNESS}"] + [f"-D{k}" + (f"={v}" if v != "" else "") for k, v in sorted(d.items())]
    if header_only:
        flags.append("-DTECS_HEADER_ONLY")
    if tsan:     # the compiler's instrumentation of memory accesses, with our own runtime
        flags += ["-fsanitize=thread", "-DVF_TSAN"]
    key = _tree_hash(_sources(), " ".join([cxx, main] + flags))
    out = os.path.join(BUILD, f"{name}-{key}")
    exe = os.path.join(out, "driver")
    if os.path.exists(exe):
        return exe
    tmp = out + f".tmp{os.getpid()}"
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    jobs, objs = [], []

    def add(src, obj, extra=()):
        o = os.path.join(tmp, obj)
        jobs.append([cxx] + flags + list(extra) + ["-c", src, "-o", o])
        objs.append(o)
    for p in (1, 0, 2, 4, 3, 5, 6, 7, 8, 9, 10):
        add(os.path.join(HARNESS, "lockinst.cc"), f"l{p}.o", [f"-DPART={p}"])
    add(os.path.join(HARNESS, main), "main.o")
    if tsan:
        add(os.path.join(HARNESS, "tsanrt.cc"), "tsanrt.o", ["-fno-sanitize=thread"])
    add(os.path.join(HARNESS, "vf.cc"), "vf.o", ["-fno-sanitize=thread"] if tsan else [])
    if not header_only:
        for f in sorted(os.listdir(os.path.join(REPO, "src"))):
            if f.endswith((".cc", ".cpp", ".cxx")):
                add(os.path.join(REPO, "src", f), f + ".o", ["-include", os.path.join(HARNESS, "vf.hh")])
    compile_jobs(jobs)
    r = run([cxx] + objs + ["-lpthread", "-o", os.path.join(tmp, "driver")])
    if r.returncode:
        raise MachineryError("link failed\n" + r.stdout[-3000:])
    shutil.rmtree(out, ignore_errors=True)
    for o in objs:
        os.unlink(o)
    os.rename(tmp, out)
    return exe


def run_driver(exe, script, trace, timeout=300):
    """Runs a script. Returns the counters; a crash, hang or deadlock shows in the trace itself."""
    try:
        r = run([exe, script, trace], timeout)
    except subprocess.TimeoutExpired:
        with open(trace, "a") as f:
            f.write('{"k":"hang"}\n')
        return {"runs": 0, "written": 0, "points": 0, "rc": 4}
    if r.returncode not in (0, 3, 4):
        raise MachineryError(f"driver exited with {r.returncode}: {r.stdout[-2000:]}")
    d = {"runs": 0, "written": 0, "points": 0}
    for line in r.stdout.splitlines():
        if line.startswith('{"runs"'):
            d = json.loads(line)
    d["rc"] = r.returncode
    return d


def split_traces(paths):
    """Yields the program segments (lists of lines) of the trace files."""
    for p in paths:
        seg = []
        with open(p, errors="replace") as f:
            for line in f:
                if line.startswith('{"k":"prog"') and seg:
                    yield seg
                    seg = []
                if line.strip():
                    if not line.endswith("}\n"):
                        line = line.rstrip("\n") + "\n"
                    seg.append(line)
        if seg:
            yield seg


def tlc(spec, cfg, env=None, workers=1, heap="2g", timeout=850, extra=(), simulate=False):
    md = tempfile.mkdtemp(prefix="tlc")
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", f"-Xmx{heap}", "-Xss16m", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-XX:TieredStopAtLevel=4",
           f"-Djava.io.tmpdir={md}", "-cp", JAR, "tlc2.TLC",
           "-workers", str(workers), "-metadir", md, "-noGenerateSpecTE", "-config", cfg] + list(extra) + [spec]
    try:
        r = run(cmd, timeout, env=e, cwd=SPEC)
    finally:
        shutil.rmtree(md, ignore_errors=True)
    return r


STATES = re.compile(r"([\d,]+) states generated, ([\d,]+) distinct states found")


def parse_states(out):
    m = None
    for m in STATES.finditer(out):
        pass
    return (int(m.group(1).replace(",", "")), int(m.group(2).replace(",", ""))) if m else (0, 0)


class Stats:
    def __init__(self):
        self.states = 0
        self.distinct = 0
        self.events = 0
        self.segments = 0


def validate_chunk(spec, cfg, segs, stats, env=None):
    """TLC decides whether the concatenated segments are behaviours of the spec. Returns index of the first rejected
    (segment, line in segment) or None."""
    fd, path = tempfile.mkstemp(suffix=".ndjson")
    lines = [x for s in segs for x in s]
    with os.fdopen(fd, "w") as f:
        f.writelines(lines)
    e = {"TRACE": path}
    e.update(env or {})
    try:
        r = tlc(spec, cfg, e)
    finally:
        os.unlink(path)
    a, b = parse_states(r.stdout)
    stats.states += a
    stats.distinct += b
    m = re.search(r'<<"REACHED", (\d+), (\d+)>>', r.stdout)
    if not m:
        # an evaluation error or invariant violation of the specification itself
        err = "\n".join(x for x in r.stdout.splitlines() if not re.match(r"(Parsing|Semantic|Linting)", x))
        raise MachineryError(f"TLC gave no verdict on {spec}:\n" + err[:6000])
    reached, n = int(m.group(1)), int(m.group(2))
    if reached == n + 1:
        return None
    at = reached - 1
    for i, s in enumerate(segs):
        if at < len(s):
            return i, at
        at -= len(s)
    raise MachineryError("cannot locate the rejected line")


def validate(spec, cfg, segs, stats, max_rejects=3, env=None, procs=None):
    """Validates all segments; returns the rejected ones as (segment, line index)."""
    segs = list(segs)
    stats.segments += len(segs)
    stats.events += sum(len(s) for s in segs)
    if not segs:
        return []
    procs = procs or CORES
    # balance by length
    bins = [[] for _ in range(min(procs, len(segs)))]
    load = [0] * len(bins)
    for s in sorted(segs, key=len, reverse=True):
        i = load.index(min(load))
        bins[i].append(s)
        load[i] += len(s)

    def work(chunk):
        bad = []
        while chunk and len(bad) < max_rejects:
            r = validate_chunk(spec, cfg, chunk, stats, env)
            if r is None:
                break
            i, at = r
            # confirm on the segment alone
            r2 = validate_chunk(spec, cfg, [chunk[i]], stats, env)
            if r2 is None:
                raise MachineryError("a trace is rejected only in the context of others: " + chunk[i][0])
            bad.append((chunk[i], r2[1]))
            chunk = chunk[i + 1:]
        return bad
    with ThreadPoolExecutor(len(bins)) as ex:
        res = list(ex.map(work, bins))
    return [b for r in res for b in r]


# ------------------------------------------------------------------------------------------------ verdicts
def known_findings(prop):
    r = []
    with open(os.path.join(VERIF, "known", "findings.txt")) as f:
        for line in f:
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                r.append((m.group(2), m.group(3).strip()))
    return r


class Check:
    """One run of one property's check."""

    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.t0 = time.time()
        self.stats = Stats()
        self.runs = self.written = self.points = 0
        self.model = []        # model checking runs: dict
        self.samples = []
        self.violations = []
        self.hits = {}
        self.notes = []
        self.extra = {}
        self.dir = os.path.join(OUT, prop)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)

    def quick(self):
        return self.tier == "quick"

    def path(self, name):
        return os.path.join(self.dir, name)

    def left(self):
        return (60 if self.quick() else 800) - (time.time() - self.t0)

    def violation(self, what, detail, name=None):
        name = name or f"violation-{len(self.violations) + 1}.txt"
        p = self.path(name)
        with open(p, "w") as f:
            f.write(what + "\n\n" + detail + "\n")
        self.violations.append((what, p))

    def known(self, key, what=None):
        """True if `key` is a listed finding of this property."""
        for k, text in known_findings(self.prop):
            if k == key:
                self.hits.setdefault(k, what or text)
                return True
        return False

    def drive(self, exe, script_text, name, timeout=300):
        sp, tp = self.path(name + ".script"), self.path(name + ".ndjson")
        with open(sp, "w") as f:
            f.write(script_text)
        d = run_driver(exe, sp, tp, timeout)
        self.runs += d["runs"]
        self.written += d["written"]
        self.points += d["points"]
        return tp

    def drive_many(self, exe, scripts, timeout=300):
        """scripts: name -> text; run in parallel."""
        with ThreadPoolExecutor(CORES) as ex:
            return list(ex.map(lambda kv: self.drive(exe, kv[1], kv[0], timeout), scripts.items()))

    def check_traces(self, paths, spec="TraceTecs.tla", cfg="TraceTecs.cfg", scripts=None, classify=None, env=None, label=""):
        segs = list(split_traces(paths))
        self.sample(segs)
        bad = validate(spec, cfg, segs, self.stats, env=env)
        for seg, at in bad:
            key = classify(seg, at) if classify else None
            if key and self.known(key):
                continue
            what = f"{label}{spec} rejects the recorded execution at event {at + 1}: {seg[at].strip()[:400] if at < len(seg) else '(end)'}"
            txt = "program: " + seg[0] + "\n" + "".join(("--> " if i == at else "    ") + x for i, x in enumerate(seg))
            if scripts:
                m = re.match(r'\{"k":"prog","p":"([^"#]*)', seg[0])
                if m and m.group(1) in scripts:
                    txt += "\n\nscript:\n" + scripts[m.group(1)]
            self.violation(what, txt)
        return not bad

    def sample(self, segs, n=2):
        for s in segs[:: max(1, len(segs) // n)][:n]:
            if len(self.samples) < 6:
                self.samples.append(" ".join(x.strip() for x in s[:12])[:900])

    def model_check(self, spec, cfg, expect_ok=True, workers=None, timeout=800, heap="8g", extra=(), what=""):
        r = tlc(spec, cfg, workers=workers or CORES, heap=heap, timeout=timeout, extra=extra)
        a, b = parse_states(r.stdout)
        ok = "Model checking completed. No error has been found" in r.stdout or ("-simulate" in extra and r.returncode == 0)
        self.model.append({"spec": spec, "cfg": cfg, "generated": a, "distinct": b, "ok": ok, "what": what})
        if expect_ok and not ok:
            err = "\n".join(x for x in r.stdout.splitlines() if not re.match(r"(Parsing|Semantic|Linting)", x))
            raise MachineryError(f"model {spec} with {cfg} does not satisfy its properties:\n" + err[:6000])
        return r

    def finish(self):
        st, mc = self.stats, self.model
        cov = {
            "states": st.distinct + sum(m["distinct"] for m in mc),
            "transitions": st.states + sum(m["generated"] for m in mc),
            "traces_validated_against_impl": st.segments,
            "trace_events": st.events,
            "executions_of_the_real_code": self.runs,
            "distinct_executions": self.written,
            "scheduling_points": self.points,
            "model_checking_runs": mc,
            "samples": self.samples or ["(no trace)"],
        }
        cov.update(self.extra)
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": cov,
            "assumptions": self.notes, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations),
        }
        evdir = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
        os.makedirs(evdir, exist_ok=True)
        with open(os.path.join(evdir, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        for k, what in sorted(self.hits.items()):
            print(f"KNOWN-FINDING: property={self.prop} {what}")
        if self.violations:
            for what, p in self.violations[:5]:
                print("  " + what[:600])
            for what, p in self.violations[:5]:
                print(f"VIOLATION property={self.prop} replay={p}")
            return 1
        print(f"OK property={self.prop} tier={self.tier} runs={self.runs} traces={self.stats.segments} events={self.stats.events} "
              f"states={self.stats.states + sum(m['generated'] for m in self.model)} time={time.time() - self.t0:.1f}s")
        return 0
