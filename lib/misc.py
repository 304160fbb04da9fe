"""Checks of the properties outside transactions: C23-C27."""
import json, os, random, re, subprocess, shutil
from concurrent.futures import ThreadPoolExecutor
import vlib, tecs


def build_small(main, name, std="c++20", defs=None, opt="-O1", cxx="g++", lib=True, flags=()):
    """Compiles one driver of /verif/harness against /repo."""
    d = dict(defs or {})
    fl = [f"-std={std}", opt, "-w", f"-I{vlib.REPO}/inc", f"-I{vlib.HARNESS}"] + [f"-D{k}" + (f"={v}" if v != "" else "") for k, v in sorted(d.items())] + list(flags)
    key = vlib._tree_hash(vlib._sources(), " ".join([cxx, main] + fl))
    out = os.path.join(vlib.BUILD, f"{name}-{key}")
    exe = os.path.join(out, "driver")
    if os.path.exists(exe):
        return exe
    os.makedirs(out, exist_ok=True)
    src = [os.path.join(vlib.HARNESS, main)]
    if lib:
        s = os.path.join(vlib.REPO, "src")
        src += [os.path.join(s, f) for f in sorted(os.listdir(s)) if f.endswith((".cc", ".cpp", ".cxx"))]
    tmp = exe + f".tmp{os.getpid()}"
    vlib.compile_jobs([[cxx] + fl + src + ["-lpthread", "-o", tmp]])
    os.rename(tmp, exe)
    return exe


def run_small(c, exe, script, name, timeout=300):
    sp, tp = c.path(name + ".script"), c.path(name + ".ndjson")
    with open(sp, "w") as f:
        f.write(script)
    try:
        r = vlib.run([exe, sp, tp], timeout)
        bad = r.returncode != 0
        what = f"exit {r.returncode}: {r.stdout[-300:]}"
    except subprocess.TimeoutExpired:
        bad, what = True, "timeout"
    if bad:     # a crash of the code under test is a step that no specification allows
        lines = []
        if os.path.exists(tp):
            with open(tp, errors="replace") as f:
                lines = [x for x in f if x.startswith("{") and x.endswith("}\n")]
        with open(tp, "w") as f:
            f.writelines(lines or ['{"k":"prog","p":"start"}\n'])
            f.write(json.dumps({"k": "crash", "what": what}) + "\n")
    c.runs += script.count("prog ")
    return tp


def run_small_many(c, exe, scripts):
    with ThreadPoolExecutor(vlib.CORES) as ex:
        return list(ex.map(lambda kv: run_small(c, exe, kv[1], kv[0]), scripts.items()))


def marked(out, tag):
    """The JSON values that a TLC run printed after this word."""
    r = []
    for line in out.splitlines():
        if line.startswith('"' + tag + " "):
            r.append(json.loads(json.loads(line)[len(tag) + 1:]))
    return sorted(r, key=lambda x: json.dumps(x, sort_keys=True))


# --------------------------------------------------------------------------------------------------------- C23: views
def view_prog(name, n, lines):
    out = [f"prog {name} {n}"]
    for x in lines:
        w = x.split()
        out += [x, f"probe {w[2] if w[0] in ('sub', 'copy') else w[1]}"]
    return "\n".join(out) + "\nend\n"


def view_random(c, n, valid):
    out = []
    for i in range(n):
        rng = random.Random(f"{c.prop}.{c.seed}.{valid}.{i}")
        ln = rng.choice([0, 1, 2, 3, 7, 30, 100, 257])
        L, size = ["full V0"], {"V0": ln}
        if rng.random() < .3:
            a = rng.randint(0, ln)
            b = rng.randint(a, ln)
            L.append(f"ctor V1 {a} {b}")
            size["V1"] = b - a
        if rng.random() < .2:
            L.append("def D")
        for k in range(2, rng.randint(4, 9)):
            f = rng.choice(list(size))
            s = size[f]
            off = rng.choice([0, s, rng.randint(0, s), rng.randint(0, s)] + ([] if valid else [s + 1, "max", s + rng.randint(1, 9)]))
            cnt = rng.choice(["def", "max", 0, 1, rng.randint(0, s + 2), rng.randint(0, s + 2), "half", "max-1"])
            if rng.random() < .15:
                L.append(f"copy {f} V{k}")
                size[f"V{k}"] = s
                continue
            L.append(f"sub {f} V{k} {off} {cnt}")
            if off != "max" and off <= s:
                size[f"V{k}"] = s - off if isinstance(cnt, str) else min(cnt, s - off)
        out.append(view_prog(f"{'v' if valid else 'r'}{i}", ln, L))
    return out


def C23(c):
    q = c.quick()
    with ThreadPoolExecutor(4) as ex:
        b = ex.submit(build_small, "viewdrv.cc", "view")
        u = ex.submit(build_small, "viewdrv.cc", "viewu", "c++17", {"TECS_UNCHECKED_MODE": ""}, "-O2", "clang++")
        m = ex.submit(c.model_check, "MCView.tla", "MCView.cfg", workers=1, what="consequences of the definition; every chain of two subviews of lists of up to 4")
        m3 = ex.submit(c.model_check, "MCView.tla", "MCView3.cfg", what="the same for 3 subviews, lists of up to 5") if not q else None
        exe, exu, r = b.result(), u.result(), m.result()
        if m3:
            m3.result()
    gen = marked(r.stdout, "VPROG")
    c.extra["programs_from_the_model"] = len(gen)
    progs = [view_prog(f"g{i}", p["n"], p["p"]) for i, p in enumerate(gen)] + view_random(c, 300 if q else 5000, False)
    valid = [view_prog(f"u{i}", p["n"], p["p"]) for i, p in enumerate(gen) if p["ok"]] + view_random(c, 150 if q else 2500, True)
    c.extra["programs"] = len(progs) + len(valid)
    for k, (e, ps) in enumerate(((exe, progs), (exu, valid))):
        paths = run_small_many(c, e, {f"{k}{a}": b for a, b in tecs.shard(ps, 8).items()})
        c.check_traces(paths, spec="TraceView.tla", cfg="TraceView.cfg", scripts=tecs.named(ps, ""))


# ----------------------------------------------------------------------------------------------------------- C26: ids
ID_CONFIGS = {"441": dict(), "442": dict(TECS_ENTITY_ECS_IDENTIFIER_TYPE="uint16_t"),
              "221": dict(TECS_ENTITY_INDEX_TYPE="uint16_t", TECS_ENTITY_GENERATION_TYPE="uint16_t")}


def C26(c):
    q = c.quick()
    hx = lambda w: "".join("%02x" % b for b in w)

    def one(cfg):
        defs = ID_CONFIGS[cfg]
        ib, gb, eb = map(int, cfg)
        with ThreadPoolExecutor(3) as ex:
            bs = [ex.submit(build_small, "iddrv.cc", "id" + cfg + "a", "c++20", defs, "-O2", "g++"),
                  ex.submit(build_small, "iddrv.cc", "id" + cfg + "b", "c++17", defs, "-O0", "clang++")]
            m = ex.submit(c.model_check, "MCId.tla", f"MCId{cfg}.cfg", workers=1, what="conversions are inverse, the order is total, over chosen words")
            exes, r = [b.result() for b in bs], m.result()
        rng = random.Random(f"{c.prop}.{c.seed}.{cfg}")
        cases = [(hx(x["i"]), hx(x["g"]), hx(x["e"])) for x in marked(r.stdout, "CASE")]
        n = 2500 if q else 100000
        if len(cases) > n:
            cases = rng.sample(cases, n)
        word = lambda k: rng.choice([lambda: rng.randrange(256 ** k), lambda: 1 << rng.randrange(8 * k), lambda: (1 << rng.randrange(8 * k)) - 1,
                                     lambda: 256 ** k - 1 - rng.randrange(4), lambda: rng.randrange(4)])()
        fmt = lambda v, k: "%0*x" % (2 * k, v)
        cases += [(fmt(word(ib), ib), fmt(word(gb), gb), fmt(word(eb), eb)) for _ in range(n)]
        ones = [f"one {a} {b} {e}" for a, b, e in cases]
        twos = []
        for _ in range(2 * n):
            a, b = word(ib), word(gb)
            near = lambda v, k: rng.choice([v, v, v ^ (1 << rng.randrange(8 * k)), (v + 1) % 256 ** k, (v - 1) % 256 ** k, word(k), v & ~(255 << (8 * (k - 1))), (v >> 8 | v << (8 * k - 8)) % 256 ** k])
            x, y = (near(a, ib), near(b, gb)) if rng.random() < .9 or ib != gb else (b, a)
            twos.append(f"two {fmt(a, ib)} {fmt(b, gb)} {fmt(x, ib)} {fmt(y, gb)}")
        lines = ones + twos
        rng.shuffle(lines)
        progs = ["prog c%s.%d\n" % (cfg, k) + "\n".join(lines[k::16]) + "\n" for k in range(16)]
        paths = []
        for j, exe in enumerate(exes):
            paths += run_small_many(c, exe, {f"{cfg}.{j}.{a}": b for a, b in tecs.shard(progs, 8).items()})
        c.extra["cases_" + cfg] = len(lines)
        return paths, tecs.named(progs, "")
    with ThreadPoolExecutor(3) as ex:
        rs = list(ex.map(one, ID_CONFIGS))
    for paths, names in rs:
        c.check_traces(paths, spec="TraceId.tla", cfg="TraceId.cfg", scripts=None)


# ------------------------------------------------------------------------------------------------ C24: performance traces
def perf_lines(rng, th, length, insts, par=False, short=False):
    """Commands of transactions with starts and stops of traces among them, some of them out of turn."""
    import conc
    L, st, k, on = [], {}, 0, set()

    def trace(t):
        i = rng.randrange(insts)
        right = "tstop" if i in on else "tstart"
        if rng.random() < .12:
            right = "tstart" if i in on else "tstop"
        elif right == "tstop":
            on.discard(i)
        else:
            on.add(i)
        who = " ".join(str(x) for x in range(1, th + 1) if rng.random() < .3)
        L.append(f"{t} {right} {i}" + (f" {who}" if right == "tstop" and who else ""))
    if par:     # one thread starts and stops the trace
        ct = rng.randint(1, th)
        for t in range(1, th + 1):
            for _ in range(rng.randint(1, 2 if short else 3)):
                if rng.random() < .6 and t == ct:
                    L.append(f"{t} {rng.choice(['tstart', 'tstop', 'tstop'])} 0")
                k += 1
                ty = conc.pick(rng, conc.WTYS)
                L.append(f"{t} start T{k} {ty}")
                if rng.random() < .5 and t == ct:
                    L.append(f"{t} {rng.choice(['tstart', 'tstop'])} 0")
                L += conc.wait_ops(rng, t, f"T{k}", ty, k, rng.randint(0, 2))
                if rng.random() < .3:
                    L.append(f"{t} pause")
                L.append(f"{t} drop T{k}")
            if rng.random() < .5 and t == ct:
                L.append(f"{t} {rng.choice(['tstart', 'tstop'])} 0")
        return L
    while len(L) < length:
        t = rng.randint(1, th)
        if rng.random() < .12:
            trace(t)
        elif t not in st:
            k += 1
            ty = conc.pick(rng, conc.WTYS)
            st[t] = (f"T{k}", ty, k)
            L.append(f"{t} start T{k} {ty}" + (f" {rng.randrange(insts)}" if insts > 1 else ""))
        else:
            l, ty, m = st[t]
            if rng.random() < .5:
                L += conc.wait_ops(rng, t, l, ty, m, 1)
            else:
                L.append(f"{t} drop {l}")
                del st[t]
    return L


def perf_programs(c, n, tag, par=False, insts=1, threads=(2, 4), strat="mix", runs=12, length=34, short=False):
    import conc
    out = []
    for i in range(n):
        rng = random.Random(f"{c.prop}.{c.seed}.{tag}.{i}")
        th = rng.randint(*threads)
        pro = list(conc.WPRO) + ([x.replace("P", "Q").replace("AR", "AR 1").replace("h1", "i1").replace("h2", "i2").replace("h4", "i4") for x in conc.WPRO] if insts > 1 else [])
        if rng.random() < .7:
            pro.insert(rng.choice([0, len(pro)]), "1 tstart 0")
        L = perf_lines(rng, th, length, insts, par, short)
        h = f"prog {tag}{i} threads={th} insts={insts} timed=1 q=1 runs={runs if par else 1} strat={strat if par else 'rand'} seed={rng.randint(1, 10**6)}"
        if par:
            out.append(h + "\nseq\n" + "\n".join(pro) + "\npar\n" + "\n".join(L) + "\nseq\n1 tstop 0 1\n1 tstop 0\nend\n")
        else:
            out.append(h + "\nseq\n" + "\n".join(pro + L) + "\n" + "\n".join(f"{rng.randint(1, th)} tstop {i}" for i in range(insts)) + "\nend\n")
    return out


PERF = {"TECS_ENABLE_PERFORMANCE_TRACING": "", "VF_CLOCK": ""}


def C24(c):
    q = c.quick()
    confs = [dict(name="perf", defs=dict(PERF, TECS_PERFORMANCE_TRACING_MAX_EVENTS="400")), dict(name="perf9", std="c++17", defs=dict(PERF, TECS_PERFORMANCE_TRACING_MAX_EVENTS="9", VF_ORDER2=""))]
    with ThreadPoolExecutor(2) as ex:
        exes = list(ex.map(lambda k: vlib.build_driver(**k), confs))
    progs = perf_programs(c, 90 if q else 2500, "s") + perf_programs(c, 25 if q else 500, "i", insts=2)
    progs += perf_programs(c, 60 if q else 1200, "p", par=True, runs=12 if q else 100)
    progs += perf_programs(c, 12 if q else 80, "y", par=True, threads=(2, 2), short=True, strat="sys:1:%d" % (90 if q else 3000))
    c.extra["programs"] = len(progs)
    for j, exe in enumerate(exes):
        mine = progs if j == 0 else [p for k, p in enumerate(progs) if k % 3 == 0]
        paths = c.drive_many(exe, {f"b{j}{k}": v for k, v in tecs.shard(mine, 16).items()})
        c.check_traces(paths, spec="TracePerf.tla", cfg="TracePerf.cfg", scripts=tecs.named(progs, ""))


# ---------------------------------------------------------------------------------------------- C25: build configurations
NOBATCH = ("TECS_SPINLOCK_RETRY_YIELD", "TECS_ENTITY_ALLOCATION_BATCH_SIZE")
TR, UN = {"TECS_ENABLE_PERFORMANCE_TRACING": ""}, {"TECS_UNCHECKED_MODE": ""}


def batch(n):
    return {"TECS_ENTITY_ALLOCATION_BATCH_SIZE": str(n)}


# what each configuration varies; all components, locks and programs are the same but for the wide one's
CONFIGS = {
    "unchecked17": dict(std="c++17", defs=dict(UN, VF_ORDER2=""), unset=NOBATCH),
    "header20": dict(cxx="clang++", header_only=True, defs=dict(TR, **batch(1))),
    "unheader17": dict(std="c++17", cxx="clang++", opt="-O2", header_only=True, defs=dict(UN, TECS_SPINLOCK_RETRY_YIELD="3", **batch(5))),
    "wide20": dict(cxx="clang++", defs=dict(VF_WIDE="", **batch(64))),
}
MORE_CONFIGS = {
    "traced17": dict(std="c++17", defs=dict(TR, VF_ORDER2="", **batch(7))),
    "unchecked20": dict(cxx="clang++", opt="-O2", defs={**UN, **TR, **batch(3)}, unset=NOBATCH[:1]),
    "header17": dict(std="c++17", header_only=True, defs=dict(batch(1000))),
    "unheader20": dict(opt="-O2", header_only=True, defs={**UN, **TR, "VF_ORDER2": ""}, unset=NOBATCH),
    "wideun17": dict(std="c++17", cxx="clang++", header_only=True, defs=dict(UN, VF_WIDE="", **batch(1))),
    "index16": dict(std="c++17", defs=dict(TECS_ENTITY_INDEX_TYPE="uint16_t", TECS_ENTITY_GENERATION_TYPE="uint16_t")),
    "id16": dict(defs=dict(UN, TECS_ENTITY_ECS_IDENTIFIER_TYPE="uint16_t")),
}
WIDE_TYPES = dict(AR=10, WA=4, wAB=4, wAGrC=3, rAll=2)


def only_valid(c, exe, progs):
    """The programs without the operations that the checked build rejects (which change nothing), and the traces of that run."""
    marked_ = [p.replace("\n", " mark=1\n", 1) for p in progs]
    paths = c.drive_many(exe, {f"ref{a}": b for a, b in tecs.shard(marked_, 16).items()})
    bad = {}
    for seg in vlib.split_traces(paths):
        at, name = 0, json.loads(seg[0])["p"].split("#")[0]
        for x in seg:
            if x.startswith('{"k":"at"'):
                at = json.loads(x)["n"]
            elif '"res":"throw"' in x or '"k":"sr"' in x and '"ok":0' in x or '"throw"' in x:
                bad.setdefault(name, set()).add(at)
        if '"k":"fin"' not in seg[-1]:
            bad[name] = None
    out = []
    for name, p in tecs.named(progs, "").items():
        b = bad.get(name, set())
        if b is None:
            continue
        L = p.split("\n")      # prog, seq, commands
        out.append("\n".join(x for i, x in enumerate(L) if i - 1 not in b))
    c.extra["operations_left_out_as_invalid"] = sum(len(b) for b in bad.values() if b)
    return out


def C25(c):
    import conc
    q = c.quick()
    confs = dict(CONFIGS) if q else dict(CONFIGS, **MORE_CONFIGS)
    with ThreadPoolExecutor(4) as ex:
        ref = ex.submit(vlib.build_driver)
        bs = {k: ex.submit(vlib.build_driver, name="cf" + k, **v) for k, v in sorted(confs.items(), key=lambda kv: "wide" not in kv[0])}
        ops = dict(list=3, view=3, via=2, full=5, fullp=3, watch=2, poll=2, polla=2, stopw=1, dyn=1, uc=0, txid=0, **{"try": 1})
        n = 130 if q else 1500
        mk = lambda tag, m, **kw: tecs.rand_programs(c, m, tag, ops=ops, bad=.03, threads=lambda r: r.choice([1, 1, 2, 3]), length=80, maxents=lambda r: r.choice([4, 8, 16, 40]), **kw)
        progs = mk("r", n) + tecs.chain_programs(c, 40 if q else 800) + tecs.dyn_programs(c, 30 if q else 300)
        wide = mk("w", n // 2, types=WIDE_TYPES, derived=tuple(WIDE_TYPES)) + tecs.dyn_programs(c, 60 if q else 300, tuple(WIDE_TYPES))
        valid = only_valid(c, ref.result(), progs)
        c.extra["programs"] = len(valid)
        par = conc.wait_par(c, 24 if q else 200, "p", runs=8 if q else 40)
        parw = conc.wait_par(c, 16 if q else 100, "pw", runs=8 if q else 40, types=WIDE_TYPES)
        res = []
        for k, b in bs.items():
            try:
                exe = b.result()
            except vlib.MachineryError as e:    # the reference configuration was built
                c.violation(f"configuration {k} does not build", f"{confs[k]}\n{e}")
                continue
            ps, pp = (wide_valid(c, ref.result(), wide, k), parw) if "wide" in k else (valid, par)
            if "TECS_UNCHECKED_MODE" in confs[k].get("defs", {}):
                ps = [by_name(p) for p in ps]
            res.append((k, ps, c.drive_many(exe, {f"{k}{a}": s for a, s in tecs.shard(ps, 8).items()}), pp, c.drive_many(exe, {f"{k}p{a}": s for a, s in tecs.shard(pp, 8).items()})))
    names = {}
    for k, ps, _, pp, _ in res:
        names.update(tecs.named(ps + pp, ""))
    c.extra["configurations"] = {k: {a: str(b) for a, b in v.items()} for k, v in confs.items()}
    c.check_traces([p for r in res for p in r[2]], scripts=names, env=tecs.X("UC", "ID"))
    c.check_traces([p for r in res for p in r[4]], spec="TraceWait.tla", cfg="TraceWait.cfg", scripts=names, env={"NO_BARGE": "1"})


def by_name(p):
    """Without the operations on entities found by their place in a list or by arithmetic on a handle: which entity that is may
    depend on the configuration, and on another one the operation may be invalid."""
    return "\n".join(x for x in p.split("\n") if not re.search(r" (\S+\[\d+\]|h\d+\S*[-+~^]\S*)( |$)", x))


def wide_valid(c, exe, wide, k):
    if not hasattr(c, "wide_"):
        c.wide_ = only_valid(c, exe, wide)
    return c.wide_


# ------------------------------------------------------------------------------- large numbers (part of C01, C09, C11, C14, C17)
BULK_BUILDS = {"": dict(), "batch1": dict(TECS_ENTITY_ALLOCATION_BATCH_SIZE="1"), "index16": dict(TECS_ENTITY_INDEX_TYPE="uint16_t", TECS_ENTITY_GENERATION_TYPE="uint16_t")}


def bulk_random(c, tag, i, sizes, txs, cap=10**9):
    """Groups of entities through some transactions. Groups are split only in the transaction that creates them."""
    rng = random.Random(f"{c.prop}.{c.seed}.{tag}.{i}")
    L, gs, obs, total = [f"prog {tag}{i}"], [], [], 0
    def make():
        nonlocal total
        n = rng.choice(sizes)
        if total + n > cap:
            return
        total += n
        g = f"g{len(gs)}"
        gs.append(g)
        L.append(f"new {g} {n}")
        if rng.random() < .6:
            gs.append(f"g{len(gs)}")
            L.append(f"split {g} {gs[-1]} {rng.choice([2, 3, 7])}")
    def ops(k, kinds):
        for _ in range(k):
            g, o, x = rng.choice(gs), rng.choice(kinds), rng.choice("AB")
            L.append(f"destroy {g}" if o == "destroy" else f"unset {g} {x}" if o == "unset" else f"{o} {g} {x} {rng.randint(1, 9)}")
    def look(k):
        for _ in range(k):
            L.append(rng.choice([f"obs {rng.choice(gs)}", f"obs {rng.choice(gs)}", f"list {rng.choice('EAB')} {rng.choice(['cur', 'cur', 'prev'])}"] +
                                ([f"drain {rng.choice(obs)}"] if obs else [])))
    def watch():
        obs.append(f"o{len(obs)}")
        L.append(f"watch {obs[-1]} {rng.choice('EAB')}")
    L.append("begin AR")
    for _ in range(rng.randint(1, 3)):
        watch()
    make()
    if not gs:
        gs.append("g0")
        L.append("new g0 5")
    ops(3, ["set", "setref", "mod"])
    L.append("end")
    for k in range(txs):
        ty = rng.choice(["AR", "AR", "AR", "W", "R"])
        L.append(f"begin {ty}")
        if ty == "AR":
            if rng.random() < .3:
                make()
            if rng.random() < .2:
                watch()
            ops(rng.randint(1, 4), ["set", "setref", "mod", "unset", "unset", "destroy"] if rng.random() < .5 else ["set", "unset", "mod"])
        elif ty == "W":
            ops(rng.randint(1, 3), ["set", "setref", "mod"])
        look(rng.randint(1, 4))
        L.append(f"end {rng.choice([3, 300])}" if ty == "AR" and rng.random() < .2 else "end")
    L += ["begin R"] + [f"obs {g}" for g in gs] + [f"list {x} cur" for x in "EAB"] + [f"drain {o}" for o in obs] + ["end"]
    return "\n".join(L) + "\n"


BULK_SIZES = [1, 7, 255, 256, 257, 999, 1000, 1001, 1999, 3000, 20000, 66000]


def bulk_exhaust(c, i):
    """Runs out of 16 bit indexes; what exists is not disturbed, and destroyed entities can be replaced."""
    rng = random.Random(f"{c.prop}.{c.seed}.x{i}")
    a = rng.choice([40000, 60000, 64000])
    return "\n".join([f"prog x{i}", "begin AR", "watch o0 E", f"new g0 {a}", "set g0 A 3", f"split g0 g1 {rng.choice([2, 5])}", "end",
                      "begin AR", f"new g2 {70000 - a}", "obs g0", "obs g1", "obs g2", "new g3 10", "set g2 B 4", "obs g2", "list E cur", "list A cur", "end",
                      "begin R", "obs g0", "obs g1", "obs g2", "list E cur", "list A cur", "list B cur", "drain o0", "end",
                      "begin AR", "destroy g1", "end", "begin AR", "new g4 3000", "set g4 B 5", "obs g4", "obs g1", "end",
                      "begin R", "obs g0", "obs g1", "obs g2", "obs g4", "list E cur", "list B cur", "drain o0", "end"]) + "\n"


def bulk(c, kinds, n=16):
    """kinds: random, churn, exhaust, threads. Adds the check of these programs to the running check."""
    q = c.quick()
    used = {"": []}
    if "random" in kinds:
        used[""] += [bulk_random(c, "r", i, BULK_SIZES, 8 if q else 20) for i in range(n if q else 12 * n)]
    if "churn" in kinds:
        used[""] += ["prog c0\nchurn 3000\n", "prog c1\nchurn 70000 one\n"]
        used["batch1"] = [f"prog d{k}\nchurn {m}{o}\n" for k, (m, o) in enumerate([(70000, ""), (200000 if q else 4000000, " one")])]
        used["batch1"] += [bulk_random(c, "b", i, [1, 2, 300, 2000], 8) for i in range(n // 4)]
    if "exhaust" in kinds:
        used["index16"] = [bulk_exhaust(c, i) for i in range(3 if q else 20)] + [bulk_random(c, "i", i, BULK_SIZES, 8, 50000) for i in range(n // 4)]
    if "ids" in kinds:
        used["batch1"] = [f"prog e0\nchurn {70000 if q else 2000000} one\n"]
    if "readers" in kinds:
        used[""] += ["prog t0\nreaders 300\n", "prog t1\nreaders 270 ar\n"] + ([] if q else ["prog t4\nreaders 3000\n"])
    if "writers" in kinds:
        used[""] += ["prog t2\nwriters 12 150\n"] + ([] if q else ["prog t3\nwriters 64 1500\n"])
    with ThreadPoolExecutor(4) as ex:
        m = ex.submit(c.model_check, "MCBulk.tla", "MCBulk.cfg", what="groups of entities: all histories of 7 steps")
        bs = {k: ex.submit(build_small, "bulkdrv.cc", "bulk" + k, defs=BULK_BUILDS[k], opt="-O2") for k, v in used.items() if v}
        exes = {k: b.result() for k, b in bs.items()}
        m.result()
    for k, exe in exes.items():
        ps = used[k]
        c.extra["bulk_programs"] = c.extra.get("bulk_programs", 0) + len(ps)
        paths = run_small_many(c, exe, {f"bulk{k}{a}": p for a, p in enumerate(ps)})
        c.check_traces(paths, spec="TraceBulk.tla", cfg="TraceBulk.cfg", scripts=tecs.named(ps, ""), label=f"[large numbers{' ' + k if k else ''}] ")
