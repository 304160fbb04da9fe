"""Checks of the concurrency properties: C01-C08."""
import random
from concurrent.futures import ThreadPoolExecutor
import vlib, tecs, misc
from gen import TYPES, conflict, pick

PROLOGUE = ["1 start L1 AR", "1 new L1 h1", "1 new L1 h2", "1 set L1 h1 A 1", "1 set L1 h1 B 2", "1 set L1 h2 A 3", "1 set L1 h2 C 4", "1 gset L1 G 5", "1 drop L1"]
EPILOGUE = ["1 start Z rAll", "1 full Z", "1 fullp Z", "1 drop Z", "1 start Y AR", "1 full Y", "1 drop Y"]
TYS = dict(AR=6, WA=2, rAll=6, RA=1, wA=5, wB=2, wAB=3, wArB=3, rAwB=3, rA=2, rAB=2, wC=1, wG=1, wAGrC=2, rAGH=2, wABCra=3, N=1)


def body(rng, t, l, ty, nops, hs=("h1", "h2"), fresh=None, look=.5):
    """Operations of one transaction on lock l."""
    r, w, ar = TYPES[ty]
    L = []
    for k in range(nops):
        c = rng.random()
        h = rng.choice(hs)
        ws = [x for x in w if x in "ABC"]
        gs = [x for x in w if x in "GH"]
        rs = [x for x in r if x in "ABC"]
        if ar and c < .5:
            o = rng.choice(["new", "unset", "unset", "destroy", "set", "set", "gunset", "gset"])
            if o == "new":
                n = f"{fresh}{k}"
                L += [f"{t} new {l} {n}", f"{t} set {l} {n} {rng.choice('ABC')} {rng.randint(10, 99)}"]
            elif o == "unset":
                L.append(f"{t} unset {l} {h} {rng.choice(['A', 'B', 'C', 'AB', 'ABC'])}")
            elif o == "destroy":
                L.append(f"{t} destroy {l} {h}")
            elif o == "set":
                L.append(f"{t} set {l} {h} {rng.choice('ABC')} {rng.randint(10, 99)}")
            elif o == "gset":
                L.append(f"{t} gset {l} {rng.choice('GH')} {rng.randint(10, 99)}")
            else:
                L.append(f"{t} gunset {l} {rng.choice('GH')}")
        elif ws and c < .85:
            L.append(f"{t} {rng.choice(['set', 'mod', 'set', 'setref', 'getm'])} {l} {h} {rng.choice(ws)} {rng.randint(10, 99)}")
        elif gs and c < .9:
            L.append(f"{t} {rng.choice(['gset', 'gmod'])} {l} {rng.choice(gs)} {rng.randint(10, 99)}")
        elif rs and c < .95:
            L.append(f"{t} {rng.choice(['get', 'prev', 'get'])} {l} {h} {rng.choice(rs)}")
        else:
            L.append(f"{t} full {l}")
    if rng.random() < look:
        L.insert(rng.randint(0, len(L)), f"{t} {rng.choice(['full', 'full', 'fullp'])} {l}")
    return L


def par_program(name, rng, threads=(2, 4), txs=(1, 3), nops=(1, 4), types=TYS, look=.5, hold=.3, cross=0.0, rmw=False, strat="mix", runs=30, dp=0, hdr=None):
    th = rng.randint(*threads)
    out = []
    per = {t: [] for t in range(1, th + 1)}
    n = 0
    for t in per:
        for k in range(1 if cross else rng.randint(*txs)):
            n += 1
            ty = pick(rng, types)
            l = f"T{n}"
            per[t].append(f"{t} start {l} {ty}")
            b = body(rng, t, l, ty, rng.randint(*nops), fresh=f"n{n}_", look=look)
            if rmw:
                ws = [x for x in TYPES[ty][1] if x in "ABG"]
                x = rng.choice(ws) if ws else ""
                if x == "G":
                    b = [f"{t} gget {l} G", f"{t} {rng.choice(['gmod', 'gset'])} {l} G {rng.randint(100, 999)}", f"{t} gget {l} G"] + (b if rng.random() < .4 else [])
                elif ws:
                    b = [f"{t} get {l} h1 {x}", f"{t} mod {l} h1 {x} {rng.randint(100, 999)}", f"{t} get {l} h1 {x}"] + (b if rng.random() < .4 else [])
            per[t] += b
            if rng.random() < look:
                per[t] += [f"{t} pause", f"{t} full {l}"]
            if rng.random() < hold:
                m = f"D{n}"
                per[t] += [f"{t} {rng.choice(['copy', 'ro'])} {l} {m}"]
                d = [f"{t} drop {l}", f"{t} full {m}", f"{t} drop {m}"]
                if cross and rng.random() < cross and th > 1:
                    o = rng.choice([u for u in per if u != t])
                    d = [f"{t} drop {l}"]
                    per[o] = per[o] + [f"{o} pause", f"{o} drop {m}"]
                per[t] += d
            else:
                per[t].append(f"{t} {'dropx' if rng.random() < .15 else 'drop'} {l}")
    lines = [x for t in per for x in per[t]]
    pro, epi = PROLOGUE, EPILOGUE
    if cross:   # the thread whose transaction another thread ends cannot start another one (known finding of C21)
        th += 1
        hdr = dict(hdr or {}, hand=1)
        epi = [f"{th}{x[1:]}" for x in EPILOGUE]
    h = dict(threads=th, runs=runs, strat=strat, seed=rng.randint(1, 10**6), dp=dp)
    h.update(hdr or {})
    return f"prog {name}" + "".join(f" {k}={v}" for k, v in h.items()) + "\nseq\n" + "\n".join(pro) + "\npar\n" + "\n".join(lines) + "\nseq\n" + "\n".join(epi) + "\nend\n"


def par_programs(c, n, tag, **kw):
    out = []
    for i in range(n):
        rng = random.Random(f"{c.prop}.{c.seed}.{tag}.{i}")
        out.append(par_program(f"{tag}{i}", rng, **kw))
    return out


def run_par(c, progs, env):
    with ThreadPoolExecutor(2) as ex:
        b = ex.submit(vlib.build_driver)
        m = ex.submit(tecs.model, c)
        exe = b.result()
        m.result()
    c.extra["programs"] = len(progs)
    paths = c.drive_many(exe, tecs.shard(progs, 16))
    c.check_traces(paths, scripts=tecs.named(progs, ""), env=env)


def glob_programs(c, n, tag, **hdr):
    """AddRemove transactions that add and remove global components while others, most without permission on them, look."""
    out = []
    for i in range(n):
        rng = random.Random(f"{c.prop}.{c.seed}.{tag}.{i}")
        L = []
        for j in range(2 if rng.random() < .3 else 1):
            t = f"T{j}"
            L += [f"1 start {t} AR"]
            for k in range(rng.randint(1, 2)):
                g = rng.choice("GGH")
                L.append(rng.choice([f"1 gunset {t} {g}", f"1 gset {t} {g} {rng.randint(10, 99)}", f"1 gmod {t} {g} {rng.randint(10, 99)}"]))
            if rng.random() < .4:
                L.append(f"1 new {t} n{j}")
            L.append(f"1 drop {t}")
        for r in range(2, rng.randint(3, 4)):
            l, u = f"R{r}", rng.choice(["N", "N", "rA", "wA", "rG", "rAGH", "rAll", "AR"])
            L += [f"{r} start {l} {u}", f"{r} full {l}", f"{r} pause", f"{r} full {l}", f"{r} drop {l}"]
        h = dict(threads=3, seed=rng.randint(1, 10**6), **hdr)
        out.append(f"prog {tag}{i}" + "".join(f" {k}={v}" for k, v in h.items()) + "\nseq\n" + "\n".join(PROLOGUE) + "\npar\n" + "\n".join(L) + "\nseq\n" + "\n".join(EPILOGUE) + "\nend\n")
    return out


def ent_programs(c, n, tag, **hdr):
    """AddRemove transactions that create and destroy entities and add and remove components while others, most with permission
    on little of it, look twice and keep lists; no two of them write the same."""
    out = []
    for i in range(n):
        rng = random.Random(f"{c.prop}.{c.seed}.{tag}.{i}")
        L = []
        for j in range(2 if rng.random() < .3 else 1):
            t = f"T{j}"
            L += [f"1 start {t} AR"]
            for k in range(rng.randint(1, 3)):
                h, x = rng.choice(["h1", "h2"]), rng.choice("ABC")
                L += rng.choice([[f"1 new {t} n{j}{k}"], [f"1 new {t} n{j}{k}", f"1 set {t} n{j}{k} {x} {k + 20}"], [f"1 destroy {t} {h}"], [f"1 set {t} {h} {x} {k + 30}"], [f"1 unset {t} {h} {x}"]])
            if rng.random() < .3:
                L.append(f"1 full {t}")
            L.append(f"1 drop {t}")
        for r in range(2, rng.randint(3, 4)):
            l, u = f"R{r}", rng.choice(["N", "N", "rA", "rB", "wA", "wG", "rAll", "wArB", "AR"])
            kind, p = rng.choice("EABC"), rng.randint(0, 1)
            L += [f"{r} start {l} {u}", f"{r} list {l} V{r} {kind} {p}", f"{r} full {l}", f"{r} pause", f"{r} full{rng.choice(['', 'p'])} {l}", f"{r} view {l} V{r}", f"{r} drop {l}"]
        h = dict(threads=3, seed=rng.randint(1, 10**6), **hdr)
        out.append(f"prog {tag}{i}" + "".join(f" {k}={v}" for k, v in h.items()) + "\nseq\n" + "\n".join(PROLOGUE) + "\npar\n" + "\n".join(L) + "\nseq\n" + "\n".join(EPILOGUE) + "\nend\n")
    return out


def ent_par(c, both=True):
    q = c.quick()
    return ent_programs(c, 10 if q else 80, "pe", runs=20 if q else 200, strat="mix") + \
        (ent_programs(c, 8 if q else 60, "ps", runs=1, strat="sys:2:%d" % (50 if q else 3000)) if both else [])


def C01(c):
    q = c.quick()
    progs = par_programs(c, 40 if q else 400, "m", look=.9, runs=16 if q else 100, dp=1)
    progs += par_programs(c, 10 if q else 60, "s", threads=(2, 2), txs=(1, 1), nops=(1, 2), look=1, strat="sys:2:%d" % (60 if q else 3000), types=dict(AR=4, WA=2, rAll=6, RA=2, wAB=3, wABCra=3, rAB=2))
    progs += par_programs(c, 16 if q else 100, "w", threads=(3, 3), txs=(1, 2), nops=(2, 3), look=1, runs=16 if q else 150, dp=1, types=dict(WA=3, wAB=3, wABCra=3, rAll=6, RA=2, AR=2))
    progs += glob_programs(c, 8 if q else 60, "g", runs=24 if q else 200, strat="mix", dp=1)
    progs += glob_programs(c, 8 if q else 60, "h", runs=1, strat="sys:2:%d" % (60 if q else 3000))
    run_par(c, progs, tecs.X("UC", "ID", "OBS"))
    misc.bulk(c, ["readers"])


def C02(c):
    q = c.quick()
    progs = par_programs(c, 30 if q else 400, "m", look=.7, runs=16 if q else 100, hold=.6)
    progs += par_programs(c, 30 if q else 300, "x", look=.5, runs=16 if q else 100, hold=.9, cross=.7)
    progs += par_programs(c, 10 if q else 60, "s", threads=(2, 2), txs=(1, 2), nops=(1, 2), look=1, strat="sys:2:%d" % (60 if q else 3000), types=dict(AR=4, wA=3, wAB=3, rAll=6))
    progs += ent_par(c)
    run_par(c, progs, tecs.X("UC", "ID", "OBS"))


def C03(c):
    q = c.quick()
    tys = dict(AR=4, WA=3, wA=6, wB=3, wAB=4, wArB=4, rAwB=4, wABCra=3, wAGrC=3, wG=4)
    progs = par_programs(c, 50 if q else 400, "m", look=.3, runs=16 if q else 100, rmw=True, types=tys, nops=(0, 2))
    progs += par_programs(c, 12 if q else 60, "s", threads=(2, 2), txs=(1, 1), nops=(0, 1), look=.5, rmw=True, strat="sys:2:%d" % (80 if q else 3000), types=tys)
    progs += par_programs(c, 10 if q else 60, "t", threads=(3, 3), txs=(1, 1), nops=(0, 1), look=.2, rmw=True, strat="sys:1:%d" % (60 if q else 3000), types=tys)
    tys = dict(wG=4, wAGrC=4, rAGH=1, AR=1)
    progs += par_programs(c, 8 if q else 60, "g", threads=(2, 3), txs=(1, 2), nops=(0, 1), look=.3, rmw=True, runs=24 if q else 150, types=tys)
    run_par(c, progs, tecs.X("UC", "ID", "OBS", "LIST"))
    misc.bulk(c, ["writers"])


# ---------------------------------------------------------------------------------------------------------- waiting
WPRO = ["1 start P AR"] + [f"1 new P {h}" for h in ("h1", "h2", "h4")] + [f"1 set P {h} {x} {i}" for h in ("h1", "h2") for i, x in enumerate("ABC")] + ["1 gset P G 1", "1 drop P"]
WTYS = dict(AR=5, WA=2, RA=1, N=1, rA=3, wA=4, rB=2, wB=3, rAB=2, wAB=3, wArB=4, rAwB=4, wAGrC=2, rAGH=2, wG=2, rG=1, wABCra=2, rAll=3)


def scenarios(c, cfg, limit, accept=None, what="", spec="MCWait.tla"):
    """Scenarios (lists of commands) of every transition of MCWait under this configuration, sampled down to limit."""
    import json
    r = c.model_check(spec, cfg, workers=1, what=what or "one scenario per transition of the waiting model")
    out = []
    for line in r.stdout.splitlines():
        if line.startswith('"SCEN '):
            out.append(json.loads(json.loads(line)[5:]))
        elif line.startswith("SCEN "):
            out.append(json.loads(line[5:]))
    out.sort()
    c.extra["scenario_transitions_" + cfg] = len(out)
    if accept:
        out = [s for s in out if accept(s)]
    rng = random.Random(f"{c.prop}.{c.seed}.{cfg}")
    if len(out) > limit:
        out = rng.sample(out, limit)
    c.extra["scenarios_used_" + cfg] = len(out)
    return out


def seq_prog(name, lines, threads=4, insts=1, strat="rand", runs=1, seed=1, **kw):
    h = dict(threads=threads, insts=insts, q=1, strat=strat, runs=runs, seed=seed)
    h.update(kw)
    return f"prog {name}" + "".join(f" {k}={v}" for k, v in h.items()) + "\nseq\n" + "\n".join(lines) + "\nend\n"


def scen_programs(c, tag, scens, runs=1):
    return [seq_prog(f"{tag}{i}", WPRO + s, runs=runs, seed=c.seed * 7919 + i) for i, s in enumerate(scens)]


def wait_ops(rng, t, l, ty, n, k):
    """Accesses of one transaction, such that TraceWait can tell exactly what they touch."""
    r, w, ar = TYPES[ty]
    out = []
    for j in range(k):
        o = rng.random()
        if ar and o < .3:
            q = rng.choice(["new", "new", "noop", "noop", "newset", "gnoop"])
            if q == "noop":
                out.append(f"{t} unset {l} h4 {rng.choice(['A', 'AB', 'ABC'])}")
            elif q == "gnoop":
                out.append(f"{t} gunset {l} H")
            else:
                out.append(f"{t} new {l} n{n}_{j}")
                if q == "newset":
                    out.append(f"{t} set {l} n{n}_{j} {rng.choice('ABC')} 3")
        elif o < .75 and [x for x in w if x in "ABCG"]:
            x = rng.choice([x for x in w if x in "ABCG"])
            out.append(f"{t} gmod {l} G 5" if x == "G" else f"{t} {rng.choice(['mod', 'set', 'getm', 'setref'])} {l} {rng.choice(['h1', 'h2'])} {x} 5")
        elif r and o < .9 and [x for x in r if x in "ABC"]:
            out.append(f"{t} {rng.choice(['get', 'prev'])} {l} h1 {rng.choice([x for x in r if x in 'ABC'])}")
        else:
            out.append(f"{t} full {l}")
    return out


def wait_random(c, n, tag, length=30, threads=(3, 5), insts=1, runs=1, types=WTYS):
    """Random commands; a busy thread's are skipped by the driver, so all that matters is that each thread's are in order."""
    out = []
    for i in range(n):
        rng = random.Random(f"{c.prop}.{c.seed}.{tag}.{i}")
        th = rng.randint(*threads)
        L, st, k = [], {}, 0
        while len(L) < length:
            t = rng.randint(1, th)
            if t not in st:
                k += 1
                ty = pick(rng, types)
                st[t] = (f"T{k}", ty, k)
                L.append(f"{t} start T{k} {ty}" + (f" {rng.randrange(insts)}" if insts > 1 else ""))
            else:
                l, ty, m = st[t]
                if rng.random() < .5:
                    L += wait_ops(rng, t, l, ty, m, 1)
                else:
                    L.append(f"{t} drop {l}")
                    del st[t]
        pro = WPRO + ([x.replace("P", "Q").replace("AR", "AR 1").replace("h1", "i1").replace("h2", "i2").replace("h4", "i4") for x in WPRO] if insts > 1 else [])
        out.append(seq_prog(f"{tag}{i}", pro + L, threads=th, insts=insts, runs=runs, seed=c.seed * 104729 + i))
    return out


def wait_par(c, n, tag, threads=(2, 4), txs=(1, 3), runs=16, strat="mix", types=WTYS, spur=0, nops=(0, 2)):
    out = []
    for i in range(n):
        rng = random.Random(f"{c.prop}.{c.seed}.{tag}.{i}")
        th, k, L = rng.randint(*threads), 0, []
        for t in range(1, th + 1):
            for _ in range(rng.randint(*txs)):
                k += 1
                ty = pick(rng, types)
                L.append(f"{t} start T{k} {ty}")
                L += wait_ops(rng, t, f"T{k}", ty, k, rng.randint(*nops))
                if rng.random() < .3:
                    L.append(f"{t} pause")
                L.append(f"{t} drop T{k}")
        out.append(f"prog {tag}{i} threads={th} q=1 runs={runs} strat={strat} seed={rng.randint(1, 10**6)}" + (f" spur={spur}" if spur else "") +
                   "\nseq\n" + "\n".join(WPRO) + "\npar\n" + "\n".join(L) + "\nend\n")
    return out


CROWD = dict(rA=5, wA=5, rAB=2, wAB=3, AR=2, rAll=2, N=1, wArB=2, rAwB=2, wB=1, WA=1)


def crowd(c, n, tag, runs=2):
    """Many calls waiting for the same thing when it is released: starts of all kinds before and during a commit that waits for a reader."""
    out = []
    for i in range(n):
        rng = random.Random(f"{c.prop}.{c.seed}.{tag}.{i}")
        th, k = rng.randint(4, 6), 2
        x, w = rng.choice([("rA", "wA"), ("rAB", "wAB"), ("rA", "wAB"), ("rAll", "WA"), ("rA", "AR"), ("N", "AR")])
        L = [f"1 start T1 {x}", f"2 start T2 {w}", "2 new T2 n0" if w == "AR" else "2 mod T2 h1 A 5"]
        if w == "AR" and rng.random() < .5:
            L.append("2 mod T2 h1 A 5")
        rest = list(range(3, th + 1))
        rng.shuffle(rest)
        st = {}
        def go(t):
            nonlocal k
            k += 1
            ty = pick(rng, CROWD)
            st[t] = (f"T{k}", ty, k)
            L.append(f"{t} start T{k} {ty}")
        cut = rng.randint(0, len(rest))
        for t in rest[:cut]:
            go(t)
        L.append("2 drop T2")
        for t in rest[cut:]:
            go(t)
        L.append("1 drop T1")
        for _ in range(rng.randint(6, 16)):
            t = rng.choice(list(range(1, th + 1)))
            if t not in st:
                if rng.random() < .6:
                    go(t)
            elif rng.random() < .5:
                l, ty, m = st[t]
                L += wait_ops(rng, t, l, ty, m, 1)
            else:
                L.append(f"{t} drop {st.pop(t)[0]}")
        out.append(seq_prog(f"{tag}{i}", WPRO + L, threads=th, runs=runs, seed=c.seed * 15485863 + i))
    return out


def run_wait(c, progs, env, builds=(None,)):
    """Builds the driver(s), runs the programs, has TLC judge the traces by TraceWait."""
    with ThreadPoolExecutor(2) as ex:
        bs = [ex.submit(vlib.build_driver, **(b or {})) for b in builds]
        m = ex.submit(c.model_check, "MCWait.tla", "MCWait.cfg", what="C03-C07 as invariants of the waiting model")
        exes = [b.result() for b in bs]
        m.result()
    c.extra["programs"] = len(progs)
    for i, exe in enumerate(exes):
        mine = progs if i == 0 else [p for j, p in enumerate(progs) if j % 3 == i % 3]
        sh = {f"b{i}{k}": v for k, v in tecs.shard(mine, 16).items()} if i else tecs.shard(mine, 16)
        paths = c.drive_many(exe, sh)
        c.check_traces(paths, spec="TraceWait.tla", cfg="TraceWait.cfg", scripts=tecs.named(progs, ""), env=env)


def pending_commit(s):
    """A reader's start after a drop: may meet a waiting commit."""
    return any("drop" in x for x in s) and "start" in s[-1]


def C04(c):
    q = c.quick()
    progs = scen_programs(c, "a", scenarios(c, "GenWait2.cfg", 700 if q else 10**9))
    progs += scen_programs(c, "b", scenarios(c, "GenWait3.cfg", 900 if q else 10**9))
    progs += scen_programs(c, "h", scenarios(c, "GenWaitH.cfg", 10**9, (lambda s: len(s) <= 6) if q else None, "starts that must not wait for a waiting commit"))
    progs += wait_random(c, 60 if q else 1500, "r")
    progs += wait_random(c, 20 if q else 400, "i", insts=2)
    progs += crowd(c, 80 if q else 1500, "c")
    run_wait(c, progs, {"NO_BARGE": "1"})


def C05(c):
    q = c.quick()
    progs = wait_par(c, 90 if q else 1200, "p", runs=20 if q else 150)
    progs += wait_par(c, 30 if q else 400, "f", runs=20 if q else 150, spur=20)
    progs += wait_par(c, 30 if q else 400, "w", threads=(3, 5), txs=(1, 3), nops=(1, 2), runs=20 if q else 150, types=dict(wAB=3, wArB=3, rAwB=3, AR=3, WA=2, wA=2, wB=2))
    progs += wait_par(c, 14 if q else 80, "s", threads=(2, 3), txs=(1, 1), nops=(1, 1), strat="sys:2:%d" % (100 if q else 3000))
    progs += scen_programs(c, "b", scenarios(c, "GenWait3.cfg", 300 if q else 4000))
    progs += crowd(c, 150 if q else 3000, "c", runs=3)
    with ThreadPoolExecutor(1) as ex:
        ms = [ex.submit(c.model_check, "MCLock.tla", k + ".cfg", workers=2 if q else 4, timeout=800 if q else 5000, what="the atomic steps of the locks: exclusion, whole commits, reasons for waiting, every call returns")
              for k in (("MCLock",) if q else ("MCLock", "MCLock2", "MCLock3"))]
        run_wait(c, progs, {"NO_BARGE": "1"}, builds=(None, dict(name="c17", std="c++17")))
        for m in ms:
            m.result()


def C06(c):
    q = c.quick()
    progs = scen_programs(c, "b", scenarios(c, "GenWait3.cfg", 1500 if q else 10**9, pending_commit))
    progs += scen_programs(c, "a", scenarios(c, "GenWait2.cfg", 200 if q else 10**9))
    progs += wait_random(c, 80 if q else 1500, "r", threads=(3, 5), types=dict(AR=4, wA=4, wB=2, wAB=4, rA=4, rAB=3, rAll=3, rB=3, wArB=2, wG=2, rG=2, N=2))
    run_wait(c, progs, {})


def C07(c):
    q = c.quick()
    progs = scen_programs(c, "b", scenarios(c, "GenWait3.cfg", 500 if q else 10**9, lambda s: sum("start" in x for x in s) >= 3))
    progs += scen_programs(c, "w", scenarios(c, "GenWaitW.cfg", 900 if q else 10**9, what="scenarios with a start that waits again"))
    progs += scen_programs(c, "v", scenarios(c, "GenWaitV.cfg", 500 if q else 10**9, what="scenarios with a start that waits again"))
    progs += wait_random(c, 80 if q else 1500, "r", threads=(4, 5), length=34, types=dict(AR=4, WA=3, wA=3, wB=3, wAB=4, wArB=3, rAwB=3, rA=2, rB=2, wG=2, wABCra=2))
    progs += wait_par(c, 30 if q else 300, "p", threads=(3, 5), txs=(1, 2), runs=16 if q else 100)
    run_wait(c, progs, {"NO_BARGE": "1"})


# ------------------------------------------------------------------------------------------------------ nested starts
def nest_cross(c, exe, progs, limit, env):
    """Programs in which transactions are ended by other threads than those that started them: the known finding.  What TecsNest's
    model of the registry explains (and only that) is the finding; everything else is a violation."""
    segs = list(vlib.split_traces(c.drive_many(exe, {f"x{a}": b for a, b in tecs.shard(progs, 8).items()})))
    key = "ended-by-other-thread"
    bad = vlib.validate("TraceTecs.tla", "TraceTecs.cfg", segs, c.stats, max_rejects=1, env=env)
    if not bad:
        return
    listed = [k for k, _ in vlib.known_findings(c.prop)]
    unexplained = vlib.validate("TraceTecs.tla", "TraceTecs.cfg", segs if key in listed else [b[0] for b in bad], c.stats, env=dict(env, REG="1"))
    unexplained = [u for u in unexplained if vlib.validate("TraceTecs.tla", "TraceTecs.cfg", [u[0]], c.stats, env=env)]
    if key in listed and not unexplained:
        c.known(key)
        return
    for seg, at in unexplained or bad:
        what = f"TraceTecs.tla rejects the recorded execution at event {at + 1}: {seg[at].strip()[:400]}"
        c.violation(what, "program: " + seg[0] + "\n" + "".join(("--> " if i == at else "    ") + x for i, x in enumerate(seg)))


def nest_random(c, n, tag, threads=3, insts=3, length=40):
    """Transactions of one thread on several instances could deadlock with another thread's (user error): either every thread
    uses one instance only, or the third thread alone writes, on instance 0."""
    out = []
    for i in range(n):
        rng = random.Random(f"{c.prop}.{c.seed}.{tag}.{i}")
        L, open_, k = [], {}, 0
        fixed = [rng.randrange(2) for _ in range(threads)] if i % 2 else None
        for _ in range(length):
            t, j = rng.randint(1, threads), rng.randrange(insts)
            if fixed:
                j = fixed[t - 1]
            elif t == threads:
                j = 0
            types = ("rA", "N", "rAll", "wA", "wB", "AR", "WA", "wArB") if fixed or t == threads else ("rA", "N", "rAll")
            r = rng.random()
            mine = [x for x, v in open_.items() if v[0] == t]
            if r < .45:
                k += 1
                ty = rng.choice(types)
                L.append(f"{t} start T{k} {ty} {j}")
                if not any(v[0] == t and v[1] == j for v in open_.values()):
                    open_[f"T{k}"] = (t, j, ty)
                    if rng.random() < .3:
                        L += wait_ops(rng, t, f"T{k}", ty, k, 1) if j == 0 else []
                        L.append(f"{t} full T{k}")
            elif mine and r < .6:
                x = rng.choice(mine)
                k += 1
                L.append(f"{t} {rng.choice(['copy', 'ro'])} {x} T{k}")
                open_[f"T{k}"] = open_[x]
            elif mine:
                x = rng.choice(mine)
                L.append(f"{t} drop {x}")
                del open_[x]
        out.append(seq_prog(f"{tag}{i}", WPRO + L, threads=threads, insts=insts, seed=c.seed * 7 + i))
    return out


def nest_many(limit, n):
    """One thread with transactions on n > limit instances."""
    L = [f"1 start T{i} rA {i}" for i in range(n)]
    L += ["2 start U0 rA 0", "2 start U1 rA 1", "2 start U2 rA 1", "1 drop T3", f"1 start V {'rA'} {n - 1}", f"1 start W rA {n - 2}", "1 start X rA 3", "1 drop V", "1 start Y rA 3"]
    L += [f"1 drop T{i}" for i in range(0, n, 2)] + [f"1 start Z{i} wA {i}" for i in range(0, n, 3)]
    return seq_prog("many", L, threads=2, insts=n)


def C21(c):
    q = c.quick()
    lim = dict(name="lim2", defs={"TECS_MAX_ACTIVE_TRANSACTIONS_PER_THREAD": "2"})
    with ThreadPoolExecutor(6) as ex:
        b1, b2 = ex.submit(vlib.build_driver), ex.submit(vlib.build_driver, **lim)
        m = ex.submit(c.model_check, "TecsNest.tla", "MCNest.cfg", workers=2, what="the registry of the code decides nesting rightly if transactions end on their threads")
        sc = {k: ex.submit(scenarios, c, k + ".cfg", n, None, "nested starts", "TecsNest.tla")
              for k, n in (("GenNest", 350 if q else 10**9), ("GenNest64", 350 if q else 10**9), ("GenNestX", 300 if q else 10**9))}
        std, two = b1.result(), b2.result()
        m.result()
        sc = {k: v.result() for k, v in sc.items()}
    mk = lambda tag, s: [seq_prog(f"{tag}{i}", x, threads=2, insts=3) for i, x in enumerate(s)]
    sets = [(std, 64, mk("a", sc["GenNest64"]) + nest_random(c, 60 if q else 800, "r") + [nest_many(64, 70)]),
            (two, 2, mk("b", sc["GenNest"]) + nest_random(c, 40 if q else 500, "l") + [nest_many(2, 5)])]
    c.extra["programs"] = sum(len(s[2]) for s in sets)
    for k, (exe, limit, progs) in enumerate(sets):
        paths = c.drive_many(exe, {f"{k}{a}": b for a, b in tecs.shard(progs, 8).items()})
        env = tecs.X("UC", "ID", "LIST", "OBS")
        env["MAX_ACTIVE"] = str(limit)
        c.check_traces(paths, scripts=tecs.named(progs, ""), env=env)
        # whoever waits has a reason, and never itself: a rejected start leaves no lock behind
        own = [p for j, p in enumerate(progs) if not p.startswith("prog many") and (not q or j % 2 or p.startswith(("prog r", "prog l")))]
        paths = c.drive_many(exe, {f"w{k}{a}": b for a, b in tecs.shard(own, 8).items()})
        c.check_traces(paths, spec="TraceWait.tla", cfg="TraceWait.cfg", scripts=tecs.named(progs, ""), env={"NO_BARGE": "1"})
    nest_cross(c, two, mk("x", sc["GenNestX"]), 2, dict(tecs.X("UC", "ID", "LIST", "OBS"), MAX_ACTIVE="2"))


# ----------------------------------------------------------------------------------------------------- happens-before
def C08(c):
    q = c.quick()
    builds = [dict(name="hb", cxx="clang++", opt="-O1", tsan=True)]
    if not q:
        builds.append(dict(name="hb17", cxx="clang++", opt="-O1", tsan=True, std="c++17"))
    n, runs, h = (1, 6, dict(hb=1)) if q else (8, 24, dict(hb=1))
    progs = par_programs(c, 24 * n, "m", look=.5, runs=runs, hdr=h)
    progs += par_programs(c, 12 * n, "w", threads=(2, 3), txs=(2, 3), nops=(1, 3), look=.6, runs=runs, hdr=h, hold=0, types=dict(wA=4, wAB=3, rA=3, rAB=3, rAll=2, wB=2, rAwB=2, wArB=2))
    progs += par_programs(c, 12 * n, "r", threads=(2, 3), txs=(2, 3), nops=(1, 3), look=.6, runs=runs, hdr=h, types=dict(AR=4, rA=2, rAll=3, N=1, wA=2, RA=1, WA=1, rAGH=1, wAGrC=2))
    progs += par_programs(c, 12 * n, "f", runs=runs, hdr=dict(hb=1, spur=20))
    # two short transactions, all schedules with one preemption (between the look at a lock and the attempt to take it), many with two
    for k, (x, y) in enumerate((("wA", "wA"), ("wA", "rA"), ("AR", "AR"), ("AR", "rAll"), ("AR", "N"), ("wArB", "rAwB"), ("AR", "wAB"), ("WA", "rAGH"))):
        for j in range(2 if q else 6):
            rng = random.Random(f"{c.prop}.{c.seed}.{k}.{j}")
            L = [z for t, ty in ((1, x), (2, y)) for z in [f"{t} start T{t} {ty}"] + body(rng, t, f"T{t}", ty, 1, fresh=f"n{t}_", look=0) + [f"{t} full T{t}", f"{t} drop T{t}"]]
            pre = "\nseq\n" + "\n".join(PROLOGUE) + "\npar\n" + "\n".join(L) + "\nseq\n" + "\n".join(EPILOGUE) + "\nend\n"
            progs.append(f"prog y{k}.{j} threads=2 hb=1 seed={c.seed} strat=" + (("sys:1:300", "sys:2:%d" % 400) if q else ("sys:1:1000", "sys:2:8000"))[j % 2] + pre)
            progs.append(f"prog z{k}.{j} threads=2 hb=1 seed={c.seed + j} strat=pct:{2 + j}:100 runs={100 if q else 1500}" + pre)
    with ThreadPoolExecutor(2) as ex:
        exes = list(ex.map(lambda b: vlib.build_driver(**b), builds))
    c.extra["programs"] = len(progs)
    for i, exe in enumerate(exes):
        paths = c.drive_many(exe, {f"{i}.{k}": v for k, v in tecs.shard(progs, 16).items()})
        c.check_traces(paths, spec="TecsHB.tla", cfg="TecsHB.cfg", scripts=tecs.named(progs, ""))
