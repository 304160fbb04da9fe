"""Checks of the properties decided by the transaction specification Tecs.tla: C01-C03, C09-C20, C22."""
import itertools, os, random, re
from concurrent.futures import ThreadPoolExecutor
import vlib
from gen import Gen, TYPES, DYN, covers, conflict

SETUP_WATCH = [f"1 watch L2 W{k} {k}" for k in "EABCGH"]


def tla(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, (set, list, tuple)):
        return "{" + ", ".join(tla(x) for x in sorted(v)) + "}"
    return f'"{v}"' if isinstance(v, str) else str(v)


def gen_programs(c, name, types, ops, k, vals=(5,), maxlocks=2, extra=(), limit=None, maxents=4):
    """Every program of k operations of one transaction that Tecs.tla allows (GenTecs.tla), by TLC."""
    cfg = c.path(name + ".cfg")
    consts = dict(NullH="null", MaxActive=64, Threads={1}, TypeNames=set(types), Vals=set(vals), MaxTx=1, MaxEnts=maxents, MaxOps=k, MaxLocks=maxlocks,
                  NInst=1, Ops=set(ops), Record=True, Extra=set(extra))
    with open(cfg, "w") as f:
        f.write("CONSTANTS\n" + "".join(f"  {a} = {tla(b)}\n" for a, b in consts.items()))
        f.write("INIT GInit\nNEXT GNext\nCHECK_DEADLOCK FALSE\nINVARIANTS GEmit\n")
    r = vlib.tlc("GenTecs.tla", cfg, workers=2, heap="4g", timeout=600)
    if "Model checking completed. No error" not in r.stdout:
        raise vlib.MachineryError("GenTecs failed:\n" + r.stdout[-3000:])
    a, b = vlib.parse_states(r.stdout)
    progs = programs_of(r.stdout)
    total = len(progs)
    if limit and len(progs) > limit:
        progs = random.Random(f"{c.seed}.{name}").sample(progs, limit)
    c.model.append({"spec": "GenTecs.tla", "cfg": name, "generated": a, "distinct": b, "ok": True,
                    "what": f"generator: all programs of {k} operations {sorted(ops)} by {sorted(types)}: {total}, replayed {len(progs)}"})
    return progs


def programs_of(out):
    r = []
    for m in re.finditer(r'^"PROGRAM \[(.*)\]"$', out, re.M):
        r.append(re.findall(r'\\"((?:[^"\\])*)\\"', m.group(1)))
    return sorted(r)


def finish_program(lines, watch=False, fullp=True, full=True, drops=None):
    """Adds the observations after a generated transaction: everything before its end, and everything in the next ones."""
    lines = list(lines)
    if watch:
        i = next(j for j, x in enumerate(lines) if x.startswith("1 start L2")) + 1
        lines[i:i] = SETUP_WATCH
    locks = ["L10"] + [x.split()[3] for x in lines if x.split()[1] in ("copy", "ro", "sub", "try", "dyn")]
    if full:
        for l in locks:
            lines.append(f"1 full {l}")
    if fullp:
        lines.append("1 fullp L10")
    for l in drops or locks:
        lines.append(f"1 drop {l}")
    lines += ["1 start L90 rAll", "1 full L90"] + ([f"1 polla L90 W{k}" for k in "EABCGH"] if watch else []) + ["1 drop L90"]
    # a writer on top: what it starts from and what it leaves
    lines += ["1 start L91 AR", "1 full L91", "1 new L91 h7", "1 drop L91", "1 start L92 rAll", "1 full L92", "1 fullp L92", "1 drop L92"]
    return lines


def text(name, lines, **hdr):
    return f"prog {name}" + "".join(f" {k}={v}" for k, v in hdr.items()) + "\nseq\n" + "\n".join(lines) + "\nend\n"


def shard(progs, n=8):
    """progs: list of texts -> scripts"""
    bins = [[] for _ in range(n)]
    for i, p in enumerate(progs):
        bins[i % n].append(p)
    return {f"s{i}": "".join(b) for i, b in enumerate(bins) if b}


def named(progs, tag):
    return {re.match(r"prog (\S+)", p).group(1): p for p in progs}


def simulate(c, num):
    """Random behaviours of MCTecs as programs."""
    r = vlib.tlc("MCTecs.tla", "SimTecs.cfg", heap="2g", extra=["-simulate", f"num={num}", "-depth", "150", "-seed", str(c.seed)])
    progs = programs_of(r.stdout)
    m = re.search(r"(\d+) states checked", r.stdout)
    c.model.append({"spec": "MCTecs.tla", "cfg": "SimTecs.cfg -simulate", "generated": int(m.group(1)) if m else 0, "distinct": 0, "ok": True,
                    "what": f"simulation: {len(progs)} behaviours replayed"})
    return progs


def rand_programs(c, n, tag="r", **kw):
    out = []
    ex = []
    for i in range(n):
        rng = random.Random(f"{c.prop}.{c.seed}.{tag}.{i}")
        a = {k: (v(rng) if callable(v) else v) for k, v in kw.items()}
        out.append(Gen(rng, **a).program(f"{tag}{i}"))
    return out


def model(c):
    if c.quick():
        c.model_check("MCTecs.tla", "MCQuick.cfg", workers=2, what="invariants and action properties of Tecs.tla")
    else:
        c.model_check("MCTecs.tla", "MCTecs.cfg", what="invariants and action properties of Tecs.tla")
        c.model_check("MCTecs.tla", "MCFeat.cfg", what="the same with lists, observers, derived locks")


def buffers(c):
    """The design: two copies of everything and the steps of a commit implement the atomic store."""
    if c.prop in ("C13", "C14"):
        c.model_check("MCBuf.tla", "MCBufA.cfg", workers=2, what="TecsBuf.tla, creations and removals")
    if c.prop == "C14":
        c.model_check("MCBuf.tla", "MCBufB.cfg", workers=2, what="TecsBuf.tla, two components, resources taken one by one")
        if not c.quick():
            c.model_check("MCBuf.tla", "MCBuf.cfg", what="TecsBuf.tla, three transactions of four types")
            c.model_check("MCBuf.tla", "MCBufC.cfg", what="TecsBuf.tla, three transactions, two components")


def run_api(c, makers, env=None, defs=None):
    """makers: functions returning program texts; built driver runs them; TLC validates."""
    with ThreadPoolExecutor(8) as ex:
        b = ex.submit(vlib.build_driver)
        m, bf = ex.submit(model, c), ex.submit(buffers, c)
        ps = [ex.submit(f) for f in makers]
        exe = b.result()
        m.result(), bf.result()
        progs = [x for p in ps for x in p.result()]
    byname = named(progs, "")
    c.extra["programs"] = len(progs)
    paths = c.drive_many(exe, shard(progs))
    c.check_traces(paths, scripts=byname, env=env)


def par(c):
    import conc
    return conc.ent_par(c)


def X(*no):
    return {"NO_" + x: "1" for x in no}


NOOPS = {k: 0 for k in ("gset", "gsetref", "gmod", "ggetm", "gget", "gprev", "ghas", "ghad", "gunset")}
NOGLOB = dict(NOOPS)
NODERIVE = dict(copy=0, sub=0, ro=0, dyn=0, uc=0, txid=0)


def bulk(c, *a):
    import misc
    misc.bulk(c, *a)


def scale(c, q, t):
    return q if c.quick() else t


def gens(c, name, types, ops, k, limit, tag, watch=False, **kw):
    def f():
        return [text(f"{tag}{i}", finish_program(p, watch)) for i, p in enumerate(gen_programs(c, name, types, ops, k, limit=limit, **kw))]
    return f


def C09(c):
    n = scale(c, 200, 3000)
    ops = dict(NOGLOB, **NODERIVE)
    ops.update(new=14, destroy=9, destroyv=3, set=4, setref=1, mod=2, getm=1, get=2, prev=1, has=3, had=2, exists=6, existed=4, unset=2)
    run_api(c, [
        lambda: rand_programs(c, n, "r", ops=ops, bad=0.35, insts=lambda r: r.choice([1, 2, 2, 3]), threads=lambda r: r.choice([1, 2]), length=90, maxents=lambda r: r.choice([3, 6, 20]),
                              types=dict(AR=14, rAll=3, WA=2, rA=1, wA=1), maxtx=20),
        lambda: newinst_programs(c, scale(c, 20, 200)),
        lambda: life_programs(c, scale(c, 30, 500)),
        gens(c, "g4", ["AR"], ["new", "destroy", "set"], scale(c, 2, 4), scale(c, 300, 6000), "g"),
        gens(c, "g3", ["AR"], ["new", "destroy"], scale(c, 4, 6), scale(c, 300, 8000), "d", extra=["far", "max", "h1^", "h1~", "h0~"]),
    ], X("GLOB", "UC", "LIST", "OBS"))
    bulk(c, ["random", "churn", "exhaust"], 8)


def newinst_programs(c, n):
    """Instances created later, and handles used across them."""
    out = []
    for i in range(n):
        rng = random.Random(f"ni{c.seed}.{i}")
        L = []
        k = rng.randint(1, 4)
        L += ["1 newinst"] * k
        hs = []
        for j in range(k + 1):
            L.append(f"1 start a{j} AR {j}")
            for e in range(rng.randint(1, 4)):
                h = f"h{j}_{e}"
                hs.append(h)
                L += [f"1 new a{j} {h}", f"1 set a{j} {h} A {e}"]
            if rng.random() < .5:
                L.append(f"1 destroy a{j} {rng.choice([h for h in hs if h.startswith(f'h{j}_')])}")
            L += [f"1 full a{j}", f"1 drop a{j}"]
        for j in range(k + 1):
            L += [f"1 start b{j} {rng.choice(['AR', 'rAll', 'WA'])} {j}", f"1 full b{j}", f"1 fullp b{j}"]
            for h in rng.sample(hs, min(3, len(hs))):
                L += [f"1 exists b{j} {h}", f"1 has b{j} {h} A", f"1 get b{j} {h} A"]
                if rng.random() < .4:
                    L += [f"1 destroy b{j} {h}", f"1 unset b{j} {h} A"]
            L.append(f"1 drop b{j}")
        out.append(text(f"n{i}", L))
    return out


def life_programs(c, n):
    """Instances that end and instances that begin afterwards, with what the earlier ones gave out still around."""
    out = []
    for i in range(n):
        rng = random.Random(f"li{c.seed}.{i}")
        L, live, hs, top = [], [0], [], 0
        for step in range(rng.randint(4, 10)):
            if live and rng.random() < (.3 if len(live) < 3 else .6):
                j = rng.choice([live[-1]] * 2 + live)   # the youngest one more often than not
                live.remove(j)
                L.append(f"1 delinst {j}")
            if len(live) < 4 and (not live or rng.random() < .6):
                top += 1
                live.append(top)
                L.append("1 newinst")
            j = rng.choice([live[-1], rng.choice(live)]) if live else None
            if j is None:
                continue
            a, t = f"s{step}", rng.choice(["AR", "AR", "AR", "rAll", "WA"])
            L.append(f"1 start {a} {t} {j}")
            L.append(f"1 txid {a}")
            for h in rng.sample(hs, min(4, len(hs))):
                L += [f"1 exists {a} {h}", f"1 {rng.choice(['has', 'get', 'had', 'set', 'mod', 'unset'])} {a} {h} A"]
                if rng.random() < .3:
                    L.append(f"1 destroy {a} {h}")
            if t == "AR":
                for e in range(rng.randint(1, 4)):
                    h = f"h{step}_{e}"
                    hs.append(h)
                    L += [f"1 new {a} {h}", f"1 set {a} {h} A {e}"]
                if rng.random() < .5:
                    L += [f"1 destroy {a} {rng.choice(hs[-4:])}"]
            L += [f"1 full {a}", f"1 drop {a}"]
        out.append(text(f"l{i}", L))
    return out


def C10(c):
    n = scale(c, 220, 3000)
    ops = dict(list=1, view=1, full=8, fullp=8, prev=8, had=5, existed=4, gprev=3, ghad=2, copy=3, sub=4, ro=4, dyn=1, uc=0, txid=0, **{"try": 1})
    run_api(c, [
        lambda: rand_programs(c, n, ops=ops, threads=lambda r: r.choice([1, 2, 3]), length=80, txlen=(4, 24), maxlocks=6, types=dict(AR=8, WA=5, wA=2, wAB=3, wABCra=4, wAGrC=2, rAll=1, wBCH=1)),
        gens(c, "g2", ["AR", "WA", "wABCra", "wA", "wAGrC"], ["set", "mod", "getm", "unset", "destroy", "ro", "sub", "copy", "gset", "ggetm", "gunset"], 2, scale(c, 700, 20000), "g"),
        lambda: par(c),
    ], X("UC", "ID", "OBS"))


def C11(c):
    n = scale(c, 220, 3000)
    ops = dict(NOGLOB, list=10, view=2, via=0, new=10, destroy=5, unset=8, set=10, full=8, fullp=6, ro=1, sub=1, copy=0, dyn=0, uc=0, txid=0)
    run_api(c, [
        lambda: rand_programs(c, n, ops=ops, threads=lambda r: r.choice([1, 2]), length=80, maxents=lambda r: r.choice([4, 8, 20]), types=dict(AR=10, rA=2, rB=1, N=2, WA=1, rAll=2, wA=1, wC=1)),
        gens(c, "g3", ["AR"], ["new", "destroy", "set", "unset", "getm"], scale(c, 2, 3), scale(c, 600, 20000), "g"),
        gens(c, "g4", ["AR"], ["new", "destroy", "unset"], 3, scale(c, 200, 20000), "d"),
        lambda: par(c),
    ], X("GLOB", "UC", "ID", "OBS"))
    bulk(c, ["random"], 8)


def C12(c):
    n = scale(c, 260, 4000)
    ops = dict(NOGLOB, list=8, view=8, via=7, new=6, destroy=7, destroyv=1, unset=8, set=8, setref=4, mod=4, getm=4, full=3, fullp=1, ro=.5, sub=1, copy=.5, dyn=0, uc=0, txid=0)
    run_api(c, [
        lambda: rand_programs(c, n, ops=ops, bad=.05, threads=1, length=90, txlen=(10, 40), maxents=lambda r: r.choice([4, 8, 12]), types=dict(AR=12, WA=1, rAll=1, wA=1)),
        lambda: via_programs(c),
        gens(c, "g3", ["AR"], ["list", "destroy", "unset", "set", "view", "new"], scale(c, 2, 3), scale(c, 400, 20000), "g"),
        lambda: par(c),
    ], X("GLOB", "UC", "ID", "OBS"))


def via_programs(c):
    """Every mutating operation applied directly to every entry of every kind of list, then everything looked at."""
    out = []
    base = ["1 start L1 AR", "1 new L1 h1", "1 new L1 h2", "1 new L1 h3", "1 set L1 h1 A 1", "1 set L1 h2 A 2", "1 set L1 h3 A 3", "1 set L1 h1 B 4",
            "1 set L1 h2 B 5", "1 set L1 h2 C 6", "1 set L1 h3 C 8", "1 drop L1", "1 start L2 AR"]
    acts = ["destroy L2 %s"] + [f"unset L2 %s {cs}" for cs in ("A", "B", "AB", "ABC", "BC")] + \
           [f"{op} L2 %s {k} 9" for op in ("set", "setref", "mod") for k in "ABC"] + [f"getm L2 %s {k}" for k in "ABC"]
    n = 0
    for kind in "EABC":
        for prev in (0, 1):
            for pre in ([], ["1 new L2 h4", "1 set L2 h4 A 7"]):
                for ix in range(3):
                    for a in acts:
                        n += 1
                        L = base + pre + [f"1 list L2 V1 {kind} {prev}", "1 list L2 V2 E 0", "1 list L2 V3 A 0", f"1 {a % f'V1[{ix}]'}", "1 view L2 V1", "1 view L2 V2", "1 view L2 V3", "1 full L2",
                                          "1 " + acts[n % len(acts)] % f"V1[{(ix + 1) % 3}]", "1 view L2 V1", "1 view L2 V2", "1 view L2 V3", "1 full L2", "1 fullp L2", "1 drop L2", "1 start L3 rAll", "1 full L3", "1 drop L3"]
                        out.append(text(f"via{n}", L))
    if c.quick():
        out = random.Random(f"via{c.seed}").sample(out, 500)
    return out


def C13(c):
    n = scale(c, 220, 4000)
    ops = dict(NOGLOB, new=10, set=16, setref=5, mod=8, getm=8, get=5, unset=10, destroy=5, destroyv=2, full=8, fullp=1, list=0, copy=1, sub=1, ro=0, dyn=0, uc=0, txid=0)
    run_api(c, [
        lambda: rand_programs(c, n, ops=ops, threads=lambda r: r.choice([1, 2]), length=90, txlen=(4, 30), maxents=lambda r: r.choice([3, 5, 10, 24]), types=dict(AR=14, WA=2, wA=2, wAB=1, wC=1)),
        gens(c, "g2", ["AR"], ["new", "set", "getm", "mod", "unset", "destroy"], scale(c, 2, 3), scale(c, 600, 25000), "g"),
        gens(c, "g3", ["WA", "wA", "wABCra"], ["set", "getm", "mod"], 2, scale(c, 150, 20000), "w"),
    ], X("LIST", "GLOB", "UC", "ID", "OBS"))


def C14(c):
    n = scale(c, 160, 3000)
    ops = dict(full=2, fullp=1, list=.5, copy=1, sub=1, ro=.3, dyn=0, uc=0, txid=0)
    sparse = dict(ops, new=20, set=5, setref=1, mod=2, getm=1, unset=3, destroy=3, destroyv=1)
    run_api(c, [
        lambda: rand_programs(c, n, "r", ops=ops, full_end=1, full_next=.9, threads=lambda r: r.choice([1, 2, 3]), length=70, txlen=(1, 7), maxtx=22),
        lambda: rand_programs(c, n // 2, "s", ops=sparse, full_end=.7, full_next=.8, threads=1, length=110, txlen=(2, 14), maxents=lambda r: r.choice([16, 30]), maxtx=14),
        lambda: chain_programs(c, scale(c, 150, 3000)),
        gens(c, "g2", ["AR", "WA", "wA", "wAGrC"], ["new", "set", "getm", "unset", "destroy", "gset", "gunset"], 2, scale(c, 500, 25000), "g"),
    ], X("UC", "ID", "OBS"))
    bulk(c, ["random"], 8)


def chain_programs(c, n):
    """Long chains of short transactions over sparse and dense storage: every later state against every earlier change."""
    out = []
    for i in range(n):
        rng = random.Random(f"chain{c.seed}.{i}")
        ne = rng.choice([2, 7, 14, 26])
        L = ["1 start L0 AR"] + [f"1 new L0 h{j}" for j in range(ne)]
        has = {}
        for j in range(ne):
            for k in "ABC":
                if rng.random() < rng.choice([.05, .15, .9]):
                    L.append(f"1 set L0 h{j} {k} {rng.randint(1, 9)}")
        L.append("1 drop L0")
        for s in range(rng.randint(3, 8)):
            ty = rng.choice(["AR", "AR", "WA", "wA", "wB", "wAB", "wC", "wBCH", "wAGrC"])
            L.append(f"1 start M{s} {ty}")
            if rng.random() < .5:
                L.append(f"1 full M{s}")
            for _ in range(rng.randint(0, 3)):
                h = f"h{rng.randrange(ne)}"
                ks = [k for k in "ABC" if k in TYPES[ty][1]]
                op = rng.choice(["set", "mod", "getm", "unset", "destroy"] if ty == "AR" else ["set", "mod", "getm"])
                if op == "destroy":
                    L.append(f"1 destroy M{s} {h}")
                elif op == "unset":
                    L.append(f"1 unset M{s} {h} {rng.choice(['A', 'B', 'C', 'AB', 'ABC'])}")
                else:
                    L.append(f"1 {op} M{s} {h} {rng.choice(ks)} {rng.randint(10, 99)}")
            if rng.random() < .5:
                L.append(f"1 full M{s}")
            L.append(f"1 {rng.choice(['drop', 'drop', 'drop', 'dropx'])} M{s}")
            if rng.random() < .4:
                L += [f"1 start R{s} rAll", f"1 full R{s}", f"1 drop R{s}"]
        L += ["1 start Z rAll", "1 full Z", "1 fullp Z", "1 drop Z"]
        out.append(text(f"c{i}", L))
    return out


def C15(c):
    n = scale(c, 220, 4000)
    ops = dict(gset=8, gsetref=4, gmod=6, ggetm=6, gget=7, gprev=6, ghas=4, ghad=4, gunset=8, full=5, fullp=4, copy=1, sub=1, ro=1, dyn=0, uc=0, txid=0)
    run_api(c, [
        lambda: rand_programs(c, n, ops=ops, threads=lambda r: r.choice([1, 2, 3]), length=80, txlen=(3, 14), maxents=4, types=dict(AR=10, WA=4, wG=3, wAGrC=3, wBCH=3, rG=1, rAGH=3, rAll=2, rA=1)),
        lambda: rand_programs(c, scale(c, 60, 800), "s", ops=dict(ops, sub=8, ro=2, copy=1, gget=12, gmod=9, prev=0, get=2), threads=1, length=60, txlen=(6, 16), maxents=2, maxlocks=5,
                              types=dict(AR=6, WA=4, wG=3, wAGrC=2, wBCH=2), derived=("rG", "rAGH", "rAll", "RA", "WA", "wG", "wBCH")),
        gens(c, "g3", ["AR", "WA", "wAGrC", "wG", "rAGH"], ["gset", "ggetm", "gget", "gunset", "ro"], scale(c, 2, 3), scale(c, 600, 25000), "g"),
        gens(c, "g4", ["AR"], ["gset", "ggetm", "gunset", "destroy"], 3, scale(c, 300, 25000), "h"),
    ], X("LIST", "UC", "ID", "OBS"))


def C16(c):
    n = scale(c, 150, 3000)
    ops = dict(watch=2, stopw=.2, poll=1, polla=2, full=1, fullp=.5, copy=0, sub=0, ro=0, dyn=0, uc=0, txid=0, new=8, unset=7, destroy=5, gunset=4, gset=4)
    run_api(c, [
        lambda: rand_programs(c, n, ops=ops, threads=lambda r: r.choice([1, 2]), length=90, txlen=(2, 12), maxtx=20, types=dict(AR=14, WA=2, rAll=2, wA=1, N=1)),
        gens(c, "g2", ["AR"], ["new", "set", "getm", "unset", "destroy", "gset", "gunset", "ggetm"], 2, scale(c, 500, 30000), "g", watch=True),
        gens(c, "g3", ["AR"], ["new", "unset", "destroy", "set"], 3, scale(c, 300, 30000), "d", watch=True),
        lambda: sparse_events(c, scale(c, 60, 1000)),
    ], X("UC", "ID", "LIST"))
    bulk(c, ["random"], 6)


def sparse_events(c, n):
    """Observed commits over storage that is mostly empty, slots being reused."""
    out = []
    for i in range(n):
        rng = random.Random(f"spe{c.seed}.{i}")
        ne = rng.choice([8, 16, 30])
        L = ["1 start L1 AR"] + [f"1 new L1 h{j}" for j in range(ne)] + [f"1 set L1 h{j} {rng.choice('ABC')} {j}" for j in range(ne) if rng.random() < .2] + ["1 drop L1", "1 start L2 AR"] + SETUP_WATCH + ["1 drop L2"]
        hs = [f"h{j}" for j in range(ne)]
        k = ne
        for s in range(rng.randint(2, 5)):
            L.append(f"1 start M{s} AR")
            for _ in range(rng.randint(1, 6)):
                r = rng.random()
                h = rng.choice(hs)
                if r < .3:
                    L.append(f"1 destroy M{s} {h}")
                elif r < .6:
                    L += [f"1 new M{s} h{k}"]
                    hs.append(f"h{k}")
                    k += 1
                    if rng.random() < .6:
                        L.append(f"1 set M{s} h{k - 1} {rng.choice('ABC')} {rng.randint(1, 99)}")
                elif r < .8:
                    L.append(f"1 set M{s} {h} {rng.choice('ABC')} {rng.randint(1, 99)}")
                else:
                    L.append(f"1 unset M{s} {h} {rng.choice(['A', 'B', 'C', 'ABC'])}")
            L.append(f"1 drop M{s}")
            if rng.random() < .6:
                L += [f"1 start P{s} N"] + [f"1 polla P{s} W{x}" for x in "EABCGH"] + [f"1 drop P{s}"]
        L += ["1 start Z rAll"] + [f"1 polla Z W{x}" for x in "EABCGH"] + ["1 full Z", "1 drop Z"]
        out.append(text(f"e{i}", L))
    return out


def C17(c):
    n = scale(c, 300, 5000)
    ops = {k: 0 for k in ("mod", "setref", "getm", "get", "prev", "has", "had", "exists", "existed", "gmod", "ggetm", "gget", "gprev", "ghas", "ghad", "full", "fullp", "copy", "sub", "ro", "dyn", "uc", "txid", "gsetref")}
    ops.update(new=5, destroy=3, set=6, unset=4, gset=2, gunset=2, watch=7, stopw=4, poll=18, polla=2)
    run_api(c, [
        lambda: rand_programs(c, n, ops=ops, threads=lambda r: r.choice([1, 2, 3]), length=110, txlen=(2, 10), maxtx=24, full_end=0, full_next=0, types=dict(AR=12, rAll=4, N=4, wA=2)),
        lambda: rand_programs(c, n // 2, "k", ops=dict(ops, watch=12, stopw=8), threads=1, length=110, txlen=(2, 8), maxtx=24, full_end=0, full_next=0, types=dict(AR=12, N=4)),
        lambda: obs_programs(c),
    ], X("UC", "ID", "LIST", "GLOB"))
    bulk(c, ["random"], 6)


def obs_programs(c):
    """All short interleavings of register/stop/poll of three observers over a fixed chain of commits."""
    out = []
    steps = ["watch A", "watch B", "stop A", "stop B", "poll A", "poll B", "commit"]
    k = 5 if c.quick() else 6
    seqs = list(itertools.product(steps, repeat=k))
    rng = random.Random(f"ob{c.seed}")
    seqs = rng.sample(seqs, 500 if c.quick() else 12000)
    for n, seq in enumerate(seqs):
        kind = rng.choice("EACG")
        L = ["1 start L0 AR", f"1 watch L0 Z {kind}", "1 new L0 h0", "1 set L0 h0 A 1", "1 drop L0", "1 start L1 AR"]
        if rng.random() < .7:
            L += [f"1 watch L1 A {kind}"]
        lock, x = "L1", 1
        for s in seq:
            a = s.split()
            if a[0] == "watch":
                L.append(f"1 watch {lock} {a[1]} {kind}")
            elif a[0] == "stop":
                L.append(f"1 stopw {lock} {a[1]}")
            elif a[0] == "poll":
                L.append(f"1 poll {lock} {a[1]}")
            else:
                L += [f"1 new {lock} h{x}", f"1 set {lock} h{x} {rng.choice('AC')} {x}"] + ([f"1 new {lock} k{x}"] if rng.random() < .5 else []) + [f"1 gset {lock} G {x}" if x % 2 else f"1 gunset {lock} G"]
                if x % 2 == 0:
                    L.append(f"1 destroy {lock} h{x - 1}")
                L.append(f"1 drop {lock}")
                x += 1
                lock = f"L{x}"
                L.append(f"1 start {lock} AR")
        L += [f"1 new {lock} hh", f"1 set {lock} hh A 9", f"1 drop {lock}", "1 start Y N", "1 poll Y A", "1 poll Y Z", "1 polla Y A", "1 polla Y B", "1 polla Y Z", "1 drop Y"]
        out.append(text(f"o{n}", L))
    return out


def C18(c):
    n = scale(c, 220, 4000)
    ops = dict(list=0, get=8, prev=8, set=8, setref=4, mod=5, getm=5, unset=8, destroy=6, destroyv=4, exists=3, existed=3, has=5, had=5, gget=5, gprev=5, gset=3, gmod=3, ggetm=3, full=4, fullp=2,
               copy=.5, sub=2, ro=1, dyn=0, uc=0, txid=0)
    run_api(c, [
        lambda: rand_programs(c, n, ops=ops, bad=.55, insts=lambda r: r.choice([1, 2]), threads=lambda r: r.choice([1, 2]), length=90, txlen=(5, 20)),
        gens(c, "g1", ["AR", "WA", "wA", "wAB", "rAll", "wAGrC", "rA"], ["set", "mod", "getm", "get", "prev", "unset", "destroy", "gset", "ggetm", "gget"], 1, None, "a",
             extra=["far", "max", "near", "h1^", "h1~", "h1-", "h2+", "h0~"]),
        gens(c, "g2", ["AR", "WA", "wA"], ["set", "getm", "get", "prev", "unset", "destroy", "new"], 2, scale(c, 400, 30000), "b", extra=["far", "h1^", "h1~"]),
    ], X("LIST", "UC", "ID", "OBS"))


def C19(c):
    n = scale(c, 220, 4000)
    ops = dict(copy=8, sub=8, ro=5, dyn=3, uc=5, txid=3, full=4, list=0, **{"try": 3})
    run_api(c, [
        lambda: rand_programs(c, n, ops=ops, threads=lambda r: r.choice([1, 2, 3]), length=80, txlen=(5, 18), maxlocks=7, cross=lambda r: r.choice([0, 0.3, 0.5])),
        lambda: derive_programs(c),
    ], X("LIST", "OBS"))


def derive_programs(c):
    """Every derivation of locks to depth 3 with every order of releases."""
    out = []
    progs = gen_programs(c, "g2", ["AR", "WA", "wA", "wAGrC", "rA"], ["copy", "ro", "sub"], 2, maxlocks=3)
    rng = random.Random(f"der{c.seed}")
    n = 0
    for p in progs:
        locks = ["L10"] + [x.split()[3] for x in p if x.split()[1] in ("copy", "ro", "sub")]
        for perm in itertools.permutations(locks):
            L = list(p)
            for i, x in enumerate(L):
                if x.startswith("1 start L10"):
                    ty = x.split()[3]
            w = TYPES[ty][1]
            L += ["1 set L10 h1 A 77"] if "A" in w else []
            L += [f"1 full {l}" for l in locks] + [f"1 uc {locks[0]}"]
            left = list(perm)
            # nobody who conflicts can get in before the last one is gone; on release everything is committed once
            for d in perm:
                L.append(f"1 drop {d}")
                left.remove(d)
                if left:
                    L += [f"1 uc {left[0]}", f"1 txid {left[-1]}", f"1 full {left[0]}"]
            L += ["1 start L90 AR", "1 full L90", "1 uc L90", "1 drop L90"]
            n += 1
            out.append(text(f"v{n}", L))
    return rng.sample(out, min(len(out), 500 if c.quick() else 8000))


def C20(c):
    n = scale(c, 120, 3000)
    ops = dict(copy=3, sub=5, ro=4, dyn=8, full=4, fullp=1, list=0, uc=2, txid=2, **{"try": 10})
    run_api(c, [
        lambda: rand_programs(c, n, ops=ops, threads=lambda r: r.choice([1, 2]), length=80, txlen=(5, 18), maxlocks=8),
        lambda: dyn_programs(c, 260 if c.quick() else None),
    ], X("LIST", "OBS", "ID"))


def dyn_programs(c, limit=None, names=tuple(TYPES)):
    """Every (transaction, lock it is made from, dynamic type, requested type)."""
    out = []
    n = 0
    rng = random.Random(f"dyn{c.seed}")
    for ty in names:
        for via in ["", "ro", *names]:
            if via in names and not covers(TYPES[ty], TYPES[via]) or via == ty:
                continue
            src = TYPES[ty] if via == "" else (TYPES[ty][0], "", False) if via == "ro" else TYPES[via]
            for d, p in enumerate(DYN):
                if not covers(src, p):
                    continue
                req = names
                L = ["1 start L1 AR", "1 new L1 h1", "1 set L1 h1 A 1", "1 set L1 h1 B 2", "1 gset L1 G 3", "1 drop L1", f"1 start L2 {ty}"]
                L += ["1 set L2 h1 A 5"] if "A" in TYPES[ty][1] else ["1 gset L2 G 6"] if "G" in TYPES[ty][1] else []
                l = "L2"
                if via:
                    l = "L3"
                    L.append(f"1 ro L2 L3" if via == "ro" else f"1 sub L2 L3 {via}")
                L.append(f"1 dyn {l} D {d}")
                if rng.random() < .3:
                    L.append("1 copy D D2")
                for q, r in enumerate(req):
                    L.append(f"1 try D T{q} {r}")
                    L += [f"1 full T{q}", f"1 fullp T{q}"] if rng.random() < .3 else []
                    if "A" in TYPES[r][1] and rng.random() < .5:
                        L += [f"1 set T{q} h1 A {q + 10}"]
                    if TYPES[r][2] and rng.random() < .5:
                        L += [f"1 new T{q} h{q + 20}"]
                    L += ["1 uc L2", f"1 drop T{q}"]
                L += ["1 full L2", "1 full D", "1 drop D", "1 drop D2", "1 drop L3", "1 drop L2", "1 start L90 rAll", "1 full L90", "1 drop L90"]
                n += 1
                out.append(text(f"q{n}", L))
    return rng.sample(out, min(len(out), limit)) if limit else out


def C22(c):
    n = scale(c, 150, 3000)
    ops = dict(NOGLOB, txid=10, copy=4, sub=4, ro=3, dyn=2, new=8, set=2, full=0, fullp=0, uc=0, **{"try": 2})
    run_api(c, [
        lambda: rand_programs(c, n, ops=ops, threads=lambda r: r.choice([1, 2, 4]), insts=lambda r: r.choice([1, 2, 4]), length=90, txlen=(1, 6), maxtx=40, full_end=0, full_next=0),
        lambda: newinst_programs(c, scale(c, 30, 300)),
        lambda: life_programs(c, scale(c, 60, 800)),
        lambda: par_ids(c, scale(c, 24, 300)),
    ], X("LIST", "GLOB", "UC", "OBS"))
    bulk(c, ["ids"])


def par_ids(c, n):
    out = []
    for i in range(n):
        rng = random.Random(f"pid{c.seed}.{i}")
        th, insts = rng.choice([2, 3, 4]), rng.choice([1, 2, 3])
        L = []
        for t in range(1, th + 1):
            for k in range(3):
                L += [f"{t} start L{t}_{k} {rng.choice(['AR', 'rA', 'wA', 'N', 'wB', 'rAll'])} {rng.randrange(insts)}", f"{t} txid L{t}_{k}"]
                if rng.random() < .3:
                    L += [f"{t} copy L{t}_{k} M{t}_{k}", f"{t} drop L{t}_{k}", f"{t} txid M{t}_{k}", f"{t} drop M{t}_{k}"]
                else:
                    L += [f"{t} drop L{t}_{k}"]
        out.append(f"prog i{i} threads={th} insts={insts} runs={30 if c.quick() else 200} strat=mix seed={i + c.seed * 1000}\npar\n" + "\n".join(L) + "\nend\n")
    return out


REFOPS = {"get", "getm", "mod", "prev", "set", "setref", "gget", "ggetm", "gmod", "gprev", "gset", "gsetref"}


def keep_refs(progs, seed, keep=.6, look=.3, write=.15):
    """The same programs, with the references that operations yield kept, looked at and written through later."""
    out = []
    for n, p in enumerate(progs):
        rng = random.Random(f"refs{seed}.{n}")
        L, rs, lock_of, mine = [], [], {}, {}
        for line in p.split("\n"):
            w = line.split()
            if len(w) < 3 or not w[0].isdigit():
                L.append(line)
                continue
            t, op, l = w[:3]
            if op in ("drop", "dropx"):
                L.append(f"{t} derefall {l}")
            if op in REFOPS and rng.random() < keep:
                r = f"R{len(rs)}"
                if mine.get(t) and rng.random() < .1:
                    r = rng.choice(mine[t])       # a variable that is used again
                else:
                    rs.append(r)
                    mine.setdefault(t, []).append(r)
                lock_of.setdefault((t, l), []).append(r)
                L.append(f"{t} as {r} {' '.join(w[1:])}")
            else:
                L.append(line)
            if op in ("start", "drop", "dropx", "dropall", "dropany"):
                continue
            if rng.random() < write and lock_of.get((t, l)):
                L.append(f"{t} wref {rng.choice(lock_of[t, l])} {rng.randint(1, 99)}")
            if rng.random() < look:
                L.append(f"{t} derefall {l}")
        out.append("\n".join(L))
    return out


def C28(c):
    import conc
    q = c.quick()
    ops = dict(set=10, setref=5, mod=5, getm=6, get=8, prev=5, unset=3, destroy=3, destroyv=1, new=3, gset=3, gsetref=2, gmod=2, ggetm=3, gget=3, gprev=2, gunset=1, ghas=0, ghad=0, has=0, had=0, exists=0, existed=0,
               full=2, fullp=1, list=.3, view=0, via=0, copy=2, sub=3, ro=2, dyn=.3, uc=0, txid=0)
    k = lambda f, **kw: (lambda: keep_refs(f(), c.seed, **kw))
    run_api(c, [
        k(lambda: rand_programs(c, scale(c, 200, 4000), ops=ops, bad=.05, threads=lambda r: r.choice([1, 2, 3]), length=90, txlen=(4, 30), maxlocks=4, maxents=lambda r: r.choice([2, 4, 8]),
                                types=dict(AR=8, WA=6, wA=2, wB=1, wAB=4, wABCra=4, wArB=3, rAwB=2, wAGrC=3, rAll=2, rA=1, RA=1))),
        k(gens(c, "g2", ["WA", "wA", "wABCra", "wAGrC"], ["get", "getm", "set", "mod", "gset", "ggetm", "ro", "sub"], 2, scale(c, 200, 8000), "w"), keep=1, write=.4, look=.5),
        k(gens(c, "g3", ["AR"], ["getm", "set", "unset", "destroy", "gset", "gunset", "sub", "ro"], 2, scale(c, 300, 12000), "g"), keep=1, write=.4, look=.5),
        k(gens(c, "g4", ["AR"], ["set", "unset", "destroy"], 3, scale(c, 100, 12000), "h"), keep=1, write=.4, look=.5),
        k(lambda: conc.par_programs(c, 24 if q else 300, "p", look=.4, runs=12 if q else 100, dp=1)),
        k(lambda: conc.par_programs(c, 10 if q else 60, "s", threads=(2, 2), txs=(1, 1), nops=(1, 3), look=.5, strat="sys:2:%d" % (60 if q else 3000), types=dict(AR=3, WA=3, rAll=4, RA=2, wAB=3, rAB=2)), keep=1),
        k(lambda: conc.glob_programs(c, 6 if q else 60, "G", runs=16 if q else 100, strat="mix", dp=1), keep=1),
    ], X("LIST", "UC", "ID", "OBS"))
