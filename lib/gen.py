"""Random programs for the driver.  A program is a list of script lines; generation follows a rough model of the state so
that most operations are meaningful; the specification, not this model, decides what must happen."""
import random

TYPES = {  # name: (read, write, add/remove)
    "AR": ("ABCGH", "ABCGH", True), "WA": ("ABCGH", "ABCGH", False), "RA": ("ABCGH", "", False), "N": ("", "", False),
    "rA": ("A", "", False), "wA": ("A", "A", False), "rB": ("B", "", False), "wB": ("B", "B", False), "rAB": ("AB", "", False),
    "wArB": ("AB", "A", False), "rAwB": ("AB", "B", False), "wAB": ("AB", "AB", False), "rC": ("C", "", False),
    "wC": ("C", "C", False), "rG": ("G", "", False), "wG": ("G", "G", False), "wAGrC": ("ACG", "AG", False),
    "rAGH": ("AGH", "", False), "wBCH": ("BCH", "BCH", False), "rAll": ("ABCGH", "", False), "wABCra": ("ABCGH", "ABC", False),
}
DYN = [("", "", False), ("A", "", False), ("A", "A", False), ("ABCGH", "ABCGH", False), ("BCG", "CG", False)]


def conflict(a, b):
    return bool(set(a[1]) & set(b[1])) or (a[2] and (b[2] or b[1])) or (b[2] and a[1])


def covers(a, b):
    return set(b[0]) <= set(a[0]) and set(b[1]) <= set(a[1]) and (a[2] or not b[2])


def pick(rng, weights):
    items = [k for k, w in weights.items() if w > 0]
    return rng.choices(items, [weights[k] for k in items])[0]


class Lk:
    def __init__(self, name, x, perm, live, dyn=False, dperm=None):
        self.name, self.x, self.perm, self.live, self.dyn, self.dperm = name, x, perm, live, dyn, dperm


class Tx:
    def __init__(self, t, inst, perm):
        self.t, self.inst, self.perm, self.locks, self.views, self.ops = t, inst, perm, [], [], 0


BASE_OPS = dict(new=6, set=10, setref=2, mod=6, getm=3, get=5, prev=3, has=3, had=2, exists=2, existed=1, unset=5, destroy=2, destroyv=1,
                gset=2, gsetref=1, gmod=2, ggetm=1, gget=2, gprev=1, ghas=1, ghad=1, gunset=2, full=5, fullp=3, list=0, view=0, via=0,
                copy=1, sub=1, ro=1, dyn=0.5, uc=0.5, txid=0.5, watch=0, stopw=0, poll=0, polla=0)
BASE_TYPES = dict(AR=10, WA=3, RA=2, N=0.5, wA=2, wB=1, wAB=2, wArB=1, rAwB=1, wC=1, wG=1, wAGrC=1, wBCH=1, wABCra=2, rAll=3, rAGH=1, rAB=1)


class Gen:
    def __init__(self, rng, threads=2, insts=1, length=60, ops=None, types=None, bad=0.1, maxents=8, txlen=(3, 14), full_end=0.4,
                 full_next=0.5, parallel=0.35, maxlocks=4, cross=0.0, check_noop=0.0, maxtx=12, order="any", derived=tuple(TYPES)):
        self.rng = rng
        self.__dict__.update(threads=threads, insts=insts, length=length, bad=bad, maxents=maxents, txlen=txlen, full_end=full_end,
                             full_next=full_next, parallel=parallel, maxlocks=maxlocks, cross=cross, maxtx=maxtx, order=order, derived=derived)
        self.ops = dict(BASE_OPS)
        self.ops.update(ops or {})
        self.types = dict(types or BASE_TYPES)
        self.lines, self.open = [], {}
        self.ents = [dict() for _ in range(insts)]   # handle -> set of components (rough)
        self.dead = [[] for _ in range(insts)]
        self.globs = [set() for _ in range(insts)]
        self.obs = [[] for _ in range(insts)]
        self.nh = self.nl = self.nv = self.no = self.nx = 0
        self.tainted = set()
        self.blocked = {}

    def emit(self, t, *a):
        self.lines.append(f"{t} " + " ".join(str(x) for x in a))

    def val(self):
        return self.rng.choice([1, 2, 3, 5, 8, 13, 21, 42, 99])

    def start(self, t, inst=None, typ=None):
        rng = self.rng
        inst = rng.randrange(self.insts) if inst is None else inst
        # Transactions of one thread on several instances could deadlock with another thread's (user error)
        if self.threads > 1 and any(ot == t and oi != inst for ot, oi in self.open):
            return None
        for _ in range(6):
            ty = typ or pick(rng, self.types)
            p = TYPES[ty]
            if (t, inst) in self.tainted or (t, inst) in self.open:
                return None
            if not any(conflict(p, o.perm) for (ot, oi), o in self.open.items() if oi == inst):
                break
        else:
            return None
        self.nl += 1
        self.nx += 1
        n = f"L{self.nl}"
        x = Tx(t, inst, p)
        x.locks = [Lk(n, x, p, True)]
        self.emit(t, "start", n, ty, *([inst] if inst else []))
        self.open[(t, inst)] = x
        x.left = rng.randint(*self.txlen)
        return x

    def end(self, x, before_full=None):
        rng = self.rng
        if rng.random() < self.full_end:
            self.emit(x.t, "full", x.locks[0].name)
        ls = list(x.locks)
        if self.order == "any":
            rng.shuffle(ls)
        last = ls[-1]
        for l in ls:
            t = x.t
            if self.threads > 1 and rng.random() < self.cross:
                free = [u for u in range(1, self.threads + 1) if u != x.t and (u, x.inst) not in self.open]
                if free:
                    t = rng.choice(free)
                    if l is last:
                        self.tainted.add((x.t, x.inst))
            self.emit(t, "dropx" if rng.random() < 0.1 else "drop", l.name)
            x.locks.remove(l)
            if l is not last and rng.random() < 0.3:
                k = rng.choice(x.locks)
                self.emit(x.t, rng.choice(["uc", "txid", "full"]), k.name)
        del self.open[(x.t, x.inst)]

    def handle(self, inst, want=None):
        """An entity expression; want: prefer an entity with that component."""
        rng = self.rng
        r = rng.random()
        if r < self.bad:
            c = rng.random()
            others = [h for i in range(self.insts) if i != inst for h in self.ents[i]]
            if c < 0.15:
                return rng.choice(["null", "far", "max", "near"])
            if c < 0.35 and others:
                return rng.choice(others)
            if c < 0.65 and self.dead[inst]:
                return rng.choice(self.dead[inst])
            if self.ents[inst]:
                return rng.choice(sorted(self.ents[inst])) + rng.choice("~-^+~^")
            return "null"
        e = self.ents[inst]
        if not e:
            return rng.choice(self.dead[inst]) if self.dead[inst] and rng.random() < 0.5 else None
        if want and rng.random() < 0.75:
            c = [h for h in sorted(e) if want in e[h]]
            if c:
                return rng.choice(c)
        return rng.choice(sorted(e))

    def entity_expr(self, x, want=None):
        rng = self.rng
        live = [v for v in x.views]
        if live and rng.random() < self.ops["via"] / 10.0:
            return f"{rng.choice(live)}[{rng.randrange(6)}]"
        return self.handle(x.inst, want)

    def derive(self, x, op):
        rng = self.rng
        if len(x.locks) >= self.maxlocks:
            return
        src = rng.choice(x.locks)
        self.nl += 1
        n = f"L{self.nl}"
        if op == "copy":
            self.emit(x.t, "copy", src.name, n)
            x.locks.append(Lk(n, x, src.perm, src.live, src.dyn, src.dperm))
        elif op == "ro":
            self.emit(x.t, "ro", src.name, n)
            x.locks.append(Lk(n, x, (src.perm[0], "", False), False))
        elif op == "sub":
            c = [k for k in self.derived if covers(src.perm, TYPES[k])]
            if c:
                k = rng.choice(c)
                self.emit(x.t, "sub", src.name, n, k)
                x.locks.append(Lk(n, x, TYPES[k], src.live))
        elif op == "dyn":
            c = [i for i, p in enumerate(DYN) if covers(src.perm, p) and not src.dyn]
            if c:
                i = rng.choice(c)
                self.emit(x.t, "dyn", src.name, n, i)
                d = Lk(n, x, DYN[i], src.live, True, src.perm)
                x.locks.append(d)
                self.trylock(x, d)
        elif op == "try":
            ds = [l for l in x.locks if l.dyn]
            if ds:
                self.trylock(x, rng.choice(ds))

    def trylock(self, x, d):
        rng = self.rng
        self.nl += 1
        n = f"L{self.nl}"
        k = rng.choice(self.derived)
        self.emit(x.t, "try", d.name, n, k)
        must = covers(d.dperm, TYPES[k])
        if must and (d.live or not TYPES[k][1]):
            x.locks.append(Lk(n, x, TYPES[k], d.live))
        else:
            # may or may not exist: use it for an observation only (skipped if it does not) and drop it
            self.emit(x.t, "full", n)
            self.emit(x.t, "drop", n)

    def op(self, x):
        rng = self.rng
        inst, t = x.inst, x.t
        o = pick(rng, {k: v for k, v in self.ops.items() if k not in ("via",)})
        L = rng.choice(x.locks)
        if rng.random() < 0.5:
            L = x.locks[0]
        r, w, ar = L.perm
        ents = self.ents[inst]
        if o in ("copy", "ro", "sub", "dyn", "try"):
            return self.derive(x, o)
        if o == "new":
            if ar and len(ents) < self.maxents:
                self.nh += 1
                h = f"h{self.nh}"
                self.emit(t, "new", L.name, h)
                ents[h] = set()
                if rng.random() < 0.6:
                    c = rng.choice("ABC")
                    self.emit(t, "set", L.name, h, c, self.val())
                    ents[h].add(c)
            return
        if o in ("uc", "txid", "full", "fullp"):
            return self.emit(t, o, L.name)
        if o == "list":
            self.nv += 1
            v = f"V{self.nv % 5}"
            self.emit(t, "list", L.name, v, rng.choice("EABC"), 1 if rng.random() < 0.25 else 0)
            for y in self.open.values():
                if v in y.views:
                    y.views.remove(v)
            x.views.append(v)
            return
        if o == "view":
            if x.views:
                self.emit(t, "view", L.name, rng.choice(x.views))
            return
        if o == "watch":
            if ar:
                self.no += 1
                n = f"O{self.no}"
                self.emit(t, "watch", L.name, n, rng.choice("EABCGHEA"))
                self.obs[inst].append(n)
            return
        if o == "stopw":
            if ar and self.obs[inst]:
                self.emit(t, "stopw", L.name, rng.choice(self.obs[inst]))
            return
        if o in ("poll", "polla"):
            if self.obs[inst] and rng.random() < 0.97:
                self.emit(t, o, L.name, rng.choice(self.obs[inst]))
            else:
                self.emit(t, o, L.name, f"none{inst}")
            return
        if o[0] == "g" and o not in ("get", "getm"):
            c = rng.choice("GH")
            if o in ("ghas", "ghad"):
                return self.emit(t, o, L.name, rng.choice(["G", "H", "GH"]))
            if o in ("gget", "gprev", "ggetm"):
                return self.emit(t, o, L.name, c) if c in r else None
            if o == "gunset":
                return self.emit(t, o, L.name, rng.choice(["G", "H", "GH"])) if ar else None
            return self.emit(t, o, L.name, c, self.val()) if c in w else None
        # entity operations
        if o in ("destroy", "destroyv", "unset"):
            if not ar or (o != "unset" and len(ents) <= 1 and rng.random() < 0.7):
                return
            h = self.entity_expr(x)
            if h is None:
                return
            if o == "unset":
                cs = rng.choice(["A", "B", "C", "AB", "BC", "ABC"])
                self.emit(t, o, L.name, h, cs)
                if h in ents:
                    ents[h] -= set(cs)
            else:
                self.emit(t, o, L.name, h)
                if h in ents:
                    del ents[h]
                    self.dead[inst].append(h)
            return
        if o in ("exists", "existed"):
            h = self.entity_expr(x)
            return self.emit(t, o, L.name, h) if h else None
        if o in ("has", "had"):
            h = self.entity_expr(x)
            return self.emit(t, o, L.name, h, rng.choice(["A", "B", "C", "AB", "BC", "ABC"])) if h else None
        c = rng.choice("ABC")
        if o in ("get", "prev", "getm"):
            if c not in r:
                return
            h = self.entity_expr(x, c)
            return self.emit(t, o, L.name, h, c) if h else None
        if c not in w:
            return
        h = self.entity_expr(x, None if ar else c)
        if h is None:
            return
        self.emit(t, o, L.name, h, c, self.val())
        if h in ents and (ar or c in ents[h]):
            ents[h].add(c)

    def program(self, name, **hdr):
        rng = self.rng
        self.lines = []
        steps = 0
        # most programs start with some content
        if rng.random() < 0.9:
            for i in range(self.insts):
                x = self.start(1, i, "AR")
                for _ in range(rng.randint(1, max(1, self.maxents - 2))):
                    self.nh += 1
                    h = f"h{self.nh}"
                    self.emit(1, "new", x.locks[0].name, h)
                    self.ents[i][h] = set()
                    for c in "ABC":
                        if rng.random() < 0.45:
                            self.emit(1, "set", x.locks[0].name, h, c, self.val())
                            self.ents[i][h].add(c)
                for g in "GH":
                    if rng.random() < 0.4:
                        self.emit(1, "gset", x.locks[0].name, g, self.val())
                self.end(x)
        while steps < self.length:
            steps += 1
            if not self.open or (rng.random() < 0.25 * self.parallel and len(self.open) < self.threads * self.insts):
                if self.nx >= self.maxtx and not self.open:
                    break
                if self.nx < self.maxtx:
                    x = self.start(rng.randint(1, self.threads))
                    if x and rng.random() < self.full_next:
                        self.emit(x.t, rng.choice(["full", "full", "fullp"]), x.locks[0].name)
                    if not x and not self.open:
                        break
                    continue
            x = rng.choice([self.open[k] for k in sorted(self.open)])
            x.left -= 1
            if x.left <= 0:
                self.end(x)
            else:
                self.op(x)
        for x in [self.open[k] for k in sorted(self.open)]:
            self.end(x)
        # a last look
        for i in range(self.insts):
            free = [t for t in range(1, self.threads + 1) if (t, i) not in self.tainted]
            if free:
                x = self.start(free[0], i, "rAll")
                self.emit(x.t, "full", x.locks[0].name)
                self.emit(x.t, "fullp", x.locks[0].name)
                for o in self.obs[i]:
                    self.emit(x.t, "polla", x.locks[0].name, o)
                self.end(x)
        h = f"prog {name} threads={self.threads} insts={self.insts}" + "".join(f" {k}={v}" for k, v in hdr.items())
        return "\n".join([h, "seq"] + self.lines + ["end", ""])
