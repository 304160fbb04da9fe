"""C27: what the compiler makes of programs over lock types.  TLC (MCPerm.tla) enumerates the permission lists, the C++ text
of each use is generated, and TLC (TracePerm.tla) judges which uses compile and what the traits of the lock types are."""
import json, os, random, re
from concurrent.futures import ThreadPoolExecutor
import vlib, misc

PRE = """#include <Tecs.hh>
#include <cstdio>
#include <string>
struct A { int x; A(int v = 0) : x(v) {} };
struct B { int x; B(int v = 0) : x(v) {} };
struct G { int x; G(int v = 0) : x(v) {} };
template<int> struct XX { int x; XX(int v = 0) : x(v) {} };    // not a component; another one for every use, so that no error is shared
TECS_GLOBAL_COMPONENT(G);
using namespace Tecs;
using W = ECS<%s>;
"""


def cxx(lst):
    """C++ text of a permission list."""
    k = {"RA": "ReadAll", "WA": "WriteAll", "AR": "AddRemove"}
    return ", ".join({"R": "Read", "W": "Write"}.get(x[0], k.get(x[0])) + ("<" + ", ".join(x[1:]) + ">" if x[0] in "RW" else "") for x in lst)


def lock(lst, dyn=False):
    return ("Dynamic" if dyn else "") + "Lock<W" + ("," if lst else "") + " " + cxx(lst) + ">"


TRAITS = """
template<typename T, typename L, template<typename, typename> class F> static std::string V() {
    return std::to_string((int)F<T, L>::value);
}
template<typename C, typename L, typename D, template<typename, typename> class F> static std::string Vs() {
    return "[" + V<C, L, F>() + "," + V<C, const L, F>() + "," + V<C, D, F>() + "," + V<C, const D, F>() + "]";
}
template<typename L> struct Perms;
template<typename... P> struct Perms<Lock<W, P...>> {
    using D = DynamicLock<W, P...>;
    template<typename L> static constexpr bool Has() { return L::template has_permissions<P...>(); }
};
template<typename L, typename... Q> static std::string Row(int what) {
    std::string r = "[";
    ((r += (r.size() > 1 ? "," : "") + std::string((what == 0 ? std::is_convertible_v<L, Q> : what == 1 ? std::is_convertible_v<const typename Perms<L>::D, Q>
        : Perms<Q>::template Has<L>()) ? "1" : "0")), ...);
    return r + "]";
}
template<typename L> static void Show(const char *p) {
    using D = typename Perms<L>::D;
    std::string r, w, sr, sw;
    using RO = decltype(std::declval<const L &>().ReadOnlySubset());
    auto add = [&](std::string c, std::string a, std::string b, bool x, bool y) {
        r += (r.empty() ? "" : ",") + ("\\"" + c + "\\":") + a;
        w += (w.empty() ? "" : ",") + ("\\"" + c + "\\":") + b;
        sr += (sr.empty() ? "" : ",") + ("\\"" + c + "\\":") + (x ? "1" : "0");
        sw += (sw.empty() ? "" : ",") + ("\\"" + c + "\\":") + (y ? "1" : "0");
    };
    %s
    printf("{\\"k\\":\\"trait\\",\\"p\\":%%s,\\"r\\":{%%s},\\"w\\":{%%s},\\"a\\":[%%d,%%d,%%d,%%d]}\\n", p, r.c_str(), w.c_str(), (int)is_add_remove_allowed<L>::value,
        (int)is_add_remove_allowed<const L>::value, (int)is_add_remove_allowed<D>::value, (int)is_add_remove_allowed<const D>::value);
    printf("{\\"k\\":\\"ro\\",\\"p\\":%%s,\\"r\\":{%%s},\\"w\\":{%%s},\\"a\\":%%d}\\n", p, sr.c_str(), sw.c_str(), (int)is_add_remove_allowed<RO>::value);
}
template<typename L, typename... Q> static void Matrix(const char *p) {
    printf("{\\"k\\":\\"matrix\\",\\"p\\":%%s,\\"conv\\":%%s,\\"dconv\\":%%s,\\"perm\\":%%s}\\n", p, Row<L, Q...>(0).c_str(), Row<L, Q...>(1).c_str(), Row<L, Q...>(2).c_str());
}
"""


def trait_source(comps, rows, cols):
    add = "\n    ".join(f'add("{c}", Vs<{c}, L, D, is_read_allowed>(), Vs<{c}, L, D, is_write_allowed>(), is_read_allowed<{c}, RO>::value, is_write_allowed<{c}, RO>::value);' for c in comps)
    s = PRE % ", ".join(comps) + TRAITS % add
    s += "template<typename L> static void M(const char *p) {\n    Matrix<L, " + ",\n        ".join(lock(q) for q in cols) + ">(p);\n}\n"
    s += "int main() {\n" + f"    puts({json.dumps(json.dumps(dict(k='prog', p='traits', lists=cols)))});\n"
    for p in rows:
        t = json.dumps(json.dumps(p, separators=(",", ":")))
        s += f"    Show<{lock(p)}>({t}); M<{lock(p)}>({t});\n"
    return s + "}\n"


# ---------------------------------------------------------------------------------------- uses
def use(o, cs, q, L, i):
    """The statement for an operation with a lock `l` of type L, an entity `e` and a constant one `ce`."""
    t = ", ".join(f"XX<{i}>" if x == "X" else x for x in cs)
    ev = f"ComponentEvent<{t}>" if cs else "EntityEvent"
    Q = cxx(q)
    ql = "Lock<W" + (", " + Q if Q else "") + ">"
    ent = {"get": f"auto &r = ce.Get<{t}>(l); (void)r;", "getc": f"const {t} &r = ce.Get<const {t}>(l); (void)r;", "getm": f"ce.Get<{t}>(l).x = 1;",
           "getcm": f"ce.Get<const {t}>(l).x = 1;", "getx": f"ce.Get<{t}, {L}, {t}>(l).x = 1;", "prev": f"(void)ce.GetPrevious<{t}>(l);",
           "prevm": f"ce.GetPrevious<{t}>(l).x = 1;", "set": f"{t} &r = ce.Set<{t}>(l, 1); (void)r;", "setref": f"{t} v(1); {t} &r = ce.Set<{t}>(l, v); (void)r;",
           "setnone": f"ce.Set<{t}>(l);", "unset": f"ce.Unset<{t}>(l);", "has": f"(void)ce.Has<{t}>(l);", "had": f"(void)ce.Had<{t}>(l);"}
    glo = {"g" + k: v.replace("ce.", "l.").replace("(l, ", "(").replace("(l)", "()").replace(f"{t}, {L}, {t}", f"{t}, {t}") for k, v in ent.items()}
    other = {"list": f"(void)l.template EntitiesWith<{t}>();", "listprev": f"(void)l.template PreviousEntitiesWith<{t}>();", "watch": f"auto ob = l.template Watch<{ev}>(); (void)ob;",
             "stop": f"Observer<W, {ev}> ob; l.StopWatching(ob);", "obsstop": f"Observer<W, {ev}> ob; ob.Stop(l);", "poll": f"Observer<W, {ev}> ob; {ev} v; (void)ob.Poll(l, v);",
             "new": "Entity n = l.NewEntity(); (void)n;", "destroy": "e.Destroy(l);", "destroyc": "ce.Destroy(l);", "exists": "(void)ce.Exists(l);", "existed": "(void)ce.Existed(l);",
             "entrydestroy": "for (auto &n : l.Entities()) n.Destroy(l);", "entryunset": f"for (auto &n : l.template EntitiesWith<{t}>()) n.Unset<{t}>(l);",
             "entities": "(void)l.Entities();", "prevs": "(void)l.PreviousEntities();", "copy": f"{L} m(l); (void)m;", "uc": "(void)l.UseCount();", "inst": "W &w = l.GetInstance(); (void)w;",
             "conv": f"{ql} m = l; (void)m;", "arg": f"Take<{ql}>(l);", "subset": f"{ql} m = l.template Subset<{Q}>(); (void)m;", "dyn": f"Dynamic{ql} m(l); (void)m;",
             "try": f"auto m = l.template TryLock<{Q}>(); (void)m;", "trytype": f"std::optional<{ql}> m = l.template TryLock<{Q}>(); (void)m;"}
    return ent.get(o) or glo.get(o) or other[o]


def operations(comps, lists, dyn):
    """All (operation, components, permissions asked for)."""
    r = []
    for o in ["get", "getc", "getm", "getcm", "getx", "prev", "prevm", "set", "setref", "setnone", "unset", "has", "had"]:
        r += [(o, [c], []) for c in comps + ["X"]] + [("g" + o, [c], []) for c in comps + ["X"]]
    for o in ["unset", "has", "had"]:
        for cs in (["A", "G"], ["G", "A"], ["A", "X"]) + ((["A", "B"],) if "B" in comps else ()):
            r += [(o, cs, []), ("g" + o, cs, [])]
    for o in ["list", "listprev", "watch", "stop", "obsstop", "entryunset"]:
        r += [(o, [c], []) for c in comps + ["X"]]
    r += [("poll", [c], []) for c in comps]
    for o in ["watch", "stop", "obsstop", "poll", "new", "destroy", "destroyc", "entrydestroy", "exists", "existed", "entities", "prevs", "copy", "uc", "inst"]:
        r += [(o, [], [])]
    for q in lists:
        r += [(o, [], q) for o in ["conv", "arg", "subset", "dyn"] + (["try", "trytype"] if dyn else [])]
    return r


def compiles(pre, snippets, tmp, name, cmd):
    """Which of the snippets (functions of one line each) compile, decided by repeated runs of the compiler: a run blames
    every error on the line that asked for it, and the last run, with the lines that are left, has no error."""
    left = dict(enumerate(snippets))
    for n in range(60):
        src = os.path.join(tmp, f"{name}.cc")
        lines = pre.split("\n")
        at = {}
        for i, s in left.items():
            lines.append(s)
            at[len(lines)] = i
        with open(src, "w") as f:
            f.write("\n".join(lines) + "\n")
        r = vlib.run(cmd + [src], 600)
        if r.returncode == 0:
            return set(left)
        bad = {at[int(m.group(1))] for m in re.finditer(r"(?m)%s:(\d+):" % re.escape(src), r.stdout) if int(m.group(1)) in at}
        if not bad:
            raise vlib.MachineryError("errors that belong to no use:\n" + r.stdout[:3000])
        for i in bad:
            del left[i]
    raise vlib.MachineryError("the compiler keeps finding errors")


CLANG = ["clang++", "-std=c++17", "-fsyntax-only", "-w", "-ferror-limit=0", "-ftemplate-backtrace-limit=0", "-fno-caret-diagnostics"]
GCC = ["g++", "-std=c++20", "-fsyntax-only", "-w", "-fmax-errors=0", "-ftemplate-backtrace-limit=0", "-fno-diagnostics-show-caret"]


def uses(c, comps, ps, qs, tag, cmd, groups):
    """Compiles every operation with every lock type; returns the trace files."""
    pre = PRE % ", ".join(comps) + "template<typename L> void Take(L l);\n"
    cases = [(o, cs, q, p, d) for d in (0, 1) for o, cs, q in operations(comps, qs, d) for p in ps]
    random.Random(c.seed).shuffle(cases)
    todo = [cases[i::groups] for i in range(groups)]

    def one(k):
        sn = [f"void f{i}(const {lock(p, d)} &l, Entity &e, const Entity &ce) {{ {use(o, cs, q, lock(p, d), i)} }}" for i, (o, cs, q, p, d) in enumerate(todo[k])]
        ok = compiles(pre, sn, c.dir, f"{tag}{k}", cmd + [f"-I{vlib.REPO}/inc"])
        path = c.path(f"{tag}{k}.ndjson")
        with open(path, "w") as f:
            f.write(json.dumps(dict(k="prog", p=f"{tag}{k}", lists=[])) + "\n")
            for i, (o, cs, q, p, d) in enumerate(todo[k]):
                f.write(json.dumps(dict(k="op", o=o, cs=cs, q=q, p=p, dyn=d, ok=int(i in ok), text=sn[i])) + "\n")
        return path, len(ok)
    with ThreadPoolExecutor(vlib.CORES) as ex:
        r = list(ex.map(one, range(groups)))
    c.runs += len(cases)
    c.extra[f"uses_{tag}"] = len(cases)
    c.extra[f"uses_{tag}_compiled"] = sum(x[1] for x in r)
    return [x[0] for x in r]


def traits(c, comps, lists, tag, cxxc, std, groups):
    def one(k):
        src, exe = c.path(f"{tag}{k}.cc"), c.path(f"{tag}{k}.exe")
        with open(src, "w") as f:
            f.write(trait_source(comps, lists[k::groups], lists))
        r = vlib.run([cxxc, f"-std={std}", "-O0", "-w", f"-I{vlib.REPO}/inc", "-DTECS_HEADER_ONLY", src, "-o", exe], 600)
        if r.returncode:
            c.violation("a program over lock types that uses only what every lock offers does not compile", r.stdout[:6000])
            return None
        r = vlib.run([exe], 60)
        path = c.path(f"{tag}{k}.ndjson")
        with open(path, "w") as f:
            f.write(r.stdout)
        os.unlink(exe)
        return path
    with ThreadPoolExecutor(vlib.CORES) as ex:
        r = list(ex.map(one, range(groups)))
    r = [x for x in r if x]
    c.runs += groups
    c.extra[f"pairs_{tag}"] = len(lists) ** 2
    return r


def C27(c):
    q = c.quick()
    rng = random.Random(f"C27.{c.seed}")
    for comps, cfg in [(["A", "G"], "")] if q else [(["A", "G"], ""), (["A", "B", "G"], "3")]:
        m = c.model_check("MCPerm.tla", f"MCPerm{cfg}.cfg", what="conversions are exactly as strict as the operations; permissions only add; order does not matter")
        lists = misc.marked(m.stdout, "LIST")
        one = [x for x in lists if len(x) <= 1]
        # the read-only subset of every list is computed by the traits program, so that is where the longer lists are
        n = 64 if cfg else 24
        paths = traits(c, comps, lists, f"gcc{cfg}_", "g++", "c++17", n)
        if not q:
            paths += traits(c, comps, lists, f"clang{cfg}_", "clang++", "c++20", n)
        two = rng.sample([x for x in lists if len(x) == 2], 10 if q else 60)
        ps = one + two
        qs = one + (two[:2] if q else two[:10])
        paths += uses(c, comps, ps, qs, f"use{cfg}_", CLANG, 16 if q else 64)
        if not q:
            paths += uses(c, comps, one + two[:10], one + two[:2], f"useg{cfg}_", GCC, 64)
        c.check_traces(paths, spec="TracePerm.tla", cfg=f"TracePerm{cfg}.cfg")
