// Script interpreter: runs programs of transactions on controlled threads and logs what the real Tecs did.
#include "world.hh"
#include <fcntl.h>
#include <unistd.h>

using Tecs::EntityView;
#ifdef TECS_PERFORMANCE_TRACING_MAX_EVENTS
static const int CAP = TECS_PERFORMANCE_TRACING_MAX_EVENTS;
#else
static const int CAP = 0;
#endif

#ifdef VF_WIDE
const char *const typeNames[NTYPES] = {"AR", "wAB", "wAGrC", "rAll", "WA"};
#else
const char *const typeNames[NTYPES] = {"AR", "WA", "RA", "N", "rA", "wA", "rB", "wB", "rAB", "wArB", "rAwB", "wAB", "rC",
    "wC", "rG", "wG", "wAGrC", "rAGH", "wBCH", "rAll", "wABCra"};
#endif

std::string HStr(const Entity &e) {
    if (!e) return e.index == 0 ? "null" : "null" + std::to_string(e.index);
    return std::to_string(e.index) + "." + std::to_string(Tecs::GenerationWithoutIdentifier(e.generation)) + "." +
           std::to_string((int)Tecs::IdentifierFromGeneration(e.generation));
}
std::string EvStr(Tecs::EventType t, const Entity &e, int v) {
    const char *n = t == Tecs::EventType::ADDED ? "ADDED" : t == Tecs::EventType::REMOVED ? "REMOVED" : "INVALID";
    return std::string("[\"") + n + "\",\"" + HStr(e) + "\"," + std::to_string(v) + "]";
}

using Cmd = std::vector<std::string>;
struct Phase {
    bool par = false;
    std::vector<std::pair<int, Cmd>> cmds;
};
struct Program {
    std::string name;
    int threads = 1, insts = 1, runs = 1;
    bool hb = false, dp = false, q = false, hand = false, quietOps = false, timed = false, mark = false;
    uint64_t seed = 1;
    std::string strat = "seq";
    int spur = 0;
    std::vector<Phase> phases;
};

struct LockVar {
    std::unique_ptr<ILock> l;
    int owner = 0;
    long order = 0;
    long x = 0;
};
static std::vector<std::unique_ptr<World>> worlds;
static std::map<std::string, LockVar> locks;
static std::map<std::string, Entity> handles;
static std::vector<Entity> known;
static std::map<std::string, ViewVar> views;
static std::map<std::string, Obs> observers;
static std::map<std::string, std::vector<Entity>> vecs;
// References to components that are kept.  What may no longer be used is dropped here: everything when the transaction ends, those
// to the current state when the component is removed or (entities only) something is created.
struct Ref {
    const void *p;
    bool w, prev;
    char c;
    Entity e;     // null for a global component
    long x;
    int owner;    // the thread that uses it
};
static std::map<std::string, Ref> refs;
static void DropRefs(const std::function<bool(const Ref &)> &f) {
    for (auto it = refs.begin(); it != refs.end();) it = f(it->second) ? refs.erase(it) : std::next(it);
}
template<typename F> static void WithRef(const Ref &r, F f) {
    switch (r.c) {
    case 'A': f((A *)r.p); break;
    case 'B': f((B *)r.p); break;
    case 'C': f((C *)r.p); break;
    case 'G': f((G *)r.p); break;
    case 'H': f((H *)r.p); break;
    }
}
static long orderCount, txCount;
static size_t maxTxId; // greatest transaction id returned in this process
static bool quietOps;
static bool timed; // calls carry their virtual time
static std::string Tm() { return timed ? ",\"tm\":" + std::to_string(vf::Now()) : std::string(); }
static bool crossDrop; // a lock was dropped by a thread that did not create it

static std::string Arr(const std::string &chars) {
    std::string s = "[";
    for (char c : chars) { if (s.size() > 1) s += ","; s += '"'; s += c; s += '"'; }
    return s + "]";
}
static std::string PermStr(const Perm &p) {
    return "\"r\":" + Arr(p.r) + ",\"w\":" + Arr(p.w) + ",\"ar\":" + (p.ar ? "1" : "0");
}
static std::string HArr(const std::vector<std::string> &v) {
    std::string s = "[";
    for (auto &h : v) { if (s.size() > 1) s += ","; s += "\"" + h + "\""; }
    return s + "]";
}
static std::string ViewArr(const EntityView &v) {
    std::vector<std::string> x;
    for (auto &e : v) x.push_back(HStr(e));
    return HArr(x);
}
static int TypeIdx(const std::string &n) {
    for (int i = 0; i < NTYPES; i++) if (n == typeNames[i]) return i;
    fprintf(stderr, "unknown lock type %s\n", n.c_str());
    exit(2);
}
static std::string Pre(const char *k, int t, const std::string &l) {
    return std::string("{\"k\":\"") + k + "\",\"t\":" + std::to_string(t) + ",\"l\":\"" + l + "\"";
}

// Resolve an entity expression; `storage` keeps a by-value one alive. Returns nullptr if it does not denote anything.
static const Entity *Ent(const std::string &s, Entity &storage, std::string &via) {
    via.clear();
    auto br = s.find('[');
    if (br != std::string::npos) {
        auto it = views.find(s.substr(0, br));
        if (it == views.end()) return nullptr;
        size_t i = strtoul(s.c_str() + br + 1, nullptr, 10);
        auto &v = it->second.v;
        if (v.empty()) return nullptr;
        i %= v.size();
        via = ",\"vw\":\"" + it->first + "\",\"ix\":" + std::to_string(i + 1);
        const Entity &r = *(v.begin() + (ptrdiff_t)i);
        return &r;
    }
    if (s == "null") { storage = Entity(); return &storage; }
    if (s == "far") { storage = Entity(1000000, 1, 1); return &storage; }
    if (s == "max") { storage = Entity(std::numeric_limits<TECS_ENTITY_INDEX_TYPE>::max(), 1, 1); return &storage; }
    if (s == "near") { storage = Entity(3, 77, 1); return &storage; }
    std::string b = s;
    char mod = 0;
    if (b.back() == '~' || b.back() == '^' || b.back() == '-' || b.back() == '+') { mod = b.back(); b.pop_back(); }
    auto it = handles.find(b);
    if (it == handles.end()) return nullptr;
    storage = it->second;
    if (!storage && mod) return nullptr;
    auto g = Tecs::GenerationWithoutIdentifier(storage.generation);
    auto id = Tecs::IdentifierFromGeneration(storage.generation);
    if (mod == '~') storage = Entity(storage.index, g + 1, id);
    if (mod == '-') storage = Entity(storage.index, g - 1, id);
    if (mod == '^') storage = Entity(storage.index, g, (TECS_ENTITY_ECS_IDENTIFIER_TYPE)(id + 1));
    if (mod == '+') storage = Entity(storage.index + 1, g, id);
    return &storage;
}

static void DropLock(int t, const std::string &name, bool unwind) {
    auto it = locks.find(name);
    if (it == locks.end()) return;
    if (it->second.owner != t) crossDrop = true;
    auto p = std::move(it->second.l);
    std::string x = ",\"x\":" + std::to_string(it->second.x);
    long tx = it->second.x;
    locks.erase(it);
    bool last = true;
    for (auto &o : locks) last &= o.second.x != tx;
    if (last) DropRefs([&](const Ref &r) { return r.x == tx; });
    vf::Log(Pre("dc", t, name) + x + Tm() + (unwind ? ",\"uw\":1}" : ",\"uw\":0}"));
    vf::TecsScope scope;
    if (unwind) {
        try {
            auto q = std::move(p);
            throw std::runtime_error("unwind");
        } catch (const std::runtime_error &) {}
    } else {
        p.reset();
    }
    vf::Log(Pre("dr", t, name) + x + Tm() + "}");
}

static void Full(int t, const std::string &ln, ILock &l, bool prev) {
    std::string s = Pre(prev ? "fullp" : "full", t, ln);
    Perm p = l.GetPerm();
    std::vector<std::string> ex;
    std::vector<Entity> ks = known;
    ks.push_back(Entity());
    ks.push_back(Entity(1000000, 1, 1));
    for (auto &e : ks) {
        Out o;
        l.Exists(o, e, prev);
        if (o.r != "ok") ex.push_back("throw");
        if (o.has) ex.push_back(HStr(e));
    }
    s += ",\"ex\":" + HArr(ex);
    for (char c : {'A', 'B', 'C'}) {
        std::vector<std::string> pr;
        std::string vals = "[";
        for (auto &e : ks) {
            Out o;
            l.Has(o, e, std::string(1, c), prev);
            if (o.r != "ok") pr.push_back("throw");
            if (o.has) {
                pr.push_back(HStr(e));
                if (p.r.find(c) != std::string::npos) {
                    Out g;
                    if (prev) l.Prev(g, e, c); else l.Get(g, e, c);
                    if (g.r != "ok") g.v = -9999;
                    if (vals.size() > 1) vals += ",";
                    vals += "[\"" + HStr(e) + "\"," + std::to_string(g.v) + "]";
                }
            }
        }
        s += std::string(",\"p") + c + "\":" + HArr(pr);
        if (p.r.find(c) != std::string::npos) s += std::string(",\"v") + c + "\":" + vals + "]";
    }
    std::string gp, gv = "[";
    for (char c : {'G', 'H'}) {
        Out o;
        l.GHas(o, std::string(1, c), prev);
        if (o.has) gp += c;
        if (o.has && p.r.find(c) != std::string::npos) {
            Out g;
            if (prev) l.GPrev(g, c); else l.GGet(g, c);
            if (g.r != "ok") g.v = -9999;
            if (gv.size() > 1) gv += ",";
            gv += std::string("[\"") + c + "\"," + std::to_string(g.v) + "]";
        }
    }
    s += ",\"pg\":" + Arr(gp) + ",\"vg\":" + gv + "],\"gr\":" + Arr([&] {
        std::string x;
        for (char c : {'G', 'H'}) if (p.r.find(c) != std::string::npos) x += c;
        return x;
    }());
    // lists
    s += ",\"lE\":" + ViewArr(l.List('E', prev)) + ",\"lA\":" + ViewArr(l.List('A', prev)) +
         ",\"lB\":" + ViewArr(l.List('B', prev)) + ",\"lC\":" + ViewArr(l.List('C', prev));
    vf::Log(s + "}");
}

#ifdef TECS_ENABLE_PERFORMANCE_TRACING
static std::string Esc(const std::string &x) {
    std::string s = "\"";
    for (char ch : x) { if (ch == '"' || ch == '\\') s += '\\'; s += ch; }
    return s + "\"";
}
static std::string DumpTrace(Tecs::PerformanceTrace &tr, const Cmd &c) {
    static const char *types[] = {"Invalid", "TransactionStart", "TransactionEnd", "ReadLockWait", "ReadLock", "ReadUnlock", "WriteLockWait", "WriteLock",
        "CommitLockWait", "CommitLock", "CommitUnlock", "WriteUnlock"};
    auto tidOf = [](std::thread::id id) {
        for (int i = 0; i < vf::ThreadCount(); i++) if (vf::ThreadId(i) == id) return i + 1;
        return 0;
    };
    auto list = [&](const nonstd::span<Tecs::TraceEvent> &evs) {
        std::string s = "[";
        for (auto &e : evs) {
            if (s.size() > 1) s += ",";
            auto ns = std::chrono::duration_cast<std::chrono::nanoseconds>(e.time.time_since_epoch()).count();
            size_t ty = (size_t)e.type;
            s += std::string("[\"") + (ty < 12 ? types[ty] : "?") + "\"," + std::to_string(tidOf(e.thread)) + "," + std::to_string(ns > 1000000000 || ns < 0 ? 0 : (long)ns) + "]";
        }
        return s + "]";
    };
    std::string r = ",\"tx\":" + list(tr.transactionEvents) + ",\"ev\":[" + list(tr.metadataEvents);
    for (auto &ce : tr.componentEvents) r += "," + list(ce);
    r += "],\"names\":[";
    for (size_t i = 0; i < tr.componentNames.size(); i++) r += (i ? "," : "") + Esc(tr.componentNames[i]);
    // Names of the threads: given ones, or what the trace calls them
    r += "],\"tn\":[";
    for (int i = 0; i < vf::ThreadCount(); i++) {
        std::string name;
        for (size_t k = 2; k < c.size(); k++) if (atoi(c[k].c_str()) == i + 1) name = "worker " + c[k];
        if (!name.empty()) tr.SetThreadName(name, vf::ThreadId(i));
        else { std::stringstream ss; ss << vf::ThreadId(i); name = ss.str(); }
        r += (i ? "," : "") + Esc(name);
    }
    r += "],\"csv\":[";
    std::stringstream csv;
    std::string row;
    tr.SaveToCSV(csv);
    bool first = true;
    while (std::getline(csv, row)) {
        r += first ? "[" : ",[";
        first = false;
        std::stringstream cs(row + ",");
        std::string cell;
        for (int k = 0; std::getline(cs, cell, ','); k++) r += (k ? "," : "") + Esc(cell);
        r += "]";
    }
    return r + "]";
}
#endif

static void Exec(int t, const Cmd &c0) {
    std::string as; // as R op ..: keep the reference the operation yields
    Cmd c1;
    if (c0[0] == "as") { as = c0.at(1); c1.assign(c0.begin() + 2, c0.end()); }
    const Cmd &c = as.empty() ? c0 : c1;
    const std::string &op = c[0];
    auto arg = [&](size_t i) -> const std::string & {
        static const std::string none;
        return i < c.size() ? c[i] : none;
    };
    const std::string &ln = arg(1);
    if (op == "start") { // start L type [inst]
        int type = TypeIdx(arg(2)), inst = c.size() > 3 ? atoi(arg(3).c_str()) : 0;
        static const std::map<std::string, int> none;
        if (locks.count(ln) || !worlds.at(inst)) return;
        long x = ++txCount;
        // permissions are those of the type, known without a lock
        extern Perm TypePerm(int);
        vf::Log(Pre("sc", t, ln) + ",\"x\":" + std::to_string(x) + ",\"i\":" + std::to_string(inst) + "," + PermStr(TypePerm(type)) + Tm() + "}");
        ILock *l = nullptr;
        std::string err;
        try {
            vf::TecsScope scope;
            l = StartTx(*worlds.at(inst), type);
        } catch (const std::exception &e) { err = e.what(); }
        if (l) {
            size_t id = l->TxId();
            if (id > maxTxId) maxTxId = id;
            locks[ln] = {std::unique_ptr<ILock>(l), t, ++orderCount, x};
            vf::Log(Pre("sr", t, ln) + ",\"x\":" + std::to_string(x) + ",\"ok\":1,\"id\":" + std::to_string(id) + Tm() + "}");
        } else {
            vf::Log(Pre("sr", t, ln) + ",\"x\":" + std::to_string(x) + ",\"ok\":0,\"id\":0" + Tm() + "}");
        }
        return;
    }
    if (op == "drop" || op == "dropx") { DropLock(t, ln, op == "dropx"); return; }
    if (op == "dropany") {
        if (!locks.empty()) DropLock(t, std::string(locks.begin()->first), false);
        return;
    }
    if (op == "dropall") {
        std::vector<std::pair<long, std::string>> v;
        for (auto &p : locks) if (p.second.owner == t) v.push_back({p.second.order, p.first});
        std::sort(v.begin(), v.end());
        for (auto &p : v) DropLock(t, p.second, false);
        return;
    }
    if (op == "pause") { vf::Pause(); return; }
    if (op == "deref" || op == "derefall" || op == "wref") { // deref R, derefall L, wref R v
        std::vector<std::string> names;
        if (op == "derefall") {
            auto l = locks.find(ln);
            if (l == locks.end()) return;
            for (auto &r : refs) if (r.second.x == l->second.x && r.second.owner == t) names.push_back(r.first);
        } else if (refs.count(ln) && refs.at(ln).owner == t) names.push_back(ln);
        int v = atoi(arg(2).c_str());
        for (auto &n : names) {
            auto f = refs.find(n);
            if (f == refs.end()) continue;
            Ref r = f->second;
            if (op == "wref" && !r.w) continue;
            int old = 0;
            vf::inTecs++;
            WithRef(r, [&](auto *p) { if (op == "wref") p->Write(v); old = p->Read(); });
            vf::inTecs--;
            vf::Log("{\"k\":\"" + std::string(op == "wref" ? "wref" : "deref") + "\",\"t\":" + std::to_string(t) + ",\"n\":\"" + n + "\",\"x\":" + std::to_string(r.x) + ",\"a\":" + std::to_string(v) + ",\"v\":" + std::to_string(old) + "}");
        }
        return;
    }
#ifdef TECS_ENABLE_PERFORMANCE_TRACING
    if (op == "tstart" || op == "tstop") { // tstart|tstop inst [named threads]
        int inst = atoi(arg(1).c_str());
        std::string s = "{\"k\":\"" + op + "\",\"t\":" + std::to_string(t) + ",\"i\":" + std::to_string(inst) + ",\"from\":" + std::to_string(vf::Now());
        bool ok = true;
        Tecs::PerformanceTrace tr;
        try {
            if (op == "tstart") worlds.at(inst)->StartTrace();
            else tr = worlds.at(inst)->StopTrace();
        } catch (const std::exception &) { ok = false; }
        s += ",\"to\":" + std::to_string(vf::Now()) + ",\"ok\":" + (ok ? "1" : "0");
        if (op == "tstop" && ok) s += DumpTrace(tr, c);
        vf::Log(s + "}");
        return;
    }
#endif
    if (op == "newinst") {
        worlds.push_back(std::make_unique<World>());
        vf::Log("{\"k\":\"inst\",\"i\":" + std::to_string(worlds.size() - 1) + ",\"id\":" + std::to_string((int)worlds.back()->GetInstanceId()) + "}");
        return;
    }
    if (op == "delinst") { // the instance's life ends; what has been handed out stays around
        int inst = atoi(arg(1).c_str());
        if (!locks.empty() || !views.empty() || !observers.empty() || !worlds.at(inst)) return;
        worlds.at(inst).reset();
        vf::Log("{\"k\":\"del\",\"i\":" + std::to_string(inst) + "}");
        return;
    }
    auto it = locks.find(ln);
    if (it == locks.end()) return;
    ILock &l = *it->second.l;
    if (op == "copy" || op == "sub" || op == "ro" || op == "dyn" || op == "try") { // op L New [type]
        const std::string nn = arg(2);
        if (locks.count(nn)) return;
        ILock *n = nullptr;
        std::string extra;
        if (op == "copy") n = l.Copy();
        else if (op == "ro") n = l.ReadOnly();
        else if (op == "sub") n = l.Convert(TypeIdx(arg(3)));
        else if (op == "dyn") n = l.Dynamic(atoi(arg(3).c_str()));
        else {
            if (!l.IsDynamic()) return;
            n = l.Try(TypeIdx(arg(3)));
            extern Perm TypePerm(int);
            if (!n) {
                vf::Log(Pre(op.c_str(), t, ln) + ",\"n\":\"" + nn + "\",\"ok\":0," + PermStr(TypePerm(TypeIdx(arg(3)))) + "}");
                return;
            }
        }
        if (!n) return; // not offered by the static type
        long x = it->second.x;
        locks[nn] = {std::unique_ptr<ILock>(n), t, ++orderCount, x};
        vf::Log(Pre(op.c_str(), t, ln) + ",\"n\":\"" + nn + "\",\"ok\":1," + PermStr(n->GetPerm()) + "}");
        return;
    }
    if (op == "uc") { vf::Log(Pre("uc", t, ln) + ",\"v\":" + std::to_string(l.UseCount()) + "}"); return; }
    if (op == "txid") { vf::Log(Pre("txid", t, ln) + ",\"id\":" + std::to_string(l.TxId()) + "}"); return; }
    if (op == "full" || op == "fullp") { Full(t, ln, l, op == "fullp"); return; }
    if (op == "list") { // list L V kind prev
        EntityView v = l.List(arg(3)[0], arg(4) == "1");
        ViewVar vv;
        vv.v = v;
        views.erase(arg(2));
        views.emplace(arg(2), vv);
        vf::Log(Pre("list", t, ln) + ",\"vw\":\"" + arg(2) + "\",\"c\":\"" + arg(3) + "\",\"p\":" + (arg(4) == "1" ? "1" : "0") + ",\"x\":" + ViewArr(v) + "}");
        return;
    }
    if (op == "view") { // view L V
        auto v = views.find(arg(2));
        if (v == views.end()) return;
        vf::Log(Pre("view", t, ln) + ",\"vw\":\"" + arg(2) + "\",\"x\":" + ViewArr(v->second.v) + "}");
        return;
    }
    if (op == "unview") { views.erase(arg(2)); return; }
    if (op == "watch" || op == "stopw") {
        if (op == "watch") {
            if (observers.count(arg(2)) && observers[arg(2)].kind) return;
            auto &ob = observers[arg(2)];
            bool ok = [&] { vf::TecsScope scope; return l.Watch(ob, arg(3)[0]); }();
            if (ok) vf::Log(Pre("watch", t, ln) + ",\"o\":\"" + arg(2) + "\",\"c\":\"" + arg(3) + "\"}");
        } else {
            auto &ob = observers[arg(2)];
            bool ok = [&] { vf::TecsScope scope; return l.StopObs(ob); }();
            if (ok) vf::Log(Pre("stopw", t, ln) + ",\"o\":\"" + arg(2) + "\"}");
        }
        return;
    }
    if (op == "poll" || op == "polla") { // poll L O ; polla: until false
        auto &ob = observers[arg(2)];
        for (int n = 0; n < 10000; n++) {
            Out out;
            bool got = [&] { vf::TecsScope scope; return l.Poll(ob, out); }();
            vf::Log(Pre("poll", t, ln) + ",\"o\":\"" + arg(2) + "\",\"ok\":" + (got ? "1,\"ev\":" + out.e : "0,\"ev\":[]") + "}");
            if (!got || op == "poll") break;
        }
        return;
    }
    Out o;
    std::string via;
    const long tx = it->second.x;
    auto keep = [&](const Entity &e, char comp) {
        if (as.empty() || o.r != "ok" || !o.p) return;
        o.x += ",\"as\":\"" + as + "\"";
        refs[as] = {o.p, o.w, op == "prev" || op == "gprev", comp, e, tx, t};
    };
    if (op == "new") { // new L h
        Entity e;
        DropRefs([&](const Ref &r) { return r.x == tx && !r.prev && r.e; });
        { vf::TecsScope scope; l.New(o, e); }
        if (o.r == "na") return;
        if (o.r == "ok") { handles[arg(2)] = e; known.push_back(e); }
        vf::Log(Pre("new", t, ln) + ",\"res\":\"" + o.r + "\",\"h\":\"" + o.h + "\",\"ei\":" + std::to_string(l.InstanceId()) +
                ",\"hi\":" + std::to_string((int)Tecs::IdentifierFromGeneration(e.generation)) + "}");
        return;
    }
    if (op == "nop") return;
    if (op[0] == 'g' && op != "get" && op != "getm") { // globals: op L cs [v]
        int v = atoi(arg(3).c_str());
        const std::string &cs = arg(2);
        if (op == "gunset") DropRefs([&](const Ref &r) { return r.x == tx && !r.prev && !r.e && cs.find(r.c) != std::string::npos; });
        vf::inTecs++;
        if (op == "ghas") l.GHas(o, cs, false);
        else if (op == "ghad") l.GHas(o, cs, true);
        else if (op == "gget") l.GGet(o, cs[0]);
        else if (op == "ggetm") l.GGetM(o, cs[0], false, 0);
        else if (op == "gmod") l.GGetM(o, cs[0], true, v);
        else if (op == "gprev") l.GPrev(o, cs[0]);
        else if (op == "gset") l.GSet(o, cs[0], v, false);
        else if (op == "gsetref") l.GSet(o, cs[0], v, true);
        else if (op == "gunset") l.GUnset(o, cs);
        else { fprintf(stderr, "unknown op %s\n", op.c_str()); exit(2); }
        vf::inTecs--;
        if (o.r == "na") return;
        keep(Entity(), cs[0]);
        vf::Log(Pre(op.c_str(), t, ln) + ",\"c\":" + Arr(cs) + ",\"a\":" + std::to_string(v) + ",\"res\":\"" + o.r + "\",\"v\":" + std::to_string(o.v) + ",\"b\":" + (o.has ? "1" : "0") + o.x + "}");
        return;
    }
    // entity operations: op L e [cs] [v]
    Entity st;
    const Entity *e = Ent(arg(2), st, via);
    if (!e) return;
    std::string hs = HStr(*e);
    const std::string &cs = arg(3);
    int v = atoi(arg(4).c_str());
    std::string after;
    const Entity me = *e;
    if (op == "unset" || op == "destroy" || op == "destroyv")
        DropRefs([&](const Ref &r) { return r.x == tx && !r.prev && r.e == me && (op != "unset" || cs.find(r.c) != std::string::npos); });
    vf::inTecs++;
    if (op == "exists") l.Exists(o, *e, false);
    else if (op == "existed") l.Exists(o, *e, true);
    else if (op == "has") l.Has(o, *e, cs, false);
    else if (op == "had") l.Has(o, *e, cs, true);
    else if (op == "get") l.Get(o, *e, cs[0]);
    else if (op == "getm") l.GetM(o, *e, cs[0], false, 0);
    else if (op == "mod") l.GetM(o, *e, cs[0], true, v);
    else if (op == "prev") l.Prev(o, *e, cs[0]);
    else if (op == "set") l.Set(o, *e, cs[0], v, false);
    else if (op == "setref") l.Set(o, *e, cs[0], v, true);
    else if (op == "unset") l.Unset(o, *e, cs);
    else if (op == "destroy") l.Destroy(o, *e);
    else if (op == "destroyv") {
        Entity var = *e;
        l.DestroyVar(o, var);
        after = ",\"nh\":\"" + HStr(var) + "\"";
    } else { fprintf(stderr, "unknown op %s\n", op.c_str()); exit(2); }
    vf::inTecs--;
    if (o.r == "na") return;
    keep(me, cs.empty() ? 0 : cs[0]);
    vf::Log(Pre(op.c_str(), t, ln) + ",\"h\":\"" + hs + "\"" + via + ",\"c\":" + Arr(cs) + ",\"a\":" + std::to_string(v) + ",\"res\":\"" + o.r + "\",\"v\":" +
            std::to_string(o.v) + ",\"b\":" + (o.has ? "1" : "0") + after + o.x + "}");
}

static void LogQ() {
    std::string s;
    for (int i = 0; i < vf::ThreadCount(); i++) if (vf::Busy(i)) s += (s.empty() ? "" : ",") + std::to_string(i + 1);
    vf::Log("{\"k\":\"q\",\"b\":[" + s + "]" + Tm() + "}");
}
static bool AnyBusy() {
    for (int i = 0; i < vf::ThreadCount(); i++) if (vf::Busy(i)) return true;
    return false;
}

#ifdef VF_ORDER2
static const std::string worldOrder = ",\"order\":[\"H\",\"C\",\"B\",\"G\",\"A\"],\"cap\":" + std::to_string(CAP);
#else
static const std::string worldOrder = ",\"order\":[\"A\",\"G\",\"B\",\"H\",\"C\"],\"cap\":" + std::to_string(CAP);
#endif
static std::set<uint64_t> seen;
// Hash of a trace that ignores transaction ids and the identifiers of instances, which differ from run to run.
static uint64_t Hash(const std::string &s) {
    uint64_t h = 1469598103934665603ull;
    for (size_t i = 0; i < s.size(); i++) {
        unsigned char c = s[i];
        h ^= c; h *= 1099511628211ull;
        if (c == '.') { // idx.gen.ecs": skip the ecs id
            size_t j = i + 1;
            while (j < s.size() && isdigit((unsigned char)s[j])) j++;
            if (j > i + 1 && j < s.size() && s[j] == '"') i = j - 1;
        } else if (c == ':' && i >= 4 && (s.compare(i - 4, 4, "\"id\"") == 0 || s.compare(i - 4, 4, "\"ei\"") == 0 || s.compare(i - 4, 4, "\"hi\"") == 0)) {
            while (i + 1 < s.size() && isdigit((unsigned char)s[i + 1])) i++;
        }
    }
    return h;
}
static uint64_t totalRuns, totalWritten, totalSteps;

// One execution of a program. Returns the number of scheduling points of its parallel phases.
static uint64_t RunOnce(const Program &p, const vf::Strategy &parStrat, uint64_t seed, const std::string &label) {
    totalRuns++;
    vf::Watchdog(30);
    vf::ResetLog();
    refs.clear();
    locks.clear();
    handles.clear();
    known.clear();
    views.clear();
    observers.clear();
    worlds.clear();
    orderCount = txCount = 0;
    quietOps = p.quietOps;
    timed = p.timed;
    vf::hbMode = p.hb;
    vf::dataPoints = p.dp;
    vf::SetThreads(p.threads);
    for (int i = 0; i < p.insts; i++) {
        vf::TecsScope scope;
        worlds.push_back(std::make_unique<World>());
    }
    std::string ids;
    for (auto &w : worlds) ids += (ids.empty() ? "" : ",") + std::to_string((int)w->GetInstanceId());
    uint64_t steps = 0;
    // In case of a crash the header must be there already
    vf::logbuf = "{\"k\":\"prog\",\"p\":\"" + label + "\",\"th\":" + std::to_string(p.threads) + ",\"mx\":" + std::to_string(maxTxId) + ",\"ids\":[" + ids + "]" + (p.timed ? worldOrder : std::string()) + "}\n";
    size_t headLen = vf::logbuf.size();
    vf::Strategy seqStrat;
    seqStrat.kind = parStrat.kind == vf::Strategy::Seq ? vf::Strategy::Seq : vf::Strategy::Random;
    seqStrat.p = 100;
    for (auto &ph : p.phases) {
        if (ph.par) {
            vf::SetStrategy(parStrat, seed);
            for (auto &c : ph.cmds) {
                int t = c.first - 1;
                vf::Push(t, [t, &c] { Exec(t + 1, c.second); });
            }
            if (p.hb) vf::StartRecording();
            vf::RunUntilQuiet(parStrat.kind == vf::Strategy::List ? 0 : -1);
            if (p.hb) vf::EndRecording();
            steps += vf::Steps();
            if (p.q) LogQ();
            // Locks that should have been dropped by another thread which was too early: the last thread drops them
            static const Cmd dropAny = {"dropany"};
            for (int round = 0; p.hand && !locks.empty() && round < 100; round++) {
                int t = vf::ThreadCount() - 1;
                for (int i = p.threads - 1; i >= 0; i--) if (!vf::Busy(i)) { t = i; break; }
                if (vf::Busy(t)) break;
                vf::Push(t, [t] { Exec(t + 1, dropAny); });
                vf::RunUntilQuiet(t);
            }
        } else {
            vf::SetStrategy(p.q ? seqStrat : vf::Strategy(), seed + 77);
            long at = 0;
            for (auto &c : ph.cmds) {
                int t = c.first - 1;
                at++;
                if (vf::Busy(t)) continue;
                if (p.mark) vf::Log("{\"k\":\"at\",\"n\":" + std::to_string(at) + "}");
                vf::Push(t, [t, &c] { Exec(t + 1, c.second); });
                vf::RunUntilQuiet(t);
                if (p.q) LogQ();
            }
        }
    }
    // End whatever is still active
    vf::SetStrategy(p.q ? seqStrat : vf::Strategy(), seed + 99);
    static const Cmd dropAll = {"dropall"};
    for (int round = 0; round < 100; round++) {
        for (int i = 0; i < vf::ThreadCount(); i++) {
            if (vf::Busy(i)) continue;
            bool has = false;
            for (auto &l : locks) if (l.second.owner == i + 1) has = true;
            if (!has) continue;
            vf::Push(i, [i] { Exec(i + 1, dropAll); });
            vf::RunUntilQuiet(i);
            if (p.q) LogQ();
        }
        if (locks.empty() && !AnyBusy()) break;
    }
    if (!locks.empty() || AnyBusy()) {
        LogQ();
        vf::Log("{\"k\":\"stuck\"}");
        vf::FlushLog();
        _exit(3); // the blocked threads cannot be recovered
    }
    vf::Log("{\"k\":\"fin\"}");
    totalSteps += steps;
    // Tecs keeps per-thread records of active transactions that such a drop leaves behind: use fresh threads
    if (crossDrop) vf::StopThreads();
    crossDrop = false;
    std::string body = vf::logbuf.substr(headLen);
    if (p.runs <= 1 || seen.insert(Hash(body)).second) {
        totalWritten++;
        vf::FlushLog();
    }
    vf::logbuf.clear();
    return steps;
}

static std::vector<std::string> Split(const std::string &s, char d) {
    std::vector<std::string> r;
    std::stringstream ss(s);
    std::string x;
    while (std::getline(ss, x, d)) r.push_back(x);
    return r;
}

static void RunProgram(const Program &p) {
    auto sp = Split(p.strat, ':');
    seen.clear();
    if (sp[0] == "sys") { // sys:k:limit — all schedules with at most k preemptions, up to limit
        int k = atoi(sp[1].c_str());
        long limit = atol(sp[2].c_str()), n = 0;
        vf::Strategy s;
        s.kind = vf::Strategy::List;
        uint64_t len = RunOnce(p, s, p.seed, p.name + "#L");
        std::function<void(int, uint64_t, std::string)> rec = [&](int depth, uint64_t from, std::string label) {
            if (depth == 0) return;
            for (uint64_t i = from; i <= len + 40; i++)
                for (int t = 0; t < p.threads; t++) {
                    if (n >= limit) return;
                    s.list.push_back({i, t});
                    std::string lab = label + (s.list.size() > 1 ? "," : "") + std::to_string(i) + ":" + std::to_string(t);
                    n++;
                    uint64_t l2 = RunOnce(p, s, p.seed, lab);
                    if (i <= l2) rec(depth - 1, i + 1, lab);
                    s.list.pop_back();
                }
        };
        // Iterative deepening: all single preemptions first, then pairs from a rotating offset.
        rec(1, 1, p.name + "#L");
        if (k > 1) rec(k, 1 + p.seed % (len ? len : 1), p.name + "#L");
        return;
    }
    for (int r = 0; r < p.runs; r++) {
        vf::Strategy s;
        s.spurious = p.spur;
        uint64_t seed = p.seed * 1000003ull + r;
        if (sp[0] == "rand") {
            s.kind = vf::Strategy::Random;
            static const uint32_t ps[] = {30, 100, 250, 500};
            s.p = sp.size() > 1 ? atoi(sp[1].c_str()) : ps[r % 4];
        } else if (sp[0] == "pct") {
            s.kind = vf::Strategy::Pct;
            s.depth = sp.size() > 1 ? atoi(sp[1].c_str()) : 1 + r % 5;
            s.horizon = sp.size() > 2 ? atoi(sp[2].c_str()) : 200;
        } else if (sp[0] == "mix") {
            if (r % 2) { s.kind = vf::Strategy::Random; static const uint32_t ps[] = {20, 60, 150, 400}; s.p = ps[(r / 2) % 4]; }
            else { s.kind = vf::Strategy::Pct; s.depth = 1 + (r / 2) % 5; s.horizon = sp.size() > 1 ? atoi(sp[1].c_str()) : 200; }
        } else if (sp[0] == "list") {
            s.kind = vf::Strategy::List;
            if (sp.size() > 1) for (size_t i = 1; i + 1 < sp.size(); i += 2) s.list.push_back({strtoul(sp[i].c_str(), nullptr, 10), atoi(sp[i + 1].c_str())});
        }
        RunOnce(p, s, seed, p.name + "#" + std::to_string(r));
    }
}

int main(int argc, char **argv) {
    if (argc < 3) { fprintf(stderr, "usage: driver SCRIPT TRACE\n"); return 2; }
    std::ifstream in(argv[1]);
    vf::logFd = open(argv[2], O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (!in || vf::logFd < 0) { perror("open"); return 2; }
    vf::InstallHandlers();
    Program p;
    std::string line;
    while (std::getline(in, line)) {
        std::stringstream ss(line);
        std::string w;
        if (!(ss >> w) || w[0] == '#') continue;
        if (w == "prog") {
            p = Program();
            ss >> p.name;
            while (ss >> w) {
                auto eq = w.find('=');
                std::string k = w.substr(0, eq), v = eq == std::string::npos ? "1" : w.substr(eq + 1);
                if (k == "threads") p.threads = atoi(v.c_str());
                else if (k == "insts") p.insts = atoi(v.c_str());
                else if (k == "runs") p.runs = atoi(v.c_str());
                else if (k == "hb") p.hb = v == "1";
                else if (k == "dp") p.dp = v == "1";
                else if (k == "q") p.q = v == "1";
                else if (k == "hand") p.hand = v == "1";
                else if (k == "seed") p.seed = strtoull(v.c_str(), nullptr, 10);
                else if (k == "mark") p.mark = v == "1"; // log the number of each command of a sequential phase
                else if (k == "timed") p.timed = v == "1";
                else if (k == "strat") p.strat = v;
                else if (k == "spur") p.spur = atoi(v.c_str());
                else { fprintf(stderr, "unknown key %s\n", k.c_str()); return 2; }
            }
        } else if (w == "seq" || w == "par") {
            p.phases.emplace_back();
            p.phases.back().par = w == "par";
        } else if (w == "end") {
            RunProgram(p);
        } else {
            int t = atoi(w.c_str());
            Cmd c;
            while (ss >> w) c.push_back(w);
            if (t < 1 || t > p.threads || c.empty()) { fprintf(stderr, "bad line: %s\n", line.c_str()); return 2; }
            if (p.phases.empty()) p.phases.emplace_back();
            p.phases.back().cmds.push_back({t, c});
        }
    }
    worlds.clear();
    printf("{\"runs\":%llu,\"written\":%llu,\"points\":%llu}\n", (unsigned long long)totalRuns, (unsigned long long)totalWritten, (unsigned long long)totalSteps);
    fflush(stdout);
    _exit(0);
}
