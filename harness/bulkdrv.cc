// Large numbers: groups of entities that are treated alike, summarised after every step (judged by TecsBulk.tla).
#include <Tecs.hh>
#include <algorithm>
#include <atomic>
#include <chrono>
#include <fstream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <thread>
#include <unordered_map>
#include <unordered_set>
#include <vector>

struct A { int v = 7; A() {} A(int x) : v(x) {} };
struct B { int v = 7; B() {} B(int x) : v(x) {} };
using namespace Tecs;
using World = ECS<A, B>;
using AR = Lock<World, AddRemove>;
using W = Lock<World, WriteAll>;
using R = Lock<World, ReadAll>;

struct Group { std::vector<Entity> e; };
static std::unique_ptr<World> world;
static std::map<std::string, Group> groups;
static std::unordered_map<uint64_t, std::string> owner; // handle -> group
static std::unordered_set<uint64_t> churned;
static std::unique_ptr<AR> ar;
static std::unique_ptr<W> wr;
static std::unique_ptr<R> rd;
static std::ofstream out;

struct AnyObs {
    char kind;
    Observer<World, EntityEvent> e;
    Observer<World, ComponentEvent<A>> a;
    Observer<World, ComponentEvent<B>> b;
    std::unordered_map<uint64_t, int> last; // what was reported last of an entity
};
static std::map<std::string, AnyObs> obs;

template<typename F> static void WithLock(F f) {
    if (ar) f(*ar);
    else if (wr) f(*wr);
    else if (rd) f(*rd);
}
static std::string Pairs(const std::map<int, long> &m) {
    std::string s = "[";
    for (auto &[v, n] : m) s += (s.size() > 1 ? ",[" : "[") + std::to_string(v) + "," + std::to_string(n) + "]";
    return s + "]";
}

template<typename T, typename L> static std::string ObsComp(const L &l, const Group &g) {
    long has = 0, had = 0, bad = 0;
    std::map<int, long> cur, prev;
    for (auto &e : g.e) {
        bool h = e.Has<T>(l), d = e.Had<T>(l);
        has += h;
        had += d;
        try { cur[e.Get<const T>(l).v]++; bad += !h; } catch (const std::runtime_error &) { bad += h; }
        try { prev[e.GetPrevious<T>(l).v]++; bad += !d; } catch (const std::runtime_error &) { bad += d; }
    }
    return "[" + std::to_string(has) + "," + std::to_string(had) + "," + Pairs(cur) + "," + Pairs(prev) + "," + std::to_string(bad) + "]";
}
template<typename T> static void Write(const std::string &op, Group &g, int v, long &ok, long &bad) {
    for (auto &e : g.e) {
        try {
            WithLock([&](auto &l) {
                using L = std::decay_t<decltype(l)>;
                if constexpr (is_write_allowed<T, L>()) {
                    if (op == "set") e.Set<T>(l, v);
                    else if (op == "setref") { T x(v); e.Set(l, x); }
                    else if (op == "mod") e.Get<T>(l).v = v;
                    if constexpr (is_add_remove_allowed<L>()) {
                        if (op == "unset") e.Unset<T>(l);
                    }
                }
            });
            ok++;
        } catch (const std::runtime_error &) { bad++; }
    }
}
static void List(const std::string &of, bool prev, const EntityView &v) {
    long nulls = 0, dup = 0, other = 0;
    std::map<std::string, long> m;
    std::unordered_set<uint64_t> seen;
    for (auto &e : v) {
        if (!e) { nulls++; continue; }
        if (!seen.insert((uint64_t)e).second) dup++;
        auto it = owner.find((uint64_t)e);
        if (it == owner.end()) other++;
        else m[it->second]++;
    }
    out << "{\"k\":\"list\",\"of\":\"" << of << "\",\"prev\":" << prev << ",\"nulls\":" << nulls << ",\"dup\":" << dup << ",\"other\":" << other << ",\"m\":[";
    bool first = true;
    for (auto &[g, n] : m) { out << (first ? "" : ",") << "[\"" << g << "\"," << n << "]"; first = false; }
    out << "]}\n";
}
template<typename O, typename E> static void Drain(const std::string &name, O &o, std::unordered_map<uint64_t, int> &last, E val) {
    std::map<std::tuple<std::string, int, int>, long> m;
    long other = 0, ord = 0;
    WithLock([&](auto &l) {
        auto ev = val.none;
        while (o.Poll(l, ev)) {
            auto &t = last[(uint64_t)ev.entity];
            ord += t == (int)ev.type;
            t = (int)ev.type;
            auto it = owner.find((uint64_t)ev.entity);
            if (it == owner.end()) { other++; continue; }
            m[{it->second, (int)ev.type, val(ev)}]++;
        }
    });
    out << "{\"k\":\"drain\",\"o\":\"" << name << "\",\"other\":" << other << ",\"ord\":" << ord << ",\"m\":[";
    bool first = true;
    for (auto &[k, n] : m) {
        out << (first ? "" : ",") << "[\"" << std::get<0>(k) << "\",\"" << (std::get<1>(k) == 1 ? "ADDED" : std::get<1>(k) == 2 ? "REMOVED" : "INVALID") << "\"," << std::get<2>(k) << "," << n << "]";
        first = false;
    }
    out << "]}\n";
}
struct EVal { EntityEvent none; int operator()(const EntityEvent &) const { return 0; } };
template<typename T> struct CVal { ComponentEvent<T> none; int operator()(const ComponentEvent<T> &e) const { return e.component.v; } };

static void Nap(int ms) { std::this_thread::sleep_for(std::chrono::milliseconds(ms)); }

// n readers hold the component at the same time as a writer that wants to commit.
static void Readers(long n, bool structural) {
    Entity e;
    { AR l(*world); e = l.NewEntity(); e.Set<A>(l, 1); }
    std::atomic_long in(0), release(0), wrong(0), done(0);
    std::vector<std::thread> ts;
    for (long i = 0; i < n; i++) ts.emplace_back([&, i] {
        Lock<World, Read<A>> l(*world);
        if (e.Get<A>(l).v != 1) wrong++;
        in++;
        while (release <= i) Nap(2);
        if (e.Get<A>(l).v != 1 || !e.Exists(l)) wrong++;
    });
    while (in < n) Nap(1);
    std::thread w([&] {
        if (structural) { AR l(*world); e.Set<A>(l, 2); Entity f = l.NewEntity(); f.Set<A>(l, 2); }
        else { Lock<World, Tecs::Write<A>> l(*world); e.Set<A>(l, 2); }
        done = 1;
    });
    Nap(60);
    long early = done;
    release = n - 1; // all but the last one
    for (long i = 0; i + 1 < n; i++) ts[i].join();
    Nap(60);
    long early2 = done;
    release = n;
    ts[n - 1].join();
    w.join();
    long after;
    { Lock<World, Read<A>> l(*world); after = e.Get<A>(l).v; }
    out << "{\"k\":\"readers\",\"n\":" << n << ",\"early\":" << early << ",\"early2\":" << early2 << ",\"wrong\":" << wrong << ",\"done\":" << done << ",\"after\":" << after << "}\n";
}
static void Writers(long n, long m) {
    Entity e;
    { AR l(*world); e = l.NewEntity(); e.Set<A>(l, 0); e.Set<B>(l, 0); }
    std::vector<std::thread> ts;
    std::atomic_long torn(0);
    for (long i = 0; i < n; i++) ts.emplace_back([&, i] {
        for (long k = 0; k < m; k++) {
            if (i % 4 == 0) { Lock<World, Read<A, B>> l(*world); if (e.Get<A>(l).v != e.Get<B>(l).v) torn++; }
            else if (i % 4 == 1) { AR l(*world); Entity f = l.NewEntity(); e.Get<A>(l).v++; e.Get<B>(l).v++; f.Destroy(l); }
            else { Lock<World, Tecs::Write<A, B>> l(*world); e.Get<A>(l).v++; e.Get<B>(l).v++; }
        }
    });
    for (auto &t : ts) t.join();
    Lock<World, Read<A, B>> l(*world);
    out << "{\"k\":\"writers\",\"n\":" << n << ",\"m\":" << m << ",\"torn\":" << torn << ",\"a\":" << e.Get<A>(l).v << ",\"b\":" << e.Get<B>(l).v << "}\n";
}
// k times: a transaction that creates an entity, and one that destroys it.
static void Churn(long k, bool one) {
    long null = 0, clash = 0, alive = 0, ids = 0;
    size_t last = 0;
    Entity e;
    auto id = [&](auto &l) { size_t x = l.GetTransactionId(); if (x <= last) ids++; last = x; };
    for (long i = 0; i < k; i++) {
        {
            AR l(*world);
            id(l);
            e = l.NewEntity();
            null += !e;
            clash += owner.count((uint64_t)e) || !churned.insert((uint64_t)e).second;
            alive += !e.Exists(l);
            if (i % 3 == 0) e.Set<A>(l, 5);
            if (one) ((const Entity &)e).Destroy(l);
        }
        if (!one) {
            AR l(*world);
            id(l);
            alive += !e.Exists(l);
            ((const Entity &)e).Destroy(l);
            alive += e.Exists(l);
        }
    }
    long back = 0;
    { R l(*world); for (uint64_t h : churned) back += Entity(h).Exists(l); }
    out << "{\"k\":\"churn\",\"n\":" << k << ",\"null\":" << null << ",\"clash\":" << clash << ",\"alive\":" << alive << ",\"back\":" << back << ",\"ids\":" << ids << "}\n";
}

int main(int argc, char **argv) {
    if (argc < 3) return 2;
    std::ifstream in(argv[1]);
    out.open(argv[2]);
    std::string line;
    while (std::getline(in, line)) {
        out.flush();
        std::stringstream ss(line);
        std::string w, a, b, c, d;
        if (!(ss >> w)) continue;
        ss >> a >> b >> c >> d;
        if (w == "prog") {
            obs.clear();
            groups.clear();
            owner.clear();
            churned.clear();
            world = std::make_unique<World>();
            out << "{\"k\":\"prog\",\"p\":\"" << a << "\",\"max\":" << std::min<size_t>(std::numeric_limits<TECS_ENTITY_INDEX_TYPE>::max(), 1000000000)
                << ",\"batch\":" << TECS_ENTITY_ALLOCATION_BATCH_SIZE << "}\n";
        } else if (w == "begin") {
            if (a == "AR") ar = std::make_unique<AR>(*world);
            else if (a == "W") wr = std::make_unique<W>(*world);
            else rd = std::make_unique<R>(*world);
            out << "{\"k\":\"begin\",\"ty\":\"" << a << "\"}\n";
        } else if (w == "end") {
            if (w == "end" && !a.empty() && ar) { // through copies of the lock
                std::vector<Lock<World, AddRemove>> copies;
                for (long i = 0; i < atol(a.c_str()); i++) copies.emplace_back(*ar);
                out << "{\"k\":\"copies\",\"n\":" << a << ",\"use\":" << ar->UseCount() << "}\n";
                ar.reset();
                out << "{\"k\":\"copies\",\"n\":" << atol(a.c_str()) - 1 << ",\"use\":" << copies[0].UseCount() << "}\n";
            }
            ar.reset();
            wr.reset();
            rd.reset();
            out << "{\"k\":\"end\"}\n";
        } else if (w == "new") {
            Group &g = groups[a];
            long n = atol(b.c_str()), null = 0, clash = 0, threw = 0;
            for (long i = 0; i < n && !threw; i++) {
                try {
                    Entity e = ar->NewEntity();
                    null += !e;
                    clash += churned.count((uint64_t)e) || !owner.emplace((uint64_t)e, a).second;
                    g.e.push_back(e);
                } catch (const std::runtime_error &) { threw = 1; }
            }
            out << "{\"k\":\"new\",\"g\":\"" << a << "\",\"n\":" << n << ",\"made\":" << g.e.size() << ",\"threw\":" << threw << ",\"null\":" << null << ",\"clash\":" << clash << "}\n";
        } else if (w == "split") { // every c-th entity of group a goes to group b
            Group &g = groups[a], &h = groups[b];
            std::vector<Entity> rest;
            long k = 0, step = atol(c.c_str());
            for (auto &e : g.e) {
                if (k++ % step == 0) { h.e.push_back(e); owner[(uint64_t)e] = b; }
                else rest.push_back(e);
            }
            g.e.swap(rest);
            out << "{\"k\":\"split\",\"g\":\"" << a << "\",\"h\":\"" << b << "\",\"s\":" << step << "}\n";
        } else if (w == "set" || w == "setref" || w == "mod" || w == "unset") {
            long ok = 0, bad = 0;
            int v = atoi(c.c_str());
            if (b == "A") Write<A>(w, groups[a], v, ok, bad);
            else Write<B>(w, groups[a], v, ok, bad);
            out << "{\"k\":\"" << w << "\",\"g\":\"" << a << "\",\"c\":\"" << b << "\",\"v\":" << v << ",\"ok\":" << ok << ",\"bad\":" << bad << "}\n";
        } else if (w == "destroy") {
            long ok = 0, bad = 0;
            for (const Entity &e : groups[a].e) {
                try { e.Destroy(*ar); ok++; } catch (const std::runtime_error &) { bad++; }
            }
            out << "{\"k\":\"destroy\",\"g\":\"" << a << "\",\"ok\":" << ok << ",\"bad\":" << bad << "}\n";
        } else if (w == "obs") {
            WithLock([&](auto &l) {
                long ex = 0, exd = 0;
                for (auto &e : groups[a].e) { ex += e.Exists(l); exd += e.Existed(l); }
                out << "{\"k\":\"obs\",\"g\":\"" << a << "\",\"ex\":" << ex << ",\"exd\":" << exd << ",\"A\":" << ObsComp<A>(l, groups[a]) << ",\"B\":" << ObsComp<B>(l, groups[a]) << "}\n";
            });
        } else if (w == "list") {
            WithLock([&](auto &l) {
                if (a == "E") List(a, b == "prev", b == "prev" ? l.PreviousEntities() : l.Entities());
                else if (a == "A") List(a, b == "prev", b == "prev" ? l.template PreviousEntitiesWith<A>() : l.template EntitiesWith<A>());
                else List(a, b == "prev", b == "prev" ? l.template PreviousEntitiesWith<B>() : l.template EntitiesWith<B>());
            });
        } else if (w == "watch") {
            AnyObs &o = obs[a];
            o.kind = b[0];
            if (b == "E") o.e = ar->Watch<EntityEvent>();
            else if (b == "A") o.a = ar->Watch<ComponentEvent<A>>();
            else o.b = ar->Watch<ComponentEvent<B>>();
            out << "{\"k\":\"watch\",\"o\":\"" << a << "\",\"of\":\"" << b << "\"}\n";
        } else if (w == "drain") {
            AnyObs &o = obs[a];
            if (o.kind == 'E') Drain(a, o.e, o.last, EVal());
            else if (o.kind == 'A') Drain(a, o.a, o.last, CVal<A>());
            else Drain(a, o.b, o.last, CVal<B>());
        } else if (w == "churn") Churn(atol(a.c_str()), b == "one");
        else if (w == "readers") Readers(atol(a.c_str()), b == "ar");
        else if (w == "writers") Writers(atol(a.c_str()), atol(b.c_str()));
    }
    obs.clear();
    world.reset();
    return 0;
}
