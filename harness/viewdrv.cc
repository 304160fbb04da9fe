// Drives Tecs::EntityView over plain lists: every access path, inside and outside of the view.
#include <Tecs.hh>
#include <cstdio>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>

using Tecs::Entity;
using Tecs::EntityView;

static std::vector<Entity> store;
static std::map<std::string, std::unique_ptr<EntityView>> views;
static const size_t CLAMP = 1000000;

static size_t Num(const std::string &s) {
    if (s == "max") return std::numeric_limits<size_t>::max();
    if (s == "max-1") return std::numeric_limits<size_t>::max() - 1;
    if (s == "half") return std::numeric_limits<size_t>::max() / 2 + 1;
    return strtoull(s.c_str(), nullptr, 10);
}
static long Clamp(size_t x) { return x > CLAMP ? CLAMP : x; }
static std::string List(const std::vector<long> &v) {
    std::string s = "[";
    for (auto x : v) { if (s.size() > 1) s += ","; s += std::to_string(x); }
    return s + "]";
}
// Runs f; -1 if it throws (tells that no element was returned).
template<typename F>
static long Try(F f) {
    try { return (long)f(); } catch (const std::exception &) { return -1; }
}

using It = EntityView::iterator;
using Rit = EntityView::reverse_iterator;

static void Probe(std::ostream &out, const std::string &name) {
    const EntityView &v = *views[name];
    const size_t n = v.size(), cap = std::min<size_t>(n, store.size()) + 3; // bounds the loops over a broken view
    std::map<std::string, std::vector<long>> fwd, rev, outside;
    auto walk = [&](std::vector<long> &r, auto &&done, auto &&get, auto &&next) {
        for (size_t k = 0; k < cap && !done(); k++) {
            r.push_back(Try(get));
            next();
        }
    };
    { auto &r = fwd["range"]; size_t k = 0; try { for (auto &e : v) { r.push_back(e.index); if (++k >= cap) break; } } catch (const std::exception &) { r.push_back(-1); } }
    { It i = v.begin(); walk(fwd["pre"], [&] { return i == v.end(); }, [&] { return (*i).index; }, [&] { ++i; }); }
    { It i = v.begin(); walk(fwd["neq"], [&] { return !(i != v.end()); }, [&] { return i->index; }, [&] { ++i; }); }
    { It i = v.begin(); auto &r = fwd["post"]; for (size_t k = 0; k < cap && i != v.end(); k++) r.push_back(Try([&] { return (*i++).index; })); }
    { It i = v.begin(); walk(fwd["add"], [&] { return i == v.end(); }, [&] { return (*i).index; }, [&] { i += 1; }); }
    for (size_t k = 0; k < n && k < cap; k++) {
        auto d = (std::ptrdiff_t)k, e = (std::ptrdiff_t)(n - k);
        fwd["at"].push_back(Try([&] { return v[k].index; }));
        fwd["plus"].push_back(Try([&] { return (*(v.begin() + d)).index; }));
        fwd["arrow"].push_back(Try([&] { return (v.begin() + d)->index; }));
        fwd["sub"].push_back(Try([&] { return v.begin()[d].index; }));
        fwd["endminus"].push_back(Try([&] { return (*(v.end() - e)).index; }));
        fwd["endsub"].push_back(Try([&] { return v.end()[-e].index; }));
        rev["plus"].push_back(Try([&] { return (*(v.rbegin() + d)).index; }));
        rev["sub"].push_back(Try([&] { return v.rbegin()[d].index; }));
        rev["arrow"].push_back(Try([&] { return (v.rbegin() + d)->index; }));
        rev["endminus"].push_back(Try([&] { return (*(v.rend() - e)).index; }));
    }
    { Rit i = v.rbegin(); walk(rev["pre"], [&] { return i == v.rend(); }, [&] { return (*i).index; }, [&] { ++i; }); }
    { Rit i = v.rbegin(); walk(rev["neq"], [&] { return !(i != v.rend()); }, [&] { return i->index; }, [&] { i++; }); }
    { It i = v.end(); auto &r = rev["dec"]; for (size_t k = 0; k < cap && i != v.begin(); k++) { --i; r.push_back(Try([&] { return (*i).index; })); } }
    { It i = v.end(); auto &r = rev["postdec"]; for (size_t k = 0; k < cap && i != v.begin(); k++) { i--; r.push_back(Try([&] { return (*i).index; })); } }
    { It i = v.end(); auto &r = rev["minus"]; for (size_t k = 0; k < cap && i != v.begin(); k++) { i -= 1; r.push_back(Try([&] { return (*i).index; })); } }
    { Rit i = v.rend(); auto &r = fwd["rdec"]; for (size_t k = 0; k < cap && i != v.rbegin(); k++) { --i; r.push_back(Try([&] { return (*i).index; })); } }
#ifndef TECS_UNCHECKED_MODE
    for (size_t p : {n, n + 1, n + 7, std::numeric_limits<size_t>::max(), std::numeric_limits<size_t>::max() / 2}) {
        auto d = (std::ptrdiff_t)p;
        outside["at"].push_back(Try([&] { return v[p].index; }));
        outside["plus"].push_back(Try([&] { return (*(v.begin() + d)).index; }));
        outside["arrow"].push_back(Try([&] { return (v.begin() + d)->index; }));
        outside["sub"].push_back(Try([&] { return v.begin()[d].index; }));
        outside["rplus"].push_back(Try([&] { return (*(v.rbegin() + d)).index; }));
    }
    outside["end"].push_back(Try([&] { return (*v.end()).index; }));
    outside["endarrow"].push_back(Try([&] { return v.end()->index; }));
    outside["rend"].push_back(Try([&] { return (*v.rend()).index; }));
    { It i = v.begin(); --i; outside["before"].push_back(Try([&] { return (*i).index; })); outside["before"].push_back(Try([&] { return i->index; })); }
    { It i = v.begin(); outside["beforesub"].push_back(Try([&] { return i[-1].index; })); outside["before"].push_back(Try([&] { return (*(v.begin() - 1)).index; })); }
#endif
    // equality of positions: matrix of (begin+i == begin+j) and of !=
    std::vector<long> eq;
    const size_t m = std::min<size_t>(n, 5);
    for (size_t i = 0; i <= m; i++)
        for (size_t j = 0; j <= m; j++) {
            It a = v.begin() + (std::ptrdiff_t)i, b = v.begin() + (std::ptrdiff_t)j;
            eq.push_back((a == b) ? 1 : 0);
            eq.push_back((a != b) ? 1 : 0);
        }
    out << "{\"k\":\"probe\",\"v\":\"" << name << "\",\"size\":" << Clamp(n) << ",\"empty\":" << (v.empty() ? 1 : 0);
    auto put = [&](const char *key, auto &m) {
        out << ",\"" << key << "\":{\"\":[]";
        for (auto &[k, x] : m) out << ",\"" << k << "\":" << List(x);
        out << "}";
    };
    // The keys of every probe are the same, so that a path that yields nothing is seen.
    for (auto k : {"range", "pre", "neq", "post", "add", "at", "plus", "arrow", "sub", "endminus", "endsub", "rdec"}) fwd[k];
    for (auto k : {"plus", "sub", "arrow", "endminus", "pre", "neq", "dec", "postdec", "minus"}) rev[k];
    put("fwd", fwd);
    put("rev", rev);
    put("out", outside);
    out << ",\"m\":" << m << ",\"eq\":" << List(eq) << "}\n";
}

int main(int argc, char **argv) {
    if (argc < 3) return 2;
    std::ifstream in(argv[1]);
    std::ofstream out(argv[2]);
    std::string line;
    while (std::getline(in, line)) {
        out.flush();
        std::stringstream ss(line);
        std::string w, a, b, c, d;
        if (!(ss >> w)) continue;
        ss >> a >> b >> c >> d;
        auto made = [&](const char *op, const std::string &from, const std::string &to, size_t x, size_t y, auto make) {
            bool ok = true;
            try { views[to] = std::make_unique<EntityView>(make()); } catch (const std::exception &) { ok = false; }
            out << "{\"k\":\"" << op << "\",\"f\":\"" << from << "\",\"v\":\"" << to << "\",\"x\":" << Clamp(x) << ",\"y\":" << Clamp(y) << ",\"ok\":" << ok << "}\n";
        };
        if (w == "prog") {
            views.clear();
            store.clear();
            long n = atol(b.c_str());
            for (long i = 1; i <= n; i++) store.emplace_back((TECS_ENTITY_INDEX_TYPE)i, 1);
            for (int i = 0; i < 3; i++) store.reserve(n + 4);
            out << "{\"k\":\"prog\",\"p\":\"" << a << "\",\"n\":" << n << ",\"un\":"
#ifdef TECS_UNCHECKED_MODE
                << 1
#else
                << 0
#endif
                << "}\n";
        } else if (w == "full") made("full", "", a, 0, 0, [&] { return EntityView(store); });
        else if (w == "def") made("def", "", a, 0, 0, [&] { return EntityView(); });
        else if (w == "ctor") made("ctor", "", a, Num(b), Num(c), [&] { return EntityView(store, Num(b), Num(c)); });
        else if (w == "copy") { if (views.count(a)) made("copy", a, b, 0, 0, [&] { return EntityView(*views[a]); }); }
        else if (w == "sub") {
            if (!views.count(a)) continue;
            if (d == "def") made("subd", a, b, Num(c), 0, [&] { return views[a]->subview(Num(c)); });
            else made("sub", a, b, Num(c), Num(d), [&] { return views[a]->subview(Num(c), Num(d)); });
        } else if (w == "probe") {
            if (views.count(a)) Probe(out, a);
        }
    }
    return 0;
}
