// The component types, the type-erased lock interface and its implementation over Tecs lock types.
#pragma once
#include "vf.hh"
#include "sched.hh"

// ------------------------------------------------------------------------------------------------ component types
// A: small integer, B: string (a moved-from or torn value is visible), C: trivially copyable with non-zero default,
// G: global integer with non-zero default, H: global string.
struct A {
    int v;
    A() : v(0) { vf::LogData(this, 2); }
    A(int x) : v(x) { vf::LogData(this, 2); }
    A(const A &o) { vf::LogData(&o, 0); int x = o.v; vf::LogData(this, 2); v = x; }
    A &operator=(const A &o) { vf::LogData(&o, 0); int x = o.v; vf::LogData(this, 1); v = x; return *this; }
    ~A() { vf::LogData(this, 3); v = -9001; }
    int Read() const { vf::LogData(this, 0); return v; }
    void Write(int x) { vf::LogData(this, 1); v = x; }
};
struct StrComp {
    std::string s;
    static std::string Enc(int x) { return x == 0 ? std::string() : "a long enough string value " + std::to_string(x); }
    static int Dec(const std::string &s) {
        if (s.empty()) return 0;
        static const std::string p = "a long enough string value ";
        if (s.size() <= p.size() || s.compare(0, p.size(), p) != 0) return -9002;
        return atoi(s.c_str() + p.size());
    }
    StrComp() { vf::LogData(this, 2); }
    StrComp(int x) : s(Enc(x)) { vf::LogData(this, 2); }
    StrComp(const StrComp &o) { vf::LogData(&o, 0); std::string x = o.s; vf::LogData(this, 2); s = x; }
    StrComp(StrComp &&o) noexcept { vf::LogData(&o, 1); s = std::move(o.s); o.s = "moved"; vf::LogData(this, 2); }
    StrComp &operator=(const StrComp &o) {
        vf::LogData(&o, 0);
        std::string x = o.s;
        vf::LogData(this, 1);
        s = x;
        return *this;
    }
    StrComp &operator=(StrComp &&o) noexcept {
        vf::LogData(&o, 1);
        std::string x = std::move(o.s);
        o.s = "moved";
        vf::LogData(this, 1);
        s = x;
        return *this;
    }
    ~StrComp() { vf::LogData(this, 3); }
    int Read() const { vf::LogData(this, 0); return Dec(s); }
    void Write(int x) { vf::LogData(this, 1); s = Enc(x); }
};
struct B : StrComp {
    B() {}
    B(int x) : StrComp(x) {}
};
struct C {
    int v = 7;
    C() = default;
    C(int x) : v(x) {}
    int Read() const { return v; }
    void Write(int x) { v = x; }
};
struct G {
    int v;
    G() : v(10) { vf::LogData(this, 2); }
    G(int x) : v(x) { vf::LogData(this, 2); }
    G(const G &o) { vf::LogData(&o, 0); int x = o.v; vf::LogData(this, 2); v = x; }
    G &operator=(const G &o) { vf::LogData(&o, 0); int x = o.v; vf::LogData(this, 1); v = x; return *this; }
    ~G() { vf::LogData(this, 3); v = -9003; }
    int Read() const { vf::LogData(this, 0); return v; }
    void Write(int x) { vf::LogData(this, 1); v = x; }
};
struct H : StrComp {
    H() {}
    H(int x) : StrComp(x) {}
};

#include <Tecs.hh>

TECS_GLOBAL_COMPONENT(G);
TECS_GLOBAL_COMPONENT(H);
TECS_NAME_COMPONENT(A, "Alpha");

#if defined(VF_WIDE) // many more components than any machine word has bits, with the used ones among them
template<int> struct Fill {};
#define F8(n) Fill<n>, Fill<n + 1>, Fill<n + 2>, Fill<n + 3>, Fill<n + 4>, Fill<n + 5>, Fill<n + 6>, Fill<n + 7>
using World = Tecs::ECS<F8(0), F8(8), F8(16), F8(24), A, F8(32), C, F8(40), G, F8(48), Fill<56>, Fill<57>, B, Fill<58>, H>;
#elif defined(VF_ORDER2)
using World = Tecs::ECS<H, C, B, G, A>;
#else
using World = Tecs::ECS<A, G, B, H, C>;
#endif
using Tecs::Entity;

#ifdef VF_WIDE
static const int NTYPES = 5;
#else
static const int NTYPES = 21;
#endif
extern const char *const typeNames[NTYPES];

// ------------------------------------------------------------------------------------------------ results
struct Out {
    std::string r = "na"; // ok, throw, na (not offered by the static type of the lock)
    int v = 0;
    std::string h;                  // handle result
    std::vector<std::string> list; // list result
    bool has = false;               // boolean result
    std::string e;                  // event text (poll)
    std::string x;                  // further JSON
    const void *p = nullptr;        // the component a reference was given to
    bool w = false;                 // the reference was not const
};

struct Perm {
    std::string r, w;
    bool ar = false;
};

struct ViewVar {
    Tecs::EntityView v;
    std::shared_ptr<const std::vector<Entity>> own; // storage of views that are not from a lock
};
struct Obs {
    Tecs::Observer<World, Tecs::EntityEvent> e;
    Tecs::Observer<World, Tecs::ComponentEvent<A>> a;
    Tecs::Observer<World, Tecs::ComponentEvent<B>> b;
    Tecs::Observer<World, Tecs::ComponentEvent<C>> c;
    Tecs::Observer<World, Tecs::ComponentEvent<G>> g;
    Tecs::Observer<World, Tecs::ComponentEvent<H>> h;
    char kind = 0;
};

std::string HStr(const Entity &e);

struct ILock {
    virtual ~ILock() {}
    virtual Perm GetPerm() const = 0;
    virtual ILock *Copy() const = 0;
    virtual ILock *ReadOnly() const = 0;
    virtual ILock *Convert(int type) const = 0;   // nullptr: not convertible
    virtual ILock *Dynamic(int type) const = 0;   // type: one of 0..NDYN-1, nullptr: not possible
    virtual bool IsDynamic() const = 0;
    virtual ILock *Try(int type) const = 0;       // nullptr: refused
    virtual size_t TxId() const = 0;
    virtual long UseCount() const = 0;
    virtual int InstanceId() const = 0;
    // entity operations; c in "ABC", cs any of A B C AB AC BC ABC
    virtual void New(Out &o, Entity &e) const = 0;
    virtual void Destroy(Out &o, const Entity &e) const = 0;
    virtual void DestroyVar(Out &o, Entity &e) const = 0;
    virtual void Exists(Out &o, const Entity &e, bool prev) const = 0;
    virtual void Has(Out &o, const Entity &e, const std::string &cs, bool prev) const = 0;
    virtual void Get(Out &o, const Entity &e, char c) const = 0;
    virtual void GetM(Out &o, const Entity &e, char c, bool write, int v) const = 0;
    virtual void Prev(Out &o, const Entity &e, char c) const = 0;
    virtual void Set(Out &o, const Entity &e, char c, int v, bool byRef) const = 0;
    virtual void Unset(Out &o, const Entity &e, const std::string &cs) const = 0;
    // globals; c in "GH"
    virtual void GHas(Out &o, const std::string &cs, bool prev) const = 0;
    virtual void GGet(Out &o, char c) const = 0;
    virtual void GGetM(Out &o, char c, bool write, int v) const = 0;
    virtual void GPrev(Out &o, char c) const = 0;
    virtual void GSet(Out &o, char c, int v, bool byRef) const = 0;
    virtual void GUnset(Out &o, const std::string &cs) const = 0;
    // lists: kind E A B C, prev
    virtual Tecs::EntityView List(char kind, bool prev) const = 0;
    // observers
    virtual bool Watch(Obs &ob, char kind) const = 0;
    virtual bool StopObs(Obs &ob) const = 0;
    virtual bool Poll(Obs &ob, Out &o) const = 0;
};

ILock *StartTx(World &w, int type);
