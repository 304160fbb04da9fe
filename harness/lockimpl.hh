#pragma once
#include "world.hh"

using namespace Tecs;
template<typename... P> using L = Lock<World, P...>;
#ifdef VF_WIDE
using Types = std::tuple<L<AddRemove>, L<Write<A, B>>, L<Write<A, G>, Read<C>>, L<Read<A, B, C, G, H>>, L<WriteAll>>;
#else
using Types = std::tuple<
    L<AddRemove>, L<WriteAll>, L<ReadAll>, L<>, L<Read<A>>, L<Write<A>>, L<Read<B>>, L<Write<B>>, L<Read<A, B>>,
    L<Write<A>, Read<B>>, L<Read<A>, Write<B>>, L<Write<A, B>>, L<Read<C>>, L<Write<C>>, L<Read<G>>, L<Write<G>>,
    L<Write<A, G>, Read<C>>, L<Read<A, G, H>>, L<Write<B, C, H>>, L<Read<A, B, C, G, H>>, L<Write<A, B, C>, ReadAll>>;
#endif
using DynTypes = std::tuple<DynamicLock<World>, DynamicLock<World, Read<A>>, DynamicLock<World, Write<A>>, DynamicLock<World, WriteAll>,
    DynamicLock<World, Read<B>, Write<C, G>>>;
static const int NDYN = 5;
static_assert(std::tuple_size_v<Types> == NTYPES);

template<typename LT> struct LockImpl;

template<typename LT> struct PermOf {
    static Perm Get() {
        Perm p;
        auto add = [&](char c, bool r, bool w) {
            if (r) p.r += c;
            if (w) p.w += c;
        };
        add('A', is_read_allowed<A, LT>::value, is_write_allowed<A, LT>::value);
        add('B', is_read_allowed<B, LT>::value, is_write_allowed<B, LT>::value);
        add('C', is_read_allowed<C, LT>::value, is_write_allowed<C, LT>::value);
        add('G', is_read_allowed<G, LT>::value, is_write_allowed<G, LT>::value);
        add('H', is_read_allowed<H, LT>::value, is_write_allowed<H, LT>::value);
        p.ar = is_add_remove_allowed<LT>::value;
        return p;
    }
};

template<typename T> struct IsDyn : std::false_type {};
template<typename... P> struct IsDyn<DynamicLock<P...>> : std::true_type {};
template<typename T> struct StaticOf;
template<typename... P> struct StaticOf<DynamicLock<World, P...>> { using type = Lock<World, P...>; };

#define GUARD(...)                                                                                                     \
    try {                                                                                                              \
        __VA_ARGS__;                                                                                                   \
        o.r = "ok";                                                                                                    \
    } catch (const std::exception &) { o.r = "throw"; }

// Run f<T>() for the component named c
#define FOR_COMP(c, ...)                                                                                               \
    switch (c) {                                                                                                       \
    case 'A': { using T = A; __VA_ARGS__; break; }                                                                     \
    case 'B': { using T = B; __VA_ARGS__; break; }                                                                     \
    case 'C': { using T = C; __VA_ARGS__; break; }                                                                     \
    }
#define FOR_GLOB(c, ...)                                                                                               \
    switch (c) {                                                                                                       \
    case 'G': { using T = G; __VA_ARGS__; break; }                                                                     \
    case 'H': { using T = H; __VA_ARGS__; break; }                                                                     \
    }

std::string EvStr(EventType t, const Entity &e, int v);

// Remembers which component a reference is to
template<typename T> T &Kept(Out &o, T &r) {
    o.p = &r;
    o.w = !std::is_const_v<T>;
    return r;
}

template<typename LT> struct LockImpl : ILock {
    LT l;
    static constexpr bool AR = is_add_remove_allowed<LT>::value;
    explicit LockImpl(const LT &x) : l(x) {}
    template<typename W, typename = std::enable_if_t<std::is_same_v<W, World>>> explicit LockImpl(W &w) : l(w) {}

    Perm GetPerm() const override { return PermOf<LT>::Get(); }
    ILock *Copy() const override { return new LockImpl<LT>(l); }
    ILock *ReadOnly() const override {
        auto ro = l.ReadOnlySubset();
        return new LockImpl<decltype(ro)>(ro);
    }
    template<size_t... I> ILock *ConvertTo(int t, std::index_sequence<I...>) const {
        ILock *res = nullptr;
        (([&] {
            using To = std::tuple_element_t<I, Types>;
            if constexpr (std::is_convertible_v<LT, To>) {
                if (t == (int)I) {
                    To to = l;
                    res = new LockImpl<To>(to);
                }
            }
        }()), ...);
        return res;
    }
    ILock *Convert(int t) const override { return ConvertTo(t, std::make_index_sequence<NTYPES>()); }
    template<size_t... I> ILock *DynTo(int t, std::index_sequence<I...>) const {
        ILock *res = nullptr;
        if constexpr (!IsDyn<LT>::value) {
            (([&] {
                using To = std::tuple_element_t<I, DynTypes>;
                using Base = typename StaticOf<To>::type;
                if constexpr (std::is_convertible_v<LT, Base>) {
                    if (t == (int)I) {
                        To to(l);
                        res = new LockImpl<To>(to);
                    }
                }
            }()), ...);
        }
        return res;
    }
    ILock *Dynamic(int t) const override { return DynTo(t, std::make_index_sequence<NDYN>()); }
    bool IsDynamic() const override { return IsDyn<LT>::value; }
    template<typename To> struct Tryer;
    template<typename... P> struct Tryer<Lock<World, P...>> {
        static ILock *Do(const LT &l) {
            auto r = l.template TryLock<P...>();
            if (r) return new LockImpl<Lock<World, P...>>(*r);
            return nullptr;
        }
    };
    template<size_t... I> ILock *TryTo(int t, std::index_sequence<I...>) const {
        ILock *res = nullptr;
        if constexpr (IsDyn<LT>::value) {
            (([&] {
                if (t == (int)I) res = Tryer<std::tuple_element_t<I, Types>>::Do(l);
            }()), ...);
        }
        return res;
    }
    ILock *Try(int t) const override { return TryTo(t, std::make_index_sequence<NTYPES>()); }
#ifdef TECS_HEADER_ONLY
    size_t TxId() const override { return 0; } // not offered by this build
#else
    size_t TxId() const override { return l.GetTransactionId(); }
#endif
    long UseCount() const override { return l.UseCount(); }
    int InstanceId() const override { return l.GetInstance().GetInstanceId(); }

    void New(Out &o, Entity &e) const override {
        if constexpr (AR) { GUARD(e = l.NewEntity(); o.h = HStr(e)) }
    }
    void Destroy(Out &o, const Entity &e) const override {
        if constexpr (AR) { GUARD(e.Destroy(l)) }
    }
    void DestroyVar(Out &o, Entity &e) const override {
        if constexpr (AR) { GUARD(e.Destroy(l)) }
    }
    void Exists(Out &o, const Entity &e, bool prev) const override {
        GUARD(o.has = prev ? e.Existed(l) : e.Exists(l))
    }
    template<typename... T> void HasT(Out &o, const Entity &e, bool prev) const {
        GUARD(o.has = prev ? e.template Had<T...>(l) : e.template Has<T...>(l))
    }
    void Has(Out &o, const Entity &e, const std::string &cs, bool prev) const override {
        if (cs == "A") HasT<A>(o, e, prev);
        else if (cs == "B") HasT<B>(o, e, prev);
        else if (cs == "C") HasT<C>(o, e, prev);
        else if (cs == "AB") HasT<A, B>(o, e, prev);
        else if (cs == "BC") HasT<B, C>(o, e, prev);
        else if (cs == "ABC") HasT<A, B, C>(o, e, prev);
    }
    void Get(Out &o, const Entity &e, char c) const override {
        FOR_COMP(c, if constexpr (is_read_allowed<T, LT>::value) { GUARD(o.v = Kept(o, e.template Get<const T>(l)).Read()) })
    }
    void GetM(Out &o, const Entity &e, char c, bool write, int v) const override {
        FOR_COMP(c, if constexpr (is_write_allowed<T, LT>::value) {
            GUARD(T &r = e.template Get<T>(l); o.v = Kept(o, r).Read(); if (write) r.Write(v))
        } else if constexpr (is_read_allowed<T, LT>::value) {
            // Get<T> of a read-only component yields a const reference
            if (!write) { o.x = ",\"ro\":1"; GUARD(o.v = Kept(o, e.template Get<T>(l)).Read()) }
        })
    }
    void Prev(Out &o, const Entity &e, char c) const override {
        FOR_COMP(c, if constexpr (is_read_allowed<T, LT>::value) { GUARD(o.v = Kept(o, e.template GetPrevious<T>(l)).Read()) })
    }
    void Set(Out &o, const Entity &e, char c, int v, bool byRef) const override {
        FOR_COMP(c, if constexpr (is_write_allowed<T, LT>::value) {
            if (byRef) {
                T val(v);
                GUARD(o.v = Kept(o, e.template Set<T>(l, val)).Read(); if (val.Read() != v) o.v = -9004)
            } else {
                GUARD(o.v = Kept(o, e.template Set<T>(l, v)).Read())
            }
        })
    }
    template<typename... T> void UnsetT(Out &o, const Entity &e) const {
        if constexpr (AR) { GUARD(e.template Unset<T...>(l)) }
    }
    void Unset(Out &o, const Entity &e, const std::string &cs) const override {
        if (cs == "A") UnsetT<A>(o, e);
        else if (cs == "B") UnsetT<B>(o, e);
        else if (cs == "C") UnsetT<C>(o, e);
        else if (cs == "AB") UnsetT<A, B>(o, e);
        else if (cs == "BC") UnsetT<B, C>(o, e);
        else if (cs == "ABC") UnsetT<A, B, C>(o, e);
    }
    void GHas(Out &o, const std::string &cs, bool prev) const override {
        if (cs == "G") { GUARD(o.has = prev ? l.template Had<G>() : l.template Has<G>()) }
        else if (cs == "H") { GUARD(o.has = prev ? l.template Had<H>() : l.template Has<H>()) }
        else if (cs == "GH") { GUARD(o.has = prev ? l.template Had<G, H>() : l.template Has<G, H>()) }
    }
    void GGet(Out &o, char c) const override {
        FOR_GLOB(c, if constexpr (is_read_allowed<T, LT>::value) { GUARD(o.v = Kept(o, l.template Get<const T>()).Read()) })
    }
    void GGetM(Out &o, char c, bool write, int v) const override {
        FOR_GLOB(c, if constexpr (is_write_allowed<T, LT>::value) {
            GUARD(T &r = l.template Get<T>(); o.v = Kept(o, r).Read(); if (write) r.Write(v))
        } else if constexpr (is_read_allowed<T, LT>::value) {
            if (!write) { o.x = ",\"ro\":1"; GUARD(o.v = Kept(o, l.template Get<T>()).Read()) }
        })
    }
    void GPrev(Out &o, char c) const override {
        FOR_GLOB(c, if constexpr (is_read_allowed<T, LT>::value) { GUARD(o.v = Kept(o, l.template GetPrevious<T>()).Read()) })
    }
    void GSet(Out &o, char c, int v, bool byRef) const override {
        FOR_GLOB(c, if constexpr (is_write_allowed<T, LT>::value) {
            if (byRef) {
                T val(v);
                GUARD(o.v = Kept(o, l.template Set<T>(val)).Read(); if (val.Read() != v) o.v = -9004)
            } else {
                GUARD(o.v = Kept(o, l.template Set<T>(v)).Read())
            }
        })
    }
    void GUnset(Out &o, const std::string &cs) const override {
        if constexpr (AR) {
            if (cs == "G") { GUARD(l.template Unset<G>()) }
            else if (cs == "H") { GUARD(l.template Unset<H>()) }
            else if (cs == "GH") { GUARD((l.template Unset<G, H>())) }
        }
    }
    EntityView List(char kind, bool prev) const override {
        if (kind == 'E') return prev ? l.PreviousEntities() : l.Entities();
        FOR_COMP(kind, return prev ? l.template PreviousEntitiesWith<T>() : l.template EntitiesWith<T>())
        return {};
    }
    bool Watch(Obs &ob, char kind) const override {
        if constexpr (AR) {
            ob.kind = kind;
            switch (kind) {
            case 'E': ob.e = l.template Watch<EntityEvent>(); return true;
            case 'A': ob.a = l.template Watch<ComponentEvent<A>>(); return true;
            case 'B': ob.b = l.template Watch<ComponentEvent<B>>(); return true;
            case 'C': ob.c = l.template Watch<ComponentEvent<C>>(); return true;
            case 'G': ob.g = l.template Watch<ComponentEvent<G>>(); return true;
            case 'H': ob.h = l.template Watch<ComponentEvent<H>>(); return true;
            }
        }
        return false;
    }
    bool StopObs(Obs &ob) const override {
        if constexpr (AR) {
            switch (ob.kind) {
            case 'E': ob.e.Stop(l); return true;
            case 'A': ob.a.Stop(l); return true;
            case 'B': l.StopWatching(ob.b); return true;
            case 'C': ob.c.Stop(l); return true;
            case 'G': ob.g.Stop(l); return true;
            case 'H': l.StopWatching(ob.h); return true;
            default: ob.e.Stop(l); return true;
            }
        }
        return false;
    }
    template<typename Ev, typename O> bool PollT(O &ob, Out &o) const {
        Ev ev;
        if (!ob.Poll(l, ev)) return false;
        if constexpr (std::is_same_v<Ev, EntityEvent>) o.e = EvStr(ev.type, ev.entity, 0);
        else o.e = EvStr(ev.type, ev.entity, ev.component.Read());
        return true;
    }
    bool Poll(Obs &ob, Out &o) const override {
        o.r = "ok";
        switch (ob.kind) {
        case 'A': return PollT<ComponentEvent<A>>(ob.a, o);
        case 'B': return PollT<ComponentEvent<B>>(ob.b, o);
        case 'C': return PollT<ComponentEvent<C>>(ob.c, o);
        case 'G': return PollT<ComponentEvent<G>>(ob.g, o);
        case 'H': return PollT<ComponentEvent<H>>(ob.h, o);
        default: return PollT<EntityEvent>(ob.e, o);
        }
    }
};
