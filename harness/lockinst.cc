// Explicit instantiation of part of the lock types (-DPART=n, n = 0..10).
#include "lockimpl.hh"
// Starting a transaction instantiates its constructor and destructor, the biggest part of the code.
template<int I> ILock *StartT(World &w) { return new LockImpl<std::tuple_element_t<I, Types>>(w); }
#define EXT(n) extern template struct LockImpl<std::tuple_element_t<n, Types>>; extern template ILock *StartT<n>(World &);
#define DEF(n) template struct LockImpl<std::tuple_element_t<n, Types>>; template ILock *StartT<n>(World &);
#ifdef VF_WIDE
#if PART == 0
DEF(0)
#else
EXT(0)
#endif
#if PART == 1
DEF(1)
#else
EXT(1)
#endif
#if PART == 2
DEF(2)
#else
EXT(2)
#endif
#if PART == 3
DEF(3)
#else
EXT(3)
#endif
#if PART == 4
DEF(4)
#else
EXT(4)
#endif
#else
#if PART == 0
DEF(0) DEF(3) DEF(4) DEF(5)
#else
EXT(0) EXT(3) EXT(4) EXT(5)
#endif
#if PART == 1
DEF(1) DEF(2) DEF(6) DEF(7) DEF(8)
#else
EXT(1) EXT(2) EXT(6) EXT(7) EXT(8)
#endif
#if PART == 2
DEF(9) DEF(10) DEF(11) DEF(12) DEF(13)
#else
EXT(9) EXT(10) EXT(11) EXT(12) EXT(13)
#endif
#if PART == 3
DEF(14) DEF(15) DEF(16) DEF(17)
#else
EXT(14) EXT(15) EXT(16) EXT(17)
#endif
#if PART == 4
DEF(18) DEF(19) DEF(20)
#else
EXT(18) EXT(19) EXT(20)
#endif
#endif
#define DYX(n) extern template struct LockImpl<std::tuple_element_t<n, DynTypes>>;
#define DYD(n) template struct LockImpl<std::tuple_element_t<n, DynTypes>>;
#if PART == 5
DYD(0)
#else
DYX(0)
#endif
#if PART == 6
DYD(1)
#else
DYX(1)
#endif
#if PART == 7
DYD(2)
#else
DYX(2)
#endif
#if PART == 8
DYD(3)
#else
DYX(3)
#endif
#if PART == 9
DYD(4)
#else
DYX(4)
#endif
#if PART == 10
ILock *StartTx(World &w, int type) {
    switch (type) {
    #undef TY
    #define TY(n) case n: return StartT<n>(w);
    #include "types.inc"
    }
    return nullptr;
}
Perm TypePerm(int type) {
    switch (type) {
    #undef TY
    #define TY(n) case n: return PermOf<std::tuple_element_t<n, Types>>::Get();
    #include "types.inc"
    }
    return {};
}
#endif
