#pragma once
#include <stdint.h>
#include <stddef.h>
template <class T> struct RTs { using t = T; };
template <class T> using RT = typename RTs<T>::t;
template <size_t S> struct US; template <> struct US<1> { using u = uint8_t; using s = int8_t; using w = uint16_t; using ws = int16_t; }; template <> struct US<2> { using u = uint16_t; using s = int16_t; using w = uint32_t; using ws = int32_t; };
template <> struct US<4> { using u = uint32_t; using s = int32_t; using w = uint64_t; using ws = int64_t; }; template <> struct US<8> { using u = uint64_t; using s = int64_t; using w = unsigned __int128; using ws = __int128; };
template <class T> using UT = typename US<sizeof(T)>::u; template <class T> using ST = typename US<sizeof(T)>::s;
template <class T> constexpr bool IsS() { return T(-1) < T(0); }
template <class T, bool s> struct WTs { using t = typename US<sizeof(T)>::w; }; template <class T> struct WTs<T, true> { using t = typename US<sizeof(T)>::ws; };
template <class T> using WT = typename WTs<T, IsS<T>()>::t;
template <class T> constexpr int BLK(int n) { return n < int(16 / sizeof(T)) ? n : int(16 / sizeof(T)); }
#define FOR(i, n) _Pragma("clang loop unroll(full)") for (int i = 0; i < (n); i++)
template <class F> inline uint32_t fbits(F f);
template <class D, class S> inline D bc(S s) { static_assert(sizeof(D) == sizeof(S)); return __builtin_bit_cast(D, s); }
template <class T> struct RMCs { using t = T; }; template <class T> struct RMCs<T&> { using t = T; }; template <class T> using RMC = typename RMCs<T>::t;
template <int S> struct FOf; template <> struct FOf<4> { using t = float; }; template <> struct FOf<8> { using t = double; };
template <class Q> constexpr Q QMax() { return IsS<Q>() ? Q((UT<Q>(~UT<Q>(0))) >> 1) : Q(~UT<Q>(0)); }
template <class Q> constexpr Q QMin() { return IsS<Q>() ? Q(~QMax<Q>()) : Q(0); }
template <class Q, class T> inline Q SatTo(T v) { // saturating narrowing of the mathematical value
  if (IsS<T>()) { const long long lo = QMin<Q>(), hi = sizeof(Q) == 8 ? 0 : (long long)QMax<Q>(); long long x = (long long)v; x = x < lo ? lo : x; x = x > hi ? hi : x; return Q(x); }
  const unsigned long long hi = (unsigned long long)QMax<Q>(); unsigned long long x = (unsigned long long)v; x = x > hi ? hi : x; return Q(x);
}
template <class T> inline T SatAdd(T a, T b) { if (sizeof(T) < 8) { long long s = (long long)a + (long long)b; const long long lo = (long long)QMin<T>(), hi = (long long)QMax<T>(); s = s < lo ? lo : s; s = s > hi ? hi : s; return T(s); } T r; bool o = __builtin_add_overflow(a, b, &r); return o ? (IsS<T>() && a < T(0) ? QMin<T>() : QMax<T>()) : r; }
template <class T> inline T SatSub(T a, T b) { if (sizeof(T) < 8) { long long s = (long long)a - (long long)b; const long long lo = (long long)QMin<T>(), hi = (long long)QMax<T>(); s = s < lo ? lo : s; s = s > hi ? hi : s; return T(s); } T r; bool o = __builtin_sub_overflow(a, b, &r); return o ? (!IsS<T>() || a < T(0) ? QMin<T>() : QMax<T>()) : r; }

inline uint32_t B(float f) { return __builtin_bit_cast(uint32_t, f); } inline uint64_t B(double f) { return __builtin_bit_cast(uint64_t, f); }
template <class T, class S> inline __attribute__((always_inline)) void sl(T& d, bool c, S s) { T o = d; T n = (T)s; d = c ? n : o; }
