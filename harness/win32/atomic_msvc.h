// the library's atomics for the Microsoft compiler, on top of its intrinsics written with clang's (CE_USER_ATOMIC_INCLUDE)
#pragma once
#include <emmintrin.h>
#include "ce/ce.h"
typedef long long ms_int64;
#define MS_INTRINSICS(T, S, P) \
    extern "C" inline T _InterlockedExchange##S(T volatile* p, T v) { return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
    extern "C" inline T _InterlockedExchangeAdd##S(T volatile* p, T v) { return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
    extern "C" inline T _InterlockedCompareExchange##S(T volatile* p, T n, T e) { __atomic_compare_exchange_n(p, &e, n, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; } \
    extern "C" inline T _InterlockedXor##S(T volatile* p, T v) { return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
    extern "C" inline T _InterlockedAnd##S(T volatile* p, T v) { return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
    extern "C" inline T _InterlockedOr##S(T volatile* p, T v) { return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
    extern "C" inline T __iso_volatile_load##P(T const volatile* p) { return __atomic_load_n(p, __ATOMIC_RELAXED); } \
    extern "C" inline void __iso_volatile_store##P(T volatile* p, T v) { __atomic_store_n(p, v, __ATOMIC_RELAXED); }
MS_INTRINSICS(char, 8, 8)
MS_INTRINSICS(short, 16, 16)
MS_INTRINSICS(int, , 32)
MS_INTRINSICS(ms_int64, 64, 64)
extern "C" inline void* _InterlockedExchangePointer(void* volatile* p, void* v) { return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); }
extern "C" inline void* _InterlockedCompareExchangePointer(void* volatile* p, void* n, void* e) { __atomic_compare_exchange_n(p, &e, n, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
extern "C" inline void _ReadWriteBarrier() { __asm__ volatile("" ::: "memory"); }
// that compiler's long has 32 bits
#define long int
#define __int8 char
#define __int16 short
#define __int32 int
#define __int64 ms_int64
#define _MSC_VER 1930
#include "ce/atomic_msvc_x86.h"
#undef _MSC_VER
#undef __int64
#undef __int32
#undef __int16
#undef __int8
#undef long
