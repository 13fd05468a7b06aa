// the geometry as the Microsoft compiler sees it: 128 bit products by its intrinsics, written with this compiler's
#pragma once
#include <emmintrin.h>
#include "ce/ce.h"
extern "C" inline long _mul128(long a, long b, long* hi) { __int128 r = __int128(a) * b; *hi = (long)(r >> 64); return (long)r; }
extern "C" inline long _div128(long hi, long lo, long d, long* rest) { __int128 n = __int128((unsigned __int128)(unsigned long)hi << 64 | (unsigned long)lo); *rest = (long)(n % d); return (long)(n / d); }
#pragma clang diagnostic ignored "-Wunknown-pragmas"
#define __int64 long
#define _MSC_VER 1930
#include "ce/math.h"
#undef _MSC_VER
#undef __int64
