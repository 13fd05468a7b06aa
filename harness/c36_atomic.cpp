// C36: on one thread an atomic is a plain variable, each operation returning the value before it, for every supported type.
#include "pbt.h"
#include "ce/atomic.h"
using namespace pbt;
enum class colour : u16 { red, green = 0x1234, blue = 0xffff };
struct alignas(8) pair32 { i32 a, b; bool operator==(pair32 const& o) const { return a == o.a && b == o.b; } };
struct big { u64 a, b; bool operator==(big const& o) const { return a == o.a && b == o.b; } };
static i64 arr[4096];
template<class T> static T gen(Src& s)
{
    if constexpr (std::is_same_v<T, bool>) return s.flip();
    else if constexpr (std::is_enum_v<T>) return T(s.integer(16));
    else if constexpr (std::is_integral_v<T>) return T(s.integer(int(sizeof(T) * 8)));
    else if constexpr (std::is_same_v<T, float>) { u32 b = u32(s.integer(32)); float f; if (s.flip()) return float(s.range(-1000, 1000)) / 4; memcpy(&f, &b, 4); return f; }
    else if constexpr (std::is_same_v<T, double>) { u64 b = s.integer(64); double f; if (s.flip()) return double(s.range(-100000, 100000)) / 8; memcpy(&f, &b, 8); return f; }
    else if constexpr (std::is_pointer_v<T>) return (T)(arr + s.below(4096));
    else { T t{ }; t.a = decltype(t.a)(s.integer(32)); t.b = decltype(t.b)(s.integer(32)); return t; }
}
template<class T> static bool same(T const& a, T const& b) { if constexpr (std::is_floating_point_v<T>) if (a != a && b != b) return true; return memcmp(&a, &b, sizeof(T)) == 0; }
template<class T, class = void> struct can_add { static constexpr bool value = false; };
template<class T> struct can_add<T, std::enable_if_t<!std::is_same_v<T, bool>, std::void_t<ce::atomic_val_t<T>>>> { static constexpr bool value = true; };
template<class T> static T plus(T a, i64 v, bool sub) { if (sub) v = -v; return T(u64(a) + u64(v)); }
template<class T> static void go(Src& s, char const* name)
{
    struct W { u8 g0[64]; ce::atomic<T> a; u8 g1[64]; W() : a{ } { } W(T v) : a{ v } { } };
    T m{ }; alignas(W) u8 mem[sizeof(W)]; memset(mem, s.pick({ 0, 0xcd }), sizeof mem);
    bool init = s.flip(); if (init) m = gen<T>(s); W& w = init ? *new (mem) W(m) : *new (mem) W(); memset(w.g0, 0x77, 64); memset(w.g1, 0x77, 64); ce::atomic<T>& a = w.a; ce::atomic<T> const& ca = a;
    static_assert(sizeof(a) == sizeof(std::atomic<T>));
    PBT_CHECK(s, same(ce::atomic_load(ca), m), "%s: a new atomic does not hold its %svalue", name, init ? "" : "zero ");
    size_t n = 1 + s.skewed(60), cas = 0, arith = 0, okc = 0; s.note("%s:", name);
    for (size_t i = 0; i < n; ++i)
    {
        T v = gen<T>(s), r = v, before = m; int op = int(s.below(9)); bool ck = true;
        if constexpr (!can_add<T>::value) if (op == 4 || op == 5) op = 2;
        if constexpr (!std::is_integral_v<T> || std::is_same_v<T, bool>) if (op >= 6) op = op == 6 ? 3 : op == 7 ? 0 : 1;
        s.note(" %d", op);
        switch (op)
        {
        case 0: r = ce::atomic_load(ca); break;
        case 1: ce::atomic_store(a, v); m = v; ck = false; break;
        case 2: r = ce::atomic_exchange(a, v); m = v; break;
        case 3: { T e = s.flip() ? m : gen<T>(s); bool want = memcmp(&e, &m, sizeof(T)) == 0; T e0 = e; ++cas; bool got = ce::atomic_compare_exchange(a, e, v); PBT_CHECK(s, got == want, "%s: compare exchange gave %d with %s expected value", name, got, want ? "the" : "another"); r = e; if (want) m = v, ++okc; PBT_CHECK(s, !want || same(e, e0), "%s: the expected value changed", name); break; }
        case 4: case 5: if constexpr (can_add<T>::value)
        {
            ++arith; 
            if constexpr (std::is_pointer_v<T>)
            {
                auto* base = (u8*)m; i64 z = sizeof(*T{ }), lo = ((u8*)arr - base) / z, hi = ((u8*)(arr + 4096) - base) / z; i64 k = s.range(lo, hi); if (op == 5) k = -k;
                r = op == 4 ? ce::atomic_fetch_add(a, k) : ce::atomic_fetch_sub(a, k); m = T(base + (op == 4 ? k : -k) * z);
            }
            else if constexpr (std::is_integral_v<T>) { r = op == 4 ? ce::atomic_fetch_add(a, v) : ce::atomic_fetch_sub(a, v); m = plus(m, i64(v), op == 5); }
            else { r = op == 4 ? ce::atomic_fetch_add(a, v) : ce::atomic_fetch_sub(a, v); volatile T x = m, y = v; m = op == 4 ? x + y : x - y; }
        } break;
        default: if constexpr (std::is_integral_v<T> && !std::is_same_v<T, bool>) { ++arith; if (op == 6) r = ce::atomic_fetch_xor(a, v), m = T(m ^ v); else if (op == 7) r = ce::atomic_fetch_and(a, v), m = T(m & v); else r = ce::atomic_fetch_or(a, v), m = T(m | v); } break;
        }
        if (ck) PBT_CHECK(s, same(r, before), "%s: operation %d of %zu returned another value than the one before it", name, op, i);
        PBT_CHECK(s, same(ce::atomic_load(ca), m), "%s: wrong value after operation %d (step %zu)", name, op, i);
        if constexpr (std::is_floating_point_v<T>) if (m != m) m = ce::atomic_load(ca); // which not-a-number is up to the processor
        for (int k = 0; k < 64; ++k) PBT_CHECK(s, w.g0[k] == 0x77 && w.g1[k] == 0x77, "%s: operation %d wrote outside", name, op);
    }
    s.count(n); s.nontrivial(n > 1); if (okc) s.label("exchanged"); if (cas > okc) s.label("not exchanged"); if (arith) s.label("arithmetic"); s.label(name);
}
void prop(Src& s)
{
    switch (s.below(19))
    {
    case 0: return go<bool>(s, "bool"); case 1: return go<signed char>(s, "signed char"); case 2: return go<u8>(s, "unsigned char"); case 3: return go<short>(s, "short"); case 4: return go<u16>(s, "unsigned short");
    case 5: return go<int>(s, "int"); case 6: return go<u32>(s, "unsigned"); case 7: return go<long>(s, "long"); case 8: return go<unsigned long>(s, "unsigned long"); case 9: return go<long long>(s, "long long"); case 10: return go<unsigned long long>(s, "unsigned long long");
    case 11: return go<char>(s, "char"); case 12: return go<float>(s, "float"); case 13: return go<double>(s, "double"); case 14: return go<i64*>(s, "int64 pointer"); case 15: return go<u16 const*>(s, "uint16 pointer"); case 16: return go<colour>(s, "enum"); case 17: return go<pair32>(s, "struct"); default: return go<char*>(s, "char pointer");
    }
}
PBT_MAIN(prop)
