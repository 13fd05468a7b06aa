// C49: the atomics for the Microsoft compiler, built on its intrinsics written with this compiler's: on one thread a plain variable, each operation returning the value before it; on several threads nothing is lost, doubled or torn.
#include "pbt.h"
#include <set>
#include <thread>
#define CE_USER_ATOMIC_INCLUDE "win32/atomic_msvc.h"
#include "ce/atomic.h"
using namespace pbt;
enum class colour : u16 { red, green = 0x1234, blue = 0xffff };
struct pair32 { i32 a, b; };
struct v2 { u32 a, b; v2& operator+=(v2 o) { a += o.a; b += o.b; return *this; } v2& operator-=(v2 o) { a -= o.a; b -= o.b; return *this; } }; static v2 operator-(v2 a, v2 b) { return a -= b; }
struct v3 { u64 a, b, c; v3& operator+=(v3 const& o) { a += o.a; b += o.b; c += o.c; return *this; } v3& operator-=(v3 const& o) { a -= o.a; b -= o.b; c -= o.c; return *this; } }; static v3 operator-(v3 a, v3 const& b) { return a -= b; }
struct odd { u8 a, b, c; }; struct two { u64 a, b; };
static i64 arr[4096];
template<class T> constexpr bool is_v = std::is_same_v<T, v2> || std::is_same_v<T, v3>;
template<class T> static T gen(Src& s)
{
    if constexpr (std::is_same_v<T, bool>) return s.flip();
    else if constexpr (std::is_enum_v<T>) return T(s.integer(16));
    else if constexpr (std::is_integral_v<T>) return T(s.integer(int(sizeof(T) * 8)));
    else if constexpr (std::is_same_v<T, float>) { u32 b = u32(s.integer(32)); float f; if (s.flip()) return float(s.range(-1000, 1000)) / 4; memcpy(&f, &b, 4); return f; }
    else if constexpr (std::is_same_v<T, double>) { u64 b = s.integer(64); double f; if (s.flip()) return double(s.range(-100000, 100000)) / 8; memcpy(&f, &b, 8); return f; }
    else if constexpr (std::is_pointer_v<T>) return (T)(arr + s.below(4096));
    else { T t{ }; t.a = decltype(t.a)(s.integer(32)); t.b = decltype(t.b)(s.integer(32)); if constexpr (sizeof(T) == 3 || sizeof(T) == 24) t.c = decltype(t.c)(s.integer(32)); return t; }
}
template<class T> static bool same(T const& a, T const& b) { if constexpr (std::is_floating_point_v<T>) if (a != a && b != b) return true; return memcmp(&a, &b, sizeof(T)) == 0; }
template<class T> static void go(Src& s, char const* name)
{
    constexpr bool add = !std::is_same_v<T, bool> && (std::is_arithmetic_v<T> || std::is_pointer_v<T> || is_v<T>), cmp = sizeof(T) == 1 || sizeof(T) == 2 || sizeof(T) == 4 || sizeof(T) == 8;
    struct W { alignas(16) u8 g0[64]; ce::atomic<T> a; u8 g1[64]; W(T v) : a{ v } { } };
    T m = gen<T>(s); alignas(W) u8 mem[sizeof(W)]; memset(mem, s.pick({ 0, 0xcd }), sizeof mem); W& w = *new (mem) W(m); memset(w.g0, 0x77, 64); memset(w.g1, 0x77, 64); auto& a = w.a; ce::atomic<T> const& ca = a; static_assert(sizeof(a) == sizeof(T));
    PBT_CHECK(s, same(ce::atomic_load(ca), m), "%s: a new atomic does not hold its value", name); size_t n = 1 + s.skewed(60), cas = 0, okc = 0, arith = 0; s.note("%s:", name);
    for (size_t i = 0; i < n; ++i)
    {
        T v = gen<T>(s), r = v, before = m; int op = int(s.below(6)); bool ck = true; if (!cmp && op == 3) op = 2; if (!add && op > 3) op -= 3; s.note(" %d", op);
        switch (op)
        {
        case 0: r = ce::atomic_load(ca); break;
        case 1: ce::atomic_store(a, v); m = v; ck = false; break;
        case 2: r = ce::atomic_exchange(a, v); m = v; break;
        case 3: if constexpr (cmp) { T e = s.flip() ? m : gen<T>(s), e0 = e; bool want = memcmp(&e, &m, sizeof(T)) == 0; ++cas; bool got = ce::atomic_compare_exchange(a, e, v); PBT_CHECK(s, got == want, "%s: compare exchange gave %d with %s expected value", name, got, want ? "the" : "another"); r = e; if (want) m = v, ++okc; PBT_CHECK(s, !want || same(e, e0), "%s: the expected value changed", name); } break;
        default: if constexpr (add)
        {
            ++arith; bool sub = op == 5;
            if constexpr (std::is_pointer_v<T>) { auto* base = (u8*)m; i64 z = sizeof(*T{ }), lo = ((u8*)arr - base) / z, hi = ((u8*)(arr + 4096) - base) / z, k = s.range(lo, hi); if (sub) k = -k; r = sub ? ce::atomic_fetch_sub(a, k) : ce::atomic_fetch_add(a, k); m = T(base + (sub ? -k : k) * z); }
            else if constexpr (std::is_integral_v<T>) { r = sub ? ce::atomic_fetch_sub(a, v) : ce::atomic_fetch_add(a, v); m = sub ? T(u64(m) - u64(v)) : T(u64(m) + u64(v)); }
            else if constexpr (is_v<T>) { r = sub ? ce::atomic_fetch_sub(a, v) : ce::atomic_fetch_add(a, v); sub ? m -= v : m += v; }
            else { r = sub ? ce::atomic_fetch_sub(a, v) : ce::atomic_fetch_add(a, v); volatile T x = m, y = v; m = sub ? x - y : x + y; }
        }
        }
        if (ck) PBT_CHECK(s, same(r, before), "%s: operation %d of step %zu returned another value than the one before it", name, op, i);
        PBT_CHECK(s, same(ce::atomic_load(ca), m), "%s: wrong value after operation %d (step %zu)", name, op, i); if constexpr (std::is_floating_point_v<T>) if (m != m) m = ce::atomic_load(ca);
        for (int k = 0; k < 64; ++k) PBT_CHECK(s, w.g0[k] == 0x77 && w.g1[k] == 0x77, "%s: operation %d wrote outside", name, op);
    }
    s.count(n); s.nontrivial(n > 1); if (okc) s.label("exchanged"); if (cas > okc) s.label("not exchanged"); if (arith) s.label("arithmetic"); s.label(name);
}
template<class F> static void team(int n, F f) { std::atomic<int> ready{ 0 }; std::vector<std::thread> t; for (int i = 0; i < n; ++i) t.emplace_back([&, i] { ++ready; while (ready < n) std::this_thread::yield(); f(i); }); for (auto& x : t) x.join(); }
// every thread adds: nothing is lost, and with steps of one every value before is seen once
template<class T> static void counting(Src& s, char const* name)
{
    int n = 2 + int(s.below(3)); unsigned per = 1 + unsigned(s.skewed(1500)); if (sizeof(T) == 1) per %= 60; bool by_cas = sizeof(T) <= 8 && s.flip(), down = s.flip(); s.note("counting %s: %d x %u%s%s", name, n, per, by_cas ? " by compare exchange" : "", down ? " down" : ""); T start = T(s.below(100)); ce::atomic<T> a{ start }; std::vector<std::vector<T>> seen(n);
    team(n, [&](int i) { for (unsigned k = 0; k < per; ++k) { T b; if (by_cas) { b = ce::atomic_load(a); while (!ce::atomic_compare_exchange(a, b, T(down ? b - 1 : b + 1))) { } } else b = down ? ce::atomic_fetch_sub(a, T(1)) : ce::atomic_fetch_add(a, T(1)); seen[i].push_back(b); } });
    T want = T(down ? i64(start) - i64(per) * n : i64(start) + i64(per) * n), got = ce::atomic_load(a); PBT_CHECK(s, got == want, "%s: %lld of %lld after %d x %u steps", name, (long long)got, (long long)want, n, per); std::set<T> all; for (auto& v : seen) for (T x : v) all.insert(x); PBT_CHECK(s, all.size() == size_t(n) * per, "%s: %zu values before seen in %zu steps", name, all.size(), size_t(n) * per); for (auto& v : seen) for (size_t k = 1; k < v.size() && sizeof(T) > 2; ++k) PBT_CHECK(s, down ? v[k] < v[k - 1] : v[k] > v[k - 1], "%s: a thread saw the count go back", name); s.count(n * per); s.label("counting threads");
}
// some threads add, others take everything by exchange or compare exchange: nothing is lost or doubled
template<class T> static void draining(Src& s, char const* name)
{
    int n = 2 + int(s.below(3)); unsigned per = 1 + unsigned(s.skewed(2000)); u32 ops = u32(s.bits(32)); s.note("draining %s: %d x %u", name, n, per); ce::atomic<T> a{ T(0) }; std::vector<T> in(n), out(n);
    team(n, [&](int i) { u64 r = ops + u64(i); T add = 0, took = 0; for (unsigned k = 0; k < per; ++k) { r = mix(r); T v = T(r % 7); switch ((i + (r >> 32) % 3) % 4) { case 0: took = T(took + ce::atomic_exchange(a, T(0))); break; case 1: add = T(add + v); ce::atomic_fetch_add(a, v); break; case 2: { T e = ce::atomic_load(a); if (ce::atomic_compare_exchange(a, e, T(1))) took = T(took + e), add = T(add + 1); break; } default: took = T(took + v); ce::atomic_fetch_sub(a, v); } } in[size_t(i)] = add; out[size_t(i)] = took; });
    T x = 0, y = ce::atomic_load(a); for (T v : in) x = T(x + v); for (T v : out) y = T(y + v); PBT_CHECK(s, x == y, "%s: %lld were added, %lld taken or left", name, (long long)x, (long long)y); s.count(n * per); s.label("draining");
}
// values of several parts: a reader always sees one that was written as a whole, and additions are not lost
template<class V> static V whole_of(u64 x) { if constexpr (sizeof(V) == 8) return V{ u32(x), u32(x) * 2 }; else return V{ x, x * 2, x * 3 }; }
template<class V> static bool torn(V const& v) { if constexpr (sizeof(V) == 8) return v.b != v.a * 2; else return v.b != v.a * 2 || v.c != v.a * 3; }
template<class V> static void whole(Src& s, char const* name)
{
    static ce::atomic<V> a[4]; int n = 2 + int(s.below(3)), q = 1 + int(s.below(4)); unsigned per = 1 + unsigned(s.skewed(1000)); for (auto& x : a) ce::atomic_store(x, whole_of<V>(0)); bool adding = s.flip(); std::atomic<int> bad{ 0 }; s.note("%s: %d x %u, %d of them%s", name, n, per, q, adding ? ", adding" : "");
    team(n, [&](int i)
    {
        u64 r = u64(i) * 99 + per;
        for (unsigned k = 0; k < per; ++k)
        {
            r = mix(r); u64 x = r >> 20; auto& w = a[r % q]; V v;
            if (adding) { if constexpr (sizeof(V) == 8) if ((r & 192) == 0) { v = ce::atomic_load(w); for (;;) { V u = v; u += whole_of<V>(1); if (ce::atomic_compare_exchange(w, v, u)) break; if (torn(v)) ++bad; } if (torn(v)) ++bad; continue; } v = r & 64 ? ce::atomic_fetch_add(w, whole_of<V>(1)) : ce::atomic_fetch_sub(w, whole_of<V>(u64(-1))); }
            else if (r & 64) v = ce::atomic_exchange(w, whole_of<V>(x)); else { ce::atomic_store(w, whole_of<V>(x)); v = ce::atomic_load(w); }
            if (torn(v)) ++bad;
        }
    });
    PBT_CHECK(s, bad == 0, "%s: %d torn values", name, bad.load()); u64 sum = 0; for (auto& x : a) { V v = ce::atomic_load(x); PBT_CHECK(s, !torn(v), "%s: a torn value is left", name); sum += v.a; } if (adding) PBT_CHECK(s, sum == u64(n) * per, "%s: %llu of %llu additions are left", name, (unsigned long long)sum, (unsigned long long)n * per); s.count(n * per); s.label(name);
}
// tokens passed from hand to hand by exchange, and plain data published by a store
static void passing(Src& s)
{
    int n = 2 + int(s.below(3)); unsigned per = 1 + unsigned(s.skewed(1000)); ce::atomic<u64> a{ 0 }; std::vector<std::vector<u64>> got(n); s.note("passing: %d x %u", n, per); team(n, [&](int i) { for (unsigned k = 0; k < per; ++k) got[i].push_back(ce::atomic_exchange(a, u64(i) << 32 | (k + 1))); }); std::multiset<u64> all; for (auto& v : got) for (u64 x : v) all.insert(x); all.insert(ce::atomic_load(a)); PBT_CHECK(s, all.count(0) == 1, "the first value was taken %zu times", all.count(0)); for (int i = 0; i < n; ++i) for (unsigned k = 0; k < per; ++k) PBT_CHECK(s, all.count(u64(i) << 32 | (k + 1)) == 1, "a value was taken %zu times", all.count(u64(i) << 32 | (k + 1)));
    ce::atomic<int> flag{ 0 }; u64 data[4]{ }; int bad = 0; unsigned rounds = 1 + unsigned(s.skewed(200)); team(2, [&](int i) { for (unsigned k = 1; k <= rounds; ++k) { if (i == 0) { while (ce::atomic_load(flag) != int(2 * k - 2)) std::this_thread::yield(); for (auto& d : data) d = k; ce::atomic_store(flag, int(2 * k - 1)); } else { while (ce::atomic_load(flag) != int(2 * k - 1)) std::this_thread::yield(); for (auto& d : data) bad += d != k; ce::atomic_store(flag, int(2 * k)); } } }); PBT_CHECK(s, bad == 0, "%d published values were not seen", bad); s.count(n * per); s.label("passing");
}
void prop(Src& s)
{
    if (s.chance(1, 400)) { s.nontrivial(); switch (s.below(10)) { case 8: case 9: switch (s.below(7)) { case 0: return draining<u8>(s, "u8"); case 1: return draining<short>(s, "short"); case 2: return draining<int>(s, "int"); case 3: return draining<u32>(s, "u32"); case 4: return draining<long long>(s, "long long"); case 5: return draining<double>(s, "double"); default: return draining<float>(s, "float"); } case 0: return counting<u8>(s, "u8"); case 1: return counting<u16>(s, "u16"); case 2: return counting<int>(s, "int"); case 3: return counting<i64>(s, "int64"); case 4: return counting<float>(s, "float"); case 5: return counting<double>(s, "double"); case 6: return s.flip() ? whole<v2>(s, "whole values of two parts") : whole<v3>(s, "whole values of three parts"); default: return passing(s); } }
    switch (s.below(22))
    {
    case 0: return go<bool>(s, "bool"); case 1: return go<signed char>(s, "signed char"); case 2: return go<u8>(s, "unsigned char"); case 3: return go<short>(s, "short"); case 4: return go<u16>(s, "unsigned short"); case 5: return go<int>(s, "int"); case 6: return go<u32>(s, "unsigned"); case 7: return go<long>(s, "long"); case 8: return go<unsigned long>(s, "unsigned long"); case 9: return go<long long>(s, "long long"); case 10: return go<unsigned long long>(s, "unsigned long long");
    case 11: return go<char>(s, "char"); case 12: return go<float>(s, "float"); case 13: return go<double>(s, "double"); case 14: return go<i64*>(s, "int64 pointer"); case 15: return go<u16 const*>(s, "uint16 pointer"); case 16: return go<colour>(s, "enum"); case 17: return go<pair32>(s, "struct"); case 18: return go<v2>(s, "own arithmetic"); case 19: return go<v3>(s, "big with own arithmetic"); case 20: return go<odd>(s, "three bytes"); default: return go<two>(s, "sixteen bytes");
    }
}
PBT_MAIN(prop)
