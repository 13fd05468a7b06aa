// C24: vector operators are component wise and the widening products are exact.
#include "pbt.h"
#include "ce/ce.h"
using namespace pbt;
struct meters; struct feet;
static i64 wide(i128 v, Src& s, char const* what) { PBT_CHECK(s, v >= INT64_MIN && v <= INT64_MAX, "generator: %s does not fit", what); return i64(v); }
template<class T, class...K> static void ops2(Src& s, i64 lim, char const* name)
{
    using V = ce::vec2<T, K...>; auto g = [&] { return T(s.coord(lim)); };
    V a{ g(), g() }, b = s.chance(1, 4) ? a : V{ g(), g() }; if (s.chance(1, 4)) b.x = a.x; if (s.chance(1, 4)) b.y = a.y;
    T k = T(s.chance(1, 2) ? s.range(-9, 9) : s.coord(lim)); if (s.chance(1, 8)) k = a.x, a.y = s.flip() ? a.x : a.y;
    s.note("%s (%g,%g) (%g,%g) %g", name, double(a.x), double(a.y), double(b.x), double(b.y), double(k));
    PBT_CHECK(s, (a == b) == (a.x == b.x && a.y == b.y) && (a != b) == !(a.x == b.x && a.y == b.y), "%s ==", name);
    PBT_CHECK(s, (a == k) == (a.x == k && a.y == k) && (a != k) == !(a.x == k && a.y == k), "%s == scalar", name);
    V r = a + b; PBT_CHECK(s, r.x == T(a.x + b.x) && r.y == T(a.y + b.y), "%s +", name);
    r = a - b; PBT_CHECK(s, r.x == T(a.x - b.x) && r.y == T(a.y - b.y), "%s -", name);
    V c = a; V& q = (c += b); PBT_CHECK(s, &q == &c && c.x == T(a.x + b.x) && c.y == T(a.y + b.y), "%s +=", name);
    c = a; V& q2 = (c -= b); PBT_CHECK(s, &q2 == &c && c.x == T(a.x - b.x) && c.y == T(a.y - b.y), "%s -=", name);
    T m = T(s.range(-30, 30)); V l{ T(a.x / 64), T(a.y / 64) };
    r = l * m; PBT_CHECK(s, r.x == T(l.x * m) && r.y == T(l.y * m), "%s *", name);
    c = l; V& q3 = (c *= m); PBT_CHECK(s, &q3 == &c && c.x == T(l.x * m) && c.y == T(l.y * m), "%s *=", name);
    if (k != 0) { r = a / k; PBT_CHECK(s, r.x == T(a.x / k) && r.y == T(a.y / k), "%s /", name); c = a; V& q4 = (c /= k); PBT_CHECK(s, &q4 == &c && c.x == T(a.x / k) && c.y == T(a.y / k), "%s /=", name); }
    s.nontrivial(!(a.x == 0 && a.y == 0)); s.label(name);
}
template<class T, class...K> static void ops3(Src& s, i64 lim, char const* name)
{
    using V = ce::vec3<T, K...>; auto g = [&] { return T(s.coord(lim)); };
    V a{ g(), g(), g() }, b = s.chance(1, 4) ? a : V{ g(), g(), g() }; if (s.chance(1, 4)) b.x = a.x; if (s.chance(1, 4)) b.y = a.y; if (s.chance(1, 4)) b.z = a.z;
    T k = T(s.chance(1, 2) ? s.range(-9, 9) : s.coord(lim)); if (s.chance(1, 6)) { k = a.x; if (s.flip()) a.y = k; if (s.flip()) a.z = k; }
    s.note("%s (%g,%g,%g) (%g,%g,%g) %g", name, double(a.x), double(a.y), double(a.z), double(b.x), double(b.y), double(b.z), double(k));
    bool e = a.x == b.x && a.y == b.y && a.z == b.z, ek = a.x == k && a.y == k && a.z == k;
    PBT_CHECK(s, (a == b) == e && (a != b) == !e, "%s ==", name); PBT_CHECK(s, (a == k) == ek && (a != k) == !ek, "%s == scalar", name);
    auto is = [&](V const& r, auto f, char const* op) { PBT_CHECK(s, r.x == T(f(a.x, b.x)) && r.y == T(f(a.y, b.y)) && r.z == T(f(a.z, b.z)), "%s %s", name, op); };
    is(a + b, [](T x, T y) { return x + y; }, "+"); is(a - b, [](T x, T y) { return x - y; }, "-");
    V c = a; is(c += b, [](T x, T y) { return x + y; }, "+="); is(c, [](T x, T y) { return x + y; }, "+="); c = a; is(c -= b, [](T x, T y) { return x - y; }, "-="); is(c, [](T x, T y) { return x - y; }, "-=");
    T m = T(s.range(-30, 30)); V l{ T(a.x / 64), T(a.y / 64), T(a.z / 64) }, r = l * m; PBT_CHECK(s, r.x == T(l.x * m) && r.y == T(l.y * m) && r.z == T(l.z * m), "%s *", name);
    c = l; c *= m; PBT_CHECK(s, c.x == T(l.x * m) && c.y == T(l.y * m) && c.z == T(l.z * m), "%s *=", name);
    if (k != 0) { r = a / k; c = a; c /= k; PBT_CHECK(s, r.x == T(a.x / k) && r.y == T(a.y / k) && r.z == T(a.z / k), "%s /", name); PBT_CHECK(s, c.x == r.x && c.y == r.y && c.z == r.z, "%s /=", name); }
    s.nontrivial(!(a.x == 0 && a.y == 0 && a.z == 0)); s.label(name);
}
template<class...K> static void products(Src& s)
{
    i64 const L = INT32_MAX, L3 = (1ll << 30); auto g = [&](i64 l) { return i32(s.coord(l)); };
    i32 p = i32(s.sinteger(32)), q = i32(s.sinteger(32));
    PBT_CHECK(s, ce::sqrx(p) == i64(p) * p && ce::dotx(p, q) == i64(p) * q, "scalar products of %d %d", p, q);
    static_assert(std::is_same<decltype(ce::dotx(p, q)), ce::int64_t>::value || sizeof(ce::dotx(p, q)) == 8, "");
    ce::vec2<i32, K...> a{ g(L), g(L) }, b{ g(L), g(L) };
    s.note("products (%d,%d) (%d,%d)", a.x, a.y, b.x, b.y);
    PBT_CHECK(s, ce::sqrx(a) == wide(i128(a.x) * a.x + i128(a.y) * a.y, s, "sqrx"), "sqrx(%d, %d)", a.x, a.y);
    PBT_CHECK(s, ce::dotx(a, b) == wide(i128(a.x) * b.x + i128(a.y) * b.y, s, "dotx"), "dotx of (%d, %d) (%d, %d)", a.x, a.y, b.x, b.y);
    PBT_CHECK(s, ce::crossx(a, b) == wide(i128(a.x) * b.y - i128(a.y) * b.x, s, "crossx"), "crossx of (%d, %d) (%d, %d)", a.x, a.y, b.x, b.y);
    ce::vec3<i32, K...> u{ g(L3), g(L3), g(L3) }, v{ g(L3), g(L3), g(L3) };
    PBT_CHECK(s, ce::dotx(u, v) == wide(i128(u.x) * v.x + i128(u.y) * v.y + i128(u.z) * v.z, s, "dotx"), "dotx of (%d, %d, %d) (%d, %d, %d)", u.x, u.y, u.z, v.x, v.y, v.z);
    auto c = ce::crossx(u, v);
    PBT_CHECK(s, c.x == i64(u.y) * v.z - i64(u.z) * v.y && c.y == i64(u.z) * v.x - i64(u.x) * v.z && c.z == i64(u.x) * v.y - i64(u.y) * v.x, "crossx of (%d, %d, %d) (%d, %d, %d) is (%lld, %lld, %lld)", u.x, u.y, u.z, v.x, v.y, v.z, (long long)c.x, (long long)c.y, (long long)c.z);
    PBT_CHECK(s, i128(c.x) * u.x + i128(c.y) * u.y + i128(c.z) * u.z == 0, "cross product not perpendicular");
    i64 W = 1ll << 30; ce::vec2<ce::int64_t, K...> d{ s.coord(W), s.coord(W) }, e{ s.coord(W), s.coord(W) };
    PBT_CHECK(s, ce::dotx(d, e) == d.x * e.x + d.y * e.y && ce::crossx(d, e) == d.x * e.y - d.y * e.x && ce::sqrx(d) == d.x * d.x + d.y * d.y, "64 bit products");
    i64 F = 1 << 11; ce::vec2<float, K...> f{ float(s.coord(F)), float(s.coord(F)) }, h{ float(s.coord(F)), float(s.coord(F)) };
    PBT_CHECK(s, ce::dotx(f, h) == f.x * h.x + f.y * h.y && ce::crossx(f, h) == f.x * h.y - f.y * h.x && ce::sqrx(f) == f.x * f.x + f.y * f.y, "float products");
    ce::vec3<float, K...> f3{ f.x, f.y, h.x }, h3{ h.y, f.x, h.x }; PBT_CHECK(s, ce::dotx(f3, h3) == f3.x * h3.x + f3.y * h3.y + f3.z * h3.z, "float products 3d");
    s.nontrivial(); s.label("products");
}
void prop(Src& s)
{
    switch (s.below(11))
    {
    case 0: return ops2<i32>(s, (1 << 30) - 1, "vec2<int>"); case 1: return ops2<i32, meters>(s, (1 << 30) - 1, "vec2<int, meters>"); case 2: return ops2<ce::int64_t>(s, (1ll << 62) - 1, "vec2<int64>"); case 3: return ops2<float>(s, 1 << 20, "vec2<float>"); case 4: return ops2<double, meters, feet>(s, 1ll << 40, "vec2<double, meters, feet>");
    case 5: return ops3<i32>(s, (1 << 30) - 1, "vec3<int>"); case 6: return ops3<i32, meters>(s, (1 << 30) - 1, "vec3<int, meters>"); case 7: return ops3<float>(s, 1 << 20, "vec3<float>"); case 8: return ops3<ce::int64_t, feet>(s, (1ll << 62) - 1, "vec3<int64, feet>");
    case 9: return products<>(s); default: return products<meters>(s);
    }
}
PBT_MAIN(prop)
