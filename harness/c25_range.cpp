// C25: product comparison and the in range tests against exact 128 / 192 bit arithmetic.
#include "pbt.h"
#include "ce/ce.h"
#include "ce/math.h"
using namespace pbt;
static bool less(i128 a, i128 b, i128 c, i128 d) // a * b < c * d, |.| < 2^64
{
    struct w { bool neg; u128 hi, lo; };
    auto mul = [](i128 x, i128 y) { bool n = (x < 0) != (y < 0); u128 p = x < 0 ? -u128(x) : u128(x), q = y < 0 ? -u128(y) : u128(y); // schoolbook, 64 bit halves
        u64 p0 = u64(p), p1 = u64(p >> 64), q0 = u64(q), q1 = u64(q >> 64); u128 l = u128(p0) * q0, m1 = u128(p0) * q1, m2 = u128(p1) * q0, h = u128(p1) * q1;
        u128 mid = (l >> 64) + u64(m1) + u64(m2); u128 lo = (mid << 64) | u64(l); h += (m1 >> 64) + (m2 >> 64) + (mid >> 64); return w{ n && (h || lo), h, lo }; };
    w x = mul(a, b), y = mul(c, d);
    if (x.neg != y.neg) return x.neg;
    bool lt = x.hi != y.hi ? x.hi < y.hi : x.lo < y.lo, gt = x.hi != y.hi ? x.hi > y.hi : x.lo > y.lo;
    return x.neg ? gt : lt;
}
static void products(Src& s)
{
    i64 a = s.sinteger(64), b = s.sinteger(64), c = s.chance(1, 3) ? a : s.sinteger(64), d = s.chance(1, 3) ? b : s.sinteger(64);
    if (s.chance(1, 4)) { i64 t = s.sinteger(31); a = t * s.sinteger(31); c = t; d = a / (t ? t : 1); b = 1; if (s.flip()) d += s.range(-1, 1); } // nearly equal products
    bool g = ce::math::ab_less_cd(a, b, c, d), w = less(a, b, c, d); s.note("%lld*%lld < %lld*%lld", (long long)a, (long long)b, (long long)c, (long long)d);
    PBT_CHECK(s, g == w, "%lld * %lld < %lld * %lld is %d, expected %d", (long long)a, (long long)b, (long long)c, (long long)d, g, w);
    s.nontrivial(a && b && c && d); s.label("products");
}
static void ranges(Src& s)
{
    // any int32 coordinates for which every sum of squares and product fits a signed 64 bit integer, far beyond 2^30 in one axis at least
    i64 L = s.flip() ? (1ll << s.below(32)) : (1ll << 31) - 1; L = std::min<i64>(L, (1ll << 31) - 1);
    i32 px = i32(s.coord(L)), py = i32(s.coord(L)), dx = i32(s.coord(L)), dy = i32(s.coord(L));
    if (s.chance(1, 4)) { i64 k = s.range(1, 8), n = s.range(-2, 10); auto cl = [](i64 v) { return i32(std::max<i64>(INT32_MIN, std::min<i64>(INT32_MAX, v))); }; i64 x = dx / k * n / 8, y = dy / k * n / 8; if (s.flip()) { x += s.range(-2, 2); y += s.range(-2, 2); } px = cl(x); py = cl(y); }
    if (s.chance(1, 6)) { px = i32(s.range(0x40000000, 0x7fffffff)); dx = -i32(s.range(0x40000000, 0x7fffffff)); if (s.flip()) py = dy; if (s.flip()) { std::swap(px, dx); } if (s.flip()) { std::swap(px, py); std::swap(dx, dy); } }
    auto fits = [&] { i128 M = INT64_MAX, x = px, y = py, u = dx, v = dy; return x * x + y * y <= M && u * u + v * v <= M && (x - u) * (x - u) + (y - v) * (y - v) <= M && x * u + y * v <= M && x * u + y * v >= -M; };
    if (!fits()) { if (s.flip()) py = i32(dy); else if (s.flip()) px = dx; }
    while (!fits()) { px /= 2; py /= 2; dx /= 2; dy /= 2; }
    if (i64(px) - dx > INT32_MAX || i64(dx) - px > INT32_MAX || i64(py) - dy > INT32_MAX || i64(dy) - py > INT32_MAX) s.label("difference beyond 32 bits");
    i128 pp = i128(px) * px + i128(py) * py, dd = i128(dx) * dx + i128(dy) * dy, dp = i128(px) * dx + i128(py) * dy, cr = i128(px) * dy - i128(py) * dx, ex = i128(px) - dx, ey = i128(py) - dy, ee = ex * ex + ey * ey;
    // radii near the interesting ones: the distance to the line, to the start, to the end
    i128 r0;
    switch (s.below(5)) { case 0: r0 = (dd ? cr * cr / dd : pp) + s.range(-2, 2); break; case 1: r0 = pp + s.range(-1, 2); break; case 2: r0 = ee + s.range(-1, 2); break; case 3: r0 = i64(s.integer(63)); break; default: { i64 r = s.range(0, 50); r0 = r * r; } }
    i64 rr = i64(std::max<i128>(0, std::min<i128>(INT64_MAX, r0)));
    bool nearline = dd == 0 ? pp < rr : less(cr, cr, rr, dd);       // distance to the carrier line
    bool start = pp < rr, end = ee < rr;
    s.note("p (%d,%d) d (%d,%d) rr %lld", px, py, dx, dy, (long long)rr);
    #define IS(F, W) do { bool g = ce::math::F(px, py, rr, dx, dy), w = (W); PBT_CHECK(s, g == w, #F " of p (%d, %d) rr %lld d (%d, %d) is %d, expected %d", px, py, (long long)rr, dx, dy, g, w); } while (0)
    PBT_CHECK(s, ce::math::in_range_rr(px, py, rr) == start, "in_range_rr(%d, %d, %lld) is %d", px, py, (long long)rr, !start);
    IS(in_range_rr_line, nearline);
    IS(in_range_rr_edge, dp >= 0 && dp <= dd && (nearline));
    IS(in_range_rr_ray, dp >= 0 ? nearline : start);
    IS(in_range_rr_segment, dp < 0 ? start : dp > dd ? end : nearline);
    L = std::min<i64>(L, (1ll << 30) - 1);
    i32 ax = i32(s.coord(L)), ay = i32(s.coord(L / 2)); auto h = [](i32 v) { return v / 2; };
    ce::vec2<i32> A{ ax, ay }, B{ ax + h(dx), ay + h(dy) }, P{ ax + h(px), ay + h(py) };
    PBT_CHECK(s, ce::math::ball_hits_edge(P, rr, A, B) == ce::math::in_range_rr_edge(h(px), h(py), rr, h(dx), h(dy)), "ball_hits_edge");
    PBT_CHECK(s, ce::math::ball_hits_ray(P, rr, A, B) == ce::math::in_range_rr_ray(h(px), h(py), rr, h(dx), h(dy)), "ball_hits_ray");
    s.nontrivial(dd && pp); s.label(dp < 0 ? "before start" : dp > dd ? "after end" : "beside"); s.label(nearline ? "near the line" : "far from the line");
}
void prop(Src& s) { s.below(5) ? ranges(s) : products(s); }
PBT_MAIN(prop)
