// C30: scaling by a ratio and line intersection stay within a few units of the exact rational result.
#include "pbt.h"
#include "ce/ce.h"
#include "ce/math.h"
using namespace pbt;
using V = ce::vec2<i32>;
static double const TOL = 3;
static bool close(Src& s, i32 got, i128 num, i128 den, char const* what) // |got - num / den| <= TOL, exact
{
    if (den < 0) num = -num, den = -den;
    i128 e = i128(got) * den - num; if (e < 0) e = -e; return e <= i128(TOL) * den;
}
static bool fits(i128 num, i128 den) { if (den < 0) num = -num, den = -den; if (num < 0) num = -num; return num / den < (1ll << 31) - 8; }
void prop(Src& s)
{
    switch (s.below(4))
    {
    case 0: { V b{ i32(s.coord((1 << 30))), i32(s.coord((1 << 30))) }; i64 d = s.flip() ? s.sinteger(62) : s.sinteger(40), n; if (d == 0) { auto r = ce::math::muldiv(b, i64(s.sinteger(40)), i64(0)); PBT_CHECK(s, r == b, "division by 0 does not return its argument"); return; }
        switch (s.below(3)) { case 0: n = s.range(-std::abs(d), std::abs(d)); break; case 1: { i128 t = i128(d) * s.range(-40, 40) / (1 + s.below(9)); n = t > (1ll << 61) || t < -(1ll << 61) ? d : i64(t); break; } default: n = s.sinteger(62); }
        if (!fits(i128(b.x) * n, d) || !fits(i128(b.y) * n, d)) s.discard();
        // the factor itself has to fit 31.32
        if (!fits(n, d)) s.discard();
        auto r = ce::math::muldiv(b, ce::int64_t(n), ce::int64_t(d)); s.note("(%d,%d)*%lld/%lld", b.x, b.y, (long long)n, (long long)d);
        PBT_CHECK(s, close(s, r.x, i128(b.x) * n, d, "muldiv") && close(s, r.y, i128(b.y) * n, d, "muldiv"), "(%d, %d) * %lld / %lld is (%d, %d), expected (%.2f, %.2f)", b.x, b.y, (long long)n, (long long)d, r.x, r.y, double(b.x) * double(n) / double(d), double(b.y) * double(n) / double(d));
        s.nontrivial(n != 0); s.label(std::abs(n) > std::abs(d) ? "muldiv64, factor above 1" : "muldiv64"); return; }
    case 1: { V b{ i32(s.sinteger(32)), i32(s.sinteger(32)) }; i32 n = i32(s.sinteger(32)), d = i32(s.sinteger(32)); if (d == 0) s.discard(); i128 x = i128(b.x) * n / d, y = i128(b.y) * n / d; if (x != i32(x) || y != i32(y)) s.discard();
        auto r = ce::math::muldiv(b, n, d); s.note("(%d,%d)*%d/%d", b.x, b.y, n, d); PBT_CHECK(s, r.x == i32(x) && r.y == i32(y), "(%d, %d) * %d / %d is (%d, %d), expected (%d, %d)", b.x, b.y, n, d, r.x, r.y, i32(x), i32(y)); s.nontrivial(n != 0); s.label("muldiv32"); return; }
    default: {
        i64 L = s.flip() ? (1ll << 29) : 1ll << s.below(30); auto g = [&] { return i32(s.coord(L)); };
        V p0{ g(), g() }, p1{ g(), g() }, q0{ g(), g() }, q1{ g(), g() };
        if (s.chance(1, 6)) { i64 k = s.range(-3, 3); q1 = { i32(q0.x + (p1.x - p0.x) * k / 4), i32(q0.y + (p1.y - p0.y) * k / 4) }; } // parallel or nearly
        if (s.chance(1, 6)) q0 = s.flip() ? p0 : p1;
        i128 px = i64(p1.x) - p0.x, py = i64(p1.y) - p0.y, qx = i64(q1.x) - q0.x, qy = i64(q1.y) - q0.y, d = px * qy - py * qx, t = (i64(q0.x) - p0.x) * qy - (i64(q0.y) - p0.y) * qx;
        if (d != 0 && (!fits(t, d) || !fits(i128(p0.x) * d + px * t, d) || !fits(i128(p0.y) * d + py * t, d) || !fits(px * t, d) || !fits(py * t, d))) s.discard();
        V r{ 77, 78 }; bool ok = ce::math::intersect(p0, p1, q0, q1, r); s.note("(%d,%d)-(%d,%d) x (%d,%d)-(%d,%d)", p0.x, p0.y, p1.x, p1.y, q0.x, q0.y, q1.x, q1.y);
        PBT_CHECK(s, ok == (d != 0), "lines (%d, %d)-(%d, %d) and (%d, %d)-(%d, %d): %d", p0.x, p0.y, p1.x, p1.y, q0.x, q0.y, q1.x, q1.y, ok);
        if (!ok) { PBT_CHECK(s, r == p0, "parallel lines: result is not the first point"); s.label("parallel"); return; }
        PBT_CHECK(s, close(s, r.x, i128(p0.x) * d + px * t, d, "intersect") && close(s, r.y, i128(p0.y) * d + py * t, d, "intersect"), "(%d, %d)-(%d, %d) and (%d, %d)-(%d, %d) meet at (%d, %d), expected (%.2f, %.2f)", p0.x, p0.y, p1.x, p1.y, q0.x, q0.y, q1.x, q1.y, r.x, r.y,
            double(p0.x) + double(px) * (double(t) / double(d)), double(p0.y) + double(py) * (double(t) / double(d)));
        s.nontrivial(); bool on = d > 0 ? t >= 0 && t <= d : t <= 0 && t >= d; s.label(on ? "meet on the first segment" : "meet beyond it"); return; }
    }
}
PBT_MAIN(prop)
