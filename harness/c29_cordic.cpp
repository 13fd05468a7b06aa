// C29: rotation and polar conversion against long double trigonometry.
#include "pbt.h"
#include "ce/ce.h"
#include "ce/math.h"
using namespace pbt;
static long double const TAU = 6.283185307179586476925286766559L;
static double worst[8];
static i32 ang(Src& s) { i32 t = i32(s.sinteger(32)); if (s.chance(1, 3)) t = i32(u32(s.below(32)) * 0x08000000u + u32(s.below(9)) - 4); return t; }
static void cmp(Src& s, long double err, double tol, char const* what, i64 a, i64 b, i64 c, i64 got, long double want)
{
    PBT_CHECK(s, fabsl(err) <= tol, "%s of %lld %lld angle %lld is %lld, expected %.3Lf", what, (long long)a, (long long)b, (long long)c, (long long)got, want);
}
void prop(Src& s)
{
    i64 R = 1ll << 30; if (s.chance(1, 3)) R = 1ll << s.below(31);
    switch (s.below(4))
    {
    case 0: { i32 r = i32(s.coord(R)), t = ang(s); long double a = TAU * (long double)t / 2147483648.0L, c = r * cosl(a), d = r * sinl(a); s.note("rotate r %d t %d", r, t);
        i32 gc = ce::cos_2pi(r, t), gs = ce::sin_2pi(r, t); auto v = ce::to_cartesian(r, t);
        cmp(s, gc - c, 2, "cos_2pi", r, 0, t, gc, c); cmp(s, gs - d, 2, "sin_2pi", r, 0, t, gs, d); PBT_CHECK(s, v.x == gc && v.y == gs, "to_cartesian(%d, %d) is (%d, %d)", r, t, v.x, v.y);
        i32 t2 = i32(u32(t) + 0x80000000u); PBT_CHECK(s, ce::cos_2pi(r, t2) == gc && ce::sin_2pi(r, t2) == gs, "a full turn changes the result, r %d t %d", r, t); s.nontrivial(r != 0); s.label("polar to cartesian"); return; }
    case 1: { i32 x = i32(s.coord(R * 7 / 10)), y = i32(s.coord(R * 7 / 10)), t = ang(s); long double a = TAU * (long double)t / 2147483648.0L, wx = x * cosl(a) - y * sinl(a), wy = x * sinl(a) + y * cosl(a);
        auto v = ce::cordic::rotate(x, y, t); s.note("rotate (%d,%d) by %d", x, y, t); cmp(s, v.x - wx, 2, "rotate.x", x, y, t, v.x, wx); cmp(s, v.y - wy, 2, "rotate.y", x, y, t, v.y, wy); s.nontrivial(x && y); s.label("rotate"); return; }
    case 2: { i32 x = i32(s.coord(R)), y = i32(s.coord(R)); if (s.chance(1, 8)) { (s.flip() ? x : y) = 0; } if (x == 0 && y == 0) s.discard();
        auto p = ce::to_polar(x, y); long double m = hypotl(x, y), a = atan2l(y, x) / TAU * 2147483648.0L; s.note("polar (%d,%d)", x, y);
        cmp(s, p.x - m, 2, "polar_mag", x, y, 0, p.x, m);
        long double e = (long double)i32(u32(p.y)) - a; e -= 2147483648.0L * roundl(e / 2147483648.0L); // modulo a turn
        cmp(s, e, 3 + 6.0 / double(m), "polar_ang", x, y, 0, p.y, a);
        PBT_CHECK(s, p.y >= -0x40000004 && p.y <= 0x40000004, "angle of (%d, %d) is more than half a turn: %d", x, y, p.y);
        PBT_CHECK(s, ce::polar_mag(x, y) == p.x && ce::polar_ang(x, y) == p.y && ce::atan2_2pi(y, x) == p.y, "polar forms differ for (%d, %d)", x, y); s.nontrivial(x && y); s.label("cartesian to polar"); return; }
    default: { i32 d = i32(s.sinteger(32)); if (s.flip()) d = i32(s.range(-1000, 1000)); i32 g = ce::degrees_to_angle(d); i128 n = i128(d) << 31; // angle = d / 360 * 2^31, towards zero, modulo 2 turns
        i32 w = i32(i64(n / 360)); s.note("degrees %d", d); PBT_CHECK(s, g == w, "%d degrees is %d, expected %d", d, g, w); s.nontrivial(d != 0); s.label("degrees"); }
    }
}
PBT_MAIN(prop)
