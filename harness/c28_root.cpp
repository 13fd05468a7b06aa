// C28: isqrt and hypot round the true root to the nearest integer, normal() gives a unit vector in the same direction.
#include "pbt.h"
#include "ce/ce.h"
#include "ce/math.h"
using namespace pbt;
static void near(Src& s, i128 v, i32 r, char const* what, i64 a, i64 b)
{
    long double root = sqrtl((long double)(u64(v)));
    PBT_CHECK(s, r >= 0 && fabsl((long double)r - root) <= 0.5L + 1e-6L, "%s(%lld, %lld) is %d, root %.9Lf", what, (long long)a, (long long)b, r, root);
    i128 q = i128(r) * r; i64 k = i64(root + 0.5L); if (i128(k) * k == v) PBT_CHECK(s, q == v, "%s(%lld, %lld) is %d, the exact root is %lld", what, (long long)a, (long long)b, r, (long long)k);
}
void prop(Src& s)
{
    i64 top = i64(INT32_MAX) * INT32_MAX;
    switch (s.below(4))
    {
    case 0: { i64 v; i64 r = i64(s.integer(31)); switch (s.below(4)) { case 0: v = r * r + s.range(-2, 2); break; case 1: v = r * r + r + s.range(-2, 2); break; case 2: v = i64(s.integer(62)); break; default: v = s.range(0, top); } if (v < 0) v = 0; if (v > top) v = top;
        s.note("isqrt %lld", (long long)v); near(s, v, ce::math::isqrt(v), "isqrt", v, 0); if (v < top) PBT_CHECK(s, ce::math::isqrt(v) <= ce::math::isqrt(v + 1), "isqrt decreases at %lld", (long long)v); s.nontrivial(v > 1); s.label("isqrt"); return; }
    case 1: case 2: { i32 x = i32(s.sinteger(32)), y = i32(s.sinteger(32)); if (s.chance(1, 5)) { i64 k = s.range(1, 10000), m = s.range(1, 100), n = s.range(1, 100); x = i32((m * m - n * n) * k); y = i32(2 * m * n * k); if (s.flip()) x = -x; }
        if (x == INT32_MIN) x++; if (y == INT32_MIN) y++; i128 v = i128(x) * x + i128(y) * y; while (v > top) { x /= 2; y /= 2; v = i128(x) * x + i128(y) * y; }
        s.note("hypot %d %d", x, y); i32 h = ce::math::hypot(x, y); near(s, v, h, "hypot", x, y); PBT_CHECK(s, h == ce::math::hypot(y, x) && h == ce::math::hypot(-x, y), "hypot(%d, %d) is not symmetric", x, y); s.nontrivial(x && y); s.label("hypot"); return; }
    default: { auto f = [&] { float m = float(s.sinteger(24)); int e = int(s.range(-45, 20)); return s.chance(1, 8) ? 0.0f : ldexpf(m, e); }; ce::vec3<float> v{ f(), f(), f() };
        double l = std::sqrt(double(v.x) * v.x + double(v.y) * v.y + double(v.z) * v.z); if (!(l > 1e-15 && l < 1e15)) s.discard();
        auto n = ce::math::normal(v); s.note("normal %g %g %g", v.x, v.y, v.z); double tol = 1.0 / 2048;
        PBT_CHECK(s, std::fabs(n.x - v.x / l) < tol && std::fabs(n.y - v.y / l) < tol && std::fabs(n.z - v.z / l) < tol, "normal of (%g, %g, %g) is (%g, %g, %g)", v.x, v.y, v.z, n.x, n.y, n.z);
        s.nontrivial((v.x != 0) + (v.y != 0) + (v.z != 0) > 1); s.label("normal"); }
    }
}
PBT_MAIN(prop)
