// C22: z codes interleave the coordinates, keep the order of each axis, and the box test is the coordinate box test.
#include "pbt.h"
#include "ce/ce.h"
#include "ce/zorder.h"
using namespace pbt;
static u64 ref(i32 x, i32 y) { u64 r = 0; u32 u = u32(x) + 0x80000000u, v = u32(y) + 0x80000000u; for (int i = 0; i < 32; ++i) r |= u64(u >> i & 1) << (2 * i) | u64(v >> i & 1) << (2 * i + 1); return r; }
static i32 co(Src& s, i32 near) { return s.chance(1, 3) ? i32(u32(near) + u32(s.below(7)) - 3) : i32(s.sinteger(32)); }
void prop(Src& s)
{
    i32 x = co(s, 0), y = co(s, x), a = co(s, x), b = co(s, y), p = co(s, s.flip() ? x : a), q = co(s, s.flip() ? y : b);
    u64 z = ce::z_encode(x, y); s.note("(%d,%d) (%d,%d) (%d,%d)", x, y, a, b, p, q);
    PBT_CHECK(s, z == ref(x, y), "code of (%d, %d) is %016llx, expected %016llx", x, y, (unsigned long long)z, (unsigned long long)ref(x, y));
    u64 e = ce::z_expand(u32(x)), r = 0; for (int i = 0; i < 32; ++i) r |= u64(u32(x) >> i & 1) << (2 * i); PBT_CHECK(s, e == r, "expand of %08x", u32(x));
    PBT_CHECK(s, (ce::z_encode(a, y) < z) == (a < x) && (ce::z_encode(x, b) < z) == (b < y), "codes are not ordered along an axis: (%d, %d) and %d, %d", x, y, a, b);
    i32 x0 = std::min(x, a), x1 = std::max(x, a), y0 = std::min(y, b), y1 = std::max(y, b);
    bool in = x0 <= p && p <= x1 && y0 <= q && q <= y1, g = ce::z_inside(ce::z_encode(x0, y0), ce::z_encode(x1, y1), ce::z_encode(p, q));
    PBT_CHECK(s, in == g, "(%d, %d) in [%d, %d] x [%d, %d] is %d, expected %d", p, q, x0, x1, y0, y1, g, in);
    // an empty (inverted) box contains nothing
    if (x0 < x1 && y0 < y1) PBT_CHECK(s, !ce::z_inside(ce::z_encode(x1, y0), ce::z_encode(x0, y1), ce::z_encode(p, q)), "an inverted box contains (%d, %d)", p, q);
    s.nontrivial(z != 0 && (x0 < x1 || y0 < y1)); s.label(in ? "inside" : "outside");
}
PBT_MAIN(prop)
