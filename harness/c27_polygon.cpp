// C27: in_polygon is the winding number for every point that is not on the outline. Oracle: quadrant counting in 128 bits.
#include "pbt.h"
#include "ce/ce.h"
using namespace pbt;
struct pt { i32 x, y; };
struct wide { ce::int64_t x, y; };
// twice the number of half turns ... returns winding * 4 in quarter turns, or sets on if the point is on the outline
static int winding(std::vector<pt> const& ps, i64 x, i64 y, bool& on)
{
    auto quad = [](i64 a, i64 b) { return a > 0 && b >= 0 ? 0 : a <= 0 && b > 0 ? 1 : a < 0 && b <= 0 ? 2 : 3; };
    int turns = 0; on = false;
    for (size_t i = 0; i < ps.size(); ++i)
    {
        auto& p = ps[i]; auto& q = ps[(i + 1) % ps.size()]; i64 ax = p.x - x, ay = p.y - y, bx = q.x - x, by = q.y - y; i128 c = i128(ax) * by - i128(ay) * bx;
        if (c == 0 && i128(ax) * bx + i128(ay) * by <= 0) { on = true; return 0; }
        int d = quad(bx, by) - quad(ax, ay); d = d == 3 ? -1 : d == -3 ? 1 : d; if (d == 2 || d == -2) d = c > 0 ? 2 : -2; turns += d;
    }
    return turns / 4;
}
template<class U> static void check(Src& s, std::vector<pt> const& ps, i32 x, i32 y, int w, bool small)
{
    std::vector<U> v; for (auto& p : ps) v.push_back(U{ p.x, p.y }); v.shrink_to_fit();
    U q{ x, y }; size_t g = ce::in_polygon(q, v.size(), v.data());
    PBT_CHECK(s, g == size_t(i64(w)), "(%d, %d) winds %lld times, expected %d (%zu vertices)", x, y, (long long)g, w, v.size());
    g = ce::in_polygon_xy(ce::int64_t(x), ce::int64_t(y), v.size(), v.data()); PBT_CHECK(s, g == size_t(i64(w)), "64 bit: (%d, %d) winds %lld times, expected %d", x, y, (long long)g, w);
    if (small) { g = ce::in_polygon_xy(x, y, v.size(), v.data()); PBT_CHECK(s, g == size_t(i64(w)), "32 bit: (%d, %d) winds %lld times, expected %d", x, y, (long long)g, w); }
}
void prop(Src& s)
{
    i64 L = s.chance(1, 4) ? (1ll << 30) - 1 : 1 + s.below(s.flip() ? 8 : 8000); size_t n = s.skewed(40); bool huge = s.chance(1, 400); if (huge) n = 65000 + s.below(3000); std::vector<pt> ps; int kind = int(s.below(4));
    if (kind == 3 && n > 2) { i64 r = L; for (size_t i = 0; i < n; ++i) { double a = 6.283185307179586 * double(i) * double(1 + n / 9) / double(n), q = double(r) * (0.3 + 0.7 * double(s.below(100)) / 100); ps.push_back({ i32(std::cos(a) * q), i32(std::sin(a) * q) }); } if (s.flip()) std::reverse(ps.begin(), ps.end()); }
    else for (size_t i = 0; i < n; ++i) { pt p{ i32(s.coord(L)), i32(s.coord(L)) }; if (i && kind == 1 && s.flip()) (s.flip() ? p.x = ps.back().x : p.y = ps.back().y); if (i && s.chance(1, 12)) p = ps[s.below(i)]; ps.push_back(p); }
    s.note("polygon of %zu:", n); for (size_t i = 0; i < n && i < 8; ++i) s.note(" (%d,%d)", ps[i].x, ps[i].y);
    int some = 0, level = 0, ons = 0;
    for (int k = 0; k < (huge ? 2 : 10); ++k)
    {
        i32 x, y; if (n && s.flip()) { auto& p = ps[s.below(n)]; auto& q = ps[s.below(n)]; x = i32((i64(p.x) + q.x) / 2); y = s.flip() ? p.y : i32((i64(p.y) + q.y) / 2); if (s.flip()) x = i32(std::max<i64>(-L, std::min<i64>(L, x + s.range(-2, 2)))); } else { x = i32(s.coord(L)); y = i32(s.coord(L)); }
        bool on; int w = winding(ps, x, y, on); if (on) { ++ons; continue; }
        for (auto& p : ps) level += p.y == y;
        some += w != 0; check<ce::vec2<i32>>(s, ps, x, y, w, L <= 8000); if (k == 0) { check<pt>(s, ps, x, y, w, L <= 8000); check<wide>(s, ps, x, y, w, false); }
        if (w > 1 || w < -1) s.label("winds more than once"); if (w < 0) s.label("negative"); if (w > 0) s.label("positive");
    }
    s.count(huge ? 1 : 9); if (n > 65535) s.label("more than 65535 vertices"); s.nontrivial(some > 0); if (level) s.label("level with a vertex"); if (ons) s.label("skipped: on the outline", u64(ons));
}
PBT_MAIN(prop)
