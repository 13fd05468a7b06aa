// C26: inside() breaks ties consistently: antisymmetric, and the triangles of a mesh partition the plane region they cover.
#include "pbt.h"
#include "ce/ce.h"
#include "ce/math.h"
using namespace pbt;
using V = ce::vec2<i32>;
struct tri { i64 x[3], y[3]; };
static i128 cross(i64 ax, i64 ay, i64 bx, i64 by, i64 cx, i64 cy) { return i128(bx - ax) * (cy - ay) - i128(by - ay) * (cx - ax); }
static bool in(tri const& t, i64 px, i64 py)
{
    V a{ i32(t.x[0] - px), i32(t.y[0] - py) }, b{ i32(t.x[1] - px), i32(t.y[1] - py) }, c{ i32(t.x[2] - px), i32(t.y[2] - py) };
    return ce::math::inside(a, b) && ce::math::inside(b, c) && ce::math::inside(c, a);
}
static void pairs(Src& s)
{
    i64 L = s.flip() ? INT32_MAX : 1ll << s.below(31); V a{ i32(s.coord(L)), i32(s.coord(L)) }, b{ i32(s.coord(L)), i32(s.coord(L)) };
    if (s.chance(1, 3)) { i64 k = s.range(-4, 4); if (std::abs(a.x * k) <= L && std::abs(a.y * k) <= L) b = { i32(a.x * k), i32(a.y * k) }; }
    i128 c = i128(a.x) * b.y - i128(a.y) * b.x; bool ab = ce::math::inside(a, b), ba = ce::math::inside(b, a);
    s.note("(%d,%d) (%d,%d)", a.x, a.y, b.x, b.y);
    if (a.x == b.x && a.y == b.y) PBT_CHECK(s, !ab && !ba, "inside of equal vectors (%d, %d)", a.x, a.y);
    else PBT_CHECK(s, ab != ba, "inside((%d, %d), (%d, %d)) is %d both ways", a.x, a.y, b.x, b.y, ab);
    if (c != 0) PBT_CHECK(s, ab == (c < 0), "inside((%d, %d), (%d, %d)) is %d with cross product %s 0", a.x, a.y, b.x, b.y, ab, c < 0 ? "<" : ">");
    ce::vec2<ce::int64_t> wa{ a.x, a.y }, wb{ b.x, b.y }; PBT_CHECK(s, ce::math::inside(wa, wb) == ab, "64 bit components differ");
    s.nontrivial(c == 0 || ab != ba); s.label(c == 0 ? "collinear" : "not collinear");
}
static void mesh(Src& s)
{
    i64 L = s.chance(1, 4) ? (1ll << 30) - 1 : 2 + s.below(s.flip() ? 12 : 4000);
    std::vector<tri> m; tri t{ };
    for (int i = 0; i < 3; ++i) t.x[i] = s.coord(L), t.y[i] = s.coord(L);
    i128 o = cross(t.x[0], t.y[0], t.x[1], t.y[1], t.x[2], t.y[2]); if (o == 0) s.discard(); if (o > 0) std::swap(t.x[1], t.x[2]), std::swap(t.y[1], t.y[2]); // clockwise
    tri whole = t; m.push_back(t); std::vector<std::pair<i64, i64>> pts{ { t.x[0], t.y[0] }, { t.x[1], t.y[1] }, { t.x[2], t.y[2] } };
    for (u64 k = s.below(14); k > 0; --k)
    {
        size_t i = s.below(m.size()); t = m[i]; int e = int(s.below(3));
        i64 px, py; bool edge = s.chance(1, 3);
        if (edge) { i64 n = 2 + s.below(3), j = 1 + s.below(u64(n - 1)), ex = t.x[(e + 1) % 3] - t.x[e], ey = t.y[(e + 1) % 3] - t.y[e]; if (ex % n || ey % n) continue; px = t.x[e] + ex / n * j; py = t.y[e] + ey / n * j; }
        else { u64 w0 = 1 + s.below(100), w1 = 1 + s.below(100), w2 = 1 + s.below(100); i128 w = w0 + w1 + w2; px = i64((i128(t.x[0]) * w0 + i128(t.x[1]) * w1 + i128(t.x[2]) * w2) / w); py = i64((i128(t.y[0]) * w0 + i128(t.y[1]) * w1 + i128(t.y[2]) * w2) / w); }
        std::vector<tri> add; bool ok = true;
        for (int j = 0; j < 3; ++j)
        {
            if (edge && j == e) continue;
            tri n{ { t.x[j], t.x[(j + 1) % 3], px }, { t.y[j], t.y[(j + 1) % 3], py } }; ok &= cross(n.x[0], n.y[0], n.x[1], n.y[1], n.x[2], n.y[2]) < 0; add.push_back(n);
        }
        if (!ok) continue; // would be degenerate
        m[i] = add[0]; m.insert(m.end(), add.begin() + 1, add.end()); pts.push_back({ px, py });
    }
    s.note("mesh of %zu triangles in (%lld,%lld) (%lld,%lld) (%lld,%lld)", m.size(), (long long)whole.x[0], (long long)whole.y[0], (long long)whole.x[1], (long long)whole.y[1], (long long)whole.x[2], (long long)whole.y[2]);
    size_t onedge = 0, inn = 0;
    for (int k = 0; k < 24; ++k)
    {
        i64 px, py; size_t i = s.below(m.size()); auto& u = m[i]; int e = int(s.below(3));
        switch (s.below(4))
        {
        case 0: px = pts[size_t(k) % pts.size()].first; py = pts[size_t(k) % pts.size()].second; break;
        case 1: { i64 ex = u.x[(e + 1) % 3] - u.x[e], ey = u.y[(e + 1) % 3] - u.y[e], g = std::__gcd(std::abs(ex), std::abs(ey)), j = i64(s.below(u64(g) + 1)); px = u.x[e] + ex / g * j; py = u.y[e] + ey / g * j; break; }
        case 2: px = (u.x[0] + u.x[1] + u.x[2]) / 3; py = (u.y[0] + u.y[1] + u.y[2]) / 3; break;
        default: px = s.coord(L); py = s.coord(L); break;
        }
        int n = 0; bool touch = false;
        for (auto& q : m)
        {
            bool g = in(q, px, py); n += g; int neg = 0, zero = 0;
            for (int j = 0; j < 3; ++j) { i128 c = cross(px, py, q.x[j], q.y[j], q.x[(j + 1) % 3], q.y[(j + 1) % 3]); neg += c < 0; zero += c == 0; }
            if (neg == 3) PBT_CHECK(s, g, "(%lld, %lld) is strictly inside a triangle but not reported", (long long)px, (long long)py);
            if (neg + zero < 3) PBT_CHECK(s, !g, "(%lld, %lld) is strictly outside a triangle but reported inside", (long long)px, (long long)py);
            touch |= zero && neg + zero == 3;
        }
        bool w = in(whole, px, py); onedge += touch; inn += w;
        PBT_CHECK(s, n == int(w), "(%lld, %lld) is in %d triangles of the mesh, %s", (long long)px, (long long)py, n, w ? "and inside its outline" : "and outside its outline");
    }
    s.count(23); s.nontrivial(onedge > 0 && m.size() > 1); s.label("mesh"); if (onedge) s.label("points on edges"); if (inn) s.label("points inside");
}
void prop(Src& s) { s.below(3) ? mesh(s) : pairs(s); }
PBT_MAIN(prop)
