// Reads a triangulation through its public views and checks that it is one.
#pragma once
#include "pbt.h"
#include <map>
#include <set>
#include "ce/ce.h"
#include "ce/cdt.h"
namespace mesh
{
    using namespace pbt;
    struct pt { i64 x, y; bool operator<(pt const& o) const { return x != o.x ? x < o.x : y < o.y; } bool operator==(pt const& o) const { return x == o.x && y == o.y; } bool operator!=(pt const& o) const { return !(*this == o); } };
    using seg = std::pair<pt, pt>;
    inline seg mk(pt a, pt b) { return a < b ? seg{ a, b } : seg{ b, a }; }
    inline i128 cross(pt a, pt b, pt c) { return i128(b.x - a.x) * (c.y - a.y) - i128(b.y - a.y) * (c.x - a.x); }
    constexpr i64 LO = -32768, HI = 32767;

    struct tri { pt p[3]; size_t e[3]; bool c[3]; u16 data; };
    struct view { std::vector<tri> f; std::set<pt> v; std::set<seg> fixed; };

    // > 0: d is strictly inside the circle of the clockwise triangle a b c
    inline int in_circle(pt a, pt b, pt c, pt d)
    {
        i128 ax = a.x - d.x, ay = a.y - d.y, bx = b.x - d.x, by = b.y - d.y, cx = c.x - d.x, cy = c.y - d.y;
        i128 v = (ax * ax + ay * ay) * (bx * cy - by * cx) + (bx * bx + by * by) * (cx * ay - cy * ax) + (cx * cx + cy * cy) * (ax * by - ay * bx);
        return v < 0 ? 1 : v > 0 ? -1 : 0;
    }
    inline bool border(pt a, pt b) { return (a.x == b.x && (a.x == LO || a.x == HI)) || (a.y == b.y && (a.y == LO || a.y == HI)); }
    inline std::string str(pt a) { return fmt("(%lld,%lld)", (long long)a.x, (long long)a.y); }

    // coordinates in grid units
    template<class M> view look(Src& s, M const& m)
    {
        view r; i64 const u = M::m2w32;
        auto grid = [&](ce::vec2<ce::int32_t> p) { PBT_CHECK(s, p.x % u == 0 && p.y % u == 0, "vertex (%d, %d) is not on the grid", p.x, p.y); return pt{ p.x / u, p.y / u }; };
        for (auto f : m.faces())
        {
            tri t; t.data = f.data;
            for (int i = 0; i < 3; ++i) { t.p[i] = grid(f.ps[i]); t.e[i] = size_t(f.es[i]); t.c[i] = f.cs[i]; r.v.insert(t.p[i]); }
            r.f.push_back(t);
        }
        i128 area = 0; size_t n = r.f.size();
        for (size_t k = 0; k < n; ++k)
        {
            auto& t = r.f[k]; i128 a = cross(t.p[0], t.p[1], t.p[2]);
            PBT_CHECK(s, a < 0, "face %zu %s %s %s is %s", k, str(t.p[0]).c_str(), str(t.p[1]).c_str(), str(t.p[2]).c_str(), a ? "turned over" : "flat"); area -= a;
            for (int i = 0; i < 3; ++i)
            {
                pt a1 = t.p[(i + 1) % 3], b1 = t.p[(i + 2) % 3]; size_t id = 24 + 4 * k + size_t(i), e = t.e[i];
                auto ed = m[typename M::edge_id_t(id)]; PBT_CHECK(s, grid(ed.u) == a1 && grid(ed.v) == b1, "edge %zu has the wrong ends", id);
                PBT_CHECK(s, ed.constrained == t.c[i] && ed.primary == (e < id), "edge %zu: constrained %d primary %d", id, ed.constrained, ed.primary);
                if (t.c[i]) r.fixed.insert(mk(a1, b1));
                if (e == 0) { PBT_CHECK(s, border(a1, b1) && t.c[i], "edge %s %s has no other side (constrained %d)", str(a1).c_str(), str(b1).c_str(), t.c[i]); continue; }
                PBT_CHECK(s, e >= 24 && e < 24 + 4 * n && e % 4 != 3, "edge %zu is joined to %zu", id, e);
                auto& o = r.f[(e - 24) / 4]; int j = int(e % 4);
                PBT_CHECK(s, o.e[j] == id, "edge %zu is joined to %zu but that is joined to %zu", id, e, o.e[j]);
                PBT_CHECK(s, o.c[j] == t.c[i], "edge %zu is constrained on one side only", id);
                PBT_CHECK(s, o.p[(j + 1) % 3] == b1 && o.p[(j + 2) % 3] == a1, "edges %zu and %zu are joined but have different ends", id, e);
            }
        }
        PBT_CHECK(s, area == i128(HI - LO) * (HI - LO) * 2, "the faces do not cover the square once");
        PBT_CHECK(s, n == 2 * (r.v.size() - 4) + 2, "%zu faces of %zu points", n, r.v.size());
        size_t k = 0, prim = 0;
        for (auto ed : m.edges()) { auto& t = r.f[k / 3]; int i = int(k % 3); PBT_CHECK(s, grid(ed.u) == t.p[(i + 1) % 3] && grid(ed.v) == t.p[(i + 2) % 3] && ed.constrained == t.c[i], "edge view item %zu", k); prim += ed.primary; ++k; }
        PBT_CHECK(s, k == 3 * n && prim == (3 * n + 4) / 2, "edge view has %zu items, %zu primary, of %zu faces", k, prim, n);
        return r;
    }
    inline void delaunay(Src& s, view const& r)
    {
        for (auto& t : r.f) for (int i = 0; i < 3; ++i) if (t.e[i] && !t.c[i])
        {
            auto& o = r.f[(t.e[i] - 24) / 4]; pt d = o.p[t.e[i] % 4];
            PBT_CHECK(s, in_circle(t.p[0], t.p[1], t.p[2], d) <= 0, "%s is inside the circle of %s %s %s", str(d).c_str(), str(t.p[0]).c_str(), str(t.p[1]).c_str(), str(t.p[2]).c_str());
        }
    }
    inline bool between(pt a, pt b, pt c) { return cross(a, b, c) == 0 && std::min(a.x, b.x) <= c.x && c.x <= std::max(a.x, b.x) && std::min(a.y, b.y) <= c.y && c.y <= std::max(a.y, b.y); }

    template<class M> M& fresh(Src& s)
    {
        struct W { u8 g0[32]; M m; u8 g1[32]; }; static W w; size_t keep = std::min(sizeof(M), size_t(64) << 10);
        memset(&w.m, s.pick({ 0, 0xa5, 0xff }), keep); memset(w.g0, 0x42, 32); memset(w.g1, 0x42, 32); w.m.reset(); return w.m;
    }
    template<class M> void guards(Src& s, M& m) { u8* b = reinterpret_cast<u8*>(&m); u8* e = b + sizeof(M); for (int i = 1; i <= 16; ++i) PBT_CHECK(s, b[-i] == 0x42 && e[i - 1] == 0x42, "wrote outside the mesh"); }

    // a generator of points: clusters, lines, circles, borders, anything
    struct gen
    {
        int mode; i64 L; pt c; 
        explicit gen(Src& s)
        {
            mode = int(s.below(6)); L = s.pick({ 3, 8, 60, 2000, 32767 }); c = { 0, 0 };
            if (s.chance(1, 3)) c = { s.range(LO + L, HI - L), s.range(LO + L, HI - L) };
            if (s.chance(1, 6)) c = { s.flip() ? HI - L : LO + L, s.flip() ? HI - L : LO + L };
        }
        pt grid(Src& s) const // even coordinates
        {
            i64 x, y;
            switch (mode)
            {
            case 0: { i64 k = s.range(-L, L); x = k; y = s.chance(3, 4) ? k : s.range(-L, L); break; }
            case 1: { static int const t[12][2] = { { 3, 4 }, { 4, 3 }, { 0, 5 }, { 5, 0 }, { -3, 4 }, { -4, 3 }, { 0, -5 }, { -5, 0 }, { 3, -4 }, { 4, -3 }, { -3, -4 }, { -4, -3 } }; auto q = t[s.below(12)]; i64 k = std::max<i64>(1, L / 5 / (1 + i64(s.below(3)))); x = q[0] * k; y = q[1] * k; break; }
            default: x = s.coord(L); y = s.coord(L); break;
            }
            pt p{ (c.x + x) & ~i64(1), (c.y + y) & ~i64(1) };
            if (s.chance(1, 60)) p = { s.flip() ? LO : HI - 1, s.flip() ? LO : HI - 1 };
            else if (s.chance(1, 60)) (s.flip() ? p.x : p.y) = s.flip() ? LO : HI - 1;
            return p;
        }
        pt inner(Src& s) const { for (int k = 0; ; ++k) { pt p = grid(s); if (p.x > LO && p.y > LO && p.x < HI && p.y < HI) return p; if (k > 4) return { 2 * s.range(-100, 100), 2 * s.range(-100, 100) }; } }
    };
    // a world coordinate that rounds to grid coordinate g
    template<class M> ce::vec2<ce::int32_t> world(Src& s, pt g) { i64 u = 2ll * M::m2w32; i64 h = s.flip() ? 0 : i64(s.below(u64(u))), v = s.flip() ? 0 : i64(s.below(u64(u))); return { ce::int32_t(g.x * M::m2w32 + h), ce::int32_t(g.y * M::m2w32 + v) }; }
}
