// C33: locating any point finds the one face that holds it (ties on edges and vertices included), whatever the hint; points outside find none.
#include "cdt_mesh.h"
using namespace pbt; using namespace mesh;
struct w2 { i64 x, y; };
static bool inside(w2 a, w2 b) // a x b < 0, ties broken as if moved a little in x, then y
{
    i128 l = i128(a.x) * b.y, r = i128(a.y) * b.x; if (l != r) return l < r; if (a.y != b.y) return b.y < a.y; return a.x < b.x;
}
template<size_t Q, size_t N> static void go(Src& s, size_t most)
{
    using M = ce::cdt<Q, N>; M& m = fresh<M>(s); gen g(s); i64 const u = M::m2w32; size_t n = s.skewed(most), edges = 0; unsigned pe = s.pick({ 0u, 1u, 3u });
    for (size_t k = 0; k < n; ++k) { if (pe && s.chance(pe, 4)) edges += m.insert_edge(world<M>(s, g.inner(s)), world<M>(s, g.inner(s)), 0); else m.insert_point(world<M>(s, g.grid(s)), 0); }
    auto v = look(s, m); bool dl = true; size_t F = v.f.size(), tie = 0, found = 0, outside = 0; std::vector<pt> vs(v.v.begin(), v.v.end());
    size_t q = F > 400 ? 60 : 20; ce::uint last = 0; (void)dl;
    for (size_t k = 0; k < q; ++k)
    {
        i64 x, y; auto& f = v.f[s.below(F)]; int i = int(s.below(3)); pt a = f.p[i], b = f.p[(i + 1) % 3], c = f.p[(i + 2) % 3];
        switch (s.below(6))
        {
        case 0: { pt p = vs[s.below(vs.size())]; x = p.x * u; y = p.y * u; break; }
        case 1: { i64 ex = (b.x - a.x) * u, ey = (b.y - a.y) * u, d = std::__gcd(std::abs(ex), std::abs(ey)), j = i64(s.below(u64(d) + 1)); x = a.x * u + ex / d * j; y = a.y * u + ey / d * j; break; } // on an edge
        case 2: { i64 w0 = 1 + i64(s.below(1000)), w1 = 1 + i64(s.below(1000)), w2 = 1 + i64(s.below(1000)), w = w0 + w1 + w2; x = (a.x * w0 + b.x * w1 + c.x * w2) * u / w; y = (a.y * w0 + b.y * w1 + c.y * w2) * u / w; break; }
        case 3: { pt p = vs[s.below(vs.size())]; x = p.x * u + s.range(-2, 2); y = p.y * u + s.range(-2, 2); break; }
        case 4: { x = s.range(LO * u - 3, HI * u + 3); y = s.range(LO * u - 3, HI * u + 3); break; }
        default: x = s.sinteger(30); y = s.sinteger(30); if (s.chance(1, 4)) x = (s.flip() ? LO : HI) * u + s.range(-1, 1); if (s.chance(1, 4)) y = (s.flip() ? LO : HI) * u + s.range(-1, 1); break;
        }
        i64 lim = (1ll << 30) - 1; x = std::min(std::max(x, -lim), lim); y = std::min(std::max(y, -lim), lim);
        ce::uint want = 0; size_t hits = 0; bool on = false;
        for (size_t j = 0; j < F; ++j)
        {
            w2 r[3]; for (int z = 0; z < 3; ++z) r[z] = { v.f[j].p[z].x * u - x, v.f[j].p[z].y * u - y };
            if (inside(r[0], r[1]) && inside(r[1], r[2]) && inside(r[2], r[0])) { want = ce::uint(24 + 4 * j + 3); ++hits; for (int z = 0; z < 3; ++z) on |= i128(r[z].x) * r[(z + 1) % 3].y == i128(r[z].y) * r[(z + 1) % 3].x; }
        }
        if (hits > 1) s.fail("reference found several faces", { });
        ce::uint hint = s.chance(1, 4) ? ce::uint(s.integer(32)) : s.flip() ? last : ce::uint(s.below(8 * m.size + 8));
        ce::uint got = s.flip() ? m.locate(ce::int32_t(x), ce::int32_t(y), hint) : m.locate({ ce::int32_t(x), ce::int32_t(y) }, hint);
        PBT_CHECK(s, got == want, "(%lld, %lld) from hint %u is located in %u, expected %u", (long long)x, (long long)y, hint, got, want);
        last = got; tie += on; found += want != 0; outside += want == 0;
        if (k == 0) s.note("%zu points %zu constrained edges, (%lld, %lld) in %u;", vs.size(), v.fixed.size(), (long long)x, (long long)y, want);
    }
    s.count(q - 1); s.nontrivial(found > 0 && F > 2); if (tie) s.label("on edges"); if (outside) s.label("outside"); if (edges) s.label("constrained mesh"); s.label(F > 200 ? "large" : F > 30 ? "medium" : "small");
}
void prop(Src& s)
{
    if (s.chance(1, 20000)) return go<8, 8192>(s, 8000);
    switch (s.below(6)) { case 0: return go<0, 24>(s, 20); case 1: return go<14, 64>(s, 60); case 2: return go<1, 300>(s, 120); case 3: return go<4, 9>(s, 8); default: return go<10, 64>(s, 30); }
}
PBT_MAIN(prop)
