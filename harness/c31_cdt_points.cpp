// C31: a triangulation of points is a valid Delaunay triangulation of exactly the accepted points; what does not fit or lies outside is rejected.
#include "cdt_mesh.h"
using namespace pbt; using namespace mesh;
template<size_t Q, size_t N> static void go(Src& s, size_t most)
{
    using M = ce::cdt<Q, N>; M& m = fresh<M>(s); gen g(s);
    std::set<pt> want{ { LO, LO }, { HI, LO }, { LO, HI }, { HI, HI } }; { auto r = look(s, m); PBT_CHECK(s, r.v == want, "an empty mesh has %zu points", r.v.size()); }
    size_t n = 1 + s.skewed(most), dup = 0, out = 0, full = 0; std::vector<pt> list;
    for (size_t k = 0; k < n; ++k)
    {
        pt p = g.grid(s); ce::vec2<ce::int32_t> w;
        if (!list.empty() && s.chance(1, 12)) p = list[s.below(list.size())];
        if (s.chance(1, 25)) { w = { ce::int32_t(s.sinteger(32)), ce::int32_t(s.sinteger(32)) }; if (s.flip()) w.x = ce::int32_t((s.flip() ? HI + 1 : LO - 1 - i64(s.below(3))) * M::m2w32); }
        else w = world<M>(s, p);
        p = { (i64(w.x) >> Q) & ~1ll, (i64(w.y) >> Q) & ~1ll }; // points are floored to even grid positions
        size_t hint = s.flip() ? 0 : s.flip() ? size_t(s.integer(64)) : s.below(8 * m.size + 8);
        bool inside = p.x >= LO && p.y >= LO && p.x <= HI && p.y <= HI, edge = p.x == LO || p.y == LO || p.x == HI || p.y == HI, have = want.count(p);
        bool ok = inside && (have || (!edge && want.size() < N));
        if (n < 40) s.note("%s ", str(p).c_str());
        bool r = m.insert_point(w, hint);
        PBT_CHECK(s, r == ok, "inserting %s with %zu of %zu points gave %d, expected %d", str(p).c_str(), want.size(), N, r, ok);
        dup += have; out += !inside; if (ok && !have) want.insert(p), list.push_back(p); else if (!ok && inside && !edge) ++full;
        PBT_CHECK(s, m.size == want.size(), "%zu points after inserting %s, expected %zu", size_t(m.size), str(p).c_str(), want.size());
        if (n < 24 || k + 1 == n) { auto v = look(s, m); PBT_CHECK(s, v.v == want, "the mesh does not have exactly the inserted points"); delaunay(s, v); PBT_CHECK(s, v.fixed.size() == 4, "%zu constrained edges", v.fixed.size()); for (auto& t : v.f) PBT_CHECK(s, t.data == 0, "face data is %d", t.data); }
    }
    guards(s, m);
    if (n >= 24) s.note("%zu insertions, %zu points, mode %d extent %lld, Q %zu N %zu", n, want.size() - 4, g.mode, (long long)g.L, Q, N);
    s.nontrivial(want.size() > 6); if (dup) s.label("duplicates"); if (out) s.label("outside"); if (full) s.label("full"); s.label(want.size() > 100 ? "large" : want.size() > 20 ? "medium" : "small");
}
void prop(Src& s)
{
    if (s.chance(1, 4000)) return go<8, 8192>(s, 9000);
    switch (s.below(8)) { case 0: return go<0, 16>(s, 24); case 1: return go<10, 5>(s, 6); case 2: return go<14, 64>(s, 90); case 3: return go<4, 4>(s, 4); case 4: return go<1, 300>(s, 300); default: return go<10, 64>(s, 40); }
}
PBT_MAIN(prop)
