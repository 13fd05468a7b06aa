// C32: constrained edges: the mesh stays a triangulation whatever is inserted, constraints are never lost, reported success joins the two ends along the segment.
#include "cdt_mesh.h"
using namespace pbt; using namespace mesh;
static bool covered(std::map<pt, std::vector<pt>> const& g, seg q) // q is a chain of fixed edges on q itself
{
    pt a = q.first;
    for (int k = 0; k < 100000 && a != q.second; ++k)
    {
        auto it = g.find(a); if (it == g.end()) return false; bool go = false;
        for (auto& c : it->second) if (c != a && between(a, q.second, c)) { a = c; go = true; break; }
        if (!go) return false;
    }
    return a == q.second;
}
static bool cuts(seg a, seg b) // cross in a point that is inside both
{
    auto sg = [](i128 v) { return v < 0 ? -1 : v > 0 ? 1 : 0; };
    return sg(cross(a.first, a.second, b.first)) * sg(cross(a.first, a.second, b.second)) < 0 && sg(cross(b.first, b.second, a.first)) * sg(cross(b.first, b.second, a.second)) < 0;
}
template<size_t Q, size_t N> static void go(Src& s, size_t most)
{
    using M = ce::cdt<Q, N>; M& m = fresh<M>(s); gen g(s); bool flat = s.flip(); // flat: segments that cross no other
    std::set<pt> pts{ { LO, LO }, { HI, LO }, { LO, HI }, { HI, HI } }; std::vector<pt> list; std::set<seg> fixed; auto v = look(s, m); fixed = v.fixed;
    size_t n = 1 + s.skewed(most), good = 0, bad = 0, steiner = 0, crossed = 0;
    for (size_t k = 0; k < n; ++k)
    {
        size_t hint = s.flip() ? 0 : s.below(8 * m.size + 8); bool edge = s.chance(2, 3), ok; seg q; pt p = g.inner(s), e;
        if (!list.empty() && s.flip()) p = list[s.below(list.size())];
        e = p; if (edge) { e = !list.empty() && s.flip() ? list[s.below(list.size())] : s.chance(1, 10) ? pt{ LO, LO } : g.inner(s); q = mk(p, e); if (flat) { bool c = false; for (auto& f : fixed) c |= cuts(q, f); if (c) continue; } }
        bool cut = false; if (edge) for (auto& f : fixed) cut |= cuts(q, f); crossed += cut;
        if (n < 40) s.note(edge ? "%s-%s%s " : "%s ", str(p).c_str(), edge ? str(e).c_str() : "", cut ? "x" : "");
        bool there = edge && pts.count(p) && pts.count(e); if (there) { std::map<pt, std::vector<pt>> all; for (auto& f : v.f) for (int i = 0; i < 3; ++i) all[f.p[i]].push_back(f.p[(i + 1) % 3]), all[f.p[i]].push_back(f.p[(i + 2) % 3]); there = covered(all, q); }
        bool flips = false; if (edge && p != e) for (auto& f : v.f) for (int i = 0; i < 3; ++i) if (f.p[i] == p && f.e[i] && !f.c[i]) { auto& o = v.f[(f.e[i] - 24) / 4]; flips |= o.p[f.e[i] % 4] == e && cuts(q, mk(f.p[(i + 1) % 3], f.p[(i + 2) % 3])); }
        ok = edge ? m.insert_edge(world<M>(s, p), world<M>(s, e), hint) : m.insert_point(world<M>(s, p), hint);
        guards(s, m);
        auto w = look(s, m); std::map<pt, std::vector<pt>> at; for (auto& f : w.fixed) at[f.first].push_back(f.second), at[f.second].push_back(f.first);
        for (auto& x : pts) PBT_CHECK(s, w.v.count(x), "point %s is gone", str(x).c_str());
        for (auto& f : fixed) PBT_CHECK(s, w.fixed.count(f) || covered(at, f), "constrained edge %s %s is gone", str(f.first).c_str(), str(f.second).c_str());
        if (ok) PBT_CHECK(s, w.v.count(p) && w.v.count(e), "an end of %s %s is not in the mesh", str(p).c_str(), str(e).c_str());
        else PBT_CHECK(s, edge || m.size >= N, "point %s was rejected with %zu of %zu points", str(p).c_str(), size_t(m.size), N);
        size_t extra = 0; 
        for (auto& x : w.v) if (!pts.count(x) && x != p && x != e) { ++extra; PBT_CHECK(s, edge, "point %s appeared", str(x).c_str()); }
        for (auto& f : w.fixed) if (!fixed.count(f))
        {
            bool part = false; for (auto& o : fixed) part |= between(o.first, o.second, f.first) && between(o.first, o.second, f.second); if (part) continue;
            PBT_CHECK(s, edge, "edge %s %s was constrained by a point", str(f.first).c_str(), str(f.second).c_str());
        }
        if (edge && ok)
        {
            ++good; steiner += extra;
            if (p != e && there) { s.label("along mesh edges"); PBT_CHECK(s, extra == 0 && covered(at, q), "edge %s %s lies along edges of the mesh but they are not constrained", str(q.first).c_str(), str(q.second).c_str()); }
            // a chain of constrained edges near the segment joins the ends
            if (p != e && flips) { s.label("one flip"); PBT_CHECK(s, extra == 0 && w.fixed.count(q), "edge %s %s crosses one free edge of the mesh but was not made", str(q.first).c_str(), str(q.second).c_str()); }
            std::set<pt> seen{ p }; std::vector<pt> todo{ p }; while (!todo.empty()) { pt a = todo.back(); todo.pop_back(); for (auto& c : at[a]) if (seen.insert(c).second) todo.push_back(c); }
            PBT_CHECK(s, seen.count(e), "edge %s %s was inserted but no constrained edges join its ends", str(p).c_str(), str(e).c_str());
        }
        else if (edge) { ++bad; PBT_CHECK(s, !there && !flips || m.size >= N, "edge %s %s was refused", str(p).c_str(), str(e).c_str()); }
        if (edge && !ok) s.label(m.size >= N ? "edge fails: full" : cut ? "edge fails: crossing" : "edge fails: other");
        pts = w.v; list.assign(pts.begin(), pts.end()); list.erase(std::remove_if(list.begin(), list.end(), [](pt x) { return x.x == LO || x.x == HI || x.y == LO || x.y == HI || x.x & 1 || x.y & 1; }), list.end()); fixed = w.fixed; v = w;
    }
    s.nontrivial(good > 0 && pts.size() > 8); if (good) s.label("edges"); if (bad) s.label("rejected edges"); if (steiner) s.label("added points"); if (crossed) s.label("crossing");
}
void prop(Src& s)
{
    switch (s.below(6)) { case 0: return go<0, 16>(s, 12); case 1: return go<14, 40>(s, 24); case 2: return go<1, 300>(s, 60); case 3: return go<4, 9>(s, 8); default: return go<10, 64>(s, 30); }
}
PBT_MAIN(prop)
