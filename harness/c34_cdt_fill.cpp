// C34: filling from a face marks exactly the faces reached without crossing a constrained edge or a face already marked so.
#include "cdt_mesh.h"
using namespace pbt; using namespace mesh;
template<size_t Q, size_t N> static void go(Src& s, size_t most)
{
    using M = ce::cdt<Q, N>; M& m = fresh<M>(s); gen g(s); size_t n = s.skewed(most), edges = 0; unsigned pe = s.pick({ 0u, 1u, 3u, 4u });
    for (size_t k = 0; k < n; ++k) { if (pe && s.chance(pe, 4)) edges += m.insert_edge(world<M>(s, g.inner(s)), world<M>(s, g.inner(s)), 0); else m.insert_point(world<M>(s, g.grid(s)), 0); }
    if (s.chance(1, 3) && N >= 40) // a closed outline
    {
        i64 r = s.pick({ 10, 100, 1000, 20000 }); pt p[4] = { { -r, -r }, { r, -r }, { r, r }, { -r, r } }; for (int i = 0; i < 4; ++i) edges += m.insert_edge(world<M>(s, p[i]), world<M>(s, p[(i + 1) % 4]), 0);
    }
    auto v = look(s, m); size_t F = v.f.size(), fills = 1 + s.below(6), some = 0; std::vector<u16> model(F, 0), before;
    for (auto& f : v.f) PBT_CHECK(s, f.data == 0, "face data is %d before any fill", f.data);
    s.note("%zu faces, %zu constrained edges:", F, v.fixed.size());
    for (size_t k = 0; k < fills; ++k)
    {
        u16 info = s.chance(1, 4) ? u16(s.below(65536)) : u16(s.below(3)); size_t f = s.below(F + (k > 0)); size_t done = 0;
        if (f == F) m.fill(s.below(4), info); // nothing was located
        else
        {
            ce::uint node = ce::uint(24 + 4 * f + s.below(4)); m.fill(node, info);
            if (model[f] != info) { std::vector<size_t> todo{ f }; model[f] = info; ++done; while (!todo.empty()) { size_t j = todo.back(); todo.pop_back(); for (int i = 0; i < 3; ++i) if (!v.f[j].c[i]) { size_t o = (v.f[j].e[i] - 24) / 4; if (model[o] != info) { model[o] = info; ++done; todo.push_back(o); } } } }
        }
        s.note(" fill %zu with %d: %zu faces", f, info, done); some += done > 0 && done < F;
        auto w = look(s, m);
        for (size_t j = 0; j < F; ++j) { PBT_CHECK(s, w.f[j].data == model[j], "after filling face %zu with %d face %zu of %zu has %d, expected %d", f, info, j, F, w.f[j].data, model[j]);
            for (int i = 0; i < 3; ++i) PBT_CHECK(s, w.f[j].p[i] == v.f[j].p[i] && w.f[j].e[i] == v.f[j].e[i] && w.f[j].c[i] == v.f[j].c[i], "filling changed face %zu", j); }
    }
    // points and edges added later keep the value of the region they are in
    if (s.flip() && F < 700)
    {
        auto w = look(s, m); size_t more = 1 + s.below(5);
        for (size_t k = 0; k < more; ++k) { if (s.chance(1, 3)) m.insert_edge(world<M>(s, g.inner(s)), world<M>(s, g.inner(s)), 0); else m.insert_point(world<M>(s, g.inner(s)), 0); }
        auto x = look(s, m); s.label("insertions after a fill");
        for (auto& f : x.f)
        {
            pt c{ f.p[0].x + f.p[1].x + f.p[2].x, f.p[0].y + f.p[1].y + f.p[2].y }; u16 want = 0; bool hit = false;
            for (auto& o : w.f) { pt q[3]; for (int i = 0; i < 3; ++i) q[i] = { 3 * o.p[i].x, 3 * o.p[i].y }; if (cross(q[0], q[1], c) <= 0 && cross(q[1], q[2], c) <= 0 && cross(q[2], q[0], c) <= 0) { want = o.data; hit = true; break; } }
            PBT_CHECK(s, hit && f.data == want, "after %zu insertions face %s %s %s has %d, its region had %d", more, str(f.p[0]).c_str(), str(f.p[1]).c_str(), str(f.p[2]).c_str(), f.data, want);
        }
    }
    guards(s, m); s.nontrivial(F > 2); if (some) s.label("partial fills"); if (edges) s.label("constrained mesh"); s.label(F > 600 ? "large" : F > 30 ? "medium" : "small");
}
void prop(Src& s)
{
    if (s.chance(1, 5000)) return go<8, 8192>(s, 8000);
    switch (s.below(7)) { case 0: return go<0, 24>(s, 20); case 1: return go<14, 64>(s, 60); case 2: return go<1, 300>(s, 120); case 3: return go<4, 9>(s, 8); case 4: if (s.chance(1, 8)) return go<10, 1024>(s, 1000); [[fallthrough]]; default: return go<10, 64>(s, 30); }
}
PBT_MAIN(prop)
