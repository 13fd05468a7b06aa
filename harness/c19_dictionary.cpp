// C19: dictionary against a map over random histories; handles stay valid; lifetimes of the values balance.
#include "pbt.h"
#include "lifetimes.h"
#include <map>
#include <memory>
#include <set>
#include "ce/ce.h"
#include "ce/dictionary.h"
using namespace pbt; using namespace life;
enum class color : int { a = -1, b, c, d = 77 };
template<class K> static K key(Src& s, int mode) { i64 v = mode == 0 ? s.range(0, 3) : mode == 1 ? s.range(-10, 10) : s.sinteger(64); return K(v); }
template<int N, class T, class K> static void go(Src& s)
{
    using D = ce::dictionary<N, T, K>; using P = typename D::ptr_t; state.reset();
    struct W { u8 g0[16]; alignas(16) u8 mem[sizeof(D)]; u8 g1[16]; }; static W w; memset(&w, 0, sizeof w); memset(w.g0, 0x3d, 16); memset(w.g1, 0x3d, 16);
    D& d = *new (static_cast<void*>(w.mem)) D{ };
    std::map<K, std::pair<int, P>> m; int mode = int(s.below(3)), id = 10; size_t ops = 1 + s.skewed(70), rebinds = 0, failed = 0, misses = 0;
    for (size_t k = 0; k < ops; ++k)
    {
        K n = key<K>(s, mode); if (!m.empty() && s.chance(1, 3)) { auto it = m.begin(); std::advance(it, s.below(m.size())); n = it->first; }
        bool had = m.count(n);
        if (s.flip())
        {
            int v = id++; P p = s.flip() ? d.bind(n, v) : d.bind(n, v / 1000, v % 1000);
            if (!had && m.size() >= size_t(N) - 1) { PBT_CHECK(s, p == P::nil, "bind of a new key succeeded with %zu of %d", m.size(), N - 1); ++failed; s.note("full "); }
            else
            {
                PBT_CHECK(s, p != P::nil, "bind failed with %zu of %d, existing %d", m.size(), N - 1, had);
                if (had) { PBT_CHECK(s, p == m[n].second, "rebinding moved the entry"); ++rebinds; } else for (auto& e : m) PBT_CHECK(s, e.second.second != p, "bind returned a handle already in use");
                m[n] = { v, p }; s.note("bind %lld ", (long long)n);
            }
        }
        else if (had && s.flip()) { int v = id++; T t(v); if (s.flip()) d[n] = t; else d[m[n].second] = t; m[n].first = v; s.note("write "); }
        else { P p = d.find(n); PBT_CHECK(s, p == (had ? m[n].second : P::nil), "find of %s key %lld returned %u", had ? "a bound" : "an unbound", (long long)n, unsigned(p)); misses += !had; s.note("find "); }
        D const& c = d;
        for (auto& e : m)
        {
            PBT_CHECK(s, c.find(e.first) == e.second.second, "key %lld is found at %u, expected %u", (long long)e.first, unsigned(c.find(e.first)), unsigned(e.second.second));
            PBT_CHECK(s, c[e.second.second].get() == e.second.first && c[e.first].get() == e.second.first && d[e.first].get() == e.second.first && &d[e.first] == &d[e.second.second], "key %lld holds %d, expected %d", (long long)e.first, c[e.second.second].get(), e.second.first);
        }
        PBT_CHECK(s, state.error.empty(), "%s", state.error.c_str());
        if (tracked<T>) PBT_CHECK(s, state.live.size() == size_t(N), "%zu live values of %d", state.live.size(), N);
    }
    d.~D();
    PBT_CHECK(s, state.error.empty() && state.live.empty(), "at the end: %s %zu live", state.error.c_str(), state.live.size());
    for (int i = 0; i < 16; ++i) PBT_CHECK(s, w.g0[i] == 0x3d && w.g1[i] == 0x3d, "wrote outside the dictionary");
    s.nontrivial(m.size() > 1 || rebinds); if (failed) s.label("hit capacity"); if (rebinds) s.label("rebound"); if (misses) s.label("missed"); if (m.count(K(0))) s.label("key 0");
}
// many keys: handles and values of more than 256 and more than 65536 entries
template<int N> static void many(Src& s)
{
    using D = ce::dictionary<N, int, u32>; using P = typename D::ptr_t; auto d = std::make_unique<D>(); memset(static_cast<void*>(d.get()), 0, sizeof(D));
    size_t n = std::min<size_t>(N - 1, 1 + s.below(s.flip() ? 300 : 1500)); std::map<u32, std::pair<int, P>> m; std::set<unsigned> used; u64 r = s.below(0);
    while (m.size() < n) { r = mix(r); u32 k = u32(r); int v = int(r >> 40); P p = d->bind(k, v); if (!m.count(k)) PBT_CHECK(s, p != P::nil && used.insert(unsigned(p)).second, "key %zu of %d: handle %u is nil or in use", m.size() + 1, N, unsigned(p)); m[k] = { v, p }; }
    D const& c = *d;
    for (auto& e : m) PBT_CHECK(s, (*d)[e.second.second] == e.second.first && c[e.second.second] == e.second.first && (*d)[e.first] == e.second.first && c[e.first] == e.second.first && d->find(e.first) == e.second.second, "key %u of %zu holds %d, expected %d", e.first, m.size(), (*d)[e.second.second], e.second.first);
    s.note("%zu keys of %d", n, N); s.nontrivial(); s.label("many keys");
}
void prop(Src& s)
{
    if (s.chance(1, 1500)) { switch (s.below(3)) { case 0: return many<300>(s); case 1: return many<512>(s); default: return many<1400>(s); } }
    switch (s.below(9)) { case 0: return go<1, pod, int>(s); case 1: return go<2, obj, int>(s); case 2: return go<3, obj, u64>(s); case 3: return go<8, obj, unsigned char>(s); case 4: return go<16, assigned, int>(s); case 5: return go<33, pod, i64>(s); case 6: return go<5, big, color>(s); case 7: return go<64, obj, short>(s); default: return go<4, pod, char>(s); }
}
PBT_MAIN(prop)
