// C16: bitset against a bool vector over random histories; bits outside the one addressed and memory outside the set never change.
#include "pbt.h"
#include "ce/ce.h"
using namespace pbt;
template<size_t N> static void go(Src& s)
{
    struct { u8 g0[8]; ce::bitset<N> b; u8 g1[8]; } w; memset(&w, s.flip() ? 0xff : 0x11, sizeof w); memset(w.g0, 0x5c, 8); memset(w.g1, 0x5c, 8);
    auto& b = w.b; std::vector<char> m(N, 1); size_t ops = 1 + s.skewed(60), single = 0;
    if (s.flip()) { b.reset(); m.assign(N, 0); } else b.set();
    PBT_CHECK(s, b.get_size() == N, "size %zu, expected %zu", b.get_size(), N);
    for (size_t k = 0; k <= ops; ++k)
    {
        for (size_t j = 0; j < (N > 300 && k < ops ? 200 : N); ++j) if (size_t i = N > 300 && k < ops ? s.below(N) : j; b[i] != bool(m[i])) PBT_CHECK(s, b[i] == bool(m[i]), "bit %zu of %zu is %d, expected %d, after %zu operations", i, N, b[i], m[i], k);
        for (int i = 0; i < 8; ++i) PBT_CHECK(s, w.g0[i] == 0x5c && w.g1[i] == 0x5c, "wrote outside the set");
        if (k == ops) break;
        size_t i = s.chance(1, 4) ? N - 1 : s.below(N);
        switch (s.weighted({ 8, 8, 8, 1, 1 }))
        {
        case 0: b.set(i); m[i] = 1; s.note("set %zu ", i); ++single; break;
        case 1: b.reset(i); m[i] = 0; s.note("reset %zu ", i); ++single; break;
        case 2: { bool v = s.flip(); b.set(i, v); m[i] = v; s.note("set %zu=%d ", i, v); ++single; break; }
        case 3: b.set(); m.assign(N, 1); s.note("set all "); break;
        default: b.reset(); m.assign(N, 0); s.note("reset all "); break;
        }
    }
    s.nontrivial(single > 1); char l[24]; snprintf(l, sizeof l, "N %zu", N); s.label(l);
}
void prop(Src& s)
{
    switch (s.chance(1, 400) ? 14 + s.below(3) : s.below(14)) { case 0: return go<1>(s); case 1: return go<2>(s); case 2: return go<7>(s); case 3: return go<8>(s); case 4: return go<9>(s); case 5: return go<15>(s); case 6: return go<16>(s); case 7: return go<17>(s);
    case 8: return go<31>(s); case 9: return go<33>(s); case 10: return go<63>(s); case 11: return go<64>(s); case 12: return go<65>(s); default: return go<200>(s); case 14: return go<600>(s); case 15: return go<5003>(s); case 16: return go<70001>(s); }
}
PBT_MAIN(prop)
