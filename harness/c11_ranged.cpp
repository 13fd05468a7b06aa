// C11: next_ranged / next_unbiased stay in range; next_unbiased accepts exactly as many raw draws for each result.
#include "pbt.h"
#include "ce/ce.h"
using namespace pbt;
struct script { u32 const* p; size_t n, i; }; // scripted raw draws; `taken` counts steps
static u32 read(script g) { return g.i < g.n ? g.p[g.i] : 0xffffffffu; }
static script step(script g) { ++g.i; return g; }
// draws x first, then a value in the middle of the top bucket which can not be rejected sensibly
static bool accepts(Src& s, u32 x, u32 n, u32& out)
{
    u32 raw[3] = { x, 0xffffffffu, 0xffffffffu }; script g{ raw, 3, 0 };
    out = ce::random::next_unbiased(g, n);
    PBT_CHECK(s, g.i >= 1 && g.i <= 2, "unbiased draw of %u from %08x took %zu raw draws", n, x, g.i);
    return g.i == 1;
}
void prop(Src& s)
{
    u32 n = u32(s.integer(32)); if (n == 0) n = 1;
    if (s.chance(1, 3)) { u32 k = 1 + u32(s.below(2000)); n = u32((1ull << 32) / k) - u32(s.below(3)); if (n == 0) n = 1; } // few raw draws per result
    s.nontrivial(n > 1);
    switch (s.below(3))
    {
    case 0: { // ranged
        size_t k = 1 + s.below(8); std::vector<u32> raw(k); for (auto& r : raw) r = u32(s.integer(32));
        script g{ raw.data(), k, 0 };
        for (size_t i = 0; i < k; ++i) { u32 v = ce::random::next_ranged(g, n); PBT_CHECK(s, v < n && v == u32((u64(raw[i]) * n) >> 32), "ranged draw of %u from %08x is %u", n, raw[i], v); PBT_CHECK(s, g.i == i + 1, "took %zu draws for %zu results", g.i, i + 1); }
        s.note("ranged n %u, %zu draws", n, k); s.label("ranged"); return; }
    case 1: { // equal buckets: count the accepted raw draws for two results
        u64 per = (1ull << 32) / n; 
        u32 m[2] = { u32(s.below(n)), u32(s.flip() ? s.below(n) : s.pick({ 0u, n - 1, n / 2 }) ) };
        u64 acc[2] = { 0, 0 };
        for (int j = 0; j < 2; ++j)
        {
            u64 lo = ((u64(m[j]) << 32) + n - 1) / n, hi = ((u64(m[j] + 1ull) << 32) + n - 1) / n; // raw draws that map to m
            u64 edge = per <= 2200 ? hi - lo : 40;
            auto look = [&](u64 x) { u32 out; if (accepts(s, u32(x), n, out)) { PBT_CHECK(s, out == m[j], "raw draw %08x of %u gave %u, expected %u", u32(x), n, out, m[j]); return 1; } return 0; };
            if (hi - lo <= 2 * edge) { for (u64 x = lo; x < hi; ++x) acc[j] += look(x); s.count(hi - lo); }
            else
            {
                u64 rej = 0;
                for (u64 x = lo; x < lo + edge; ++x) rej += !look(x);
                for (u64 x = hi - edge; x < hi; ++x) rej += !look(x);
                for (int k = 0; k < 20; ++k) { u64 x = lo + edge + s.below(hi - lo - 2 * edge); PBT_CHECK(s, look(x), "raw draw %08x of %u rejected inside a bucket", u32(x), n); }
                acc[j] = hi - lo - rej; s.count(2 * edge + 20);
            }
        }
        PBT_CHECK(s, acc[0] == acc[1], "biased: of %u, %llu raw draws give %u and %llu give %u", n, (unsigned long long)acc[0], m[0], (unsigned long long)acc[1], m[1]);
        PBT_CHECK(s, acc[0] > 0, "no raw draw of %u gives %u", n, m[0]);
        s.note("unbiased n %u: %llu raw draws for each of %u and %u", n, (unsigned long long)acc[0], m[0], m[1]); s.label(per <= 2200 ? "whole buckets" : "bucket edges"); return; }
    default: { // stream: every rejected draw is skipped, the last one decides; and the same over pcg32
        size_t k = 1 + s.below(10); std::vector<u32> raw(k);
        for (auto& r : raw) { if (s.flip()) r = u32(s.integer(32)); else { u64 m = s.below(n); r = u32((((m << 32) + n - 1) / n) + s.below(3)); } }
        script g{ raw.data(), k, 0 }; u32 v = ce::random::next_unbiased(g, n); u32 dummy;
        PBT_CHECK(s, g.i >= 1 && g.i <= k + 1 && v < n, "out of range: %u of %u, %zu draws", v, n, g.i);
        for (size_t i = 0; i + 1 < g.i; ++i) PBT_CHECK(s, !accepts(s, raw[i], n, dummy), "draw %zu (%08x) of %u was skipped though acceptable", i, raw[i], n);
        u32 last = g.i <= k ? raw[g.i - 1] : 0xffffffffu; PBT_CHECK(s, v == u32((u64(last) * n) >> 32), "%u of %u does not come from the accepted draw %08x", v, n, last);
        ce::pcg32_64_t p = ce::pcg32_64_t(s.integer(64)), q = p; u32 a = ce::random::next_unbiased(p, n); size_t c = 0; bool ok = false;
        while (!ok && c < 300) { u32 r = next(q); ++c; u32 o; ok = accepts(s, r, n, o); if (ok) PBT_CHECK(s, a == o, "pcg32 draw of %u is %u, expected %u", n, a, o); }
        PBT_CHECK(s, ok && p == q, "pcg32 state after an unbiased draw of %u", n);
        u32 b = ce::random::next_ranged(p, n); PBT_CHECK(s, b < n && b == u32((u64(next(q)) * n) >> 32) && p == q, "pcg32 ranged draw of %u is %u", n, b);
        s.note("stream n %u, %zu scripted draws used", n, g.i); s.label(g.i > 1 ? "rejections" : "first accepted"); }
    }
}
PBT_MAIN(prop)
