// C23: a z order range query returns every stored point of the box, in order, once, and nothing that is not stored.
#include "pbt.h"
#include "ce/ce.h"
#include "ce/zorder.h"
using namespace pbt;
static u64 enc(i64 x, i64 y) { u64 r = 0; u32 u = u32(x) + 0x80000000u, v = u32(y) + 0x80000000u; for (int i = 0; i < 32; ++i) r |= u64(u >> i & 1) << (2 * i) | u64(v >> i & 1) << (2 * i + 1); return r; }
static u32 dec(u64 z) { u32 r = 0; for (int i = 0; i < 32; ++i) r |= u32(z >> (2 * i) & 1) << i; return r; }
void prop(Src& s)
{
    i64 const M = INT32_MAX, m = INT32_MIN; auto cl = [&](i64 v) { return std::min(M, std::max(m, v)); };
    int sb = int(s.below(32)); i64 w = 1ll << sb, h = s.flip() ? w : 1ll << s.below(32); // box size scale
    i64 cx = s.sinteger(32), cy = s.sinteger(32); if (s.chance(1, 3)) cx = i32(u32(cx) >> 8 << 8), cy = i32(u32(cy) >> 8 << 8);
    i64 x0 = cl(cx), y0 = cl(cy), x1 = cl(cx + i64(s.below(u64(w)))), y1 = cl(cy + i64(s.below(u64(h))));
    size_t n = s.chance(1, 4000) ? 65000 + s.below(3000) : s.chance(1, 10) ? 200 + s.below(2000) : s.skewed(120); std::vector<ce::uint64_t> d; u64 r = s.below(0); int mode = int(s.below(4));
    for (size_t i = 0; i < n; ++i)
    {
        auto rnd = [&](u64 k) { r = mix(r); return i64(k ? r % k : 0); };
        i64 x, y;
        switch (n < 40 ? s.below(6) : u64(rnd(6)))
        {
        case 0: x = x0 + rnd(u64(x1 - x0) + 1); y = y0 + rnd(u64(y1 - y0) + 1); break;                       // inside
        case 1: x = (rnd(2) ? x0 : x1) + rnd(3) - 1; y = y0 + rnd(u64(y1 - y0) + 1); break;                   // left and right edge
        case 2: x = x0 + rnd(u64(x1 - x0) + 1); y = (rnd(2) ? y0 : y1) + rnd(3) - 1; break;                   // top and bottom edge
        case 3: x = (rnd(2) ? x0 : x1) + rnd(5) - 2; y = (rnd(2) ? y0 : y1) + rnd(5) - 2; break;              // corners
        case 4: x = x0 - w + rnd(u64(x1 - x0 + 2 * w)); y = y0 - h + rnd(u64(y1 - y0 + 2 * h)); break;        // around
        default: x = i32(rnd(0x100000000ull)); y = i32(rnd(0x100000000ull)); break;
        }
        if (mode == 0) x &= ~i64(255), y &= ~i64(255); else if (mode == 1) x |= 255, y |= 255;
        d.push_back(enc(cl(x), cl(y)));
    }
    std::sort(d.begin(), d.end()); if (s.flip()) d.erase(std::unique(d.begin(), d.end()), d.end()); d.shrink_to_fit();
    s.note("box [%lld, %lld] x [%lld, %lld], %zu points", (long long)x0, (long long)x1, (long long)y0, (long long)y1, d.size());
    u64 lo = enc(x0, y0), hi = enc(x1, y1);
    ce::uint64_t* out = static_cast<ce::uint64_t*>(malloc(8 * (d.size() + 1))); out[d.size()] = 0x1122334455667788;
    size_t got = ce::z_query(out, lo, hi, d.size(), d.data()); std::vector<ce::uint64_t> g(out, out + std::min(got, d.size())); bool guard = out[d.size()] == 0x1122334455667788; free(out);
    PBT_CHECK(s, got <= d.size() && guard, "%zu results from %zu points", got, d.size());
    size_t j = 0, want = 0, extra = 0;
    for (size_t i = 0; i < d.size(); ++i)
    {
        u32 px = dec(d[i]), py = dec(d[i] >> 1); i64 x = i32(px - 0x80000000u), y = i32(py - 0x80000000u);
        bool in = x0 <= x && x <= x1 && y0 <= y && y <= y1; want += in;
        if (j < g.size() && g[j] == d[i])
        {
            ++j; if (in) continue;
            ++extra;
            // a near miss: the query works on codes, in blocks of 2^16 codes
            PBT_CHECK(s, d[i] >= lo && (d[i] <= hi || d[i] - hi <= 0xffff), "(%lld, %lld) was returned but its code is outside the codes of the box", (long long)x, (long long)y);
        }
        else PBT_CHECK(s, !in, "(%lld, %lld) is in the box but was not returned (point %zu of %zu)", (long long)x, (long long)y, i, d.size());
    }
    PBT_CHECK(s, j == g.size(), "result %zu is not a stored point, or out of order", j);
    s.nontrivial(want > 0 && want < d.size()); if (extra) s.label("with near misses"); s.label(want ? "some inside" : "none inside");
}
PBT_MAIN(prop)
