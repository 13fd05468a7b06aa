// C10: the generators produce the published streams, and seeding is the documented function of the seed bytes.
#include "pbt.h"
#include "ce/ce.h"
using namespace pbt;
static u32 rl32(u32 x, unsigned k) { k &= 31; return k ? x << k | x >> (32 - k) : x; }
static u64 rl64(u64 x, unsigned k) { k &= 63; return k ? x << k | x >> (64 - k) : x; }
struct r64 { u32 s0, s1; u32 next() { u32 a = s0, b = s1; u32 r = rl32(a * 0x9E3779BBu, 5) * 5; b ^= a; s0 = rl32(a, 26) ^ b ^ (b << 9); s1 = rl32(b, 13); return r; } };
struct r128 { u64 s0, s1; u64 next() { u64 a = s0, b = s1; u64 r = rl64(a + b, 17) + a; b ^= a; s0 = rl64(a, 49) ^ b ^ (b << 21); s1 = rl64(b, 28); return r; } };
struct rpcg { u64 st; void step() { st = st * 6364136223846793005ull + 0xda3e39cb94b95bdbull; } u32 next() { u64 o = st; step(); u32 x = u32(((o >> 18) ^ o) >> 27), r = u32(o >> 59); return x >> r | x << ((32 - r) & 31); } };
static u32 crc(u32 c, size_t n, u8 const* p) { u32 v = ~c; for (size_t i = 0; i < n; ++i) { v ^= p[i]; for (int k = 0; k < 8; ++k) v = v >> 1 ^ (v & 1 ? 0x82f63b78u : 0); } return ~v; }
static u64 fnv(u64 h, size_t n, u8 const* p) { for (size_t i = 0; i < n; ++i) h = (h ^ p[i]) * 1099511628211ull; return h; }

void prop(Src& s)
{
    int kind = int(s.below(3)); bool seeded = s.flip();
    std::vector<u8> d; if (seeded) { size_t n = 1 + s.skewed(80); d = s.bytes(n); }
    size_t steps = 1 + s.skewed(64); s.nontrivial(); s.count(steps);
    size_t h = d.size() / 2;
    switch (kind)
    {
    case 0: {
        ce::xoroshiro64ss g; r64 r;
        if (seeded) { seed(g, d.size(), d.data()); r.s0 = crc(0, h, d.data()); r.s1 = crc(r.s0, d.size() - h, d.data() + h); PBT_CHECK(s, g.a == r.s0 && g.b == r.s1, "seeding xoroshiro64** with %zu bytes: %08x %08x, expected %08x %08x", d.size(), g.a, g.b, r.s0, r.s1); }
        else { g.a = r.s0 = u32(s.integer(32)); g.b = r.s1 = u32(s.integer(32)); }
        s.note("xoroshiro64** %08x %08x, %zu steps", g.a, g.b, steps);
        for (size_t i = 0; i < steps; ++i) {
            int w = int(s.below(3)); u64 want = r.next(), got; if (w == 2) want = want << 32 | r.next();
            got = w == 0 ? next(g) : w == 1 ? next32(g) : next64(g);
            PBT_CHECK(s, got == want, "xoroshiro64** step %zu (form %d): %llx, expected %llx", i, w, (unsigned long long)got, (unsigned long long)want);
            PBT_CHECK(s, g.a == r.s0 && g.b == r.s1, "xoroshiro64** state after step %zu", i); }
        s.label("xoroshiro64**"); break; }
    case 1: {
        ce::xoroshiro128pp g; r128 r;
        if (seeded) { seed(g, d.size(), d.data()); r.s0 = fnv(0xcbf29ce484222325ull, d.size(), d.data()); r.s1 = fnv(r.s0, d.size(), d.data()); PBT_CHECK(s, g.a == r.s0 && g.b == r.s1, "seeding xoroshiro128++ with %zu bytes", d.size()); }
        else { g.a = r.s0 = s.integer(64); g.b = r.s1 = s.integer(64); }
        s.note("xoroshiro128++ %llx %llx, %zu steps", (unsigned long long)g.a, (unsigned long long)g.b, steps);
        for (size_t i = 0; i < steps; ++i) {
            int w = int(s.below(3)); u64 want = r.next(), got; if (w == 1) want = u32(want);
            got = w == 0 ? next(g) : w == 1 ? next32(g) : next64(g);
            PBT_CHECK(s, got == want, "xoroshiro128++ step %zu (form %d): %llx, expected %llx", i, w, (unsigned long long)got, (unsigned long long)want);
            PBT_CHECK(s, g.a == r.s0 && g.b == r.s1, "xoroshiro128++ state after step %zu", i); }
        s.label("xoroshiro128++"); break; }
    default: {
        ce::pcg32_64_t g; rpcg r;
        if (seeded && s.flip()) { seed(g, d.size(), d.data()); r.st = 0; r.step(); r.st += fnv(0xcbf29ce484222325ull, d.size(), d.data()); r.step(); }
        else if (seeded) { u64 v = s.integer(64); ce::random::seed(g, ce::uint64_t(v)); r.st = 0; r.step(); r.st += v; r.step(); }
        else { r.st = s.integer(64); g = ce::pcg32_64_t(r.st); }
        PBT_CHECK(s, u64(g) == r.st, "seeding pcg32: %llx, expected %llx", (unsigned long long)g, (unsigned long long)r.st);
        s.note("pcg32 %llx, %zu steps", (unsigned long long)r.st, steps);
        for (size_t i = 0; i < steps; ++i) {
            u32 want = r.next(), got;
            if (s.flip()) got = next(g); else { got = read(g); PBT_CHECK(s, got == read(g), "read is not repeatable"); g = step(g); }
            PBT_CHECK(s, got == want, "pcg32 step %zu: %08x, expected %08x", i, got, want);
            PBT_CHECK(s, u64(g) == r.st, "pcg32 state after step %zu", i); }
        s.label("pcg32"); }
    }
}
PBT_MAIN(prop)
