// C08: crc32 of bytes, 32 bit words and 64 bit words against a bit at a time reference, for several polynomials; chaining.
#include "pbt.h"
#include "ce/ce.h"
using namespace pbt;

static u32 ref_crc(u32 poly, u32 c, size_t n, u8 const* p)
{
    u32 v = ~c;
    for (size_t i = 0; i < n; ++i) { v ^= p[i]; for (int k = 0; k < 8; ++k) v = (v >> 1) ^ ((v & 1) ? poly : 0); }
    return ~v;
}
template<u32 P> static void poly(Src& s)
{
    using T = ce::crc32_t<P>;
    bool huge = s.chance(1, 20000); // more than 65535 items of every width
    size_t n = huge ? 65600 * 8 + s.below(1000) : s.weighted({ 3, 1 }) ? s.below(600) : s.skewed(120); u64 r = huge ? s.integer(64) : 0; if (huge) s.label("more than 65535 items");
    u32 init = s.flip() ? 0 : u32(s.integer(32));
    int fill = int(s.below(4));
    std::vector<u8> d(n);
    for (auto& b : d) b = huge ? u8(r = mix(r)) : fill == 0 ? u8(s.below(256)) : fill == 1 ? 0 : fill == 2 ? 0xff : u8(s.below(2) * 128 + s.below(2));
    u32 want = ref_crc(P, init, n, d.data());
    s.note("poly %08x init %08x n %zu first %02x want %08x", P, init, n, n ? d[0] : 0, want);
    u32 got = u32(ce::crc32(T(init), n, d.data()));
    PBT_CHECK(s, got == want, "poly %08x init %08x bytes %zu: %08x, expected %08x", P, init, n, got, want);
    if (n / 4)
    {
        std::vector<u32> w(n / 4); memcpy(w.data(), d.data(), n / 4 * 4); // little endian host
        u32 g = u32(ce::crc32(T(init), w.size(), w.data())), x = ref_crc(P, init, w.size() * 4, d.data());
        PBT_CHECK(s, g == x, "poly %08x init %08x words %zu: %08x, expected %08x", P, init, w.size(), g, x);
    }
    if (n / 8)
    {
        std::vector<u64> w(n / 8); memcpy(w.data(), d.data(), n / 8 * 8);
        u32 g = u32(ce::crc32(T(init), w.size(), (ce::uint64_t*)w.data())), x = ref_crc(P, init, w.size() * 8, d.data());
        PBT_CHECK(s, g == x, "poly %08x init %08x qwords %zu: %08x, expected %08x", P, init, w.size(), g, x);
    }
    // chaining: any split, each part in any width
    T c = T(init); size_t i = 0; int parts = 0;
    while (i < n && parts < 64)
    {
        size_t k = s.chance(1, 8) ? 0 : 1 + s.below(n - i); int w = int(s.below(3));
        if (w == 2 && (k >= 8 || k == 0)) { k = k / 8 * 8; std::vector<u64> t(k / 8); memcpy(t.data(), &d[i], k); c = ce::crc32(c, k / 8, (ce::uint64_t*)t.data()); }
        else if (w == 1 && (k >= 4 || k == 0)) { k = k / 4 * 4; std::vector<u32> t(k / 4); memcpy(t.data(), &d[i], k); c = ce::crc32(c, k / 4, t.data()); }
        else { std::vector<u8> t(d.begin() + long(i), d.begin() + long(i + k)); c = ce::crc32(c, k, t.data()); }
        i += k; ++parts;
    }
    if (i < n) { c = ce::crc32(c, n - i, &d[i]); ++parts; }
    PBT_CHECK(s, u32(c) == want, "poly %08x chained in %d parts: %08x, expected %08x", P, parts, u32(c), want);
    s.nontrivial(n > 0); s.label(parts > 1 ? "chained" : "single"); s.label(n >= 8 ? "has 64 bit part" : "short");
}
template<size_t N> static void text(Src& s)
{
    char t[N]; for (size_t i = 0; i + 1 < N; ++i) t[i] = char(s.below(256)); t[N - 1] = char(s.below(256));
    u32 got = ce::crc32c(t), want = ref_crc(0x82f63b78, 0, N - 1, reinterpret_cast<u8*>(t));
    PBT_CHECK(s, got == want, "crc32c of %zu chars: %08x, expected %08x", N - 1, got, want);
    s.nontrivial(N > 1); s.label("crc32c text");
}
void prop(Src& s)
{
    switch (s.below(14))
    {
    case 0: case 1: case 2: case 3: return poly<0x82f63b78>(s);
    case 4: return poly<0xedb88320>(s);
    case 5: return poly<0xeb31d82e>(s);
    case 6: return poly<0xd5828281>(s);
    case 7: return poly<0x80000001>(s);
    case 8: return poly<0x00000001>(s);
    case 9: return poly<0xffffffff>(s);
    case 10: return poly<0x12345678>(s);
    case 11: return text<1>(s);
    case 12: return text<10>(s);
    default: return text<44>(s);
    }
}
PBT_MAIN(prop)
