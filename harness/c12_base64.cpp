// C12: base64 text decodes to the bytes it encodes, at the size reported for it.
#include "pbt.h"
#include "ce/ce.h"
using namespace pbt;
static std::string enc(std::vector<u8> const& d, bool pad, u32 junk)
{
    static char const* al = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    std::string r; size_t i = 0;
    for (; i + 3 <= d.size(); i += 3) { u32 v = u32(d[i]) << 16 | u32(d[i + 1]) << 8 | d[i + 2]; for (int k = 18; k >= 0; k -= 6) r += al[v >> k & 63]; }
    if (d.size() - i == 1) { u32 v = u32(d[i]) << 4 | (junk & 15); r += al[v >> 6 & 63]; r += al[v & 63]; if (pad) r += "=="; }
    if (d.size() - i == 2) { u32 v = (u32(d[i]) << 8 | d[i + 1]) << 2 | (junk & 3); for (int k = 12; k >= 0; k -= 6) r += al[v >> k & 63]; if (pad) r += "="; }
    return r;
}
void prop(Src& s)
{
    if (s.chance(1, 8)) { size_t n = s.integer(64); size_t want = size_t(u128(n) * 3 / 4); PBT_CHECK(s, ce::base64::size(n) == want, "size(%zu) is %zu, expected %zu", n, ce::base64::size(n), want); s.nontrivial(); s.label("size of length"); return; }
    bool huge = s.chance(1, 4000); // more than 64 KiB
    size_t n = huge ? 65000 + s.below(3000) : s.skewed(400); auto d = s.bytes(huge ? 0 : n); if (huge) { d.resize(n); u64 r = s.integer(64); for (auto& b : d) b = u8(r = mix(r)); s.label("more than 65000 bytes"); }
    bool pad = s.flip(); u32 junk = s.chance(1, 3) ? u32(s.below(16)) : 0;
    auto t = enc(d, pad, junk); size_t digits = t.find('='); if (digits == std::string::npos) digits = t.size();
    static char const ends[] = { 0, '=', ' ', '\n', '-', '_', '@', '[', '`', '{', ':', '.', char(0x80), char(0xff), '"', ',' };
    std::vector<char> src(t.begin(), t.begin() + long(digits)); src.push_back(pad && digits < t.size() ? '=' : ends[s.below(16)]); // exact size: reading further is seen
    s.note("%zu bytes <%.60s> end %02x", n, t.c_str(), u8(src.back()));
    size_t got = ce::base64::size(src.data());
    PBT_CHECK(s, got == n, "size of <%s> is %zu, expected %zu", t.c_str(), got, n);
    size_t part = s.chance(1, 4) ? s.below(n + 1) : n;
    std::vector<u8> out(part + 16, 0xa5);
    if (part == n) src.pop_back(); // the text alone is enough to decode all of it
    src.shrink_to_fit(); std::vector<char> exact(src);
    u8* o = static_cast<u8*>(malloc(part + 1)); memset(o, 0xa5, part + 1);
    ce::base64::decode(part, o, exact.empty() ? "" : exact.data());
    bool same = part == 0 || memcmp(o, d.data(), part) == 0; bool guard = o[part] == 0xa5; size_t bad = 0; while (bad < part && o[bad] == d[bad]) ++bad; u8 bv = o[bad < part ? bad : part];
    free(o);
    PBT_CHECK(s, same, "<%s> byte %zu decoded as %02x, expected %02x", t.c_str(), bad, bv, d[bad]);
    PBT_CHECK(s, guard, "wrote past %zu bytes", part);
    s.nontrivial(n > 0); s.label(n % 3 == 0 ? "whole groups" : n % 3 == 1 ? "one byte tail" : "two byte tail");
}
PBT_MAIN(prop)
