// C13: a valid lziii stream decodes to the bytes it describes, at the size reported for it.
#include "pbt.h"
#include "ce/ce.h"
#include "ce/lziii.h"
using namespace pbt;
void prop(Src& s)
{
    bool big = s.chance(1, 150); // more than 64 KiB of data
    bool huge = s.chance(1, 400); // more than 64 KiB of stream
    size_t tokens = huge ? 50000 + s.below(30000) : big ? 5000 + s.below(8000) : s.weighted({ 5, 1 }) ? 200 + s.below(1400) : s.skewed(120);
    int style = huge ? 3 : big ? 1 : int(s.below(4));
    std::vector<u8> e, d; std::vector<size_t> bounds{ 0 }; size_t ctl = 0; int bit = 8; size_t spans = 0, overlap = 0, far = 0;
    for (size_t k = 0; k < tokens; ++k)
    {
        if (bit == 8) { ctl = e.size(); e.push_back(0); bit = 0; }
        bool span = !d.empty() && s.chance(style == 0 ? 1 : style == 1 ? 7 : 4, 8);
        if (span)
        {
            size_t maxd = std::min<size_t>(d.size(), 4096), dist;
            switch (s.below(4)) { case 0: dist = 1 + s.below(std::min<size_t>(maxd, 20)); break; case 1: dist = maxd - s.below(std::min<size_t>(maxd, 3)); break; default: dist = 1 + s.below(maxd); }
            size_t len = 3 + s.below(16), off = 4096 - dist;
            e.push_back(u8(off)); e.push_back(u8(off >> 8 | (len - 3) << 4));
            for (size_t i = 0; i < len; ++i) d.push_back(d[d.size() - dist]);
            ++spans; overlap += dist < len; far += dist > 255;
        }
        else { u8 b = style == 2 ? u8(s.below(2)) : u8(s.below(256)); e[ctl] |= u8(1u << bit); e.push_back(b); d.push_back(b); }
        ++bit; bounds.push_back(d.size());
    }
    // unused control bits are free
    if (!e.empty() && bit < 8 && s.flip()) e[ctl] |= u8(0xff << bit);
    std::vector<u8> src(e); src.shrink_to_fit();
    u8* in = static_cast<u8*>(malloc(src.size() ? src.size() : 1)); memcpy(in, src.data(), src.size());
    size_t got = ce::lziii::size(src.size(), in);
    s.note("%zu tokens, %zu spans (%zu overlapping, %zu far), %zu -> %zu bytes", tokens, spans, overlap, far, src.size(), d.size());
    size_t part = s.chance(1, 4) ? bounds[s.below(bounds.size())] : d.size();
    u8* out = static_cast<u8*>(malloc(part ? part : 1)); memset(out, 0x5a, part ? part : 1);
    ce::lziii::decode(part, out, in);
    bool same = part == 0 || memcmp(out, d.data(), part) == 0; size_t bad = 0; while (bad < part && out[bad] == d[bad]) ++bad;
    free(in); free(out);
    PBT_CHECK(s, got == d.size(), "size is %zu, expected %zu", got, d.size());
    PBT_CHECK(s, same, "byte %zu of %zu differs", bad, part);
    s.nontrivial(spans > 0); s.label(far ? "far spans" : spans ? "near spans" : "literals"); if (overlap) s.label("overlapping"); if (d.size() > 65536) s.label("more than 64 KiB"); if (src.size() > 65536) s.label("more than 64 KiB of stream");
}
PBT_MAIN(prop)
