// C17: span skip / trim / iteration against index arithmetic; mapping files that can not be mapped fails cleanly.
#include "pbt.h"
#include "ce/ce.h"
using namespace pbt;
template<class T> static void go(Src& s)
{
    static T mem[512]; size_t n = s.skewed(512); ce::span<T> sp{ n, mem }; size_t lo = 0, hi = n, ops = 1 + s.below(8), cut = 0;
    for (size_t i = 0; i < 512; ++i) mem[i] = T(i);
    s.note("span of %zu:", n);
    for (size_t k = 0; k < ops; ++k)
    {
        size_t c = s.chance(1, 6) ? size_t(s.integer(64)) : s.flip() ? s.below(hi - lo + 2) : s.skewed(20), len = hi - lo;
        bool front = s.flip(); auto before = sp; sp = front ? skip(sp, c) : trim(sp, c);
        s.note(" %s %zu", front ? "skip" : "trim", c); cut += c > 0;
        if (c >= len) { PBT_CHECK(s, sp.size == 0, "%s(%zu) of %zu items left %zu", front ? "skip" : "trim", c, len, sp.size); PBT_CHECK(s, sp.begin() == sp.end() && sp.data >= mem + lo && sp.data <= mem + hi, "empty span outside the original"); break; }
        if (front) lo += c; else hi -= c;
        PBT_CHECK(s, sp.size == hi - lo && sp.data == mem + lo, "%s(%zu) of %zu items: %zu items from %zd, expected %zu from %zu", front ? "skip" : "trim", c, len, sp.size, sp.data - mem, hi - lo, lo);
        PBT_CHECK(s, before.size == len && before.data == (front ? mem + lo - c : mem + lo), "the argument was modified");
        size_t i = lo; for (auto& x : sp) { PBT_CHECK(s, x == T(i), "item %zu", i); ++i; } PBT_CHECK(s, i == hi, "iterated to %zu, expected %zu", i, hi);
        auto const& cs = sp; i = lo; for (auto& x : cs) { PBT_CHECK(s, &x == mem + i, "const item %zu", i); ++i; } PBT_CHECK(s, i == hi, "const iterated to %zu", i);
    }
    s.nontrivial(cut > 0); s.label("skip/trim");
}
// more items than fit in 32 bits: only the addresses are looked at, the memory is never touched
template<class T> static void huge(Src& s)
{
    static T* base = static_cast<T*>(mmap(nullptr, size_t(1) << 43, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    if (base == MAP_FAILED) { s.label("no address space"); return; }
    size_t n = size_t(s.integer(40)), lo = 0, hi = n, ops = 1 + s.below(6); ce::span<T> sp{ n, base }; s.note("span of %zu:", n);
    for (size_t k = 0; k < ops; ++k)
    {
        size_t len = hi - lo, c; switch (s.below(4)) { case 0: c = len ? len - s.below(std::min<size_t>(len, 3)) : s.below(3); break; case 1: c = size_t(s.integer(64)); break; case 2: c = size_t(s.integer(40)); break; default: c = s.below(len + 1); break; }
        bool front = s.flip(); sp = front ? skip(sp, c) : trim(sp, c); s.note(" %s %zu", front ? "skip" : "trim", c);
        if (c >= len) { PBT_CHECK(s, sp.size == 0 && sp.begin() == sp.end() && sp.data >= base + lo && sp.data <= base + hi, "%s(%zu) of %zu items left %zu at %zd", front ? "skip" : "trim", c, len, sp.size, sp.data - base); break; }
        if (front) lo += c; else hi -= c;
        PBT_CHECK(s, sp.size == hi - lo && sp.data == base + lo && size_t(sp.end() - sp.begin()) == hi - lo, "%s(%zu) of %zu items: %zu items from %zd, expected %zu from %zu", front ? "skip" : "trim", c, len, sp.size, sp.data - base, hi - lo, lo);
    }
    s.nontrivial(n > 0); s.label(n > 0xffffffffu ? "more than 2^32 items" : "huge");
}
static void map(Src& s)
{
    static u8 byte; ce::span<ce::uint8_t const> v{ size_t(s.integer(64)), &byte };
    std::string path; switch (s.below(4)) { case 0: path = ""; break; case 1: path = "/nonexistent/" + std::to_string(s.integer(64)); break; case 2: path = "."; break; default: for (u64 n = s.below(40); n > 0; --n) path += char(1 + s.below(255)); path = "/nonexistent/" + path; }
    s.note("map <%s>", path.c_str()); s.nontrivial(); s.label("map");
    bool r = ce::os::map_span(v, path.c_str());
    PBT_CHECK(s, !r && v.size == 0, "mapping <%s> gave %d, size %zu", path.c_str(), r, v.size);
    PBT_CHECK(s, v.begin() == v.end(), "not empty");
    auto t = ce::os::map_span<u32>(path.c_str()); PBT_CHECK(s, t.size == 0 && t.begin() == t.end(), "typed map of <%s> has %zu items", path.c_str(), t.size);
    ce::os::file_t f{ nullptr }; PBT_CHECK(s, !ce::os::open_file(f, path.c_str()), "opened <%s>", path.c_str());
    ce::span<ce::uint8_t const> w{ 3, &byte }; PBT_CHECK(s, !ce::os::map_span(w, f) && w.size == 0, "mapped a file that is not open");
}
void prop(Src& s) { switch (s.below(7)) { case 5: return huge<u8>(s); case 6: return huge<u64>(s); case 0: return go<u8>(s); case 1: return go<int>(s); case 2: return go<u64>(s); case 3: return go<short>(s); default: return map(s); } }
PBT_MAIN(prop)
