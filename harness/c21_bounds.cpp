// C21: lower_bound, upper_bound and z_lower_bound against linear counting on sorted data with duplicates.
#include "pbt.h"
#include "ce/ce.h"
#include "ce/sort.h"
#include "ce/zorder.h"
using namespace pbt;
struct rec { int key; int id; bool operator<(rec const& o) const { return key < o.key; } };
template<class T, class Mk> static void go(Src& s, Mk mk, char const* name)
{
    size_t n = s.chance(1, 40) ? s.below(20000) : s.skewed(300); int bits = int(1 + s.below(32)); std::vector<T> a(n); u64 r = s.below(0);
    for (auto& x : a) { r = mix(r); x = mk(r >> (64 - bits)); }
    std::sort(a.begin(), a.end()); a.shrink_to_fit();
    for (int k = 0; k < 8; ++k)
    {
        T q = n && s.flip() ? a[s.below(n)] : s.flip() ? mk(s.bits(bits)) : mk(s.integer(32)); if (n && s.chance(1, 6)) q = s.flip() ? a[0] : a[n - 1];
        size_t lo = 0, hi = 0; for (auto& x : a) { lo += x < q; hi += !(q < x); }
        size_t gl = size_t(ce::lower_bound(static_cast<T const*>(a.data()), static_cast<T const*>(a.data() + n), q) - a.data()), gu = size_t(ce::upper_bound(static_cast<T const*>(a.data()), static_cast<T const*>(a.data() + n), q) - a.data());
        PBT_CHECK(s, gl == lo, "%s: lower_bound in %zu items is %zu, expected %zu", name, n, gl, lo);
        PBT_CHECK(s, gu == hi, "%s: upper_bound in %zu items is %zu, expected %zu", name, n, gu, hi);
        if (k == 0) s.note("%s n %zu bits %d: [%zu, %zu) ", name, n, bits, lo, hi); if (hi - lo > 1) s.label("duplicates");
        if (lo == 0) s.label("at front"); if (lo == n) s.label("at end");
    }
    s.count(7); s.nontrivial(n > 1);
}
static void z(Src& s)
{
    size_t n = s.chance(1, 40) ? s.below(20000) : s.skewed(300); std::vector<ce::uint64_t> a(n); int bits = int(1 + s.below(64)); u64 r = s.below(0), base = s.integer(64); for (auto& x : a) { r = mix(r); x = base + (r >> (64 - bits)); if (s.pos < 50 && s.chance(1, 20)) x = s.integer(64); } std::sort(a.begin(), a.end()); a.shrink_to_fit();
    for (int k = 0; k < 8; ++k)
    {
        u64 q = n && s.flip() ? u64(a[s.below(n)]) + s.below(3) - 1 : s.integer(64); size_t lo = 0; for (auto x : a) lo += x < q;
        size_t g = size_t(ce::z_lower_bound(a.data(), a.data() + n, q) - a.data()); PBT_CHECK(s, g == lo, "z_lower_bound of %llx in %zu items is %zu, expected %zu", (unsigned long long)q, n, g, lo);
        if (k == 0) s.note("z n %zu: %zu", n, lo);
    }
    s.count(7); s.nontrivial(n > 1); s.label("z");
}
// ranges of more than 2^32 items: all equal (the shared zero page) but for the last few thousand
template<class T> static void huge(Src& s, bool z)
{
    static size_t const R = size_t(1) << 34, K = 6000; static std::vector<T> tail;
    static T* base = [] {
        void* p = mmap(nullptr, R * sizeof(T), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) return static_cast<T*>(nullptr);
        T* b = static_cast<T*>(p); for (size_t i = 0; i < K; ++i) { tail.push_back(T(1 + i * (sizeof(T) == 1 ? 200 : 90000) / K)); b[R - K + i] = tail.back(); } return b; }();
    if (!base) { s.label("no address space"); return; }
    size_t cut = s.below(K), n = std::min<size_t>(R - cut, (size_t(1 + s.below(8)) << 31) + s.below(5) - 2); if (n < K) n = K; T const* b = base + (R - cut) - n; T const* e = b + n; size_t zeros = n - (K - cut);
    for (int k = 0; k < 4; ++k)
    {
        T q = k == 0 ? T(0) : K > cut && s.flip() ? tail[s.below(K - cut)] : T(s.below(sizeof(T) == 1 ? 256 : 100000));
        size_t lo = q == 0 ? 0 : zeros + size_t(std::lower_bound(tail.begin(), tail.begin() + long(K - cut), q) - tail.begin()), hi = q == 0 ? zeros : zeros + size_t(std::upper_bound(tail.begin(), tail.begin() + long(K - cut), q) - tail.begin());
        if (z) { if constexpr (sizeof(T) == 8) { size_t g = size_t(ce::z_lower_bound(b, e, q) - b); PBT_CHECK(s, g == lo, "z_lower_bound of %llu in %zu items is %zu, expected %zu", (unsigned long long)q, n, g, lo); } continue; }
        size_t gl = size_t(ce::lower_bound(b, e, q) - b), gu = size_t(ce::upper_bound(b, e, q) - b);
        PBT_CHECK(s, gl == lo, "lower_bound of %llu in %zu items is %zu, expected %zu", (unsigned long long)q, n, gl, lo); PBT_CHECK(s, gu == hi, "upper_bound of %llu in %zu items is %zu, expected %zu", (unsigned long long)q, n, gu, hi);
        if (k == 0) s.note("%zu items, %zu not zero", n, K - cut);
    }
    s.count(3); s.nontrivial(); s.label(n > 0xffffffffu ? "more than 2^32 items" : "huge");
}
void prop(Src& s)
{
    if (s.chance(1, 200)) { switch (s.below(3)) { case 0: return huge<unsigned char>(s, false); case 1: return huge<ce::uint64_t>(s, false); default: return huge<ce::uint64_t>(s, true); } }
    switch (s.below(5)) { case 0: return go<int>(s, [](u64 v) { return int(v) - 7; }, "int"); case 1: return go<rec>(s, [](u64 v) { return rec{ int(v), 0 }; }, "record"); case 2: return go<double>(s, [](u64 v) { return double(v) / 4 - 100; }, "double"); case 3: return go<unsigned char>(s, [](u64 v) { return (unsigned char)v; }, "byte"); default: return z(s); }
}
PBT_MAIN(prop)
