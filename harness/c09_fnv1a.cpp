// C09: fnv1a of arrays of every integer type equals byte at a time FNV-1a of their little endian bytes; chaining; text form.
#include "pbt.h"
#include "ce/ce.h"
using namespace pbt;
template<class H> static H ref(size_t n, u8 const* p, H h) { for (size_t i = 0; i < n; ++i) { h ^= p[i]; h *= sizeof(H) == 4 ? H(16777619u) : H(1099511628211ull); } return h; }
template<class U> static void run(Src& s, char const* type)
{
    bool huge = s.chance(1, 20000); // more than 65535 items
    size_t n = huge ? 65000 + s.below(3000) : s.skewed(200); u64 r = huge ? s.integer(64) : 0; if (huge) s.label("more than 65000 items");
    std::vector<U> v(n);
    for (auto& x : v) x = huge ? U(r = mix(r)) : U(s.integer(64));
    std::vector<u8> b(n * sizeof(U)); if (n) memcpy(b.data(), v.data(), b.size());
    bool basis = s.flip(); u64 bs = basis ? s.integer(64) : 0xcbf29ce484222325ull; u32 bs32 = basis ? u32(s.integer(32)) : 0x811c9dc5u;
    s.note("%s[%zu] basis %llx", type, n, (unsigned long long)bs);
    u32 g32 = basis ? ce::hash::fnv1a32(n, v.data(), bs32) : ce::hash::fnv1a32(n, v.data());
    u64 g64 = basis ? ce::hash::fnv1a64(n, v.data(), bs) : ce::hash::fnv1a64(n, v.data());
    PBT_CHECK(s, g32 == ref<u32>(b.size(), b.data(), bs32), "32 bit hash of %s[%zu] is %08x, expected %08x", type, n, g32, ref<u32>(b.size(), b.data(), bs32));
    PBT_CHECK(s, g64 == ref<u64>(b.size(), b.data(), bs), "64 bit hash of %s[%zu] is %llx, expected %llx", type, n, (unsigned long long)g64, (unsigned long long)ref<u64>(b.size(), b.data(), bs));
    if (n) { size_t k = s.below(n + 1); PBT_CHECK(s, ce::hash::fnv1a64(n - k, v.data() + k, ce::hash::fnv1a64(k, v.data(), bs)) == g64, "chained 64 bit hash differs, %s split %zu of %zu", type, k, n);
        PBT_CHECK(s, ce::hash::fnv1a32(n - k, v.data() + k, ce::hash::fnv1a32(k, v.data(), bs32)) == g32, "chained 32 bit hash differs, %s split %zu of %zu", type, k, n); }
    s.nontrivial(n > 0); s.label(type);
}
void prop(Src& s)
{
    switch (s.below(12))
    {
    case 0: return run<unsigned char>(s, "uchar"); case 1: return run<signed char>(s, "schar"); case 2: return run<char>(s, "char");
    case 3: return run<unsigned short>(s, "ushort"); case 4: return run<short>(s, "short"); case 5: return run<unsigned>(s, "uint"); case 6: return run<int>(s, "int");
    case 7: return run<unsigned long>(s, "ulong"); case 8: return run<long>(s, "long"); case 9: return run<unsigned long long>(s, "ullong"); case 10: return run<long long>(s, "llong");
    default: {
        bool huge = s.chance(1, 2000); size_t n = huge ? 65000 + s.below(3000) : s.skewed(300); u64 r = huge ? s.integer(64) : 0; if (huge) s.label("more than 65000 items");
        std::vector<char> t(n + 1); for (size_t i = 0; i < n; ++i) t[i] = char(1 + (huge ? (r = mix(r)) % 255 : s.below(255))); t[n] = 0;
        u32 g = ce::hash::fnv1a(t.data()), w = ref<u32>(n, reinterpret_cast<u8*>(t.data()), 0x811c9dc5u);
        PBT_CHECK(s, g == w, "hash of text of %zu chars is %08x, expected %08x", n, g, w); s.nontrivial(n > 0); s.label("text"); }
    }
}
PBT_MAIN(prop)
