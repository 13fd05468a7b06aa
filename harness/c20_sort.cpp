// C20: every sort gives a sorted permutation, touches nothing outside its range and needs O(n log n) comparisons, whatever the input.
#include "pbt.h"
#include "ce/ce.h"
#include "ce/sort.h"
using namespace pbt;
static u64 compares;
struct rec { i32 key; i32 id; bool operator<(rec const& o) const { ++compares; return key < o.key; } };
struct byval { u64 pad[3]; i32 key; i32 id; bool operator<(byval const& o) const { ++compares; return key < o.key; } };
// McIlroy's killer adversary: decides the order while the sort is asking
namespace adv { static std::vector<int> val; static int nsolid, gas, candidate; }
struct foe { i32 key; i32 id; bool operator<(foe const& o) const
{
    using namespace adv; ++compares; int x = id, y = o.id;
    if (x == y) return false;
    if (val[size_t(x)] == gas && val[size_t(y)] == gas) { if (x == candidate) val[size_t(x)] = nsolid++; else val[size_t(y)] = nsolid++; }
    if (val[size_t(x)] == gas) candidate = x; else if (val[size_t(y)] == gas) candidate = y;
    return val[size_t(x)] < val[size_t(y)];
} };
static std::vector<int> keys(Src& s, size_t n)
{
    std::vector<int> k(n); int kind = int(s.below(11)); u64 r = s.below(0);
    auto rnd = [&](u64 m) { r = pbt::mix(r); return r % m; };
    for (size_t i = 0; i < n; ++i) switch (kind)
    {
    case 0: k[i] = int(u32(rnd(~0u))); break;
    case 1: k[i] = int(i); break;
    case 2: k[i] = int(n - i); break;
    case 3: k[i] = 5; break;
    case 4: k[i] = int(rnd(3)); break;
    case 5: k[i] = int(i < n / 2 ? i : n - i); break;
    case 6: k[i] = int(rnd(20) ? i : rnd(n + 1)); break;
    case 7: k[i] = int(i % 7); break;
    case 8: case 9: k[i] = int(n - i) * 2; break;
    default: k[i] = n < 40 ? int(s.sinteger(32)) : int(rnd(n / 4 + 1)); break;
    }
    if (kind == 8 && n > 2) { size_t m = size_t(s.range(2, 17)); m = std::min(m, n); bool edge = s.flip(); size_t q = edge ? (n - 1) / (m - 1) : n / m; int v[17]; for (size_t j = 0; j < m; ++j) v[j] = k[j * q]; std::sort(v, v + m); for (size_t j = 0; j < m; ++j) k[j * q] = v[j]; } // looks sorted where it is sampled
    if (kind == 9 && n > 2) { size_t f = s.below(n / 2 + 1) >> s.below(8), b = s.below(n / 2 + 1) >> s.below(8); std::sort(k.begin(), k.begin() + long(f)); std::sort(k.end() - long(b), k.end()); if (s.flip() && f) k[0] = -1; } // sorted at both ends
    if (n > 1 && s.chance(1, 4)) for (u64 j = s.below(6); j > 0; --j) std::swap(k[s.below(n)], k[s.below(n)]);
    static char const* const names[] = { "random", "ascending", "descending", "equal", "few values", "organ pipe", "nearly sorted", "saw", "sampled in order", "sorted ends", "mixed" };
    s.note("%s ", names[kind]); s.label(names[kind]); return k;
}
static double budget(size_t n, double small) { double l = n > 1 ? std::log2(double(n)) : 1; return 40 + double(n) * (6 * l + small + 16); }
template<class T> static T mk(int key, int id) { T t{ }; t.key = key; t.id = id; return t; }
enum { INS, HEAP, INTRO };
template<class T, size_t N> static void run(Src& s, int how, char const* name)
{
    size_t cap = how == INS ? 300 : s.chance(1, 30) ? 30000 : 1500, n = s.skewed(cap);
    auto k = keys(s, n); s.note("%s n %zu", name, n);
    T* mem = static_cast<T*>(malloc((n + 4) * sizeof(T))); memset(static_cast<void*>(mem), 0x42, (n + 4) * sizeof(T)); T* a = mem + 2;
    for (size_t i = 0; i < n; ++i) a[i] = mk<T>(k[i], int(i));
    compares = 0;
    if (how == INS) ce::insertion_sort(a, a + n); else if (how == HEAP) ce::heap_sort(a, a + n); else if (N == 128) ce::intro_sort(a, a + n); else ce::intro_sort<N>(a, a + n);
    u64 c = compares; std::string bad;
    std::vector<char> seen(n, 0);
    for (size_t i = 0; i < n && bad.empty(); ++i)
    {
        if (i && a[i].key < a[i - 1].key) bad = fmt("item %zu of %zu is out of order: %d after %d", i, n, a[i].key, a[i - 1].key);
        else if (a[i].id < 0 || size_t(a[i].id) >= n || seen[size_t(a[i].id)] || k[size_t(a[i].id)] != a[i].key) bad = fmt("item %zu of %zu is not from the input or doubled", i, n);
        else { seen[size_t(a[i].id)] = 1; if (how == INS && i && a[i].key == a[i - 1].key && a[i].id < a[i - 1].id) bad = fmt("insertion_sort swapped equal items at %zu", i); }
    }
    for (size_t i = 0; i < 2 * sizeof(T) && bad.empty(); ++i) if (reinterpret_cast<u8*>(mem)[i] != 0x42 || reinterpret_cast<u8*>(a + n)[i] != 0x42) bad = "wrote outside the range";
    free(mem);
    PBT_CHECK(s, bad.empty(), "%s", bad.c_str());
    if (how != INS) PBT_CHECK(s, double(c) <= budget(n, how == HEAP ? 0 : double(N) / 2), "%s needed %llu comparisons for %zu items", name, (unsigned long long)c, n);
    s.nontrivial(n > 2); s.label(name);
}
template<size_t N> static void attack(Src& s)
{
    size_t n = 100 + s.below(s.chance(1, 20) ? 20000 : 2000); adv::val.assign(n, int(n)); adv::gas = int(n); adv::nsolid = 0; adv::candidate = 0;
    std::vector<foe> a(n); for (size_t i = 0; i < n; ++i) a[i] = { 0, int(i) };
    size_t m = s.below(20); for (size_t i = 0; i < m; ++i) std::swap(a[s.below(n)], a[s.below(n)]);
    compares = 0; ce::intro_sort<N>(a.data(), a.data() + n);
    PBT_CHECK(s, double(compares) <= budget(n, double(N) / 2), "adversary: %llu comparisons for %zu items", (unsigned long long)compares, n);
    std::vector<char> seen(n, 0); for (size_t i = 0; i < n; ++i) { PBT_CHECK(s, !seen[size_t(a[i].id)]++, "adversary: item doubled"); if (i) PBT_CHECK(s, !(a[i] < a[i - 1]), "adversary: out of order at %zu", i); }
    // replay the order it built on a plain array
    std::vector<rec> b(n); for (size_t i = 0; i < n; ++i) b[i] = { adv::val[i], int(i) };
    compares = 0; ce::intro_sort<N>(b.data(), b.data() + n);
    PBT_CHECK(s, double(compares) <= budget(n, double(N) / 2), "killer sequence: %llu comparisons for %zu items", (unsigned long long)compares, n);
    for (size_t i = 1; i < n; ++i) PBT_CHECK(s, b[i].key >= b[i - 1].key, "killer sequence: out of order at %zu", i);
    s.note("adversary n %zu N %zu", n, N); s.nontrivial(); s.label("adversary");
}
template<class T> static void scalar(Src& s)
{
    size_t n = s.skewed(400); std::vector<T> a(n); for (auto& x : a) x = T(s.integer(s.flip() ? 4 : 64)); if (T(-1) < T(0)) for (auto& x : a) if (s.flip()) x = T(-x);
    auto b = a; std::sort(b.begin(), b.end());
    std::vector<T> c(a); c.shrink_to_fit();
    switch (s.below(5)) { case 0: ce::intro_sort(c.data(), c.data() + n); break; case 1: ce::intro_sort<1>(c.data(), c.data() + n); break; case 2: ce::intro_sort<9>(c.data(), c.data() + n); break; case 3: ce::heap_sort(c.data(), c.data() + n); break; default: ce::insertion_sort(c.data(), c.data() + n); }
    PBT_CHECK(s, b == c, "scalar sort of %zu items is wrong", n); s.note("scalar %zu bytes n %zu", sizeof(T), n); s.nontrivial(n > 2); s.label("scalars");
}
static void parts(Src& s)
{
    i32 x[3]; for (auto& v : x) v = s.flip() ? int(s.below(3)) : int(s.sinteger(32)); rec a{ x[0], 0 }, b{ x[1], 1 }, c{ x[2], 2 };
    ce::median(a, b, c); i32 y[3]{ x[0], x[1], x[2] }; std::sort(y, y + 3);
    PBT_CHECK(s, b.key == y[1], "median of %d %d %d is %d", x[0], x[1], x[2], b.key);
    PBT_CHECK(s, a.id != b.id && b.id != c.id && a.id != c.id && a.key == x[a.id] && b.key == x[b.id] && c.key == x[c.id], "median lost an item");
    size_t n = 1 + s.skewed(100); std::vector<rec> v(n); for (size_t i = 0; i < n; ++i) v[i] = { s.flip() ? int(s.below(5)) : int(s.sinteger(16)), int(i) }; auto w = v;
    rec* p = ce::partition(v.data(), v.data() + n); PBT_CHECK(s, p >= v.data() && p < v.data() + n, "partition point outside");
    for (auto& e : v) PBT_CHECK(s, &e < p ? !(p->key < e.key) : !(e.key < p->key), "partition: item %zu on the wrong side of %zu", size_t(&e - v.data()), size_t(p - v.data()));
    std::vector<char> seen(n, 0); for (auto& e : v) PBT_CHECK(s, e.id >= 0 && !seen[size_t(e.id)]++ && w[size_t(e.id)].key == e.key, "partition lost an item");
    s.note("median %d %d %d, partition of %zu", x[0], x[1], x[2], n); s.nontrivial(); s.label("median/partition");
}
void prop(Src& s)
{
    switch (s.below(16))
    {
    case 0: return run<rec, 128>(s, INTRO, "intro_sort"); case 1: return run<rec, 2>(s, INTRO, "intro_sort<2>"); case 2: return run<rec, 1>(s, INTRO, "intro_sort<1>"); case 3: return run<byval, 3>(s, INTRO, "intro_sort<3>"); case 4: return run<rec, 16>(s, INTRO, "intro_sort<16>");
    case 5: return run<byval, 128>(s, INTRO, "intro_sort"); case 6: return run<rec, 1>(s, HEAP, "heap_sort"); case 7: return run<rec, 1>(s, INS, "insertion_sort"); case 8: return run<byval, 4>(s, INTRO, "intro_sort<4>");
    case 9: return scalar<int>(s); case 10: return scalar<unsigned char>(s); case 11: return scalar<double>(s); case 12: return scalar<u64>(s);
    case 13: return s.chance(1, 4) ? (s.flip() ? attack<2>(s) : s.flip() ? attack<16>(s) : attack<128>(s)) : run<rec, 8>(s, INTRO, "intro_sort<8>"); default: return parts(s);
    }
}
PBT_MAIN(prop)
