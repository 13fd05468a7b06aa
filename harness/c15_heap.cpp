// C15: the priority queue returns items smallest first, loses and duplicates none, and rejects exactly when full; the array heap steps keep the heap order.
#include "pbt.h"
#include <set>
#include "ce/ce.h"
using namespace pbt;
struct rec { int key; int id; bool operator<(rec const& o) const { return key < o.key; } bool operator==(rec const& o) const { return key == o.key && id == o.id; } };
template<class T> struct make;
template<> struct make<rec> { static rec of(int k, int id) { return { k, id }; } static bool idless(rec a, rec b) { return a.key != b.key ? a.key < b.key : a.id < b.id; } };
template<> struct make<int> { static int of(int k, int) { return k; } static bool idless(int a, int b) { return a < b; } };
template<> struct make<ce::uint64_t> { static ce::uint64_t of(int k, int) { return ce::uint64_t(i64(k) + (1ll << 40)) << 20; } static bool idless(ce::uint64_t a, ce::uint64_t b) { return a < b; } };
template<> struct make<double> { static double of(int k, int) { return k * 0.5; } static bool idless(double a, double b) { return a < b; } };
template<size_t N, class T> static void queue(Src& s)
{
    struct cmp { bool operator()(T a, T b) const { return make<T>::idless(a, b); } };
    struct { u8 g0[16]; ce::min_priority_queue<N, T> q; u8 g1[16]; } w; memset(&w, 0x6b, sizeof w); w.q.size = 0; auto& q = w.q;
    std::multiset<T, cmp> m; int id = 0, span = s.pick({ 2, 5, 1000, 2000000 }); size_t ops = 1 + s.skewed(5 * N + 40), deq = 0, full = 0; unsigned up = s.pick({ 50u, 60u, 40u, 95u });
    for (size_t k = 0; k < ops; ++k)
    {
        PBT_CHECK(s, q.empty() == m.empty() && q.size == m.size(), "size %zu, expected %zu", size_t(q.size), m.size());
        if (s.below(100) < up || m.empty())
        {
            T x = make<T>::of(int(s.range(-span, span)), id++);
            bool r = q.enqueue(x); PBT_CHECK(s, r == (m.size() < N), "enqueue returned %d with %zu of %zu", r, m.size(), N);
            if (r) m.insert(x); else ++full;
        }
        else
        {
            T h = q.head(), x = q.dequeue(); ++deq;
            PBT_CHECK(s, !(h < x) && !(x < h), "head and dequeue differ");
            PBT_CHECK(s, !(*m.begin() < x), "dequeue did not return the smallest of %zu", m.size());
            auto it = m.find(x); PBT_CHECK(s, it != m.end() && *it == x, "dequeue returned an item that is not in the queue (or not any more), %zu left", m.size());
            m.erase(it);
        }
    }
    size_t left = m.size();
    while (!m.empty()) { T x = q.dequeue(); ++deq; PBT_CHECK(s, !(*m.begin() < x), "drain: not the smallest of %zu", m.size()); auto it = m.find(x); PBT_CHECK(s, it != m.end(), "drain: item lost or doubled"); m.erase(it); }
    PBT_CHECK(s, q.empty() && q.size == 0, "not empty after draining");
    for (int i = 0; i < 16; ++i) PBT_CHECK(s, w.g0[i] == 0x6b && w.g1[i] == 0x6b, "wrote outside the queue");
    s.note("queue N %zu, %zu ops, %zu dequeued, %zu left, %zu rejected, keys +-%d", N, ops, deq, left, full, span);
    s.nontrivial(deq > 1); if (full) s.label("hit capacity"); s.label("queue");
}
static void steps(Src& s)
{
    size_t n = 1 + s.skewed(200); int span = s.pick({ 2, 10, 100000 });
    std::vector<rec> d(n); size_t size = 0; int id = 0; auto ok = [&](char const* op) { for (size_t i = 1; i < size; ++i) PBT_CHECK(s, !(d[i] < d[(i - 1) / 2]), "after %s: item %zu of %zu is less than its parent", op, i, size); };
    std::multiset<int> m; size_t repl = 0;
    auto content = [&](char const* op) { std::multiset<int> got; for (size_t i = 0; i < size; ++i) got.insert(d[i].id); PBT_CHECK(s, got == m, "after %s: items lost or doubled", op); };
    for (size_t k = 0, ops = 1 + s.skewed(120); k < ops; ++k)
    {
        rec x{ int(s.range(-span, span)), id++ };
        if (size < n && s.weighted({ 1, 2 })) { ce::heap_raise(d.data(), x, size++); m.insert(x.id); ok("raise"); content("raise"); }
        else if (size) { size_t i = s.flip() ? 0 : s.below(size); rec old = d[i]; if (i && x < d[(i - 1) / 2]) { ce::heap_raise(d.data(), x, i); } else { ce::heap_lower(size, d.data(), x, i); } m.erase(old.id); m.insert(x.id); ++repl; ok("replace"); content("replace"); }
    }
    s.note("heap steps: %zu items of %zu, %zu replacements", size, n, repl); s.nontrivial(size > 1); s.label("heap steps");
}
void prop(Src& s)
{
    switch (s.chance(1, 3000) ? 10 : s.below(10))
    {
    case 0: return queue<1, rec>(s); case 1: return queue<2, int>(s); case 2: return queue<3, rec>(s); case 3: return queue<7, ce::uint64_t>(s); case 4: return queue<16, rec>(s);
    case 10: return queue<70000, int>(s); case 5: return queue<100, rec>(s); case 6: return queue<300, int>(s); case 7: return queue<10, double>(s); default: return steps(s);
    }
}
PBT_MAIN(prop)
