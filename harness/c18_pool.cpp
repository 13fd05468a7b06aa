// C18: queues in a pool against deques; nodes are never shared, allocation fails exactly when all N - 1 nodes are in use.
#include "pbt.h"
#include <deque>
#include <set>
#include "ce/ce.h"
#include "ce/pool.h"
using namespace pbt;
struct item { int a; int b; bool operator==(item const& o) const { return a == o.a && b == o.b; } };
static item val(item*, int i) { return { i, ~i }; } static int val(int*, int i) { return i; } static u64 val(u64*, int i) { return u64(i) << 33 | unsigned(i); }
template<size_t N, class T, class I> static void go(Src& s)
{
    using P = ce::pool<N, T, I>; struct W { u8 g0[16]; P p; u8 g1[16]; }; static W w; memset(&w, 0x77, sizeof w); P& p = w.p; p.reset();
    PBT_CHECK(s, P::capacity() == N, "capacity %zu", P::capacity());
    constexpr int Q = 4; typename P::queue_t q[Q]; std::deque<T> m[Q]; std::set<size_t> raw; size_t used = 0; int id = 1; size_t failed = 0, reused = 0, most = 0;
    size_t ops = 1 + s.skewed(std::min<size_t>(N * 4 + 40, 1500)); unsigned grow = s.pick({ 6u, 3u, 12u });
    auto full = [&](bool ok, char const* op) { PBT_CHECK(s, ok == (used < N - 1), "%s returned %d with %zu of %zu nodes in use", op, ok, used, N - 1); if (!ok) ++failed; return ok; };
    for (size_t k = 0; k < ops; ++k)
    {
        int i = int(s.below(Q)); char const* op = "";
        switch (s.weighted({ grow, grow, 5, 1, 2, 1 }))
        {
        case 0: { op = "insert_head"; T v = val((T*)0, id++); if (full(p.insert_head(q[i], v), op)) { m[i].push_front(v); ++used; } break; }
        case 1: { op = "append_tail"; T v = val((T*)0, id++); if (full(p.append_tail(q[i], v), op)) { m[i].push_back(v); ++used; } break; }
        case 2: { op = "remove_head"; bool r = p.remove_head(q[i]); PBT_CHECK(s, r == !m[i].empty(), "remove_head returned %d on %zu items", r, m[i].size()); if (r) { m[i].pop_front(); --used; ++reused; } break; }
        case 3: { op = "alloc"; auto n = p.alloc_index(); if (full(n != 0, op)) { PBT_CHECK(s, n < N && raw.insert(n).second, "alloc_index returned %zu, in use or out of range", size_t(n)); p.data[n] = val((T*)0, -int(n) - 7); ++used; } break; }
        case 4: if (!raw.empty()) { op = "free"; auto it = raw.begin(); std::advance(it, s.below(raw.size())); p.free_index(I(*it)); raw.erase(it); --used; ++reused; } else { op = "free nil"; p.free_index(0); } break;
        default: if (used == 0 || s.chance(1, 20)) { op = "reset"; p.reset(); for (auto& x : q) x.reset(); for (auto& x : m) x.clear(); raw.clear(); used = 0; } break;
        }
        most = std::max(most, used); s.note("%s%d ", op, i);
        for (int j = 0; j < Q; ++j)
        {
            PBT_CHECK(s, p.is_empty(q[j]) == m[j].empty(), "after %s: queue %d is_empty %d, expected %zu items", op, j, p.is_empty(q[j]), m[j].size());
            if (!m[j].empty()) { PBT_CHECK(s, p.head(q[j]) == m[j].front(), "after %s: wrong head of queue %d (%zu items)", op, j, m[j].size()); PBT_CHECK(s, p.tail(q[j]) == m[j].back(), "after %s: wrong tail of queue %d (%zu items)", op, j, m[j].size()); }
        }
        for (auto n : raw) PBT_CHECK(s, p.data[n] == val((T*)0, -int(n) - 7), "after %s: allocated node %zu was overwritten", op, n);
    }
    for (int j = 0; j < Q; ++j) { while (!m[j].empty()) { PBT_CHECK(s, !p.is_empty(q[j]) && p.head(q[j]) == m[j].front(), "drain: wrong head of queue %d, %zu left", j, m[j].size()); PBT_CHECK(s, p.remove_head(q[j]), "drain"); m[j].pop_front(); --used; } PBT_CHECK(s, p.is_empty(q[j]) && !p.remove_head(q[j]), "drain: queue %d is not empty", j); }
    // everything released: the whole capacity is available again
    size_t got = 0; typename P::queue_t z; while (got < N + 2 && p.append_tail(z, val((T*)0, int(got)))) ++got;
    PBT_CHECK(s, got == N - 1 - raw.size(), "%zu nodes available, expected %zu", got, N - 1 - raw.size());
    for (int i = 0; i < 16; ++i) PBT_CHECK(s, w.g0[i] == 0x77 && w.g1[i] == 0x77, "wrote outside the pool");
    s.nontrivial(reused > 0 && most > 2); if (failed) s.label("exhausted"); if (reused) s.label("recycled"); char l[32]; snprintf(l, sizeof l, "N %zu index %zu", N, sizeof(I)); s.label(l);
}
void prop(Src& s)
{
    switch (s.chance(1, 500) ? 9 + s.below(3) : s.below(9)) { case 9: return go<300, u64, u16>(s); case 10: return go<65536, int, u16>(s); case 11: return go<70000, item, u32>(s); case 0: return go<2, int, u16>(s); case 1: return go<3, item, unsigned char>(s); case 2: return go<4, int, u16>(s); case 3: return go<8, item, u16>(s); case 4: return go<17, u64, u32>(s); case 5: return go<64, item, unsigned char>(s); case 6: return go<256, int, unsigned char>(s); case 7: return go<6, u64, u16>(s); default: return go<1, int, u16>(s); }
}
PBT_MAIN(prop)
