// C37: concurrent atomic operations lose nothing, and order the memory around them (sequential consistency as far as it can be seen).
#include "pbt.h"
#include "ce/atomic.h"
#include <thread>
using namespace pbt;
static void pause_for(unsigned n) { for (unsigned i = 0; i < n; ++i) __asm__ volatile("" ::: "memory"); }
struct start { std::atomic<int> waiting{ 0 }; int n; explicit start(int n) : n{ n } { } void go() { waiting.fetch_add(1); for (unsigned k = 0; waiting.load() < n; ++k) if (k > 200) std::this_thread::yield(); } };
template<class F> static void spread(int n, F f) { start b(n); std::vector<std::thread> t; for (int i = 1; i < n; ++i) t.emplace_back([&, i] { b.go(); f(i); }); b.go(); f(0); for (auto& x : t) x.join(); }
#ifdef TSAN_RUN
constexpr bool tsan = true;
#else
constexpr bool tsan = false;
#endif
template<class T> static void counting(Src& s, char const* name) // fetch_add / fetch_sub / cas loop: every step counted once, each old value seen once
{
    int n = 2 + int(s.below(3)); unsigned per = 20 + unsigned(s.skewed(tsan ? 200 : 3000)); int how = int(s.below(3)); unsigned slow = unsigned(s.below(20)); if (sizeof(T) == 1) per = per % 60; T first = sizeof(T) == 1 ? T(0) : T(s.below(1000));
    if (how == 1) first = T(first + T(n * per)); ce::atomic<T> a{ first }; std::vector<std::vector<T>> old(n, std::vector<T>(per)); s.note("%s: %d threads x %u, form %d", name, n, per, how);
    spread(n, [&](int id) { for (unsigned i = 0; i < per; ++i) { pause_for(slow * (id & 1));
        if (how == 0) old[id][i] = ce::atomic_fetch_add(a, T(1)); else if (how == 1) old[id][i] = ce::atomic_fetch_sub(a, T(1));
        else { T e = ce::atomic_load(a); while (!ce::atomic_compare_exchange(a, e, T(e + T(1)))) { } old[id][i] = e; } } });
    T last = ce::atomic_load(a), want = how == 1 ? T(first - T(n * per)) : T(first + T(n * per)); PBT_CHECK(s, last == want, "%s: %d threads of %u steps (form %d) from %g ended at %g, expected %g", name, n, per, how, double(first), double(last), double(want));
    std::vector<T> all; for (auto& o : old) { for (size_t i = 1; i < o.size(); ++i) PBT_CHECK(s, how == 1 ? o[i] < o[i - 1] : o[i] > o[i - 1], "%s: a thread saw the count go back", name); all.insert(all.end(), o.begin(), o.end()); }
    std::sort(all.begin(), all.end()); T low = how == 1 ? want + T(1) : first; for (size_t i = 0; i < all.size(); ++i) PBT_CHECK(s, all[i] == T(low + T(i)), "%s: the value before a step was seen twice or never (form %d)", name, how);
    s.count(n * per); s.label(name);
}
static void pointers(Src& s)
{
    static int base[60000]; int n = 2 + int(s.below(3)); unsigned per = 20 + unsigned(s.skewed(tsan ? 200 : 3000)); ce::atomic<int*> a{ base + 30000 }; bool add = s.flip(); s.note("pointer: %d threads x %u", n, per);
    spread(n, [&](int) { for (unsigned i = 0; i < per; ++i) add ? ce::atomic_fetch_add(a, 2) : ce::atomic_fetch_sub(a, 2); }); int* want = base + 30000 + (add ? 2 : -2) * i64(n) * per;
    PBT_CHECK(s, ce::atomic_load(a) == want, "pointer: %d threads of %u steps: off by %lld", n, per, (long long)(ce::atomic_load(a) - want)); s.count(n * per); s.label("pointer");
}
static void tokens(Src& s) // exchange: every value put in is taken out once
{
    int n = 2 + int(s.below(3)); unsigned per = 20 + unsigned(s.skewed(tsan ? 200 : 3000)); ce::atomic<u32> a{ 0 }; std::vector<std::vector<u32>> got(n, std::vector<u32>(per)); s.note("exchange: %d threads x %u", n, per);
    spread(n, [&](int id) { for (unsigned i = 0; i < per; ++i) got[id][i] = ce::atomic_exchange(a, u32(1 + id * per + i)); });
    std::vector<u32> all{ ce::atomic_load(a) }; for (auto& g : got) all.insert(all.end(), g.begin(), g.end()); std::sort(all.begin(), all.end());
    for (size_t i = 0; i < all.size(); ++i) PBT_CHECK(s, all[i] == i, "exchange: value %zu was taken twice or lost", i); s.count(n * per); s.label("exchange");
}
template<class T> static void bits(Src& s, char const* name) // xor / and / or on disjoint bits
{
    int n = 2 + int(s.below(3)); unsigned per = 20 + unsigned(s.skewed(tsan ? 100 : 2000)); T first = T(s.integer(int(sizeof(T) * 8))); ce::atomic<T> a{ first }; constexpr int W = int(sizeof(T)) * 8; std::vector<u64> seed(n); for (auto& x : seed) x = s.integer(64); s.note("bits of %s: %d threads x %u", name, n, per);
    std::vector<T> mine(n); std::vector<int> bad(n);
    spread(n, [&](int id) { T mask = 0; for (int b = id; b < W; b += n) mask |= T(T(1) << b); T cur = first & mask; u64 r = seed[id]; for (unsigned i = 0; i < per; ++i) { r = mix(r); T v = T(r) & mask, o; int op = int(r >> 61) % 3;
        if (op == 0) { o = ce::atomic_fetch_xor(a, v); if ((o & mask) != cur) ++bad[id]; cur ^= v; } else if (op == 1) { o = ce::atomic_fetch_or(a, v); if ((o & mask) != cur) ++bad[id]; cur |= v; } else { o = ce::atomic_fetch_and(a, T(v | T(~mask))); if ((o & mask) != cur) ++bad[id]; cur &= v; } } mine[id] = cur; });
    T want = 0; for (int i = 0; i < n; ++i) { want |= mine[i]; PBT_CHECK(s, bad[i] == 0, "bits of %s: an update by thread %d of its own bits was lost", name, i); } PBT_CHECK(s, ce::atomic_load(a) == want, "bits of %s: lost updates", name); s.count(n * per); s.label("bits");
}
template<class T> static void publish(Src& s, char const* name) // plain data written before an update is seen by whoever reads the updated value
{
    constexpr bool isint = std::is_integral_v<T>;
    unsigned per = 10 + unsigned(s.skewed(tsan ? 100 : 2000)); int wf = int(s.below(isint ? 8 : 5)), rf = int(s.below(isint ? 8 : 5)); struct alignas(64) slot { u64 data[3]; }; static slot d; alignas(64) static ce::atomic<T> flag; alignas(64) static ce::atomic<u32> ack; ce::atomic_store(ack, 0u);
    T const zero = wf == 4 ? T(per) : wf == 6 ? T(~0ll) : T(0); ce::atomic_store(flag, zero); u64 bad = 0; u64 z = s.integer(64); s.note("publish %s write %d read %d x %u", name, wf, rf, per);
    if (wf == 5 || wf == 6) per = std::min(per, unsigned(sizeof(T) * 8 - 2)); // one bit each
    auto value = [&](u32 i) { return wf == 4 ? T(zero - T(i)) : wf == 5 ? T((1ull << i) - 1) : wf == 6 ? T(~((1ll << i) - 1)) : T(i); };
    spread(2, [&](int id) { for (u32 i = 1; i <= per; ++i) { T now = value(i), prev = i == 1 ? zero : value(i - 1); if (id == 0)
        {
            d.data[0] = i ^ z; d.data[1] = ~u64(i); d.data[2] = i;
            switch (wf) { case 0: ce::atomic_store(flag, now); break; case 1: ce::atomic_exchange(flag, now); break; case 2: { T e = prev; ce::atomic_compare_exchange(flag, e, now); break; } case 3: ce::atomic_fetch_add(flag, T(1)); break; case 4: ce::atomic_fetch_sub(flag, T(1)); break;
            default: if constexpr (isint) { T bit = T(1ull << (i - 1)); if (wf == 5) ce::atomic_fetch_or(flag, bit); else if (wf == 6) ce::atomic_fetch_and(flag, T(~bit)); else ce::atomic_fetch_xor(flag, T(prev ^ now)); } }
            while (ce::atomic_load(ack) != i) std::this_thread::yield();
        }
        else
        {
            for (;;) { T v{ }; switch (rf) { case 0: v = ce::atomic_load(flag); break; case 1: { v = now; if (!ce::atomic_compare_exchange(flag, v, now)) v = prev; break; } case 2: { v = prev; ce::atomic_compare_exchange(flag, v, prev); break; } case 3: v = ce::atomic_fetch_add(flag, T(0)); break; case 4: v = ce::atomic_fetch_sub(flag, T(0)); break;
                default: if constexpr (isint) v = rf == 5 ? ce::atomic_fetch_or(flag, T(0)) : rf == 6 ? ce::atomic_fetch_and(flag, T(~T(0))) : ce::atomic_fetch_xor(flag, T(0)); }
                if (v == now) break; std::this_thread::yield(); }
            if (d.data[0] != (i ^ z) || d.data[1] != ~u64(i) || d.data[2] != i) ++bad;
            ce::atomic_store(ack, i);
        } } });
    PBT_CHECK(s, bad == 0, "published data was not seen %llu of %u times (%s, written by %d, read by %d)", (unsigned long long)bad, per, name, wf, rf); s.count(per); s.label("publish");
}
static void dekker(Src& s) // two threads each write one flag and read the other: one of them sees the other's write
{
    unsigned per = 100 + unsigned(s.skewed(tsan ? 200 : 8000)); struct alignas(64) cell { ce::atomic<int> v; }; static cell x, y; std::vector<int> r0(per), r1(per); std::atomic<int> arrive{ 0 }; int form = int(s.below(2)); s.note("store buffering x %u", per);
    ce::atomic_store(x.v, 0); ce::atomic_store(y.v, 0);
    // values grow with the rounds, so that no reset is needed: thread A writes i to x and reads y
    spread(2, [&](int id) { auto& mine = id ? y.v : x.v; auto& other = id ? x.v : y.v; auto& r = id ? r1 : r0;
        for (unsigned i = 1; i <= per; ++i) { arrive.fetch_add(1); for (unsigned k = 0; arrive.load() < int(2 * i); ++k) if (k > 400) std::this_thread::yield();
            if (form == 1) ce::atomic_exchange(mine, int(i)); else ce::atomic_store(mine, int(i)); r[i - 1] = ce::atomic_load(other); } });
    for (unsigned i = 0; i < per; ++i) PBT_CHECK(s, r0[i] == int(i + 1) || r1[i] == int(i + 1), "round %u: both threads missed the other's store", i); s.count(per); s.label("store buffering");
}
static void lock(Src& s) // a lock made of an atomic protects plain data
{
    int n = 2 + int(s.below(3)); unsigned per = 10 + unsigned(s.skewed(tsan ? 100 : 2000)); ce::atomic<int> l{ 0 }; u64 plain[2]{ }; int form = int(s.below(2)); s.note("lock: %d threads x %u", n, per);
    spread(n, [&](int) { for (unsigned i = 0; i < per; ++i) { for (;;) { if (form) { if (ce::atomic_exchange(l, 1) == 0) break; } else { int e = 0; if (ce::atomic_compare_exchange(l, e, 1)) break; } std::this_thread::yield(); } ++plain[0]; plain[1] += 2; ce::atomic_store(l, 0); } });
    PBT_CHECK(s, plain[0] == u64(n) * per && plain[1] == 2 * u64(n) * per, "lock: %llu of %llu steps", (unsigned long long)plain[0], (unsigned long long)(u64(n) * per)); s.count(n * per); s.label("lock");
}
static void readers(Src& s) // a value of 64 bits (or a struct) is never seen half written
{
    struct two { u32 a, b; bool operator==(two const& o) const { return a == o.a && b == o.b; } }; unsigned per = 100 + unsigned(s.skewed(tsan ? 200 : 5000)); ce::atomic<two> t{ two{ 0, 0 } }; ce::atomic<double> f{ 0.0 }; ce::atomic<int> done{ 0 }; u64 bad = 0; s.note("no tearing x %u", per);
    spread(2, [&](int id) { if (id == 0) { for (u32 i = 1; i <= per; ++i) { ce::atomic_store(t, two{ i, ~i }); ce::atomic_store(f, double(i) * 4294967297.0); } ce::atomic_store(done, 1); } else { u32 last = 0; double lf = 0; for (unsigned k = 0; !ce::atomic_load(done) || k < 10; ++k) { two v = ce::atomic_load(t); if (v.a && v.b != ~v.a || v.a < last) ++bad; last = v.a; double g = ce::atomic_load(f); if (g < lf || g != double(u64(g / 4294967297.0)) * 4294967297.0) ++bad; lf = g; } } });
    PBT_CHECK(s, bad == 0, "half written or older values were read %llu times", (unsigned long long)bad); s.count(per); s.label("no tearing");
}
void prop(Src& s)
{
    s.nontrivial();
    switch (s.below(20))
    {
    case 0: return counting<int>(s, "int"); case 1: return counting<u32>(s, "unsigned"); case 2: return counting<u64>(s, "unsigned long"); case 3: return counting<short>(s, "short"); case 4: return counting<u8>(s, "unsigned char"); case 5: return counting<float>(s, "float"); case 6: return counting<double>(s, "double"); case 7: return counting<i64>(s, "long");
    case 8: return pointers(s); case 9: return tokens(s); case 10: return bits<u32>(s, "unsigned"); case 11: return bits<u64>(s, "unsigned long"); case 12: return bits<u8>(s, "unsigned char"); case 13: return dekker(s); case 14: return lock(s); case 15: return readers(s); case 16: return publish<float>(s, "float"); case 17: return publish<u64>(s, "unsigned long"); default: return publish<int>(s, "int");
    }
}
PBT_MAIN(prop)
