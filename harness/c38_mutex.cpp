// C38: a mutex is held by one thread (or shared by readers) at a time: tries succeed exactly when they may, waiting ends exactly when it can, and holders see each other's writes.
#include "pbt.h"
#include "ce/mutex.h"
#include <condition_variable>
#include <functional>
#include <memory>
#include <mutex>
#include <thread>
using namespace pbt;
#ifdef TSAN_RUN
constexpr bool tsan = true;
#else
constexpr bool tsan = false;
#endif
enum op { none, try_ex, take_ex, give_ex, try_sh, take_sh, give_sh, quit };
// a thread that does what it is told, one step at a time
struct actor
{
    std::mutex m; std::condition_variable cv; op todo = none; int which = 0; bool busy = false, result = false; std::function<bool(op, int)> f; std::thread t;
    explicit actor(std::function<bool(op, int)> g) : f{ g }, t{ [this] { for (;;) { std::unique_lock<std::mutex> l(m); cv.wait(l, [&] { return todo != none; }); op o = todo; todo = none; int w = which; if (o == quit) return; l.unlock(); bool r = f(o, w); l.lock(); result = r; busy = false; cv.notify_all(); } } } { }
    void tell(op o, int w) { std::lock_guard<std::mutex> l(m); todo = o; which = w; busy = true; cv.notify_all(); }
    bool done() { std::lock_guard<std::mutex> l(m); return !busy; }
    bool wait(int ms) { std::unique_lock<std::mutex> l(m); return cv.wait_for(l, std::chrono::milliseconds(ms), [&] { return !busy; }); }
    ~actor() { tell(quit, 0); t.join(); }
};
template<class M> struct box { alignas(64) u8 g0[64]; M m; u8 g1[64]; };
static char const* nm[] = { "", "try", "acquire", "release", "try shared", "acquire shared", "release shared" };
template<class M> static void history(Src& s)
{
    constexpr bool sh = std::is_same_v<M, ce::thread_shared_mutex>; constexpr int Q = 2;
    static box<M> b[Q]; for (auto& x : b) { memset(&x, s.pick({ 0, 0xa5, 0xff }), sizeof x); memset(x.g0, 0x31, 64); memset(x.g1, 0x31, 64); ce::construct_mutex(x.m); }
    int n = 2 + int(s.below(2)); static u64 plain[Q]; plain[0] = plain[1] = 0; u64 steps[Q]{ };
    std::vector<std::unique_ptr<actor>> a; for (int i = 0; i < n; ++i) a.emplace_back(new actor([](op o, int w) { auto& m = b[w].m; switch (o) { case try_ex: if (!ce::try_acquire_mutex(m)) return false; ++plain[w]; return true; case take_ex: ce::acquire_mutex(m); ++plain[w]; return true; case give_ex: ce::release_mutex(m); return true;
        default: if constexpr (sh) { volatile u64 see; switch (o) { case try_sh: if (!ce::try_acquire_mutex_shared(m)) return false; see = plain[w]; return true; case take_sh: ce::acquire_mutex_shared(m); see = plain[w]; return true; case give_sh: ce::release_mutex_shared(m); return true; default: break; } } return false; } }));
    struct state { int owner = -1; std::vector<int> shared; }; state st[Q]; for (auto& x : st) x.shared.assign(n, 0);
    std::vector<int> waits(n, -1); std::vector<op> waitop(n, none); // what an actor is blocked on
    // a failed check leaves threads waiting on a broken lock: end the process from here, the engine has the tape
    auto stop = [&](std::string const& msg) { strncpy(s.sh->msg, msg.c_str(), sizeof s.sh->msg - 1); s.sh->failed = 1; s.sh->alt_len = 0; _exit(10); };
    auto readers = [&](int w) { int k = 0; for (int x : st[w].shared) k += x; return k; };
    auto can = [&](int w, op o) { return o == take_ex || o == try_ex ? st[w].owner < 0 && readers(w) == 0 : st[w].owner < 0; };
    auto grant = [&](int i, int w, op o) { if (o == take_ex || o == try_ex) st[w].owner = i, ++steps[w]; else st[w].shared[i] = 1; };
    size_t len = 3 + s.skewed(tsan ? 20 : 40), blocks = 0, fails = 0, shared_held = 0; s.note("%s, %d threads:", sh ? "shared mutex" : "mutex", n);
    auto settle = [&](int w) // waiting threads that can go on must do so
    {
        for (;;)
        {
            std::vector<int> q; for (int i = 0; i < n; ++i) if (waits[i] == w) q.push_back(i); bool any = false; for (int i : q) any |= can(w, waitop[i]); if (!any) break;
            // some waiting thread has to be let in (which one is up to the lock)
            double t0 = now(); int got = -1; while (got < 0 && now() - t0 < 20) { for (int i : q) if (a[i]->done()) { got = i; break; } if (got < 0) std::this_thread::yield(); }
            if (got < 0) stop(fmt("a waiting thread was not let in after a release (%s)", sh ? "shared mutex" : "mutex"));
            if (!can(w, waitop[got])) stop(fmt("thread %d was let in (%s) while the lock was held", got, nm[waitop[got]])); grant(got, w, waitop[got]); s.note(" %d in", got); waits[got] = -1;
        }
    };
    for (size_t k = 0; k < len; ++k)
    {
        int i = int(s.below(n)), w = int(s.below(Q)); if (waits[i] >= 0) continue; bool ex = st[w].owner == i, rd = st[w].shared[i] != 0; bool waiting = false; for (int j = 0; j < n; ++j) waiting |= waits[j] == w;
        op o; bool may_wait = n > 2 || true;
        if (ex) o = give_ex; else if (rd) o = give_sh; else { o = s.pick({ try_ex, take_ex, try_sh, take_sh }); if (!sh && o > give_ex) o = o == try_sh ? try_ex : take_ex; }
        if (o == take_ex || o == take_sh) // never a deadlock: only wait for a lock while holding none, at least one thread stays free to release
        {
            bool holds = false; for (auto& x : st) holds |= x.owner == i || x.shared[i]; int free_threads = 0; for (int j = 0; j < n; ++j) free_threads += waits[j] < 0; may_wait = !holds && free_threads > 1; if (!can(w, o) && !may_wait) o = o == take_ex ? try_ex : try_sh;
            if (waiting && can(w, o) && o == take_sh) o = try_sh; // readers may or may not pass waiting writers
        }
        s.note(" %d:%s %d", i, nm[o], w); a[i]->tell(o, w);
        if (o == take_ex || o == take_sh)
        {
            if (can(w, o)) { if (!a[i]->wait(20000)) stop(fmt("%s of a free lock did not return", nm[o])); grant(i, w, o); }
            else { ++blocks; waits[i] = w; waitop[i] = o; if (s.chance(1, 4)) a[i]->wait(1); else std::this_thread::yield(); }
        }
        else
        {
            if (!a[i]->wait(20000)) stop(fmt("%s did not return", nm[o])); bool r = a[i]->result;
            if (o == give_ex) st[w].owner = -1; else if (o == give_sh) st[w].shared[i] = 0;
            else { bool c = can(w, o); if (waiting && c) { if (r) grant(i, w, o); } else { if (r != c) stop(fmt("%s gave %d, expected %d (%s %s)", nm[o], r, c, sh ? "shared mutex" : "mutex", st[w].owner >= 0 ? "held" : readers(w) ? "held shared" : "free")); if (r) grant(i, w, o); } fails += !r; }
        }
        for (int j = 0; j < n; ++j) if (waits[j] >= 0 && !can(waits[j], waitop[j]) && a[j]->done()) stop(fmt("thread %d got the lock (%s) while it was held", j, nm[waitop[j]]));
        if (o == give_ex || o == give_sh) settle(w); shared_held = std::max<size_t>(shared_held, readers(0));
        for (auto& x : b) for (int z = 0; z < 64; ++z) if (x.g0[z] != 0x31 || x.g1[z] != 0x31) stop("the mutex wrote outside itself");
    }
    for (int w = 0; w < Q; ++w) for (;;) // release everything
    {
        int i = st[w].owner; op o = give_ex; if (i < 0) { o = give_sh; for (int j = 0; j < n; ++j) if (st[w].shared[j]) i = j; } if (i < 0) break;
        if (waits[i] >= 0) stop("harness: a holder waits"); a[i]->tell(o, w); if (!a[i]->wait(20000)) stop("release did not return"); if (o == give_ex) st[w].owner = -1; else st[w].shared[i] = 0; settle(w);
    }
    a.clear(); for (int w = 0; w < Q; ++w) { if (plain[w] != steps[w]) stop(fmt("%llu writes under the lock, %llu expected", (unsigned long long)plain[w], (unsigned long long)steps[w])); ce::destroy_mutex(b[w].m); }
    s.nontrivial(blocks + fails > 0); if (blocks) s.label("waiting"); if (fails) s.label("refused"); if (shared_held > 1) s.label("several readers"); s.label(sh ? "shared mutex" : "mutex");
}
template<class M> static void stress(Src& s)
{
    constexpr bool sh = std::is_same_v<M, ce::thread_shared_mutex>; static box<M> b; memset(&b, s.pick({ 0, 0xa5, 0xff }), sizeof b); ce::construct_mutex(b.m);
    int n = 2 + int(s.below(3)); unsigned per = 20 + unsigned(s.skewed(tsan ? 100 : 1500)); unsigned rd = sh ? unsigned(s.below(4)) : 0; u64 v[4]{ }; std::atomic<int> inside{ 0 }, bad{ 0 }, go{ 0 }; std::vector<u64> wrote(n); unsigned tr = unsigned(s.below(3)); s.note("stress of %s: %d threads x %u", sh ? "shared mutex" : "mutex", n, per);
    std::vector<std::thread> t; for (int i = 0; i < n; ++i) t.emplace_back([&, i] { u64 r = u64(i) * 77 + per; ++go; while (go < n) std::this_thread::yield(); for (unsigned k = 0; k < per; ++k) { r = mix(r);
        if (sh && r % 4 < rd) { if constexpr (sh) { if (tr && (r >> 8) % 2) { if (!ce::try_acquire_mutex_shared(b.m)) continue; } else ce::acquire_mutex_shared(b.m); if (inside.load(std::memory_order_relaxed) < 0) ++bad; u64 x = v[0]; for (auto y : v) if (y != x) ++bad; if (v[0] != x) ++bad; ce::release_mutex_shared(b.m); } }
        else { if (tr && (r >> 8) % 2) { if (!ce::try_acquire_mutex(b.m)) continue; } else ce::acquire_mutex(b.m); if (inside.exchange(-1, std::memory_order_relaxed) != 0) ++bad; for (auto& y : v) ++y; ++wrote[i]; inside.store(0, std::memory_order_relaxed); ce::release_mutex(b.m); } } });
    for (auto& x : t) x.join(); u64 want = 0; for (auto x : wrote) want += x;
    PBT_CHECK(s, bad == 0, "two threads were inside at once %d times", bad.load()); for (auto y : v) PBT_CHECK(s, y == want, "%llu of %llu writes under the lock", (unsigned long long)y, (unsigned long long)want);
    ce::destroy_mutex(b.m); s.nontrivial(); s.count(n * per); s.label(sh ? "shared stress" : "stress");
}
void prop(Src& s) { switch (s.below(4)) { case 0: return history<ce::thread_mutex>(s); case 1: return history<ce::thread_shared_mutex>(s); case 2: return stress<ce::thread_mutex>(s); default: return stress<ce::thread_shared_mutex>(s); } }
PBT_MAIN(prop)
