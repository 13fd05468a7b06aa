// C40: timestamps are the monotonic clock's nanoseconds (0 if it cannot be read), and sleeping waits exactly the time asked for.
#include "pbt.h"
#include "ce/ce.h"
#include <sys/syscall.h>
#include <dlfcn.h>
using namespace pbt;
// the clock and the sleep of this process; without `fake` they pass on to the system
static bool fake; static int fail_reads; static long base_s, base_n, wall_s; static u64 reads, wrong_clock; static u128 slept; static u64 sleeps, bad_sleep;
static std::vector<timespec> asked;
static bool monotonic(clockid_t c) { return c == CLOCK_MONOTONIC || c == CLOCK_MONOTONIC_RAW || c == CLOCK_BOOTTIME; }
extern "C" int clock_gettime(clockid_t c, timespec* t)
{
    if (!fake) return int(syscall(SYS_clock_gettime, c, t));
    ++reads; if (fail_reads) { --fail_reads; errno = EINVAL; return -1; }
    if (!monotonic(c)) { ++wrong_clock; t->tv_sec = wall_s; t->tv_nsec = 123456789; if (wall_s > 5) wall_s -= 5; return 0; } // the wall clock can be set back
    t->tv_sec = base_s; t->tv_nsec = base_n; return 0;
}
static std::vector<u32> signals; // share of the remaining time, in 1/2^32, after which a signal ends each of the next sleeps
static int sleep_for(timespec const* t, timespec* rest) // the error number
{
    ++sleeps; if (t->tv_sec < 0 || t->tv_nsec < 0 || t->tv_nsec > 999999999) { ++bad_sleep; return EINVAL; }
    u128 ns = u128(u64(t->tv_sec)) * 1000000000u + u64(t->tv_nsec), left = 0;
    if (!signals.empty() && ns) { u128 part = ns * signals.back() >> 32; signals.pop_back(); left = ns - part; ns = part; }
    slept += ns; u128 now = u128(u64(base_s)) * 1000000000u + u64(base_n) + ns; base_s = long(now / 1000000000u); base_n = long(now % 1000000000u);
    if (left) { if (rest) *rest = { time_t(left / 1000000000u), long(left % 1000000000u) }; return EINTR; }
    return 0;
}
extern "C" int nanosleep(timespec const* t, timespec* rest) { if (!fake) return int(syscall(SYS_nanosleep, t, rest)); int e = sleep_for(t, rest); if (e) { errno = e; return -1; } return 0; }
extern "C" int clock_nanosleep(clockid_t c, int flags, timespec const* t, timespec* rest)
{
    if (!fake) return syscall(SYS_clock_nanosleep, c, flags, t, rest) ? errno : 0;
    if (!(flags & TIMER_ABSTIME)) return sleep_for(t, rest);
    if (!monotonic(c)) ++wrong_clock;
    if (t->tv_sec < base_s || (t->tv_sec == base_s && t->tv_nsec <= base_n)) return t->tv_nsec < 0 || t->tv_nsec > 999999999 ? (++bad_sleep, EINVAL) : 0;
    timespec d{ t->tv_sec - base_s - (t->tv_nsec < base_n), t->tv_nsec - base_n + (t->tv_nsec < base_n ? 1000000000 : 0) }; return sleep_for(&d, nullptr);
}
void prop(Src& s)
{
    fail_reads = 0; wall_s = 1700000000; wrong_clock = reads = sleeps = bad_sleep = 0; slept = 0;
    switch (s.below(8))
    {
    case 0: case 1: case 2: // timestamps of any time
    {
        size_t n = 1 + s.skewed(8); s.note("times:"); u64 prev = 0; bool have = false; base_s = long(s.integer(34)) % 18000000000l; base_n = 0;
        for (size_t k = 0; k < n; ++k)
        {
            base_s += long(s.skewed(100)) * (k > 0); long nn = s.pick({ 0l, 1l, 999999999l, 500000000l, -1l }); if (nn < 0) nn = long(s.below(1000000000)); base_n = k && base_n > nn ? 999999999 : nn; bool bad = s.chance(1, 6); fail_reads = bad ? 1000 : 0;
            fake = true; u64 t = ce::os::monotonic_timestamp(), hz = ce::os::monotonic_frequency(); fake = false; fail_reads = 0; u64 want = bad ? 0 : u64(base_s) * 1000000000u + u64(base_n); s.note(" %ld.%09ld%s", base_s, base_n, bad ? " (no clock)" : "");
            PBT_CHECK(s, hz == 1000000000u, "frequency %llu", (unsigned long long)hz); PBT_CHECK(s, wrong_clock == 0, "the time is read from a clock that can be set back");
            PBT_CHECK(s, t == want, "at %ld.%09ld the timestamp is %llu, expected %llu", base_s, base_n, (unsigned long long)t, (unsigned long long)want); if (!bad) { PBT_CHECK(s, !have || t >= prev, "time went back"); prev = t; have = true; } else s.label("no clock");
        }
        s.count(n); s.nontrivial(n > 1); s.label("timestamps"); break;
    }
    case 7: if (s.chance(1, 50)) // the real thing
    {
        u64 ns = s.integer(18); u64 a = ce::os::monotonic_timestamp(); timespec t0; syscall(SYS_clock_gettime, CLOCK_MONOTONIC_RAW, &t0); ce::os::sleep_ns(ns); timespec t1; syscall(SYS_clock_gettime, CLOCK_MONOTONIC_RAW, &t1); u64 b = ce::os::monotonic_timestamp(); s.note("really sleep %llu ns: %llu", (unsigned long long)ns, (unsigned long long)(b - a));
        PBT_CHECK(s, a != 0 && b >= a, "timestamps %llu then %llu", (unsigned long long)a, (unsigned long long)b); PBT_CHECK(s, b - a + 1000 + ns / 500 >= ns, "slept %llu ns of %llu", (unsigned long long)(b - a), (unsigned long long)ns);
        u64 x0 = u64(t0.tv_sec) * 1000000000u + u64(t0.tv_nsec), x1 = u64(t1.tv_sec) * 1000000000u + u64(t1.tv_nsec); PBT_CHECK(s, b - a + 1000 + (x1 - x0) / 500 >= x1 - x0, "between two readings %llu ns passed, the timestamps differ by %llu", (unsigned long long)(x1 - x0), (unsigned long long)(b - a)); s.nontrivial(); s.label("real time"); break;
    } // fall through
    default:
    {
        size_t n = 1 + s.skewed(6); s.note("sleeps:");
        for (size_t k = 0; k < n; ++k)
        {
            u64 ns = s.integer(64); switch (s.below(4)) { case 0: ns = s.below(1000000000); break; case 1: ns = s.below(20) * 1000000000u + s.pick({ 0, 1, 999999999, 500000000 }); break; case 2: ns = 1000000000u * s.below(1 + (s.flip() ? 18446744073ull : 10)) + s.below(3) - (k ? 1 : 0); break; default: break; } s.note(" %llu", (unsigned long long)ns);
            signals.clear(); if (s.chance(1, 3)) for (u64 j = 1 + s.skewed(6); j > 0; --j) { signals.push_back(s.chance(1, 4) ? 0 : s.chance(1, 4) ? ~0u : u32(s.below(~0u))); s.label("signals"); s.note(" (signal)"); }
            base_s = 1000; base_n = 5; slept = 0; sleeps = bad_sleep = 0; fake = true; ce::os::sleep_ns(ns); fake = false;
            PBT_CHECK(s, bad_sleep == 0, "sleeping %llu ns asked for an invalid time", (unsigned long long)ns); PBT_CHECK(s, slept == ns, "sleeping %llu ns waited %llu.%09llu s", (unsigned long long)ns, (unsigned long long)(slept / 1000000000u), (unsigned long long)(slept % 1000000000u)); if (ns >= 1000000000u) s.label("over a second"); s.nontrivial(ns > 0);
        }
        s.count(n); s.label("sleeps"); break;
    }
    }
}
PBT_MAIN(prop)
