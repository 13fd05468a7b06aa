// C39: a clock of rate Fn/Fd counts exactly floor(elapsed time * rate) ticks since its reset, however it is polled.
#include "pbt.h"
#include "ce/ce.h"
namespace ce { namespace os { static uint64_t fake_ts, fake_hz, fake_calls; inline uint64_t fake_timestamp() { ++fake_calls; return fake_ts; } inline uint64_t fake_frequency() { return fake_hz; } } }
// the clock reads this time source instead of the system's
#define monotonic_timestamp fake_timestamp
#define monotonic_frequency fake_frequency
#include "ce/clock.h"
#undef monotonic_timestamp
#undef monotonic_frequency
using namespace pbt;
template<u64 Fn, u64 Fd> static void go(Src& s)
{
    using C = ce::clock<Fn, Fd>; C c; memset(&c, s.pick({ 0, 0x5a, 0xff }), sizeof c);
    // frequency * Fd * (Fn + 1) < 2^64, so that the clock's own sums fit
    u64 most = (~u64(0) / (Fn + 1)) / Fd; u64 hz = s.pick({ u64(1000000000), u64(10000000), u64(3579545), u64(1), u64(1000), u64(1) << 20, u64(0) }); if (hz == 0 || hz > most) hz = 1 + s.below(s.flip() ? std::min<u64>(most, 5000) : most); if (s.chance(1, 20)) hz = most - s.below(std::min<u64>(most, 3));
    if (hz == 0) hz = 1;
    size_t rounds = 1 + s.below(3), wraps = 0, polls = 0; u128 ticks = 0; s.note("rate %llu/%llu, frequency %llu:", (unsigned long long)Fn, (unsigned long long)Fd, (unsigned long long)hz);
    for (size_t r = 0; r < rounds; ++r)
    {
        ce::os::fake_hz = hz; u64 t0 = s.flip() ? s.integer(64) : ~u64(0) - s.below(hz * 4 + 1); ce::os::fake_ts = t0; c.reset(); u128 el = 0, sum = 0; u64 fdv = hz * Fd; (void)fdv;
        size_t n = 1 + s.skewed(60); int mode = int(s.below(4));
        for (size_t k = 0; k < n; ++k)
        {
            u64 d; switch (mode) { case 0: d = s.below(3); break; case 1: d = s.below(2 * hz / std::max<u64>(1, Fn / Fd) + 2); break; case 2: d = s.integer(s.pick({ 20, 40, 50 })); break; default: d = u64(u128(s.below(5)) * hz * Fd / Fn) + s.below(2); break; }
            // the whole count has to fit 64 bits, and less than 2^64 time units pass between polls
            if ((el + d) * Fn / (u128(hz) * Fd) >> 62) break; if ((el + d) >> 90) break;
            u64 before = ce::os::fake_ts; ce::os::fake_ts += d; wraps += ce::os::fake_ts < before; el += d; u64 want = u64(el * Fn / (u128(hz) * Fd)); int form = int(s.below(3)); ++polls;
            if (form == 0) { u64 g = c.elapsed(); PBT_CHECK(s, g == want - u64(sum), "poll %zu: %llu new ticks, expected %llu", k, (unsigned long long)g, (unsigned long long)(want - u64(sum))); }
            else { u64 g = c.current(); PBT_CHECK(s, g == want, "poll %zu: at %llu ticks, expected %llu after %llu of %llu per second", k, (unsigned long long)g, (unsigned long long)want, (unsigned long long)el, (unsigned long long)hz); if (form == 2) { g = c.current(); PBT_CHECK(s, g == want, "polling again at the same time gave %llu, expected %llu", (unsigned long long)g, (unsigned long long)want); } }
            sum = want; PBT_CHECK(s, u64(c.tick) == want, "the tick count is %llu, expected %llu", (unsigned long long)c.tick, (unsigned long long)want);
        }
        ticks += sum; s.note(" %llu ticks", (unsigned long long)sum);
        if (s.flip()) { hz = 1 + s.below(std::min<u64>(most, 100000)); } // the next reset reads the frequency again
    }
    s.count(polls); s.nontrivial(ticks > 1); if (wraps) s.label("time source wraps"); s.label(Fd > 1 ? "fractional rate" : "whole rate");
}
void prop(Src& s)
{
    switch (s.below(10))
    {
    case 0: return go<60, 1>(s); case 1: return go<1000, 1>(s); case 2: return go<30000, 1001>(s); case 3: return go<1, 1>(s); case 4: return go<1000000000, 1>(s); case 5: return go<48000, 1>(s); case 6: return go<1, 60>(s); case 7: return go<7, 3>(s); case 8: return go<(1ull << 32), 1>(s); default: return go<5, 86400>(s);
    }
}
PBT_MAIN(prop)
