// C01: integer to text. Oracle: decimal odometer (block sweeps) and an independent __int128 division printer.
#include "pbt.h"
#include "ce/ce.h"

using namespace pbt;

static size_t ref_text(char* out, i128 v) // returns length
{
    char tmp[48]; size_t n = 0, k = 0;
    bool neg = v < 0; u128 a = neg ? -u128(v) : u128(v);
    do { tmp[n++] = char('0' + int(a % 10)); a /= 10; } while (a);
    if (neg) out[k++] = '-';
    while (n) out[k++] = tmp[--n];
    return k;
}

template<class T> static void one(Src& s, T v, char const* type)
{
    char want[64]; size_t n = ref_text(want, i128(v));
    for (int pass = 0; pass < 2; ++pass)
    {
        char fill = pass ? char(0xff) : char(0x00);
        char buf[96]; memset(buf, fill, sizeof buf);
        char* e = ce::to_text(buf + 32, v);
        size_t len = size_t(e - (buf + 32));
        char got[40]; snprintf(got, sizeof got, "%.*s", int(std::min<size_t>(len, 30)), buf + 32);
        PBT_CHECK(s, len == n && memcmp(buf + 32, want, n) == 0, "%s value %.*s printed as '%s' (length %zu)", type, int(n), want, got, len);
        for (size_t i = 0; i < sizeof buf; ++i)
            if (i < 32 || i >= 32 + n)
                PBT_CHECK(s, buf[i] == fill, "%s value %.*s wrote outside its text at offset %d", type, int(n), want, int(i) - 32);
    }
}

static void any_type(Src& s, int type, u64 raw)
{
    switch (type)
    {
    case 0: one<signed char>(s, (signed char)raw, "signed char"); break;
    case 1: one<unsigned char>(s, (unsigned char)raw, "unsigned char"); break;
    case 2: one<short>(s, (short)raw, "short"); break;
    case 3: one<unsigned short>(s, (unsigned short)raw, "unsigned short"); break;
    case 4: one<int>(s, (int)raw, "int"); break;
    case 5: one<unsigned>(s, (unsigned)raw, "unsigned"); break;
    case 6: one<long>(s, (long)raw, "long"); break;
    case 7: one<unsigned long>(s, (unsigned long)raw, "unsigned long"); break;
    case 8: one<long long>(s, (long long)raw, "long long"); break;
    default: one<unsigned long long>(s, raw, "unsigned long long"); break;
    }
}
static char const* const names[] = { "signed char", "unsigned char", "short", "unsigned short", "int", "unsigned", "long", "unsigned long", "long long", "unsigned long long" };
static int const widths[] = { 8, 8, 16, 16, 32, 32, 64, 64, 64, 64 };

// a run of `count` consecutive values from `start` counted up by a decimal odometer of magnitude; T signed: negative magnitudes
template<class T, bool Neg> static void sweep_block(Src& s, u64 start, u64 count, int type)
{
    char od[24]; size_t n = ref_text(od, i128(u128(start)));
    char buf[64]; memset(buf, 0x5a, sizeof buf);
    for (u64 i = 0; i < count; ++i)
    {
        u64 m = start + i;
        T v = Neg ? T(u64(0) - m) : T(m);
        char* b = buf + 16;
        b[n + Neg] = 0x5a; 
        char* e = ce::to_text(b, v);
        bool ok = size_t(e - b) == n + Neg && (!Neg || b[0] == '-') && memcmp(b + Neg, od, n) == 0 && *e == 0x5a && b[-1] == 0x5a;
        if (!ok) s.fail(fmt("%s: value %s%.*s printed as '%.*s'", names[type], Neg ? "-" : "", int(n), od, int(std::min<long>(e - b, 30)), b), { 0, u64(type), 3, u64(v) });
        size_t k = n;
        while (k > 0 && ++od[k - 1] > '9') od[--k] = '0';
        if (k == 0) { memmove(od + 1, od, n); od[0] = '1'; ++n; }
    }
    s.count(count - 1); s.count_distinct(count - 1);
}

void prop(Src& s)
{
    // the tape starts with the mode so that a failing value of a sweep can be replayed alone (mode 0, type, kind 3, value)
    static bool const sweeps =
#ifdef DEBUG
        false;
#else
        true;
#endif
    u64 mode = s.constant(sweeps && !s.fuzz ? 1 : 0);
    if (mode == 0)
    {
        int type = int(s.below(10));
        u64 v;
        int w = widths[type];
        switch (s.below(6))
        {
        case 0: v = s.integer(w); break;
        case 1: { u64 p = 1; for (u64 k = s.below(20); k > 0; --k) p *= 10; v = p * (1 + s.below(9)) + s.below(5) - 2; s.label("near power of ten"); break; }
        case 2: { // digit patterns: head, then runs of 0 / 9 / random digits
            u64 digits = 1 + s.below(20); v = 0;
            for (u64 i = 0; i < digits; ++i) { u64 d = s.pick<u64>({ 0, 9, 0, 9, 1, 5 }); if (s.chance(1, 4)) d = s.below(10); v = v * 10 + d; }
            s.label("digit pattern"); break; }
        case 3: v = s.below(0); break;
        case 4: { // 64 bit, split at the 8 digit chunks
            u64 hi = s.below(1844) + 1, mid = s.chance(1, 2) ? s.below(100000000) : s.below(100), lo = s.chance(1, 2) ? s.below(100000000) : s.below(100);
            v = (hi * 100000000 + mid) * 100000000 + lo; if (s.flip()) v = v / 100000000; s.label("chunked"); break; }
        default: v = u64(0) - s.integer(w); break;
        }
        any_type(s, type, v);
        s.label(names[type]);
        s.nontrivial((w < 64 ? v & ((1ull << w) - 1) : v) > 9);
        s.note("to_text(%s, %lld / %llu)", names[type], (long long)v, (unsigned long long)v);
        return;
    }
    // enumeration, spread over blocks: 32 bit unsigned, 32 bit signed, 8 digit chunks of 64 bit values, 8/16 bit
    constexpr u64 B32 = 1u << 20, N32 = (1ull << 32) / B32;     // 4096 blocks
    constexpr u64 BC = 50000, NC = 100000000 / BC;              // 2000 blocks
    u64 k = s.sweep(2 * N32 + 4 * NC + 1);
    u64 rs = s.below(0); auto rnd = [&rs] { return rs = mix(rs); };
    // quick: a quarter of the signed blocks (their positive half shares its code with the unsigned sweep)
    if (!s.thorough && k >= N32 && k < 2 * N32 && (k ^ rs) % 4 != 0) return;
    s.nontrivial();
    if (k < N32) { sweep_block<unsigned, false>(s, k * B32, B32, 5); s.label("exhaustive unsigned block"); }
    else if (k < N32 + N32 / 2) { sweep_block<int, false>(s, (k - N32) * B32, B32, 4); s.label("exhaustive int block"); }
    else if (k < 2 * N32) { sweep_block<int, true>(s, (k - N32 - N32 / 2) * B32 + 1, B32, 4); s.label("exhaustive int block"); }
    else if (k < 2 * N32 + NC) // low chunk, value above 2^32 and below 10^8 * 2^32
        { u64 hi = 43 + s.integer(32) % 4294967252u; sweep_block<unsigned long long, false>(s, hi * 100000000 + (k - 2 * N32) * BC, BC, 9); s.label("low 8 digit chunk"); }
    else if (k < 2 * N32 + 2 * NC) // low chunk under three chunks
        { u64 hi = 42949672950ull + s.below(184467440737ull - 42949672950ull); sweep_block<unsigned long, false>(s, hi * 100000000 + (k - 2 * N32 - NC) * BC, BC, 7); s.label("low 8 digit chunk of 3"); }
    else if (k < 2 * N32 + 3 * NC) // middle chunk: step by 10^8
    {
        u64 hi = 430 + s.below(1844 - 430), lo = s.below(100000000);
        for (u64 i = 0; i < BC; ++i) { u64 v = (hi * 100000000 + (k - 2 * N32 - 2 * NC) * BC + i) * 100000000 + lo; char want[32], got[64]; size_t n = ref_text(want, v); got[20] = 0x5a; char* e = ce::to_text(got, (unsigned long long)v);
            if (size_t(e - got) != n || memcmp(want, got, n)) s.fail(fmt("unsigned long long %.*s printed as '%.*s'", int(n), want, int(std::min<long>(e - got, 30)), got), { 0, 9, 3, v }); }
        s.count(BC - 1); s.count_distinct(BC - 1); s.label("middle 8 digit chunk");
    }
    else if (k < 2 * N32 + 4 * NC) // head chunk and negatives
    {
        for (u64 i = 0; i < 4000; ++i) { long long v = -(long long)(rnd() >> (1 + rnd() % 40)); char want[32], got[64]; size_t n = ref_text(want, v); char* e = ce::to_text(got, v);
            if (size_t(e - got) != n || memcmp(want, got, n)) s.fail(fmt("long long %.*s printed as '%.*s'", int(n), want, int(std::min<long>(e - got, 30)), got), { 0, 8, 3, u64(v) }); }
        s.count(3999); s.count_distinct(3999); s.label("negative 64 bit block");
    }
    else
    {
        for (u64 v = 0; v < 256; ++v) any_type(s, 0, v), any_type(s, 1, v);
        for (u64 v = 0; v < 65536; ++v) any_type(s, 2, v), any_type(s, 3, v);
        for (u64 h = 1; h <= 1844; ++h) any_type(s, 9, h * 10000000000000000ull + rnd() % 10000000000000000ull);
        s.count(2 * 65536 + 512 - 1); s.count_distinct(2 * 65536 + 511); s.label("exhaustive 8/16 bit");
    }
    s.note("sweep block %llu", (unsigned long long)k);
}

PBT_MAIN(prop)
