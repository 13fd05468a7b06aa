// C02: float / double to text. Oracle: strtof / strtod read the text back to the same bits; no shorter text does.
#include "pbt.h"
#include "ce/ce.h"
using namespace pbt;

template<class F> static F parse(char const* t, char** e) { if constexpr (sizeof(F) == 4) return strtof(t, e); else return strtod(t, e); }

template<class F, class U> static void one(Src& s, U bits)
{
    F v; memcpy(&v, &bits, sizeof v);
    char buf[160];
    memset(buf, 0x5a, sizeof buf);
    char* e = ce::to_text(buf + 32, v);
    size_t n = size_t(e - (buf + 32));
    s.note("%s bits %llx -> '%.*s'", sizeof(F) == 4 ? "float" : "double", (unsigned long long)bits, int(std::min<size_t>(n, 40)), buf + 32);
    PBT_CHECK(s, n > 0 && n <= (sizeof(F) == 4 ? 16 : 25), "text of %zu chars", n);
    for (size_t i = 0; i < sizeof buf; ++i)
        if (i < 32 || i >= 32 + 32) PBT_CHECK(s, buf[i] == 0x5a, "wrote at offset %d", int(i) - 32);
    std::string t(buf + 32, n);
    char* pe; F r = parse<F>(t.c_str(), &pe);
    PBT_CHECK(s, *pe == 0 && pe == t.c_str() + n, "'%s' is not a number", t.c_str());
    if (v != v) { PBT_CHECK(s, r != r && std::signbit(r) == std::signbit(v), "NaN printed as '%s'", t.c_str()); s.label("nan"); return; }
    U rb; memcpy(&rb, &r, sizeof rb);
    PBT_CHECK(s, rb == bits, "'%s' reads back as bits %llx, not %llx", t.c_str(), (unsigned long long)rb, (unsigned long long)bits);
    if (std::isinf(v)) { PBT_CHECK(s, t == (v < 0 ? "-inf" : "inf"), "'%s'", t.c_str()); s.label("inf"); return; }
    for (char c : t) PBT_CHECK(s, (c >= '0' && c <= '9') || c == '-' || c == '+' || c == '.' || c == 'e', "'%s' has an unexpected character", t.c_str());
    // shortest scientific text that reads back
    for (int p = 0; p < 20; ++p)
    {
        char sci[64]; int k = snprintf(sci, sizeof sci, "%.*e", p, double(v));
        if (parse<F>(sci, nullptr) == v) { PBT_CHECK(s, n <= size_t(k), "'%s' is longer than '%s'", t.c_str(), sci); break; }
    }
    s.nontrivial(t.size() > 3);
    if (t.find('e') != std::string::npos) s.label("scientific");
    if (t.find('.') != std::string::npos) s.label("fraction");
}

void prop(Src& s)
{
    bool dbl = s.flip();
    u64 b;
    switch (s.below(6))
    {
    case 0: b = s.below(0); break;                                    // any bits
    case 1: { double d = double(s.sinteger(54)); float f = float(d); if (dbl) memcpy(&b, &d, 8); else { u32 x; memcpy(&x, &f, 4); b = x; } s.label("integral"); break; }
    case 2: { double d = double(s.sinteger(40)); for (u64 k = s.below(12); k > 0; --k) d /= 10; float f = float(d); if (dbl) memcpy(&b, &d, 8); else { u32 x; memcpy(&x, &f, 4); b = x; } s.label("decimal fraction"); break; }
    case 3: // every exponent, edge mantissas
        if (dbl) b = s.below(2) << 63 | s.below(2048) << 52 | (s.flip() ? s.below(8) : (1ull << 52) - 1 - s.below(8));
        else b = s.below(2) << 31 | s.below(256) << 23 | (s.flip() ? s.below(8) : (1ull << 23) - 1 - s.below(8));
        s.label("edge mantissa"); break;
    case 4: { double d = std::pow(10.0, double(s.range(-330, 310))); float f = float(d); if (dbl) memcpy(&b, &d, 8); else { u32 x; memcpy(&x, &f, 4); b = x; } b += s.below(5) - 2; s.label("near power of ten"); break; }
    default: b = s.integer(dbl ? 64 : 32); break;                     // subnormals, boundaries
    }
    if (dbl) one<double, u64>(s, b); else one<float, u32>(s, u32(b));
}
PBT_MAIN(prop)
