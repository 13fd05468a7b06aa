// C03: text of composite values. Oracle: ref_text.h
#include "ref_text.h"
using namespace pbt;
using namespace ref;

#include "gen_values.h"
static constexpr size_t CAP = 1 << 14;

template<class...Ts> static void check(Src& s, char const* what, Ts const&...vs)
{
    static char buf[CAP + 64];
    char fill = s.flip() ? char(0xff) : char(0);
    string want; ((want += ref::any(vs)), ...);
    if (want.size() > CAP - 64) s.discard();
    memset(buf, fill, want.size() + 64);
    char* e = ce::to_text(buf + 16, vs...);
    string got(buf + 16, size_t(e - (buf + 16)) < CAP ? size_t(e - (buf + 16)) : 0);
    s.note("to_text(%s) -> %s", what, got.c_str());
    PBT_CHECK(s, got == want, "to_text(%s) gave '%s', expected '%s'", what, got.c_str(), want.c_str());
    for (size_t i = 0; i < 16; ++i) PBT_CHECK(s, buf[i] == fill && buf[16 + want.size() + i] == fill, "to_text(%s) wrote outside its text", what);
    s.nontrivial(want.size() > 2);
}
template<class T> static void t1(Src& s, char const* what) { alignas(16) T v; memset((void*)&v, 0, sizeof v); gen<T>::fill(s, v); check(s, what, v); s.label(what); }
template<class A, class B> static void t2(Src& s, char const* what) { A a; B b; memset((void*)&a, 0, sizeof a); memset((void*)&b, 0, sizeof b); gen<A>::fill(s, a); gen<B>::fill(s, b); check(s, what, a, b); s.label(what); }
template<class A, class B, class C, class D> static void t4(Src& s, char const* what) { A a; B b; C c; D d; memset((void*)&a, 0, sizeof a); memset((void*)&b, 0, sizeof b); memset((void*)&c, 0, sizeof c); memset((void*)&d, 0, sizeof d); gen<A>::fill(s, a); gen<B>::fill(s, b); gen<C>::fill(s, c); gen<D>::fill(s, d); check(s, what, a, b, c, d); s.label(what); }

template<class T> using id = T;
using v2i = ce::vec2<int>; using v3f = ce::vec3<float>; using v4l = ce::vec4<long long>; using v1c = ce::vec<1, unsigned char>; using v2k = ce::vec2<short, struct unit>;
using m23 = ce::mat<2, 3, int>; using m44 = ce::mat<4, 4, float>;
using pint = int*; using pvoid = void*; using pstr = char const*; using ppstr = char const**; using nil = decltype(nullptr); using uc = unsigned char; using sc = signed char; using ull = unsigned long long;

using fn = void (*)(Src&);
#define T1(...) [](Src& s) { t1<__VA_ARGS__>(s, #__VA_ARGS__); }
#define T2(...) [](Src& s) { t2<__VA_ARGS__>(s, #__VA_ARGS__); }
#define T4(...) [](Src& s) { t4<__VA_ARGS__>(s, #__VA_ARGS__); }
static fn const table[] = {
    T1(int), T1(bool), T1(char), T1(sc), T1(uc), T1(float), T1(double), T1(ull), T1(e8), T1(e64), T1(plain), T1(opaque), T1(nil), T1(pstr), T1(pint), T1(ppstr), T1(v2i*),
    T1(char[1]), T1(char[8]), T1(char[33]), T1(int[1]), T1(int[3]), T1(uc[5]), T1(bool[4]), T1(double[2]), T1(pstr[3]), T1(pint[2]), T1(e8[3]), T1(plain[2]), T1(custom[2]), T1(opaque[2]), T1(char[3][6]), T1(int[2][3]), T1(int[2][2][2]), T1(uc[3][1]),
    T1(v2i), T1(v3f), T1(v4l), T1(v1c), T1(v2k), T1(m23), T1(m44), T1(v2i[3]), T1(v3f[2][2]), T1(ce::vec2<v2i>), T1(ce::vec2<custom>), T1(ce::vec2<bool>), T1(ce::vec2<pstr>), T1(ce::vec3<ce::vec2<v2k>>), T1(ce::vec2<e8>[2]), T1(int[40]),
    T2(int, int), T2(char, pstr), T2(v2i, char[5]), T2(bool, e64), T2(double, char), T2(pint, opaque), T2(int[3], v3f), T2(nil, int),
    T4(char, int, char, int), T4(pstr, double, pstr, bool), T4(char[4], v2i, char[2], custom), T4(v2i[2], char, int[2][2], m23),
};
static void huge(Src& s)
{
    size_t n = 65500 + s.below(4500); u64 r = s.integer(64); string t(n, 'x'), want; for (auto& c : t) c = char(1 + (r = mix(r)) % 255); int i = int(s.sinteger(32));
    std::vector<char> buf(n + 64, '\x5a'); char* e = ce::to_text(buf.data() + 16, t.c_str(), i); want = t + ref::any(i);
    PBT_CHECK(s, size_t(e - buf.data() - 16) == want.size() && memcmp(buf.data() + 16, want.data(), want.size()) == 0, "text of %zu characters is %td long", want.size(), e - buf.data() - 16);
    static int v[20000]; bool least = s.flip(); for (auto& x : v) x = least ? INT32_MIN : int(r = mix(r)); want = ref::any(v); std::vector<char> out(want.size() + 32, '\x5a');
    e = ce::to_text(out.data() + 16, v); PBT_CHECK(s, size_t(e - out.data() - 16) == want.size() && memcmp(out.data() + 16, want.data(), want.size()) == 0 && *e == '\x5a', "text of 20000 integers");
    s.count(1); s.nontrivial(); s.label("more than 65535 characters");
}
void prop(Src& s) { if (s.chance(1, 30000)) return huge(s); table[s.below(sizeof table / sizeof *table)](s); }
PBT_MAIN(prop)
