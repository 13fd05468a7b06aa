// C04: as_string is the null terminated text of its values, inside its own storage. Oracle: ref_text.h + address sanitizer + guard bytes.
#include "gen_values.h"

using id3 = int[3]; using c1 = char[1]; using c9 = char[9]; using c1500 = char[1500]; using i300 = int[300]; using i6000 = int[6000]; using c70000 = char[70000]; using d40 = double[40]; using sh7 = short[7];
using v2i = ce::vec2<int>; using v4l = ce::vec4<long long>; using m444 = ce::vec4<ce::vec4<ce::vec4<double>>>; using a23 = int[2][3]; using av = ce::vec2<short>[5];
using pc = char const*; using pm = char*; using ps3 = pc[3]; using pm22 = pm[2][2]; using vps = ce::vec2<pc>; using av2 = ce::vec3<pm>[2]; using pint = int*; using nil = decltype(nullptr);
using sc = signed char; using uc = unsigned char; using us = unsigned short; using ul = unsigned long; using ll = long long; using ull = unsigned long long;

template<class T> struct strings { static constexpr bool any = std::is_same_v<T, pc> || std::is_same_v<T, pm>; };
template<class T, size_t N> struct strings<T[N]> : strings<T> { };
template<class T, size_t N> struct strings<T const[N]> : strings<T> { };
template<size_t N, class T> struct strings<ce::vec<N, T>> : strings<T> { };
// strings of every length around the 1024 limit of an unbounded string
static char longs[4096];
template<class T> static void fill(Src& s, T& v)
{
    memset((void*)&v, 0, sizeof v);
    if constexpr (std::is_same_v<T, pc> || std::is_same_v<T, pm>)
    {
        size_t n;
        v = nullptr;
        if (s.chance(1, 8)) { s.label("null string"); return; }
        switch (s.below(4)) { case 0: n = s.below(8); break; case 1: n = 1020 + s.below(9); break; case 2: n = s.skewed(3000); break; default: n = s.below(64); }
        v = longs + sizeof longs - 1 - n; // tail of length n
    }
    else if constexpr (strings<T>::any)
    {
        if constexpr (std::is_array_v<T>) for (auto& i : v) fill(s, i);
        else for (size_t i = 0; i < sizeof v / sizeof v.x; ++i) fill(s, (&v.x)[i]);
    }
    else gen<T>::fill(s, v);
    if constexpr (std::is_integral_v<T> && !std::is_same_v<T, char> && !std::is_same_v<T, bool>)
        if (s.chance(1, 3)) v = std::numeric_limits<T>::min(), s.label("extreme"); else if (s.chance(1, 3)) v = std::numeric_limits<T>::max();
    if constexpr (std::is_same_v<T, c1500>) { size_t n = s.skewed(1500); for (size_t i = 0; i < 1500; ++i) v[i] = i == n ? 0 : 'a' + char(i % 26); }
}
template<class T> static string lim(T const& v)
{
    if constexpr (strings<T>::any && !std::is_pointer_v<T>)
    {
        string r = "[";
        if constexpr (std::is_array_v<T>) for (auto& i : v) r += (&i == v ? "" : ", ") + lim(i);
        else for (size_t i = 0; i < sizeof v / sizeof v.x; ++i) r += (i ? ", " : "") + lim((&v.x)[i]);
        return r + "]";
    }
    else
    {
    if constexpr (std::is_same_v<T, pc> || std::is_same_v<T, pm>) if (v == nullptr) return "#<nil>";
    string r = ref::any(v);
    if constexpr (std::is_same_v<T, pc> || std::is_same_v<T, pm>) if (r.size() > 1024) r.resize(1024);
    return r;
    }
}
static unsigned char* mem = (unsigned char*)malloc(1 << 20);
static __attribute__((noinline)) void verify(Src& s, char const* what, string const& want, char const* got, size_t size, size_t count)
{
    for (int i = 0; i < 32; ++i) PBT_CHECK(s, mem[i] == 0xcd && mem[32 + size + i] == 0xcd, "as_string in %s wrote outside its storage (text of %zu chars)", what, want.size());
    size_t n = strnlen(got, want.size() + 1);
    s.note("%s -> %.200s", what, got);
    PBT_CHECK(s, n == want.size() && memcmp(got, want.data(), n) == 0, "as_string in %s is '%.300s', expected '%.300s' (%zu chars)", what, got, want.c_str(), want.size());
    if (want.size() + 1 == size) s.label("exactly full");
    s.nontrivial(want.size() > 1);
    s.label(count == 1 ? "1 value" : count == 2 ? "2 values" : "3+ values");
}
template<class T> __attribute__((noinline)) static void add(string& r, T const& v) { r += lim(v); }
template<class...Ts> static void check(Src& s, char const* what, Ts const&...vs)
{
    string want; (add(want, vs), ...);
    using S = decltype(ce::as_string{ vs... });
    static_assert(sizeof(S) + 64 < (1 << 20), "");
    memset(mem, 0xcd, sizeof(S) + 64); // as_string is placed between guards
    S* str = new (mem + 32) S{ vs... };
    verify(s, what, want, str->as, sizeof(S), sizeof...(Ts));
}
using fn = void (*)(Src&);
template<class A> static void t1(Src& s) { static A a; fill(s, a); if constexpr (std::is_same_v<A, pc>) { ce::as_string x{ a }; PBT_CHECK(s, a == nullptr ? string(x.as) == "#<nil>" : x.as == a || string(x.as) == a, "as_string of a string changed it"); s.nontrivial(); s.label("1 string"); return; }
    else { if constexpr (std::is_same_v<A, c1> || std::is_same_v<A, c9> || std::is_same_v<A, c1500>) { bool full = s.chance(1, 3); if (full) for (auto& c : a) c = c ? c : '.'; else a[sizeof(A) - 1] = 0; ce::as_string x{ a }; A const& b = a; ce::as_string y{ b }; PBT_CHECK(s, string(y.as) == string(a, strnlen(a, sizeof a)), "as_string{ const char array } is '%.100s'", y.as); PBT_CHECK(s, string(x.as) == string(a, strnlen(a, sizeof a)), "as_string{ char array } is '%.100s'", x.as); s.nontrivial(sizeof(A) > 1); s.label(full ? "1 char array, no terminator" : "1 char array"); } else check(s, __PRETTY_FUNCTION__, a); } }
template<class A, class B> static void t2(Src& s) { static A a; static B b; fill(s, a); fill(s, b); check(s, __PRETTY_FUNCTION__, a, b); }
template<class A, class B, class C> static void t3(Src& s) { static A a; static B b; static C c; fill(s, a); fill(s, b); fill(s, c); check(s, __PRETTY_FUNCTION__, a, b, c); }

template<class...> struct list { };
// opaque values are shown by address and copied by some paths, so they are left out
using types = list<bool, char, sc, uc, short, us, int, unsigned, long, ul, ll, ull, float, double, e8, e64, plain, custom, nil, pint, pc, pm, c1, c9, c1500, id3, i300, d40, sh7, v2i, v4l, m444, a23, av, ps3, pm22, vps, av2>;
template<class...As> static void each1(Src& s, list<As...>) { static fn const t[] = { &t1<As>... }; t[s.below(sizeof...(As))](s); }
template<class B, class...As> static void each2b(Src& s, list<As...>) { static fn const t[] = { &t2<As, B>... }; t[s.below(sizeof...(As))](s); }
template<class...Bs> static void each2(Src& s, list<Bs...>) { using f = void (*)(Src&, types); static f const t[] = { static_cast<f>([](Src& x, types y) { each2b<Bs>(x, y); })... }; t[s.below(sizeof...(Bs))](s, types{ }); }
using seconds = list<pc, c9, ull, i300, sc>;
static fn const threes[] = { &t3<c9, int, c9>, &t3<pc, pc, pc>, &t3<pc, ull, pm>, &t3<int, int, int>, &t3<sc, us, ll>, &t3<v2i, char, i300>, &t3<c1, pc, uc>, &t3<ll, c1500, ull>, &t3<bool, e8, short>, &t3<a23, custom, pm> };

static void huge(Src& s)
{
    static i6000 a; static c70000 c; u64 r = s.integer(64); int i = int(s.sinteger(32)); bool least = s.flip(); size_t n = 65500 + s.below(4500);
    for (auto& x : a) x = least ? INT32_MIN : int(r = mix(r));
    for (size_t k = 0; k < 70000; ++k) c[k] = k == n ? 0 : 'a' + char(k % 26);
    s.label("more than 65535 characters");
    if (s.flip()) { ce::as_string x{ c }; PBT_CHECK(s, strlen(x.as) == n && memcmp(x.as, c, n) == 0, "as_string of char[70000] is cut"); for (auto& k : c) k = k ? k : '.'; ce::as_string y{ c }; size_t k = strlen(y.as); PBT_CHECK(s, k == 70000 && memcmp(y.as, c, k) == 0, "as_string of char[70000] without a terminator has %zu characters", k); s.count(1); c[n] = 0; }
    if (s.flip()) check(s, "int[6000], int", a, i); else check(s, "char[70000], int", c, i);
}
void prop(Src& s)
{
    if (s.chance(1, 10000)) return huge(s);
    switch (s.below(4)) { case 0: each1(s, types{ }); break; case 1: threes[s.below(sizeof threes / sizeof *threes)](s); break; default: each2(s, seconds{ }); }
}
static void init() { for (size_t i = 0; i + 1 < sizeof longs; ++i) longs[i] = 'A' + char(i % 53); }
PBT_MAIN_INIT(prop, init)
