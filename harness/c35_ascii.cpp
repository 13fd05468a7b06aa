// C35: character classes are exactly the ASCII ones for every character; enum and colour views keep the bits; rotation.
#include "pbt.h"
#include "ce/ce.h"
using namespace pbt;
enum class e8 : u8 { }; enum class es8 : signed char { }; enum class e16 : u16 { }; enum class e32 : i32 { }; enum class eu32 : u32 { }; enum class e64 : i64 { }; enum class eu64 : u64 { }; enum plain { p0, p1, p2, big = 0x7fffffff };
template<class E> static void cast(Src& s, char const* name)
{
    using U = std::underlying_type_t<E>; U u = U(s.integer(64)); E e = E(u); auto c = ce::as_cast{ e };
    static_assert(std::is_same_v<decltype(c.as), U>); static_assert(std::is_same_v<ce::underlying_type_t<E>, U>); static_assert(sizeof(c) == sizeof(E));
    U got = c.as; PBT_CHECK(s, got == u, "%s %lld as number is %lld", name, (long long)u, (long long)got);
    c.as = U(~u); E back = c.from; PBT_CHECK(s, back == E(U(~u)), "%s written as number", name); s.note("%s %lld", name, (long long)u); s.label(name);
}
template<class T> static void colour(Src& s, char const* name)
{
    T v[4]; for (auto& x : v) x = T(s.integer(sizeof(T) * 8 - 1)); ce::rgba<T> c{ v[0], v[1], v[2], v[3] }; T const (&a)[4] = c; T const (&b)[4] = c();
    for (int i = 0; i < 4; ++i) PBT_CHECK(s, a[i] == v[i] && b[i] == v[i], "%s colour component %d", name, i);
    PBT_CHECK(s, &a[0] == &c.r && &a[3] == &c.a && &b[0] == &c.r, "%s colour view is not the colour itself", name); c.g = v[0]; PBT_CHECK(s, a[1] == v[0], "%s colour view is a copy", name); s.note("%s colour", name); s.label("colour");
}
void prop(Src& s)
{
    s.nontrivial();
    switch (s.below(4))
    {
    case 0: case 1: {
        int k = int(s.sweep(256)); char a = char(u8(k)); int b = k;
        bool dg = b >= 48 && b <= 57, up = b >= 65 && b <= 90, lo = b >= 97 && b <= 122;
        struct { char const* n; bool got, want; } t[] = {
            { "is_base10", ce::ascii::is_base10(a), dg }, { "is_base16", ce::ascii::is_base16(a), dg || (b >= 65 && b <= 70) || (b >= 97 && b <= 102) }, { "is_base64", ce::ascii::is_base64(a), dg || up || lo || b == 43 || b == 47 },
            { "is_alpha", ce::ascii::is_alpha(a), up || lo }, { "is_upper", ce::ascii::is_upper(a), up }, { "is_lower", ce::ascii::is_lower(a), lo } };
        s.note("character %d", k); s.label("characters"); s.count(5);
        for (auto& q : t) PBT_CHECK(s, q.got == q.want, "%s(%d) is %d", q.n, k, q.got);
        break; }
    case 2: switch (s.below(8)) { case 0: return cast<e8>(s, "u8 enum"); case 1: return cast<es8>(s, "i8 enum"); case 2: return cast<e16>(s, "u16 enum"); case 3: return cast<e32>(s, "i32 enum"); case 4: return cast<eu32>(s, "u32 enum"); case 5: return cast<e64>(s, "i64 enum"); case 6: return cast<eu64>(s, "u64 enum"); default: return cast<plain>(s, "plain enum"); }
    default: switch (s.below(5)) { case 0: return colour<u8>(s, "u8"); case 1: return colour<u16>(s, "u16"); case 2: return colour<float>(s, "float"); case 3: return colour<double>(s, "double"); default:
        { u32 x = u32(s.integer(32)); unsigned k = unsigned(s.below(32)); u32 r = CE_ROTL32(x, k), w = k ? x << k | x >> (32 - k) : x; PBT_CHECK(s, r == w, "rotating %08x by %u gives %08x", x, k, r); s.note("rotate %08x by %u", x, k); s.label("rotate"); } }
    }
}
PBT_MAIN(prop)
