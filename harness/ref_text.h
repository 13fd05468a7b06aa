// Reference conversion to text, written from the documentation (README: to_text / as_string) and kept independent of the library.
#pragma once
#include "pbt.h"
#include "ce/ce.h"
#include <string>
#include <charconv>
namespace ref
{
    using std::string;
    template<class I> string num(I v) { return std::to_string(v); }
    template<class F> string flt(F v) { char b[64]; auto r = std::to_chars(b, b + 64, v); return string(b, r.ptr); }

    struct opaque { int a, b; };                        // no conversion known: shown as a reference
    enum class e8 : signed char { };
    enum class e64 : unsigned long long { };
    enum plain { p0, p1, p2 = 77 };
    struct custom { int v; };                           // has its own to_text, found by argument dependent lookup
    inline char* to_text(char t[], custom const& c) { *t++ = '{'; t = ce::to_text(t, c.v); *t++ = '}'; return t; }

    inline string str(bool v) { return v ? "#<T>" : "#<F>"; }
    inline string str(char v) { return string(1, v); }
    inline string str(signed char v) { return num(int(v)); }
    inline string str(unsigned char v) { return num(int(v)); }
    inline string str(short v) { return num(v); }
    inline string str(unsigned short v) { return num(v); }
    inline string str(int v) { return num(v); }
    inline string str(unsigned v) { return num(v); }
    inline string str(long v) { return num(v); }
    inline string str(unsigned long v) { return num(v); }
    inline string str(long long v) { return num(v); }
    inline string str(unsigned long long v) { return num(v); }
    inline string str(float v) { return flt(v); }
    inline string str(double v) { return flt(v); }
    inline string str(decltype(nullptr)) { return "#<nil>"; }
    inline string str(char const* v) { return v ? string(v) : "#<nil>"; }
    inline string str(char* v) { return v ? string(v) : "#<nil>"; }
    inline string str(e8 v) { return "#<enum " + num(int(v)) + ">"; }
    inline string str(e64 v) { return "#<enum " + num((unsigned long long)v) + ">"; }
    inline string str(plain v) { return "#<enum " + num(unsigned(v)) + ">"; }
    inline string str(opaque const& v) { return "#<ref " + num(size_t(&v)) + ">"; }
    inline string str(custom const& v) { return "{" + num(v.v) + "}"; }
    template<class T> string str(T* const& v) { return v ? "#<ptr " + num(size_t(v)) + ">" : "#<nil>"; }
    template<size_t N, class...U> string str(ce::vec<N, U...> const& v);
    template<class T> string any(T const& v);
    template<class T> string seq(size_t n, T const* v) { string r = "["; for (size_t i = 0; i < n; ++i) r += (i ? ", " : "") + any(v[i]); return r + "]"; }
    template<size_t N, class...U> string str(ce::vec<N, U...> const& v) { return seq(N, &v.x); }
    template<class T> string any(T const& v)
    {
        if constexpr (std::is_same_v<std::remove_cv_t<std::remove_extent_t<T>>, char> && std::is_array_v<T>) return string(&v[0], strnlen(&v[0], sizeof v));
        else if constexpr (std::is_array_v<T>) return seq(std::extent_v<T>, &v[0]);
        else return str(v);
    }
}
