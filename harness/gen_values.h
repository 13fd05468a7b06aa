// generators of random values for ref_text.h types
#pragma once
#include "ref_text.h"
using namespace pbt;
using namespace ref;
template<class T> struct gen { static void fill(Src& s, T& v) { if constexpr (std::is_integral_v<T>) v = T(s.sinteger(64)); } };
template<> struct gen<bool> { static void fill(Src& s, bool& v) { v = s.flip(); } };
template<> struct gen<char> { static void fill(Src& s, char& v) { v = char(1 + s.below(255)); } };
template<> struct gen<float> { static void fill(Src& s, float& v) { v = float(s.sinteger(40)) / float(1 << s.below(20)); } };
template<> struct gen<double> { static void fill(Src& s, double& v) { v = double(s.sinteger(64)) / double(1ull << s.below(40)); } };
template<> struct gen<e8> { static void fill(Src& s, e8& v) { v = e8(s.sinteger(8)); } };
template<> struct gen<e64> { static void fill(Src& s, e64& v) { v = e64(s.integer(64)); } };
template<> struct gen<plain> { static void fill(Src& s, plain& v) { v = s.pick({ p0, p1, p2 }); } };
template<> struct gen<custom> { static void fill(Src& s, custom& v) { v.v = int(s.sinteger(32)); } };
template<> struct gen<opaque> { static void fill(Src&, opaque&) { } };
template<> struct gen<decltype(nullptr)> { static void fill(Src&, decltype(nullptr)& v) { v = nullptr; } };
static char const* const strs[] = { "", "a", "Hello World", "[1, 2]", "caf\xc3\xa9", "\"quoted\\\"", "0", nullptr, "long text long text long text long text long text long text" };
template<> struct gen<char const*> { static void fill(Src& s, char const*& v) { v = strs[s.below(9)]; } };
template<class T> struct gen<T*> { static void fill(Src& s, T*& v) { v = reinterpret_cast<T*>(s.chance(1, 4) ? 0 : s.integer(48)); } };
template<size_t N> struct gen<char[N]> { static void fill(Src& s, char (&v)[N]) { size_t k = s.below(N + 1); for (size_t i = 0; i < N; ++i) v[i] = i == k ? 0 : char(1 + s.below(255)); } };
template<class T, size_t N> struct gen<T[N]> { static void fill(Src& s, T (&v)[N]) { for (auto& x : v) gen<T>::fill(s, x); } };
template<size_t N, class T, class...K> struct gen<ce::vec<N, T, K...>> { static void fill(Src& s, ce::vec<N, T, K...>& v) { for (size_t i = 0; i < N; ++i) gen<T>::fill(s, (&v.x)[i]); } };

