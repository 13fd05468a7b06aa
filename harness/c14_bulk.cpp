// C14: bulk against a vector model over random operation histories, with every construction and destruction accounted for.
#include "pbt.h"
#include "lifetimes.h"
#include "ce/ce.h"
using namespace pbt; using namespace life;

template<size_t N, class T> struct run
{
    using B = ce::bulk<N, T>;
    struct slot { u8 before[16]; alignas(16) u8 mem[sizeof(B)]; u8 after[16]; B& b() { return *reinterpret_cast<B*>(mem); } };
    static constexpr int unset = INT32_MIN; // an uninitialised trivial item: any value
    static void same(Src& s, B const& b, std::vector<int>& m, char const* op)
    {
        PBT_CHECK(s, state.error.empty(), "after %s: %s", op, state.error.c_str());
        PBT_CHECK(s, b.size == m.size(), "after %s: size %zu, expected %zu", op, b.size, m.size());
        PBT_CHECK(s, b.room() == N - m.size() && B::capacity() == N, "after %s: room %zu", op, b.room());
        PBT_CHECK(s, size_t(b.end() - b.begin()) == m.size(), "after %s: %zd items from begin to end", op, b.end() - b.begin());
        size_t i = 0;
        for (auto const& x : b)
        {
            if (tracked<T>) PBT_CHECK(s, state.live.count(&x), "after %s: item %zu is not live", op, i);
            if (m[i] != unset) PBT_CHECK(s, x.get() == m[i], "after %s: item %zu of %zu is %d, expected %d", op, i, m.size(), x.get(), m[i]);
            ++i;
        }
        if (!m.empty()) PBT_CHECK(s, &b.back() == &b[m.size() - 1], "after %s: back", op);
    }
    static void go(Src& s)
    {
        state.reset();
        constexpr int Q = 3; static slot sl[Q]; std::vector<int> m[Q]; bool live[Q] = { };
        u8 fillb = s.flip() ? 0xcd : 0x00;
        for (auto& x : sl) { memset(&x, fillb, sizeof x); memset(x.before, 0xee, 16); memset(x.after, 0xee, 16); }
        size_t ops = 1 + s.skewed(60); int next = 10; size_t full = 0, shr = 0, copies = 0;
        for (size_t k = 0; k < ops; ++k)
        {
            int q = int(s.below(Q)); auto& v = m[q]; B& b = sl[q].b(); char const* op = "";
            if (!live[q])
            {
                int p = int(s.below(Q));
                if (p != q && live[p] && s.flip()) { op = "copy construct"; new (static_cast<void*>(sl[q].mem)) B(sl[p].b()); v = m[p]; ++copies; }
                else { op = "construct"; new (static_cast<void*>(sl[q].mem)) B(); v.clear(); }
                live[q] = true;
            }
            else switch (s.weighted({ 6, 2, 2, 3, 3, 1, 2, 1, 1, 2 }))
            {
            case 0: { op = "append"; int x = next++; bool r = s.flip() ? b.append(x) : b.append(x / 1000, x % 1000); PBT_CHECK(s, r == (v.size() < N), "append returned %d at size %zu of %zu", r, v.size(), N); if (r) v.push_back(x); else ++full; break; }
            case 1: { op = "append_n"; size_t n = s.flip() ? 1 : s.chance(1, 6) ? size_t(s.integer(64)) : s.below(N + 3); bool r = n == 1 && s.flip() ? b.append_n() : b.append_n(n); PBT_CHECK(s, r == (n <= N - v.size()), "append_n(%zu) returned %d at size %zu of %zu", n, r, v.size(), N); if (r) v.resize(v.size() + n, __is_trivially_constructible(T) ? unset : 7); else ++full; break; }
            case 2: { op = "resize"; size_t n = s.chance(1, 8) ? size_t(s.integer(64)) : N > 65536 && s.flip() ? N - s.below(4000) : s.below(N + 3); bool r = b.resize(n); PBT_CHECK(s, r == (n <= N), "resize(%zu) returned %d, capacity %zu", n, r, N); if (r) { shr += n < v.size(); v.resize(n, __is_trivially_constructible(T) ? unset : 7); } else ++full; break; }
            case 3: { op = "remove_at"; size_t i = s.chance(1, 8) ? size_t(s.integer(64)) : s.below(v.size() + 2); bool r = b.remove_at(i); PBT_CHECK(s, r == (i < v.size()), "remove_at(%zu) returned %d at size %zu", i, r, v.size()); if (r) { v[i] = v.back(); v.pop_back(); ++shr; } break; }
            case 4: { op = "ordered remove_at"; size_t i = s.chance(1, 8) ? size_t(s.integer(64)) : s.below(v.size() + 2); bool r = b.template remove_at<true>(i); PBT_CHECK(s, r == (i < v.size()), "remove_at<true>(%zu) returned %d at size %zu", i, r, v.size()); if (r) { v.erase(v.begin() + long(i)); ++shr; } break; }
            case 5: op = "clear"; b.clear(); v.clear(); break;
            case 6: { int p = int(s.below(Q)); if (!live[p]) break; op = p == q ? "self assign" : "assign"; B& r = (b = sl[p].b()); PBT_CHECK(s, &r == &b, "assignment returned another object"); shr += v.size() > m[p].size(); ++copies; v = m[p]; break; }
            case 7: op = "destroy"; b.~B(); live[q] = false; break;
            case 8: { op = "make_span"; auto sp = make_span(b); auto cs = make_span(const_cast<B const&>(b)); PBT_CHECK(s, sp.size == v.size() && sp.data == b.begin() && cs.size == v.size() && cs.data == b.begin(), "span of %zu items at %p", sp.size, (void*)sp.data); break; }
            default: if (!v.empty()) { op = "write"; size_t i = s.below(v.size()); int x = next++; T t(x); if (N > 1000 && s.flip()) { for (i = 0; i < v.size(); ++i) b[i] = T(v[i] = next++); break; } if (s.flip()) b[i] = t; else i = v.size() - 1, b.back() = t; v[i] = x; } break;
            }
            s.note("%d:%s(%zu) ", q, op, v.size());
            for (int p = 0; p < Q; ++p) if (live[p]) same(s, sl[p].b(), m[p], op);
            if (tracked<T>) { size_t total = 0; for (int p = 0; p < Q; ++p) if (live[p]) total += m[p].size(); PBT_CHECK(s, state.live.size() == total, "after %s: %zu live objects for %zu items", op, state.live.size(), total); }
            for (auto& x : sl) for (int i = 0; i < 16; ++i) PBT_CHECK(s, x.before[i] == 0xee && x.after[i] == 0xee, "after %s: wrote outside the container", op);
        }
        for (int p = 0; p < Q; ++p) if (live[p]) sl[p].b().~B();
        PBT_CHECK(s, state.error.empty(), "at the end: %s", state.error.c_str());
        PBT_CHECK(s, state.live.empty() && state.made == state.ended, "%ld constructions, %ld destructions", state.made, state.ended);
        s.nontrivial(shr > 0 || copies > 0); if (full) s.label("hit capacity"); if (copies) s.label("copied"); if (shr) s.label("shrunk");
    }
};
// move-only-free subset for the type without copy construction
template<class T> static void sizes(Src& s) { switch (s.chance(1, 100) ? 6 : s.below(6)) { case 6: return run<700, T>::go(s); case 0: return run<1, T>::go(s); case 1: return run<2, T>::go(s); case 2: return run<3, T>::go(s); case 3: return run<5, T>::go(s); case 4: return run<8, T>::go(s); default: return run<33, T>::go(s); } }
void prop(Src& s)
{
    if (s.chance(1, 8000)) { s.label("70000 items"); return run<70000, pod>::go(s); }
    switch (s.below(4)) { case 0: s.note("obj "); s.label("obj"); return sizes<obj>(s); case 1: s.note("assigned "); s.label("assigned"); return sizes<assigned>(s); case 2: s.note("pod "); s.label("pod"); return sizes<pod>(s); default: s.note("big "); s.label("big"); return sizes<big>(s); }
}
PBT_MAIN(prop)
