// value types that track construction, destruction, copies of dead objects, ...
#pragma once
#include <unordered_map>
#include <map>
namespace life
{
    struct State { std::unordered_map<void const*, int> live; std::string error; long made = 0, ended = 0; void reset() { live.clear(); error.clear(); made = ended = 0; } };
    inline State state;
    inline void oops(char const* what) { if (state.error.empty()) state.error = what; }
    inline void born(void const* p) { ++state.made; if (!state.live.emplace(p, 1).second) oops("constructed over a live object"); }
    inline void dead(void const* p) { ++state.ended; if (!state.live.erase(p)) oops("destroyed an object that is not live"); }
    inline void need(void const* p) { if (!state.live.count(p)) oops("used an object that is not live"); }

    // default, copy and move constructible and assignable; -1 after being moved from; 7 when default constructed
    struct obj
    {
        int v;
        obj() : v(7) { born(this); }
        obj(int x) : v(x) { born(this); }
        obj(int a, int b) : v(a * 1000 + b) { born(this); }
        obj(obj const& o) : v(o.v) { need(&o); born(this); }
        obj(obj&& o) : v(o.v) { need(&o); born(this); o.v = -1; }
        obj& operator=(obj const& o) { need(this); need(&o); v = o.v; return *this; }
        obj& operator=(obj&& o) { need(this); need(&o); v = o.v; if (&o != this) o.v = -1; return *this; }
        ~obj() { dead(this); }
        int get() const { need(this); return v; }
    };
    // not copy constructible: copying goes through default construction and assignment
    struct assigned
    {
        int v;
        assigned() : v(7) { born(this); }
        assigned(int x) : v(x) { born(this); }
        assigned(int a, int b) : v(a * 1000 + b) { born(this); }
        assigned(assigned const&) = delete;
        assigned& operator=(assigned const& o) { need(this); need(&o); v = o.v; return *this; }
        ~assigned() { dead(this); }
        int get() const { need(this); return v; }
    };
    struct pod { int v; pod() = default; pod(int x) : v(x) { } pod(int a, int b) : v(a * 1000 + b) { } int get() const { return v; } };
    struct big { int v; int pad[9]; big() : v(7), pad{ } { pad[8] = v; } big(int x) : v(x), pad{ } { pad[8] = v; } big(int a, int b) : big(a * 1000 + b) { } int get() const { return v == pad[8] ? v : -99; } };
    template<class T> constexpr bool tracked = false;
    template<> constexpr bool tracked<obj> = true;
    template<> constexpr bool tracked<assigned> = true;
}
