"""C42: describing types to io: a visitor sees every bound member, by name and in order, as the member itself; writing and reading back restores the value."""
import json
NAME = "C42"
PRELUDE = r'''#include "ce/io.h"
#include <string>
#include <vector>
#include <cstring>
#include <cstdio>
#include <cstdint>
#include <type_traits>
namespace oracle
{
    // one step of a visit
    struct ev { char k; std::string s; size_t n; void const* at; bool operator==(ev const& o) const { return k == o.k && s == o.s && n == o.n && at == o.at; } };
    using log = std::vector<ev>;
    template<class T> char const* tag() { return std::is_same_v<T, bool> ? "bool" : std::is_same_v<T, char> ? "char" : std::is_same_v<T, float> ? "float" : std::is_same_v<T, double> ? "double" : std::is_enum_v<T> ? "enum" : std::is_signed_v<T> ? sizeof(T) == 1 ? "i8" : sizeof(T) == 2 ? "i16" : sizeof(T) == 4 ? "i32" : "i64" : sizeof(T) == 1 ? "u8" : sizeof(T) == 2 ? "u16" : sizeof(T) == 4 ? "u32" : "u64"; }
    template<class T> std::string bytes(T const& v) { return std::string(reinterpret_cast<char const*>(&v), sizeof v); }
    static unsigned long long state; inline unsigned long long next() { state += 0x9e3779b97f4a7c15ull; unsigned long long z = state; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
    // how values are laid out and what a visitor has to see: atoms, arrays, lists, vecs; structs come from the generated program
    template<class T, class = void> struct of;
    template<class T> void see(log& l, T& v, bool w) { of<T>::see(l, v, w); }
    template<class T> void fill(T& v) { of<T>::fill(v); }
    template<class T> struct of<T, std::enable_if_t<std::is_arithmetic_v<T> || std::is_enum_v<T>>>
    {
        static void see(log& l, T& v, bool w) { l.push_back({ 'a', std::string(tag<T>()) + (w ? bytes(v) : ""), sizeof v, &v }); }
        static void fill(T& v) { unsigned long long r = next(); if constexpr (std::is_same_v<T, bool>) v = T(r & 1); else if constexpr (std::is_floating_point_v<T>) v = T(r % 100000) / T(16); else { memcpy(&v, &r, sizeof v); if (r >> 60 == 0) memset(&v, 0, sizeof v); if (r >> 60 == 1) memset(&v, 0xff, sizeof v); } }
    };
    template<class T, size_t N> struct of<T[N], void>
    {
        static void see(log& l, T (&v)[N], bool w) { l.push_back({ '[', "fixed", N, nullptr }); for (auto& x : v) oracle::see(l, x, w); l.push_back({ ']', "fixed", N, nullptr }); }
        static void fill(T (&v)[N]) { for (auto& x : v) oracle::fill(x); }
    };
    template<size_t N, class T> struct of<ce::bulk<N, T>, void>
    {
        static void see(log& l, ce::bulk<N, T>& v, bool w) { l.push_back({ '[', "list", w ? v.size : 0, &v.size }); for (size_t i = 0; i < v.size; ++i) oracle::see(l, v.data[i], w); l.push_back({ ']', "list", w ? v.size : 0, &v.size }); }
        static void fill(ce::bulk<N, T>& v) { size_t n = next() % (N + 1); new (&v) ce::bulk<N, T>(); v.resize(n); for (size_t i = 0; i < n; ++i) oracle::fill(v.data[i]); }
    };
    template<size_t N, class T, class...K> struct of<ce::vec<N, T, K...>, void>
    {
        static void see(log& l, ce::vec<N, T, K...>& v, bool w)
        {
            if constexpr (N == 2) { l.push_back({ '{', "", 0, nullptr }); l.push_back({ 'n', "x", 0, nullptr }); oracle::see(l, v.x, w); l.push_back({ 'n', "y", 0, nullptr }); oracle::see(l, v.y, w); l.push_back({ '}', "", 0, nullptr }); }
            else { l.push_back({ '[', "fixed", N, nullptr }); T* p = &v.x; for (size_t i = 0; i < N; ++i) oracle::see(l, p[i], w); l.push_back({ ']', "fixed", N, nullptr }); }
        }
        static void fill(ce::vec<N, T, K...>& v) { T* p = &v.x; for (size_t i = 0; i < N; ++i) oracle::fill(p[i]); }
    };
    // visitors
    struct writer : ce::io<writer>
    {
        log l; bool w = true; std::vector<size_t*> sizes;
        void enter_class() { l.push_back({ '{', "", 0, nullptr }); } void leave_class() { l.push_back({ '}', "", 0, nullptr }); }
        void enter_array(size_t& n, bool list) { l.push_back({ '[', list ? "list" : "fixed", n, list ? &n : nullptr }); } void leave_array(size_t& n, bool list) { l.push_back({ ']', list ? "list" : "fixed", n, list ? &n : nullptr }); }
        void name(char const* t) { l.push_back({ 'n', t, 0, nullptr }); }
        template<class T> void atom(T& v) { l.push_back({ 'a', std::string(tag<T>()) + bytes(v), sizeof v, &v }); }
    };
    struct reader : ce::io<reader>
    {
        log const& l; size_t at = 0; bool ok = true; explicit reader(log const& x) : l(x) { }
        ev const& take(char k) { static ev const none{ }; if (at < l.size() && l[at].k == k) return l[at++]; ok = false; return none; }
        void enter_class() { take('{'); } void leave_class() { take('}'); }
        void enter_array(size_t& n, bool list) { auto& e = take('['); if (list) n = e.n; } void leave_array(size_t&, bool) { take(']'); }
        void name(char const* t) { if (take('n').s != t) ok = false; }
        template<class T> void atom(T& v) { auto& e = take('a'); size_t k = strlen(tag<T>()); if (e.s.size() == k + sizeof v) memcpy(&v, e.s.data() + k, sizeof v); else ok = false; }
    };
    inline std::string show(log const& l, size_t i) { if (i >= l.size()) return "the end"; auto& e = l[i]; char b[300]; snprintf(b, sizeof b, "%c %.80s (%zu at %p)", e.k, e.k == 'n' || e.k == '[' || e.k == ']' ? e.s.c_str() : e.k == 'a' ? std::string(e.s, 0, e.s.size() - e.n).c_str() : "", e.n, e.at); return b; }
    template<class RR> void compare(RR& r, char const* what, log const& got, log const& want, bool places)
    {
        r.evals += want.size();
        for (size_t i = 0; i < got.size() || i < want.size(); ++i) { bool same = i < got.size() && i < want.size() && got[i].k == want[i].k && got[i].s == want[i].s && got[i].n == want[i].n && (!places || got[i].at == want[i].at);
            if (!same) { r.fail("%s: step %zu is %s, expected %s", what, i, show(got, i).c_str(), show(want, i).c_str()); return; } }
    }
    template<class T, class RR> void test(RR& r, unsigned rounds)
    {
        for (unsigned k = 0; k < rounds && !r.bad; ++k)
        {
            alignas(T) static unsigned char ma[sizeof(T)], mb[sizeof(T)]; T& a = *reinterpret_cast<T*>(ma); T& b = *reinterpret_cast<T*>(mb); unsigned char f = (unsigned char)next(); memset(ma, f, sizeof ma); memset(mb, ~f, sizeof mb); state = r.next(); fill(a); fill(b);
            std::vector<unsigned char> before(ma, ma + sizeof ma);
            log want; want.push_back({ 'n', "top", 0, nullptr }); see(want, a, true); writer w; w.item("top", a); compare(r, "writing", w.l, want, true); if (r.bad) return;
            if (memcmp(before.data(), ma, sizeof ma)) { r.fail("writing changed the value"); return; }
            reader rd(w.l); rd.item("top", b); if (!rd.ok || rd.at != w.l.size()) { r.fail("reading back took other steps (at %zu of %zu)", rd.at, w.l.size()); return; }
            log now; now.push_back({ 'n', "top", 0, nullptr }); see(now, b, true); compare(r, "the value read back", now, want, false); if (r.bad) return;
            // several values at once
            size_t two = next() % 3; T* arr = reinterpret_cast<T*>(ma); if (two <= 1) { writer v; v.items(two, arr); log e; e.push_back({ '[', "list", two, &two }); if (two) see(e, a, true); e.push_back({ ']', "list", two, &two }); compare(r, "an array of a given size", v.l, e, true); }
        }
    }
}
'''
ATOMS = ["int", "unsigned", "signed char", "unsigned char", "short", "unsigned short", "long", "unsigned long", "long long", "unsigned long long", "float", "double", "bool", "char", "ce::uint64_t", "ce::int32_t"]
NAMES = ["p", "x", "y", "time", "size_", "data_", "a", "b", "c", "name_of_something_rather_long_to_use_some_space", "_u", "N1", "value", "values", "ab", "abc", "\u00e9t\u00e9", "\u03b1", "kind", "flags", "pos", "steps", "i0", "i1"]


def gsize(rng, t):
    """how many: mostly few, for small items also counts around the limits of narrow counters"""
    return rng.choice([17, 64, 127, 128, 255, 256, 257, 300, 700]) if t[0] in ("atom", "enum") and rng.random() < 0.12 else rng.randrange(1, 5)


def gtype(rng, depth, structs):
    k = rng.random()
    if k < 0.45 or depth > 3:
        return ["atom", rng.choice(ATOMS)]
    if k < 0.5:
        return ["enum"]
    if k < 0.62:
        t = gtype(rng, depth + 1, structs)
        return ["array", t, gsize(rng, t)]
    if k < 0.74:
        t = gtype(rng, depth + 1, structs)
        while t[0] == "array":  # a list's elements are not arrays
            t = t[1]
        return ["list", t, gsize(rng, t)]
    if k < 0.84:
        return ["vec", rng.choice(["int", "float", "short", "double", "unsigned"]), rng.choice([1, 2, 2, 3, 4])]
    if structs:
        return ["struct", rng.randrange(len(structs))]
    return ["atom", rng.choice(ATOMS)]


def generate(rng, n):
    structs = []
    for i in range(rng.choice([1, 1, 2, 3, 4])):
        if rng.random() < 0.15:
            structs.append(dict(as_=True, atom=rng.choice(["int", "float", "unsigned char", "double", "short"]), n=rng.randrange(1, 5)))
            continue
        k = rng.choice([1, 1, 2, 2, 3, 3, 4, 4, 6, 6, 9, 9, 15, 15, 40])
        names = rng.sample(NAMES + (["m%d" % j for j in range(60)] if k == 40 else []), k)
        fields = [[f, gtype(rng, 0, structs)] for f in names]
        bound = [f for f in names]
        how = rng.random()
        if how < 0.2:
            rng.shuffle(bound)
        elif how < 0.35 and len(bound) > 1:
            bound = rng.sample(bound, rng.randrange(1, len(bound)))
        structs.append(dict(as_=False, fields=fields, bound=bound, space=rng.randrange(5), ns=rng.random() < 0.3, base=rng.random() < 0.15))
    return dict(structs=structs)


def ctype(t, n, decl):
    if t[0] == "atom":
        return "%s %s" % (t[1], decl)
    if t[0] == "enum":
        return "En%d %s" % (n, decl)
    if t[0] == "array":
        return ctype(t[1], n, "%s[%d]" % (decl, t[2])) if t[1][0] != "array" else ctype(t[1], n, "%s[%d]" % (decl, t[2]))
    if t[0] == "list":
        inner = t[1]
        if inner[0] == "array":
            return "ce::list<ce::identity_t<%s>, %d> %s" % (ctype(inner, n, "").strip(), t[2], decl)
        return "ce::list<%s, %d> %s" % (ctype(inner, n, "").strip(), t[2], decl)
    if t[0] == "vec":
        return "ce::vec%d<%s> %s" % (t[2], t[1], decl)
    return "%s %s" % (sname(t[1], n), decl)


def sname(i, n):
    return "w%d::S%d" % (n, i)


def structure(d, n):
    """types and bindings at global scope"""
    out = ["enum class En%d : unsigned short { e0, e1, e2 = 500 };" % n]
    orc = []
    for i, s in enumerate(d["structs"]):
        full = sname(i, n)
        if s["as_"]:
            out.append("namespace w%d { struct S%d { %s %s; }; }" % (n, i, s["atom"], ", ".join("f%d" % k for k in range(s["n"]))))
            out.append("CE_IO_AS(%s, %s[%d]);" % (full, s["atom"], s["n"]))
            orc.append("template<> struct of<%s, void> { static void see(log& l, %s& v, bool w) { oracle::see(l, *reinterpret_cast<%s (*)[%d]>(&v), w); } static void fill(%s& v) { %s } };" % (full, full, s["atom"], s["n"], full, " ".join("oracle::fill(v.f%d);" % k for k in range(s["n"]))))
            continue
        fs = ["    %s;" % ctype(t, n, f) for f, t in s["fields"]]
        h = len(fs) // 2 if s["base"] else 0
        body = ""
        if s["base"]:
            body = "struct B%d {\n%s\n}; " % (i, "\n".join(fs[:h]))
        out.append("namespace w%d { %sstruct S%d%s {\n%s\n}; }" % (n, body, i, " : B%d" % i if s["base"] else "", "\n".join(fs[h:])))
        sep = [", ", ",", " , ", ",\n    ", " /* and */ , "][s["space"]]
        out.append("CE_IO_BIND(%s,%s%s%s);" % (full, "" if s["space"] == 1 else " ", sep.join(s["bound"]), "  " if s["space"] > 1 else ""))
        types = dict(s["fields"])
        orc.append("template<> struct of<%s, void> { static void see(log& l, %s& v, bool w) { l.push_back({ '{', \"\", 0, nullptr }); %s l.push_back({ '}', \"\", 0, nullptr }); }" % (full, full, " ".join("l.push_back({ 'n', \"%s\", 0, nullptr }); oracle::see(l, v.%s, w);" % (f, f) for f in s["bound"])))
        orc.append("static void fill(%s& v) { %s } };" % (full, " ".join("oracle::fill(v.%s);" % f for f in s["bound"])))
    return "\n".join(out), "\n".join(orc)


def emit(d, n):
    types, orc = structure(d, n)
    body = []
    last = len(d["structs"]) - 1
    for i in range(last, -1, -1):
        body.append("    oracle::test<%s>(r, ROUNDS);" % sname(i, n))
    decl = types + "\nnamespace oracle\n{\n" + orc + "\n}\nextern unsigned ROUNDS;"
    return decl, "\n".join(body)


def reduce(d):
    ss = d["structs"]
    used = set()

    def uses(t):
        if t[0] == "struct":
            used.add(t[1])
        if t[0] in ("array", "list"):
            uses(t[1])
    for s in ss:
        for _, t in s.get("fields", []):
            uses(t)
    if len(ss) > 1:
        yield dict(structs=ss[:-1])
        for i in range(len(ss)):
            if i not in used:
                def ren(t):
                    if t[0] == "struct":
                        return ["struct", t[1] - (t[1] > i)]
                    return [t[0], ren(t[1]), t[2]] if t[0] in ("array", "list") else t
                yield dict(structs=[dict(s, fields=[[f, ren(t)] for f, t in s["fields"]]) if not s["as_"] else s for k, s in enumerate(ss) if k != i])
    for i, s in enumerate(ss):
        def put(x):
            return dict(structs=ss[:i] + [x] + ss[i + 1:])
        if s["as_"]:
            if s["n"] > 1:
                yield put(dict(s, n=1))
            continue
        for f, t in s["fields"]:
            rest = [x for x in s["fields"] if x[0] != f]
            b = [x for x in s["bound"] if x != f]
            if rest and b:
                yield put(dict(s, fields=rest, bound=b))
        if s["base"]:
            yield put(dict(s, base=False))
        if s["space"]:
            yield put(dict(s, space=0))
        for j, (f, t) in enumerate(s["fields"]):
            sm = [["atom", "int"]] if t != ["atom", "int"] else []
            if t[0] in ("array", "list"):
                sm += [t[1], [t[0], t[1], 1] if t[2] > 1 else t[1], [t[0], ["atom", "int"], t[2]] if t[1] != ["atom", "int"] else t[1]]
            for x in sm:
                if x[0] == "list" and x[1][0] == "array":
                    continue
                yield put(dict(s, fields=s["fields"][:j] + [[f, x]] + s["fields"][j + 1:]))


def describe(d):
    return structure(d, 0)[0].replace("\n", " ")


def nontrivial(d):
    return sum(len(s.get("bound", [])) for s in d["structs"]) > 1


def labels(d):
    l = set()

    def go(t):
        l.add(t[0])
        if t[0] in ("array", "list"):
            go(t[1])
    for s in d["structs"]:
        if s["as_"]:
            l.add("as array")
        else:
            if s["base"]:
                l.add("derived")
            if s["bound"] != [f for f, _ in s["fields"]]:
                l.add("some members, or another order")
            for _, t in s["fields"]:
                go(t)
    return sorted(l)


def run(ctx):
    import common, sys
    mod = sys.modules[__name__]
    if ctx.get("replay"):
        return common.replay(ctx, mod, ctx["replay"])
    th = ctx["tier"] == "thorough"
    return common.run(ctx, mod, 3000 if th else 240, 8, ["dbg", "o2"], 2000 if th else 300)
