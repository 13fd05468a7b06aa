"""C43: type lists, type traits, integer sequences and small aggregates agree with their definitions (the standard library's, the generator's)."""
NAME = "C43"
LINK = False
PRELUDE = r'''#include "ce/ce.h"
#include <type_traits>
#include <utility>
#include <cstddef>
#include <cstdio>
#include <cstdint>
#include <string>
struct plain { int a; }; struct wide { long a, b; }; struct wider { long a, b; char c; }; struct tricky { int a; tricky(tricky const&); ~tricky(); }; struct copies { short a; copies(copies const&) = default; virtual void f(); }; union both { int a; float b; }; struct unfinished; class secret { int a; }; struct none { };
enum e_plain { e0, e1 = 70000 }; enum class e_class { x }; enum class e_char : char { x }; enum e_long : unsigned long long { l0 }; enum class e_bool : bool { x };
template<class...> struct box_of { };
namespace oracle
{
    template<size_t N> struct bytes { char a[N]; };
    template<class T, class S> struct seq_of; template<class T, size_t...I> struct seq_of<T, std::index_sequence<I...>> { using type = ce::items<T, T(I)...>; };
    template<bool B, class T, class = void> struct on : std::false_type { }; template<bool B, class T> struct on<B, T, std::void_t<ce::enable_t<B, T>>> : std::bool_constant<std::is_same_v<ce::enable_t<B, T>, T>> { };
    template<class V, class...T> struct on_same : std::false_type { }; template<class T, class...Ts> struct on_same<std::void_t<ce::enable_same_t<T, Ts...>>, T, Ts...> : std::bool_constant<std::is_same_v<ce::enable_same_t<T, Ts...>, T>> { };
    template<class V, size_t N, class...T> struct in_range : std::false_type { }; template<size_t N, class...T> struct in_range<std::void_t<ce::select_t<N, T...>>, N, T...> : std::true_type { };
    template<class A, class B> constexpr bool is = std::is_same_v<A, B>;
}
'''
LEAF = ["int", "char", "signed char", "unsigned char", "long", "unsigned long", "long long", "double", "float", "bool", "short", "std::nullptr_t", "plain", "wide", "wider", "tricky", "copies", "both", "secret", "none", "e_plain", "e_class", "e_char", "e_long", "e_bool",
        "box_of<int>", "box_of<int, int>", "oracle::bytes<15>", "oracle::bytes<16>", "oracle::bytes<17>", "unfinished", "void", "int(int)", "void()", "plain(plain const&, ...)"]
WRAP = ["const", "volatile", "const volatile", "*", "* const", "* volatile", "* const volatile", "&", "&&", "[3]", "[]", "plain::*"]
SEQT = ["size_t", "int", "unsigned char", "char", "long long", "short", "unsigned", "signed char"]
VALS = ["int", "char", "double", "bool", "unsigned long long", "short", "float", "long"]


def state(t):
    """'ok' complete object, 'void', 'func', 'ref', 'open' (incomplete or unbounded array); None if the type cannot be formed"""
    s = "void" if t[0] == "void" else "func" if t[0].endswith(")") else "open" if t[0] == "unfinished" else "ok"
    for w in t[1:]:
        if w in ("const", "volatile", "const volatile"):
            continue
        if w[0] == "*":
            if s == "ref":
                return None
            s = "ok"
        elif w[0] == "&":
            if s == "void":
                return None
            s = "ref"
        elif w[0] == "[":
            if s != "ok":
                return None
            s = "ok" if w != "[]" else "open"
        else:
            if s in ("ref", "void"):
                return None
            s = "ok"
    return s


def gtype(rng):
    while True:
        t = [rng.choice(LEAF)] + [rng.choice(WRAP) for _ in range(rng.choice([0, 0, 1, 1, 1, 2, 2, 3, 4]))]
        if state(t):
            return t


def value(rng, t):
    return rng.choice([0, 1]) if t == "bool" else rng.randrange(-100, 100) if t not in ("unsigned long long",) else rng.randrange(1 << 40)


def member(rng, depth=0):
    k = rng.random()
    if k < 0.7 or depth > 1:
        t = rng.choice(VALS)
        return [t, value(rng, t)]
    if k < 0.8:
        return ["e_plain", rng.choice([0, 70000])]
    if k < 0.9:
        return ["int const*", rng.randrange(8)]
    return ["agg", [member(rng, depth + 1) for _ in range(rng.randrange(1, 4))], bool(rng.randrange(2))]


def generate(rng, n):
    d = dict(types=[], seq=[rng.choice(SEQT), 0], agg=None, args=[], array=None)
    pool = [gtype(rng) for _ in range(rng.randrange(1, 4))]
    long = rng.random() < 0.1
    for _ in range(rng.randrange(8, 50) if long else rng.choice([0, 1, 1, 2, 3, 4, 6])):
        d["types"].append(list(rng.choice(pool)) if rng.random() < 0.5 and not long else gtype(rng))
    if long:  # long lists of all the same, or whose first type comes again only at the very end
        if rng.random() < 0.3:
            d["types"] = [list(d["types"][0]) for _ in d["types"]]
        first = d["types"][0]
        d["types"][1:] = [t for t in d["types"][1:] if t != first or rng.random() < 0.3] + [list(first)] if rng.random() < 0.7 else d["types"][1:]
    lim = 127 if "char" in d["seq"][0] else 2500
    k = rng.random()
    m = rng.randrange(12) if k < 0.5 else rng.randrange(300) if k < 0.9 else rng.randrange(2500)
    if k > 0.6 and rng.random() < 0.3:
        m = (1 << rng.randrange(1, 11)) + rng.randrange(-1, 2)
    d["seq"][1] = min(m, lim)
    d["agg"] = [[member(rng) for _ in range(rng.randrange(1, 5))], rng.choice([0, 1, 2, 2])]  # 0 a ce::tuple, 1 a ce::box / ce::pair where it can be, 2 a struct
    d["args"] = [member(rng) for _ in range(rng.choice([0, 1, 2, 5, 12, 40]))]
    d["array"] = [rng.choice(["int", "plain", "char", "double", "int*"]), rng.randrange(1, 3000), rng.choice([0, 0, 2])]
    d["swap"] = [member(rng), None]
    d["swap"][1] = [d["swap"][0][0], value(rng, d["swap"][0][0])] if d["swap"][0][0] in VALS else d["swap"][0]
    return d


class Out:
    def __init__(self, n):
        self.n, self.decl, self.k = n, [], 0

    def mtype(self, m):
        if m[0] == "agg":
            self.k += 1
            name = "A%d_%d" % (self.n, self.k)
            ts = [self.mtype(x) for x in m[1]]
            self.decl.append("struct %s { %s bool operator==(%s const& o) const { return %s; } };" % (name, " ".join("%s%s m%d;" % (t, " const" if m[2] and i == 0 else "", i) for i, t in enumerate(ts)), name, " && ".join("m%d == o.m%d" % (i, i) for i in range(len(ts)))))
            return name
        return m[0]

    def mval(self, m, t):
        if m[0] == "agg":
            # members' own types in the order they were declared
            return "%s{ %s }" % (t, ", ".join(self.inner(x) for x in m[1]))
        if m[0] == "int const*":
            return "(numbers + %d)" % m[1]
        if m[0] == "e_plain":
            return "e_plain(%d)" % m[1]
        return "%s(%d%s)" % (m[0] if " " not in m[0] else "ce::uint64_t", m[1], "ull" if "long long" in m[0] else "")

    def inner(self, m):
        return "{ %s }" % ", ".join(self.inner(x) for x in m[1]) if m[0] == "agg" else self.mval(m, None)


def emit(d, n):
    o, b = Out(n), []
    o.decl.append("static int const numbers_%d[8]{ };" % n)
    names = []
    for i, t in enumerate(d["types"]):
        cur = t[0]
        for j, w in enumerate(t[1:]):
            o.decl.append("using t%d_%d_%d = %s;" % (n, i, j, cur))
            b0 = "t%d_%d_%d" % (n, i, j)
            cur = "int %s::*" % "plain" if False else ("%s plain::*" % b0 if w == "plain::*" else "%s %s" % (b0, w))
        nm = "t%d_%d" % (n, i)
        o.decl.append("using %s = %s;" % (nm, cur))
        names.append(nm)
        for tr in ("remove_reference", "remove_const", "remove_volatile", "remove_cv", "remove_pointer"):
            b.append('r.check("%s of %s", oracle::is<ce::%s_t<%s>, std::%s_t<%s>>);' % (tr, show(t), tr, nm, tr, nm))
        b.append('r.check("remove_cvref of %s", oracle::is<ce::remove_cvref_t<%s>, std::remove_cv_t<std::remove_reference_t<%s>>>);' % (show(t), nm, nm))
        b.append('r.check("identity_t of %s", oracle::is<ce::identity_t<%s>, %s>);' % (show(t), nm, nm))
        b.append('r.check("is_ptr of %s", ce::is_ptr<%s>::value == std::is_pointer_v<std::remove_reference_t<%s>>);' % (show(t), nm, nm))
        if state(t) in ("ok", "ref"):
            b.append('r.check("is_enum of %s", ce::is_enum<%s>::value == std::is_enum_v<%s>);' % (show(t), nm, nm))
        if t[0].startswith("e_") and all(w in ("const", "volatile", "const volatile") for w in t[1:]):
            b.append('r.check("underlying type of %s", oracle::is<ce::underlying_type_t<%s>, std::underlying_type_t<%s>>);' % (show(t), nm, nm))
        if state(t) == "ok":
            b.append('r.check("passing %s", oracle::is<ce::best_pass_by_value_t<%s>, std::conditional_t<std::is_trivially_copyable_v<%s> && sizeof(%s) <= 16, %s, %s const&>>);' % (show(t), nm, nm, nm, nm, nm))
        b.append('r.check("enabling %s", oracle::on<true, %s>::value && !oracle::on<false, %s>::value);' % (show(t), nm, nm))
    ls = ", ".join(names)
    sep = ", " if names else ""
    b.append('r.check("number of types", ce::types<%s>::count == %d);' % (ls, len(names)))
    b.append('r.check("first of no types", oracle::is<ce::car_t<>, void> && oracle::is<ce::cdr_t<>, void>);')
    if names:
        b.append('r.check("first type", oracle::is<ce::car_t<%s>, %s>);' % (ls, names[0]))
        b.append('r.check("other types", oracle::is<ce::cdr_t<%s>, ce::types<%s>>);' % (ls, ", ".join(names[1:])))
        same = " && ".join("oracle::is<%s, %s>" % (names[0], x) for x in names)
        b.append('r.check("are_same", ce::are_same_v<%s> == (%s) && ce::are_same<%s>::value == (%s));' % (ls, same, ls, same))
        b.append('r.check("enable_same_t", oracle::on_same<void, %s>::value == (%s));' % (ls, same))
        b.append('r.check("is_same", ce::is_same_v<%s, %s> == oracle::is<%s, %s> && ce::is_same<%s, %s>::value == oracle::is<%s, %s>);' % ((names[0], names[-1]) * 4))
        rest = " || ".join("oracle::is<%s, %s>" % (names[0], x) for x in names[1:]) or "false"
        b.append('r.check("has", ce::has_v<%s> == (%s) && ce::has<%s>::value == (%s));' % (ls, rest, ls, rest))
        b.append('r.check("cond_t", oracle::is<ce::cond_t<true, %s, struct other>, %s> && oracle::is<ce::cond_t<false, struct other, %s>, %s>);' % (names[0], names[0], names[0], names[0]))
    for i, x in enumerate(names):
        b.append('r.check("select_t", oracle::is<ce::select_t<%d, %s>, %s>);' % (i, ls, x))
    b.append('r.check("select_t out of range", !oracle::in_range<void, %d%s%s>::value);' % (len(names), sep, ls))
    b.append('r.check("are_same of nothing", !ce::are_same_v<> && !ce::has_v<>);')
    t, k = d["seq"]
    b.append('r.check("sequence_t<%s, %d>", oracle::is<ce::sequence_t<%s, %d>, typename oracle::seq_of<%s, std::make_index_sequence<%d>>::type> && oracle::is<typename ce::sequence<%s, %d>::type, ce::sequence_t<%s, %d>> && ce::sequence_t<%s, %d>::count == %d);' % ((t, k) * 6 + (k,)))
    if k:
        vs = ["static_cast<%s>(%d)" % (t, (i * 37 + k) % 100) for i in range(min(k, 9))]
        b.append('{ auto& v = ce::items_v<%s, %s>; r.check("items_v", sizeof v == %d * sizeof(%s) && %s); }' % (t, ", ".join(vs), len(vs), t, " && ".join("v[%d] == %s" % (i, x) for i, x in enumerate(vs))))
        b.append('r.check("one item", ce::items<%s, %s>::value == %s && ce::items<%s, %s>::count == 1);' % (t, vs[0], vs[0], t, vs[0]))
    # aggregates
    ms, how = d["agg"]
    b.append("auto& numbers = numbers_%d; (void)numbers;" % n)
    ts = [o.mtype(m) for m in ms]
    if how == 2:
        o.decl.append("struct G%d { %s };" % (n, " ".join("%s m%d;" % (x, i) for i, x in enumerate(ts))))
        g = "G%d" % n
    else:
        g = "ce::tuple<%s>" % ", ".join(ts)
        if how == 1 and len(ts) < 3:
            g = "ce::%s<%s>" % ("box" if len(ts) == 1 else "pair", ", ".join(ts))
            b.append('r.check("box and pair are tuples", oracle::is<%s, ce::tuple<%s>>);' % (g, ", ".join(ts)))
        b.append('r.check("number of tuple members", %s::count == %d && ce::tuple<>::count == 0);' % (g, len(ts)))
    vals = [o.mval(m, t) for m, t in zip(ms, ts)]
    b.append("%s const g{ %s };" % (g, ", ".join(vals)))
    for i, v in enumerate(vals):
        fld = "g.m%d" % i if how == 2 else "g._%d" % i
        b.append('{ auto v = ce::get<%d>(g); r.check("type of get<%d>", oracle::is<decltype(v), %s>); r.check("value of get<%d>", v == %s && %s == %s); }' % (i, i, ts[i], i, v, fld, v))
    # counting
    args = [o.mval(m, o.mtype(m)) for m in d["args"]]
    b.append('r.check("number of arguments", CE_COUNTOF_ARGS(%s) == %d);' % (", ".join(args), len(args)))
    t, k, k2 = d["array"]
    b.append('{ static %s v[%d]%s; r.check("items of an array", CE_COUNTOF(v) == %d); auto const& w = v; r.check("items of a const array", CE_COUNTOF(w) == %d); }' % (t, k, "[%d]" % k2 if k2 else "", k, k))
    m0, m1 = d["swap"]
    if not (m0[0] == "agg" and has_const(m0)):
        t0 = o.mtype(m0)
        b.append('{ %s x = %s; %s y = %s; ce::swap(x, y); r.check("swap", x == %s && y == %s); ce::swap(x, x); r.check("swap with itself", x == %s); }' % (t0, o.mval(m0, t0), t0, o.mval(m1, t0), o.mval(m1, t0), o.mval(m0, t0), o.mval(m1, t0)))
    return "\n".join(o.decl), "    " + "\n    ".join(b)


def has_const(m):
    return m[0] == "agg" and (m[2] or any(has_const(x) for x in m[1]))


def show(t):
    return " ".join(t)


def reduce(d):
    for i in range(len(d["types"])):
        yield dict(d, types=d["types"][:i] + d["types"][i + 1:])
    for i, t in enumerate(d["types"]):
        for j in range(1, len(t)):
            u = t[:j] + t[j + 1:]
            if state(u):
                yield dict(d, types=d["types"][:i] + [u] + d["types"][i + 1:])
        if t[0] != "int" and state(["int"] + t[1:]):
            yield dict(d, types=d["types"][:i] + [["int"] + t[1:]] + d["types"][i + 1:])
    t, k = d["seq"]
    for x in (0, k // 2, k - 1):
        if 0 <= x < k:
            yield dict(d, seq=[t, x])
    if t != "size_t":
        yield dict(d, seq=["size_t", k])
    ms, how = d["agg"]
    if len(ms) > 1:
        for i in range(len(ms)):
            yield dict(d, agg=[ms[:i] + ms[i + 1:], how])
    for i, m in enumerate(ms):
        if m != ["int", 1]:
            yield dict(d, agg=[ms[:i] + [["int", 1]] + ms[i + 1:], how])
    if d["args"]:
        yield dict(d, args=d["args"][:len(d["args"]) // 2])
        yield dict(d, args=d["args"][1:])
    if d["array"] != ["int", 1, 0]:
        yield dict(d, array=["int", 1, 0])
    if d["swap"] != [["int", 1], ["int", 2]]:
        yield dict(d, swap=[["int", 1], ["int", 2]])


def describe(d):
    return "types {%s}; sequence %s %d; aggregate %s of %s; %d arguments; array %s; swap %s" % ("; ".join(show(t) for t in d["types"]), d["seq"][0], d["seq"][1], ["tuple", "box or pair", "struct"][d["agg"][1]], d["agg"][0], len(d["args"]), d["array"], d["swap"])


def nontrivial(d):
    return len(d["types"]) > 1 or d["seq"][1] > 2


def labels(d):
    l = set(w for t in d["types"] for w in t[1:])
    l.add("%d members" % len(d["agg"][0]))
    l.add("sequence of over 255" if d["seq"][1] > 255 else "short sequence")
    return sorted(l)


def run(ctx):
    import common, sys
    mod = sys.modules[__name__]
    if ctx.get("replay"):
        return common.replay(ctx, mod, ctx["replay"])
    th = ctx["tier"] == "thorough"
    return common.run(ctx, mod, 40000 if th else 1600, 25, ["o0", "o2"], 1)
