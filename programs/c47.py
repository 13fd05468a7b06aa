"""C47: the helper macros pick, join, quote, map, switch and count exactly the tokens they are given; the platform switches and basic types are what they say."""
import os, random, re
NAME = "C47"
LINK = False
PRELUDE = r'''#include "ce/ce.h"
#include <cstdio>
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <type_traits>
#define STR_(...) #__VA_ARGS__
#define STR(...) STR_(__VA_ARGS__)
#define GROUP(...) < __VA_ARGS__ >
#define TWICE(...) __VA_ARGS__ | __VA_ARGS__
#define WORD word and more
#define COMMAS 1, (2), three
#define YES 1
#define NO 0
#define ALSO_YES YES
'''
RT2 = r'''
// tokens without the spaces between them, which only count inside of strings
static std::string tokens(char const* s)
{
    std::string r; char q = 0;
    for (; *s; ++s) { if (!q && (*s == ' ' || *s == '\t' || *s == '\n')) { if (!r.empty() && (isalnum((unsigned char)r.back()) || r.back() == '_') && (isalnum((unsigned char)s[1]) || s[1] == '_')) r += ' '; continue; } if (q && *s == '\\') r += *s++; else if (q ? *s == q : (*s == '"' || *s == '\'')) q = q ? 0 : *s; r += *s; }
    return r;
}
static void text(R& r, char const* what, char const* got, char const* want) { r.same(what, tokens(got).c_str(), tokens(want).c_str()); }
template<int N> struct steps { int at[N + 1]; int n = 0; int hit(int i) { at[n++] = i; return i; } };
template<class S, class...T> static void fold_hit(S& s, T...t) { CE_FOLD_LEFT_COMMA(s.hit(t)); }
'''
IDS = ["a", "b1", "_x", "size", "longer_name", "Q", "i", "next", "value", "T"]
LITS = ["0", "12", "0x1f", "1.5", "\"a, b\"", "\"(\"", "','", "'\"'", "\"q\\\"\"", "')'"]
OPS = ["+", "-", "*", "->", "::", ".", "=", "<", "==", "!", "&", ";", "?", ":"]


def piece(rng, depth=0):
    """one argument: tokens without a comma outside of parentheses"""
    out = []
    for _ in range(rng.choice([1, 1, 1, 2, 3, 4])):
        k = rng.random()
        if k < 0.4:
            t = rng.choice(IDS)
        elif k < 0.6:
            t = rng.choice(LITS)
        elif k < 0.75 or depth > 2:
            t = rng.choice(OPS)
        elif k < 0.95:
            t = "(%s)" % ", ".join(piece(rng, depth + 1) for _ in range(rng.randrange(0, 4)))
        else:
            t = rng.choice(["[ i ]", "{ }"])
        out.append(t)
    return " ".join(out)


def generate(rng, n):
    d = dict(args=[piece(rng) for _ in range(rng.randrange(9, 14))], extra=rng.randrange(0, 3), join=[rng.choice(IDS), rng.choice(IDS + ["1", "23"]), [piece(rng) for _ in range(rng.randrange(0, 3))]],
             when=[], line=rng.randrange(1, 30000), file=rng.choice(["a.cpp", "dir/b.h", "with space.cpp", "C:/x/y.cc", "x"]), fold=[rng.randrange(-1000, 1000) for _ in range(rng.choice([0, 1, 2, 3, 7, 20]))],
             array=[rng.choice(["int", "char const*", "double", "std::string", "Own", "Own*", "unsigned char", "int(*)()"]), rng.randrange(1, 70000 if rng.random() < 0.1 else 60), rng.choice([0, 0, 1, 5])],
             count=[rng.choice(["1", "x", "'c'", "\"s, t\"", "f()", "Own{ 1 }", "Own{ 1 }.m", "(1, 2)", "nullptr", "x += 1", "&x", "std::string(\"a\")", "arr", "f", "(two<int, int>(1, 2))", "Own::bit", "moved()", "vol", "L\"w\"", "1ull"]) for _ in range(rng.choice([0, 1, 2, 3, 5, 9, 40, 300 if rng.random() < 0.1 else 12]))],
             rot=[rng.randrange(1 << 32), rng.randrange(0, 32)], mem=[rng.randrange(0, 300), rng.randrange(256)])
    for _ in range(rng.randrange(1, 4)):
        d["when"].append([rng.choice(["0", "1", "YES", "NO", "ALSO_YES"]), [piece(rng) for _ in range(rng.randrange(0, 3))], [piece(rng) for _ in range(rng.randrange(0, 3))]])
    return d


def q(s):
    return '"%s"' % s.replace("\\", "\\\\").replace('"', '\\"')


def emit(d, n):
    b, decl = [], []
    T = lambda what, got, want: b.append("text(r, %s, STR(%s), %s);" % (q(what), got, q(want)))
    a = d["args"]
    ls = ", ".join(a)
    for i in range(8):
        part = a[:i + 2 + d["extra"]] if d["extra"] < 2 else a
        T("CE_PP_GET_%d" % i, "CE_PP_GET_%d(%s)" % (i, ", ".join(part)), a[i])
        T("CE_PP_GET_%d through CE_PP_CALL" % i, "CE_PP_CALL(CE_PP_GET_%d, %s)" % (i, ", ".join(part)), a[i])
    T("CE_PP_MAP", "CE_PP_MAP(GROUP, %s)" % ls, " ".join("< %s >" % x for x in a[:7]) + " < %s >" % ", ".join(a[7:]))
    T("CE_PP_MAP to text", "CE_PP_MAP(TWICE, %s)" % ls, " ".join("%s | %s" % (x, x) for x in a[:7] + [", ".join(a[7:])]))
    T("CE_PP_PASS", "CE_PP_PASS(%s)" % ls, ls)
    T("CE_PP_PASS of nothing", "CE_PP_PASS()", "")
    T("CE_PP_ARGS", "CE_PP_ARGS(%s)" % ls, "(%s)" % ls)
    T("CE_PP_KILL", "x CE_PP_KILL(%s) y" % ls, "x y")
    T("CE_PP_CALL", "CE_PP_CALL(GROUP, %s)" % ls, "< %s >" % ls)
    T("CE_PP_GET_1 of arguments kept together", "CE_PP_PASS(CE_PP_GET_1 CE_PP_ARGS(%s))" % ls, a[1])
    b.append('text(r, "CE_PP_TEXT", CE_PP_TEXT(%s), %s);' % (ls, q(ls)))
    b.append('text(r, "CE_PP_TEXT of a macro", CE_PP_TEXT(WORD, COMMAS), "WORD, COMMAS"); text(r, "CE_PP_TEXT of nothing", CE_PP_TEXT(), "");')
    b.append('text(r, "CE_PP_CALL expands first", CE_PP_CALL(CE_PP_TEXT, WORD), "word and more"); text(r, "CE_PP_CALL spreads", STR(CE_PP_CALL(CE_PP_GET_1, COMMAS, x)), "(2)");')
    j0, j1, rest = d["join"]
    T("CE_PP_JOIN", "CE_PP_JOIN(%s)" % ", ".join([j0, j1] + rest), ", ".join([j0 + j1] + rest))
    T("CE_PP_JOIN in front of more tokens", "CE_PP_JOIN(%s, %s + 1)" % (j0, j1), j0 + j1 + " + 1")
    for c, x, y in d["when"]:
        on = c not in ("0", "NO")
        T("CE_PP_WHEN(%s)" % c, "[ CE_PP_WHEN(%s)(%s)(%s) ]" % (c, ", ".join(x), ", ".join(y)), "[ %s ]" % ", ".join(x if on else y))
    # where a line is
    decl.append("struct Own_%d { int m = 0; int b : 3; static constexpr int bit = 4; Own_%d(int x = 0) : m(x), b(0) { } };\nstruct moved_%d { moved_%d() { } moved_%d(moved_%d&&) = default; };\ntemplate<class A, class B> struct two_%d { A a; B b; two_%d(A x, B y) : a(x), b(y) { } };\nstatic int called_%d = 0; static int f_%d() { return ++called_%d; }" % ((n,) * 11))
    decl.append('#line %d "%s"\nstatic char const* const line_%d = CE_FILELINE;\n#line 1 "program.cpp"' % (d["line"], d["file"], n))
    b.append('r.same("CE_FILELINE", line_%d, "%s(%d)");' % (n, d["file"], d["line"]))
    # arrays and arguments
    t, k, k2 = d["array"]
    t = t.replace("Own", "Own_%d" % n)
    decl.append("using el_%d = %s; static el_%d arr_%d[%d]%s; static volatile short vol_%d;" % (n, t, n, n, k, "[%d]" % k2 if k2 else "", n))
    b.append('{ constexpr auto c = CE_COUNTOF(arr_%d); static_assert(std::is_same<decltype(c), ce::size_t const>::value, ""); char room[CE_COUNTOF(arr_%d)]; r.equal<long long>("items of an array", (long long)c, %d); r.equal<long long>("room", (long long)sizeof room, %d); auto const& w = arr_%d; r.equal<long long>("items of a const array", (long long)CE_COUNTOF(w), %d);%s }' % (n, n, k, k, n, k, ' r.equal<long long>("items of a row", (long long)CE_COUNTOF(arr_%d[0]), %d);' % (n, k2) if k2 else ""))
    args = [re.sub(r"\b(Own|two|f|arr|vol|moved)\b", lambda m: "%s_%d" % (m.group(1), n), x) for x in d["count"]]
    b.append('{ int x = 5; constexpr auto c = CE_COUNTOF_ARGS(%s); r.equal<long long>("number of arguments", (long long)c, %d); CE_REF(%s); r.equal("evaluated by counting", x * 10 + called_%d, 50); }' % (", ".join(args), len(args), ", ".join(args), n))
    # a pack, in order
    fo = d["fold"]
    b.append('{ steps<%d> s; fold_hit(s%s); int want[] = { %s 0 }; r.equal("steps", s.n, %d); for (int i = 0; i < %d; ++i) r.equal("step", s.at[i], want[i]); }' % (len(fo), "".join(", %d" % x for x in fo), "".join("%d, " % x for x in fo), len(fo), len(fo)))
    # plain operations
    x, y = d["rot"]
    b.append('{ volatile unsigned x = %du; volatile int k = %d; r.equal<unsigned>("CE_ROTL32", CE_ROTL32(x, k), %du); }' % (x, y, (x << y | x >> (32 - y)) & 0xffffffff))
    m, c = d["mem"]
    b.append('{ char p[302], s[302]; memset(p, 7, sizeof p); for (int i = 0; i < 302; ++i) s[i] = char(1 + i %% 100); CE_MEMCPY(p + 1, s, %d); bool ok = p[0] == 7; for (int i = 0; i < 301; ++i) ok &= p[i + 1] == (i < %d ? s[i] : 7); r.check("CE_MEMCPY", ok); s[%d] = 0; r.equal<long long>("CE_STRLEN", (long long)CE_STRLEN(s), %d); CE_MEMSET(p + 1, %d, %d); ok = p[0] == 7; for (int i = 0; i < %d; ++i) ok &= p[i + 1] == char(%d); r.check("CE_MEMSET", ok && p[%d] == 7); }' % (m, m, m, m, c, m, m, c, m + 1))
    b.append('{ auto t0 = CE_TIMESTAMP(); auto t1 = CE_TIME_STAMP(); r.check("CE_TIMESTAMP", t1 >= t0 && t0 != 0 && std::is_same<decltype(t0), ce::uint64_t>::value); }')
    b.append('r.check("platform", CE_API_WIN32 + CE_API_POSIX + CE_API_UNKNOWN == 1 && CE_API_POSIX == 1 && CE_CPU_X86_64 == (sizeof(void*) == 8) && CE_CPU_X86 == 1 && CE_CPU_X86_32 + CE_CPU_X86_64 == 1 && CE_CPU_WASM == 0 && CE_CPU_WASM_32 == 0 && CE_CPU_WASM_64 == 0);')
    for w in (8, 16, 32, 64):
        b.append('r.check("basic types", sizeof(ce::int%d_t) == %d && sizeof(ce::uint%d_t) == %d && std::is_signed<ce::int%d_t>::value && std::is_unsigned<ce::uint%d_t>::value);' % (w, w // 8, w, w // 8, w, w))
    b.append('r.check("size types", std::is_same<ce::size_t, std::size_t>::value && std::is_same<ce::ptrdiff_t, std::ptrdiff_t>::value && std::is_same<ce::uint, unsigned>::value);')
    return "\n".join(decl), "    " + "\n    ".join(b)


def reduce(d):
    for i in range(len(d["when"])):
        yield dict(d, when=d["when"][:i] + d["when"][i + 1:])
    if len(d["args"]) > 9:
        yield dict(d, args=d["args"][:9])
    for i, x in enumerate(d["args"]):
        if x != "abcdefghijklmn"[i]:
            yield dict(d, args=d["args"][:i] + ["abcdefghijklmn"[i]] + d["args"][i + 1:])
    for k, v in (("count", []), ("fold", []), ("join", ["a", "b1", []]), ("array", ["int", 1, 0]), ("rot", [1, 0]), ("mem", [0, 0]), ("file", "x"), ("line", 1)):
        if d[k] != v:
            yield dict(d, **{k: v})
    for k in ("count", "fold"):
        if len(d[k]) > 1:
            yield dict(d, **{k: d[k][:len(d[k]) // 2]})
            yield dict(d, **{k: d[k][len(d[k]) // 2:]})


def describe(d):
    return "arguments %s; join %s; when %s; %s(%d); %d folded; %s[%d][%d]; counted (%s)" % (" , ".join(d["args"]), d["join"], d["when"], d["file"], d["line"], len(d["fold"]), d["array"][0], d["array"][1], d["array"][2], ", ".join(d["count"][:12]))


def nontrivial(d):
    return any("(" in x or '"' in x for x in d["args"])


def labels(d):
    l = ["%d arguments" % len(d["args"]), "array of over 255" if d["array"][1] > 255 else "short array"]
    if any("," in x for x in d["args"]):
        l.append("commas inside of arguments")
    return l + ["when " + w[0] for w in d["when"]]


# ---- conditions that have to hold at compile time: exactly the false ones are reported
def condition(rng, depth=0):
    """(text, truth)"""
    k = rng.random()
    if depth > 2 or k < 0.4:
        a, b = rng.randrange(-50, 50), rng.randrange(-50, 50)
        if rng.random() < 0.3:
            b = a
        op = rng.choice(["==", "!=", "<", "<=", ">", ">="])
        return "%d %s %d" % (a, op, b), eval("%d %s %d" % (a, op, b))
    if k < 0.5:
        v = rng.choice([True, False])
        return ("true" if v else "false"), v
    if k < 0.6:
        v = rng.choice([True, False])
        return ("ce::is_same<int, %s>::value" % ("int" if v else "long")), v
    if k < 0.7:
        a = rng.randrange(3)
        return "%d" % a if depth == 0 else "(%d)" % a, a != 0
    if k < 0.8:
        x, v = condition(rng, depth + 1)
        return "!(%s)" % x, not v
    x, v = condition(rng, depth + 1)
    y, w = condition(rng, depth + 1)
    return ("(%s) && (%s)" % (x, y), v and w) if rng.random() < 0.5 else ("(%s) || (%s)" % (x, y), v or w)


def asserts(ctx, n):
    """one program with n conditions; returns (evaluations, failure or None)"""
    rng = random.Random("asserts %d" % ctx["seed"])
    lines, want = ['#include "ce/ce.h"'], {}
    for i in range(n):
        x, v = condition(rng)
        msg = rng.choice(["", "", ', "it has to hold"'])
        form = rng.choice(["CE_STATIC_ASSERT(%s%s);", "struct s%d { CE_STATIC_ASSERT(%%s%%s); };" % i, "inline void f%d() { CE_STATIC_ASSERT(%%s%%s); }" % i, "namespace n%d { CE_STATIC_ASSERT(%%s%%s); }" % i])
        lines.append(form % (x, msg))
        want[len(lines)] = v
    path = os.path.join(ctx["build"], "asserts.cpp")
    open(path, "w").write("\n".join(lines) + "\n")
    r = ctx["sh"]([ctx["cxx"], "-std=c++17", "-Wno-enum-constexpr-conversion", "-w", "-I" + os.path.join(ctx["repo"], "lib/h"), "-ferror-limit=0", "-fsyntax-only", "-fno-caret-diagnostics", path])
    failed = set(int(x) for x in re.findall(r"asserts\.cpp:(\d+):\d+: error: static assertion failed", r.stdout))
    other = [x for x in r.stdout.split("\n") if " error: " in x and "static assertion failed" not in x and not x.startswith("fatal")]
    for ln, v in sorted(want.items()):
        if (ln in failed) == v:
            return n, "%s is %s but %s: %s" % (lines[ln - 1], "true" if v else "false", "rejected" if v else "accepted", ""), lines[ln - 1]
    if other:
        return n, "does not compile: " + other[0], "\n".join(lines)
    return n, None, None


def run(ctx):
    import common, sys
    mod = sys.modules[__name__]
    if ctx.get("replay"):
        t = open(ctx["replay"]).read()
        if t.startswith("asserts"):
            n = int(t.split("\n")[0].split()[1])
            ctx["seed"] = int(t.split("\n")[1].split()[1])
            e, f, l = asserts(ctx, n)
            print(f or "passed")
            return 1 if f else 0
        return common.replay(ctx, mod, ctx["replay"])
    th = ctx["tier"] == "thorough"
    r = common.run(ctx, mod, 30000 if th else 1500, 25, ["o0", "o2"], 1)
    n = 20000 if th else 2000
    e, f, l = asserts(ctx, n)
    r["results"].append(dict(config="static asserts", cases=e, evaluations=e, nontrivial=e, distinct=0, discards=0, wall=0, labels={"static assert conditions": e}, samples=[]))
    if f:
        rep = os.path.join(ctx["out"], "replay-asserts.txt")
        open(rep, "w").write("asserts %d\nseed %d\nfailure %s\n--- line\n%s\n" % (n, ctx["seed"], f, l))
        print("FAILURE static assert: %s" % f)
        r["fails"].append((rep, f))
    return r
