"""C45: log and check statements do as configured wherever a statement or expression may stand."""
import random
NAME = "C45"
PRELUDE = r'''#include "ce/ce.h"
#include <csignal>
#include <utility>
#include <string>
#include <vector>
struct record { bool error; int level; std::vector<std::pair<std::string, std::string>> kv; bool closed; };
static std::vector<record> records; static bool answer; static int ticks; static volatile sig_atomic_t breaks;
static void keep(bool e, int level, int argc, char const* argv[][2])
{
    record r{ e, level, { }, argv[argc][0] == nullptr && argv[argc][1] == nullptr };
    for (int i = 0; i < argc; ++i) r.kv.push_back({ argv[i][0] ? argv[i][0] : "(null)", argv[i][1] ? argv[i][1] : "(null)" });
    if (!e && r.kv.size() > 0 && r.kv[0].first.compare(0, 3, "CE_") == 0) return; // a failed check may be logged, too
    records.push_back(r);
}
void cap_log(int level, int argc, char const* argv[][2]) { keep(false, level, argc, argv); }
bool cap_error(int level, int argc, char const* argv[][2]) { keep(true, level, argc, argv); return answer; }
static void on_trap(int) { breaks = breaks + 1; }
using kvs = std::vector<std::pair<std::string, std::string>>;
static int tick(int v) { ++ticks; return v; }
static std::string at(int line) { return std::string(__FILE__) + "(" + std::to_string(line) + ")"; }
template<int A, int B> static int sum(int c) { return A + B + c; }
struct place { int line = 0, value = -1; };
#define HERE(P) P.line = __LINE__;
'''
HOOKS = '''#pragma once
void cap_log(int level, int argc, char const* argv[][2]);
bool cap_error(int level, int argc, char const* argv[][2]);
#define CE_USER_LOG_HOOK(LEVEL, ARGC, ...) ::cap_log(LEVEL, ARGC, __VA_ARGS__)
#define CE_USER_ERROR_HOOK(LEVEL, ARGC, ...) ::cap_error(LEVEL, ARGC, __VA_ARGS__)
'''
CONFIG = {"L1E1": (1, 1), "L0E1": (0, 1), "L1E0": (1, 0), "L0E0": (0, 0), "default": (1, 1)}
LEVELS = {"fatal": 0, "fail": 0, "error": 1, "warn": 2, "note": 3, "info": 4, "debug": 5, "spam": 6, "more": 7, "other": 7, "my_level": 7, "_7": 7}
VOID_CTX = ["plain", "if", "else", "for", "lambda", "template", "comma", "ternary", "switch", "static", "member", "ctor", "dtor", "class template", "default argument", "noexcept", "generic lambda", "while", "semi"]
BOOL_CTX = ["=", "if", "return", "!", "?:", "&&", "&& after", "||", "==", "while", "argument", "template", "member", "static"]


def defines(mode, build):
    c = mode.split("-")[1]
    out = ['-DCE_USER_INCLUDE="c45_hooks.h"', "-I" + build]
    if c != "default":
        l, e = CONFIG[c]
        out += ["-DCE_USER_LOG_LEVEL=%d" % l, "-DCE_USER_ERROR_LEVEL=%d" % e]
    return out


def T(*ts):
    """tokens with single spaces between"""
    return [[1 if i else 0, t] for i, t in enumerate(ts)]


def cat(*parts):
    out = []
    for p in parts:
        out += [list(x) for x in (p if isinstance(p, list) else [[0, p]])]
    return out


def sp(p):
    p = [list(x) for x in p]
    p[0][0] = 1
    return p


def text(tokens):
    return "".join((" " if s and i else "") + t for i, (s, t) in enumerate(tokens))


def src(tokens, rng):
    return "".join((rng.choice([" ", " ", "  ", "\t", " /* , */ "]) if s else "") + t for s, t in tokens)


def num(v):
    return [[0, str(v)]] if v >= 0 else [[0, "-"], [0, str(-v)]]


class G:
    """expressions: (tokens, python value, ticks, safe in unevaluated operands)"""
    def __init__(self, rng, v):
        self.r, self.v = rng, v

    def int_(self, d, lam=False):
        r = self.r
        k = r.randrange(17 if d > 0 else 3)
        if k == 0:
            x = r.randrange(1000)
            if r.random() < 0.2:
                x, t = r.choice([(1000, "1'000"), (10000, "1'0'0'0'0"), (31, "0x1'F"), (2, "0b1'0"), (8, "01'0")])
                return [[0, t]], x, 0
            return num(x), x, 0
        if k in (1, 2):
            n = r.choice(["a", "b", "o.x", "o.in.y", "arr[1]"])
            t = {"a": [[0, "a"]], "b": [[0, "b"]], "o.x": cat("o", ".", "x"), "o.in.y": cat("o", ".", "in", ".", "y"), "arr[1]": cat("arr", "[", "1", "]")}[n]
            return t, self.v[n], 0
        if k in (3, 4):
            (t, x, n), (u, y, m) = self.int_(d - 1), self.int_(d - 1)
            op = r.choice("+-*")
            if abs(x) > 30000 or abs(y) > 30000:
                op = "+"
            w = {"+": x + y, "-": x - y, "*": x * y}[op]
            if abs(w) < 10 ** 9:
                one = r.flip()
                return cat("(", t, [[one, op]], [[one, "("]], u, ")", ")"), w, n + m
        if k == 5:
            (t, x, n), (u, y, m) = self.int_(d - 1), self.int_(d - 1)
            return cat("(", t, [[r.flip(), ","]], [[r.flip(), "("]], u, ")", ")"), y, n + m
        if k in (6, 7):
            t, x, n = self.int_(d - 1)
            return cat("tick", [[r.flip(), "("]], t, ")"), x, n + 1
        if k == 8:
            (t, x, n), (u, y, m) = self.int_(d - 1), self.int_(d - 1)
            return cat("(", "std", "::", "pair", "<", "int", ",", sp([[0, "int"]]), ">", "{", sp(t), ",", sp(u), sp([[0, "}"]]), ".", "second", ")"), y, n + m
        if k == 9:
            (c, x, n), (t, y, m), (u, z, o) = self.bool_(d - 1), self.int_(d - 1), self.int_(d - 1)
            return cat("(", c, sp([[0, "?"]]), sp(t), sp([[0, ":"]]), sp(u), ")"), y if x else z, n + (m if x else o)
        if k == 10:
            t, x, n = self.int_(d - 1)
            return cat("int", "{", t, "}"), x, n
        if k == 11:
            i = r.randrange(3)
            return cat("arr", "[", "(", "7", ",", sp(num(i)), ")", "]"), self.v["arr"][i], 0
        if k == 12:
            c = r.choice(["','", "'\"'", "'('", "'\\''", "')'", "'}'", "'\\\\'", "'x'"])
            return cat("int", "(", c, ")"), ord(eval(c)), 0
        if k == 13 and r.flip():
            s, n = r.choice([('R"(5" disk)"', 8), ('R"x(a)" , )x"', 7), ('u8R"(\\)"', 2), ('R"(,")"', 3), ('u8"a,"', 3)])
            return cat("int", "(", "sizeof", "(", s, ")", ")"), n, 0
        if k == 13:
            s = r.choice(['"a,b"', '")("', '"\\""', '"\\\\"', '"[,{"', '""', '"it\'s"', '"// no"', '"/*"'])
            return cat("int", "(", "sizeof", "(", s, ")", ")"), len(eval(s)) + 1, 0
        if k == 14:
            t, x, n = self.int_(d - 1)
            return cat("(", "sum", "<", "1", ",", sp([[0, "2"]]), ">", "(", t, ")", ")"), x + 3, n
        if k == 15 and lam:
            (t, x, n), (u, y, m) = self.int_(d - 1), self.int_(d - 1)
            return cat("[", "]", "(", T("int", "p"), ",", sp(T("int", "q")), ")", T("{", "return", "p"), sp([[0, "-"]]), sp([[0, "q"]]), ";", sp([[0, "}"]]), "(", t, ",", sp(u), ")"), x - y, n + m
        t, x, n = self.int_(d - 1) if d else (num(4), 4, 0)
        return cat("(", t, ")"), x, n

    def bool_(self, d, lam=False):
        r = self.r
        k = r.randrange(9 if d > 0 else 2)
        if k == 0:
            x = r.flip()
            return [[0, "true" if x else "false"]], x, 0
        if k == 1:
            n = r.choice("fg")
            return [[0, n]], self.v[n], 0
        if k in (2, 3, 4):
            (t, x, n), (u, y, m) = self.int_(d - 1, lam), self.int_(d - 1, lam)
            op = r.choice(["==", "!=", "<=", ">="])
            return cat(t, sp([[0, op]]), sp(u)), {"==": x == y, "!=": x != y, "<=": x <= y, ">=": x >= y}[op], n + m
        if k == 5:
            t, x, n = self.bool_(d - 1, lam)
            return cat("!", "(", t, ")"), not x, n
        if k == 6:
            (t, x, n), (u, y, m) = self.bool_(d - 1, lam), self.bool_(d - 1, lam)
            o = r.flip()
            if o:
                return cat("(", t, ")", sp([[0, "&&"]]), sp([[0, "("]]), u, ")"), x and y, n + (m if x else 0)
            return cat("(", t, ")", sp([[0, "||"]]), sp([[0, "("]]), u, ")"), x or y, n + (0 if x else m)
        if k == 7:
            t, x, n = self.int_(d - 1, lam)
            hit = bool(r.flip())
            return cat("tick", "(", t, ")", sp([[0, "=="]]), sp(num(x if hit else x + 1))), hit, n + 1
        t, x, n = self.bool_(d - 1, lam)
        return cat("bool", "{", sp(t), sp([[0, "}"]])), x, n

    def arg(self, log):
        """(tokens, text, ticks)"""
        r = self.r
        k = r.randrange(12)
        if k < 5:
            t, x, n = self.int_(r.choice([0, 1, 2, 3]))
            return t, str(x), n
        if k == 5:
            t, x, n = self.boolean(2)
            return t, "#<T>" if x else "#<F>", n
        if k == 6:
            c = r.choice(["','", "'\"'", "'('", "'\\''", "'x'", "'\\\\'", "c"])
            return [[0, c]], self.v["c"] if c == "c" else eval(c), 0
        if k == 7:
            s = r.choice(['"a,b"', '")("', '"\\""', '"\\\\"', '"[,{"', '""', '"it\'s"', '"plain text"', '"\u00e9\u4e16"', '"tab, /* x */"', 't', '(f, t)'])
            if s[0] == '"':
                return [[0, s]], eval(s), 0
            return ([[0, "t"]] if s == "t" else cat("(", "f", ",", sp([[0, "t"]]), ")")), self.v["t"], 0
        if k == 8 and r.flip():
            return [[0, r.choice(["nil_c", "nil_m", "nullptr"])]], "#<nil>", 0
        if k == 8:
            return [[0, "u"]], str(self.v["u"]), 0
        if k == 9:
            return [[0, "v"]], "[%d, %d]" % tuple(self.v["v"]), 0
        if k == 10 and log:
            return [[0, "arr"]], "[%d, %d, %d]" % tuple(self.v["arr"]), 0
        if k == 11 and log and r.flip():
            return [[0, "raw"]], "no0!", 0
        if k == 11 and log:
            return [[0, "SEVEN"]], "7", 0
        return cat("o", ".", "x"), str(self.v["o.x"]), 0

    def boolean(self, d, lam=False):
        t, x, n = self.bool_(d, lam)
        return t, bool(x), n


class Rng(random.Random):
    def flip(self):
        return int(self.random() < 0.5)


def gen_statement(r, v):
    g = G(r, v)
    kind = r.choice(["LOG", "LOG", "LOG", "LOG_MSG", "ASSERT", "VERIFY", "VERIFY", "REJECT", "REJECT", "ERROR"])
    s = dict(kind=kind, seed=r.randrange(1 << 30))
    log = kind.startswith("LOG")
    n = r.choice([0, 1, 1, 2, 3, 4, 6, 9, 14]) if kind != "LOG_MSG" else r.choice([1, 1, 2, 3, 5])
    s["args"] = []
    for _ in range(n):
        t, x, k = g.arg(log)
        s["args"].append([t, x, k])
    if log:
        s["level"] = r.choice(sorted(LEVELS))
    elif kind != "ERROR":
        t, x, k = g.boolean(r.choice([0, 1, 2, 3]), True)
        s["cond"] = [t, x, k]
    s["answer"] = r.flip()
    s["ctx"] = r.choice(BOOL_CTX if kind in ("VERIFY", "REJECT") and r.random() < 0.8 else VOID_CTX)
    s["bool"] = s["ctx"] in BOOL_CTX and kind in ("VERIFY", "REJECT") and r.random() < 0.9 if s["ctx"] in VOID_CTX else True
    if kind not in ("VERIFY", "REJECT") or s["ctx"] not in BOOL_CTX:
        s["bool"] = False
    s["times"] = r.choice([0, 1, 2, 3])
    return s


def generate(rng, n):
    r = Rng(rng.randrange(1 << 40))
    v = {"a": r.randrange(-900, 900), "b": r.randrange(-9, 9), "f": bool(r.flip()), "g": bool(r.flip()), "o.x": r.randrange(-99, 99), "o.in.y": r.randrange(100), "arr": [r.randrange(-50, 50) for _ in range(3)],
         "c": r.choice("az,(9"), "t": r.choice(["", "text", "a, b", "(("]), "u": r.randrange(1 << 64), "v": [r.randrange(-20, 20), r.randrange(100)]}
    v["arr[1]"] = v["arr"][1]
    return dict(v=v, s=[gen_statement(r, v) for _ in range(r.choice([1, 2, 3, 4]))])


def c_str(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'


def statement(s, rng):
    a = [src(t, rng) for t, _, _ in s["args"]]
    if "cond" in s:
        a = [src(s["cond"][0], rng)] + a
    if s["kind"].startswith("LOG"):
        a = [s["level"]] + a
    out = a[0] if a else ""
    s["sep"] = []
    for x in a[1:]:
        b = rng.choice([0, 0, 0, 1])
        c = rng.choice([1, 1, 1, 0])
        s["sep"].append((b, c))
        out += " " * b + "," + " " * c + x
    return "CE_%s(%s%s%s)" % (s["kind"], rng.choice(["", "", " "]), out, rng.choice(["", "", " "]))


def emit(d, n):
    v = d["v"]
    decl = ["#define SEVEN (3 + 4)", "namespace n%d\n{" % n,
            "    static int a = %d, b = %d; static bool f = %d, g = %d; static int arr[3] = { %d, %d, %d }; static char c = '%s'; static char const* t = %s; static unsigned long long u = %dull; static bool on = true; static char const* nil_c = nullptr; static char* nil_m = nullptr; static char raw[4] = { 'n', 'o', '0', '!' };" %
            (v["a"], v["b"], v["f"], v["g"], *v["arr"], v["c"], c_str(v["t"]), v["u"]),
            "    static struct { int x; struct { int y; } in; } o = { %d, { %d } }; static ce::vec2<int> v{ %d, %d };" % (v["o.x"], v["o.in.y"], *v["v"])]
    body = ["    using namespace n%d; signal(SIGTRAP, on_trap);" % n]
    for i, s in enumerate(d["s"]):
        s = dict(s)
        st = statement(s, Rng(s["seed"]))
        p = "p%d" % i
        fn = "s%d" % i
        decl.append("    static place %s;" % p)
        times, ctx = 1, s["ctx"]
        h = "%s.line = __LINE__; " % p
        val = None
        if s["bool"]:
            want = s["cond"][1]
            w = {"=": "%s bool q = %s; return q;", "if": "%s if (%s) return true; else return false;", "return": "%s return %s;", "!": "%s return !!%s;", "?:": "%s return %s ? 1 : 0;", "&&": "%s return %s && on;", "&& after": "%s return on && %s;",
                 "||": "%s return %s || !on;", "==": "%s return %s == on;", "while": "%s while (%s) return true; return false;", "argument": "%s auto same = [](bool z) { return z; }; return same(%s);",
                 "template": "%s auto gen = [](auto z) -> bool { return %s; }; return gen(1);", "member": "%s struct in { bool z = %s; } q; return q.z;", "static": "%s static bool const z = %s; return z;"}[ctx]
            decl.append("    static bool %s() { %s }" % (fn, w % (h, st)))
            call = "%s.value = %s();" % (p, fn)
            val = int(want)
        else:
            if ctx not in VOID_CTX:
                ctx = "plain"
            if ctx in ("for", "while"):
                times = s["times"]
            if s["kind"] in ("VERIFY", "REJECT"):
                st = "(void)" + st
            w = {"plain": "    static void F() { H S; }", "if": "    static void F() { H if (on) S; else P.value = 5; }", "else": "    static void F() { H if (!on) P.value = 5; else S; }",
                 "for": "    static void F() { H for (int z = 0; z < %d; ++z) S; }" % times, "lambda": "    static void F() { H [&] { S; }(); }", "template": "    template<class Z> void F_(Z) { H S; } static void F() { F_(1.5); }",
                 "comma": "    static void F() { H (S, P.value); }", "ternary": "    static void F() { H on ? S : (void)0; }", "switch": "    static void F() { H switch (on) { case true: S; break; default: P.value = 5; } }",
                 "static": "    static void F() { H static int z = (S, 1); (void)z; }", "member": "    static void F() { H struct in { int z = (S, 1); } q; (void)q; }", "ctor": "    struct F_ { F_() { H S; } }; static void F() { F_ z; }",
                 "dtor": "    struct F_ { ~F_() { H S; } }; static void F() { F_ z; }", "class template": "    template<class Z> struct F_ { static void go() { H S; } }; static void F() { F_<int>::go(); }",
                 "default argument": "    static int F_(int z = (P.line = __LINE__, S, 1)) { return z; } static void F() { F_(); }", "noexcept": "    static void F() noexcept { H S; }", "generic lambda": "    static auto F_ = [](auto...) { H S; }; static void F() { F_(1, 2); }",
                 "while": "    static void F() { int z = 0; H while (z++ < %d) S; }" % times, "semi": "    static void F() { H ; S; ; }"}[ctx]
            decl.append(w.replace("H ", h.replace("\\", "\\\\")).replace("S", "\0", 1).replace("\0", st, 1).replace("F_", fn + "_").replace("F()", fn + "()").replace("P.", p + "."))
            call = fn + "();"
        # what has to happen
        args = s["args"]
        ct = s["cond"][2] if "cond" in s else 0
        at = sum(x[2] for x in args)
        what = text(s["cond"][0]) if "cond" in s else ""
        body.append("    { char const* what = \"statement %d\"; records.clear(); breaks = 0; ticks = 0; answer = %d; %s" % (i + 1, s["answer"], call))
        if s["kind"].startswith("LOG"):
            kv = [("$", s["level"])] + ([("$msg", "".join(x[1] for x in args))] if s["kind"] == "LOG_MSG" else [(text(x[0]), x[1]) for x in args])
            body.append("    if (log_on) { r.equal(what, int(records.size()), %d); r.equal(\"evaluations\", int(ticks), %d); for (auto& k : records) { r.equal(\"level\", k.level, %d); r.check(\"the record ends with nulls\", k.closed); r.check(\"a log record\", !k.error); same(r, k.kv, { %s }); } }" %
                        (times, at * times, LEVELS[s["level"]], ", ".join("{ %s, %s }" % (c_str(a), c_str(b)) for a, b in kv)))
            body.append("    else { r.equal(\"records of a log statement that is off\", int(records.size()), 0); r.equal(\"evaluations by a log statement that is off\", int(ticks), 0); }")
            body.append("    r.equal(\"breaks\", int(breaks), 0); }")
            continue
        seps = s["sep"][1:] if "cond" in s else s["sep"]
        more = "".join(((" ," if seps[j - 1][0] else ",") + (" " if seps[j - 1][1] else "") if j else "") + text(x[0]) for j, x in enumerate(args))
        if s["kind"] == "ERROR":
            fails, brk, on = True, 1, "true"
        else:
            fails = s["cond"][1] == (s["kind"] == "REJECT")
            brk, on = s["answer"], "check_on"
        body.append("    bool told = %d && %s;" % (fails, on))
        if s["kind"] == "ERROR":
            body.append("    if (check_on)")
        body.append("    { r.equal(what, int(records.size()), told ? %d : 0); r.equal(\"evaluations\", int(ticks), told ? %d : %d); r.equal(\"breaks\", int(breaks), told ? %d : 0);" % (times, (ct + at) * times, ct * times, brk * times))
        if val is not None:
            body.append("    r.equal(\"value\", %s.value, %d);" % (p, val))
        kv = ["{ %s, at(%s.line) }" % (c_str("CE_" + s["kind"]), p), "{ %s, %s }" % (c_str(what), c_str(more))] + ["{ \"...\", %s }" % c_str(x[1]) for x in args]
        body.append("    for (auto& k : records) { r.check(\"an error report\", k.error); r.equal(\"level\", k.level, 0); r.check(\"the report ends with nulls\", k.closed); same(r, k.kv, { %s }); } } }" % ", ".join(kv))
    decl.append("}")
    return "\n".join(decl), "\n".join(body)


RT2 = r'''
static void same(R& r, kvs const& got, kvs const& want)
{
    r.equal("number of pairs", int(got.size()), int(want.size()));
    for (size_t i = 0; i < got.size() && i < want.size(); ++i) { r.same("key", got[i].first.c_str(), want[i].first.c_str()); r.same(("text of " + want[i].first).c_str(), got[i].second.c_str(), want[i].second.c_str()); }
}
#ifdef CE_USER_LOG_LEVEL
static bool const log_on = CE_USER_LOG_LEVEL, check_on = CE_USER_ERROR_LEVEL;
#else
static bool const log_on = true, check_on = true;
#endif
'''


def reduce(d):
    s = d["s"]
    if len(s) > 1:
        for i in range(len(s)):
            yield dict(d, s=s[:i] + s[i + 1:])
    for i, x in enumerate(s):
        def put(**k):
            return dict(d, s=s[:i] + [dict(x, **k)] + s[i + 1:])
        for j in range(len(x["args"])):
            if len(x["args"]) > (x["kind"] == "LOG_MSG"):
                yield put(args=x["args"][:j] + x["args"][j + 1:])
        for j, a in enumerate(x["args"]):
            if a[0] != [[0, "1"]]:
                yield put(args=x["args"][:j] + [[[[0, "1"]], "1", 0]] + x["args"][j + 1:])
        if "cond" in x and len(x["cond"][0]) > 1:
            yield put(cond=[[[0, "true" if x["cond"][1] else "false"]], x["cond"][1], 0])
        if x["ctx"] not in ("plain", "return"):
            yield put(ctx="return" if x["bool"] else "plain")
        if x["seed"]:
            yield put(seed=0)


def describe(d):
    return " ; ".join("%s in %s" % (statement(dict(x), Rng(x["seed"])), x["ctx"]) for x in d["s"]) + "  with %s" % d["v"]


def nontrivial(d):
    return any(x["args"] or "cond" in x and len(x["cond"][0]) > 1 for x in d["s"])


def labels(d):
    return sorted(set([x["kind"] for x in d["s"]] + ["in " + x["ctx"] for x in d["s"]]))


def run(ctx):
    import common, sys, os
    mod = sys.modules[__name__]
    with open(os.path.join(ctx["build"], "c45_hooks.h"), "w") as f:
        f.write(HOOKS)
    if ctx.get("replay"):
        return common.replay(ctx, mod, ctx["replay"])
    th = ctx["tier"] == "thorough"
    modes = ["o0-L1E1", "dbg-default", "o2-L0E1", "o0-L1E0", "o2-L1E1", "dbg-L0E0", "o0-L0E1", "o2-default"]
    return common.run(ctx, mod, 60000 if th else 1500, 25, modes, 1)
