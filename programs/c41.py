"""C41: names of enum items and types, and back."""
import json
NAME = "C41"
LINK = False
PRELUDE = '#include "ce/nameof.h"\n'
WORDS = ["a", "b", "red", "green", "greenish", "x1", "_u", "Z", "none", "item", "item1", "item10", "enum_", "classy", "structure", "unions", "e", "anonymous", "q_q", "A0", "operator_", "longer_name_than_most_others_in_this_program_to_fill_the_buffer", "\u00e9t\u00e9", "CamelCase", "i", "ii", "iii", "int_", "the_namespace", "T", "N", "void_"]
SCOPES = ["n", "outer", "inner", "enums", "S", "detail", "class_x", "union_y", "m2"]
UNDER = [None, None, None, "unsigned char", "signed char", "char", "short", "unsigned short", "int", "unsigned", "long long", "unsigned long long", "bool"]


def generate(rng, n):
    d = dict(scope=[], scoped=rng.random() < 0.6, under=rng.choice(UNDER), unnamed=False, items=[], local=rng.random() < 0.12)
    if not d["local"]:
        for _ in range(rng.choice([0, 0, 1, 1, 2, 3, 4])):
            k = rng.choice(["namespace", "namespace", "struct", "anon", "class", "union", "template", "inline"])
            if any(s[0] in ("struct", "class", "union", "template") for s in d["scope"]) and k in ("namespace", "anon", "inline"):
                k = "struct"
            d["scope"].append([k, rng.choice([x for x in SCOPES if x not in [y for _, y in d["scope"]]])])
    d["name"] = rng.choice(["E", "colour", "kind_t", "enum_kind", "class_id", "my_struct", "U", "\u00e9num"])
    if not d["scoped"] and rng.random() < 0.2:
        d["unnamed"] = True
    hi = {"bool": 1, "signed char": 127, "char": 127}.get(d["under"], 255)
    k = rng.choice([1, 2, 3, 5, 8, 16, 60, 256]) if rng.random() < 0.8 else rng.randrange(1, 100)
    if d["under"] == "bool":
        k = min(k, 2)
    style = rng.randrange(4)
    if style == 0:
        vals = list(range(min(k, hi + 1)))
    elif style == 1:
        vals = rng.sample(range(hi + 1), min(k, hi + 1))
    elif style == 2:
        base = rng.choice([0, 1, 62, 63, 64, 65, 126, 127, 128, 191, 192, 255])
        vals = [v for v in range(base, base + min(k, 12)) if v <= hi] or [0]
    else:
        vals = [v for v in (0, 1, 2, 4, 8, 16, 32, 63, 64, 65, 127, 128, 129, 191, 192, 193, 254, 255) if v <= hi]
        rng.shuffle(vals)
        vals = vals[:max(1, min(k, len(vals)))]
    names = []
    for v in vals:
        w = rng.choice(WORDS)
        if rng.random() < 0.4:
            w += rng.choice(["_", "0", "1", "x", "_a", "2b"])
        while w in names or w == d["name"]:
            w += rng.choice(["1", "_", "z", "Q"])
        names.append(w)
    d["items"] = [[a, v] for a, v in zip(names, vals)]
    d["asks"] = rng.randrange(1 << 30)
    return d


def path(d, use):
    """how a program writes the type's scope"""
    out = []
    for k, n in d["scope"]:
        if k == "anon":
            continue
        out.append(n + ("<int>" if k == "template" else "") if use else n)
    return out


def emit(d, n):
    import random
    rng = random.Random(d["asks"])
    name = d["name"]
    items = ", ".join("%s = %s" % (a, "bool(%d)" % v if d["under"] == "bool" else v) for a, v in d["items"])
    en = "enum %s%s%s { %s };" % ("class " if d["scoped"] else "", "" if d["unnamed"] else name, " : " + d["under"] if d["under"] else "", items)
    if d["unnamed"]:
        en += " using %s_alias = decltype(%s);" % (name, d["items"][0][0])
    opens, closes = "", ""
    for k, s in d["scope"]:
        if k == "anon":
            opens += "namespace { "
            closes = "} " + closes
        elif k in ("namespace", "inline"):
            opens += "%snamespace %s { " % ("inline " if k == "inline" else "", s)
            closes = "} " + closes
        elif k == "template":
            opens += "template<class Param_%d_> struct %s { " % (len(opens), s)
            closes = "}; " + closes
        else:
            opens += "%s %s { public: " % (k, s)
            closes = "}; " + closes
    wrap = "namespace w%d { " % n
    decl = wrap + opens + en + closes + "}" if not d["local"] else ""
    tname = name + "_alias" if d["unnamed"] else name
    p = "::".join(["w%d" % n] + path(d, True) + [tname])
    body = ["    " + en if d["local"] else "", "    using The_type_ = %s;" % (tname if d["local"] else p)]
    known = {v: a for a, v in d["items"]}
    # clang only knows the items of a scoped enum in a class template once one of them has been mentioned
    if d["scoped"] and any(k == "template" for k, _ in d["scope"]):
        body.append("    static_assert(int(The_type_::%s) == %d);" % tuple(d["items"][0]))
    b = ["    char const* names[256]{ };"]
    for v, a in known.items():
        b.append('    names[%d] = "%s";' % (v, a))
    if d["under"] in ("bool",):
        top = 1
    elif d["under"] in ("signed char", "char"):
        top = 127
    elif d["under"] is None and not d["scoped"]:
        m = max(known)
        top = 1
        while top < m:
            top = top * 2 + 1
    else:
        top = 255
    b.append('    for (int v = 0; v <= %d; ++v) r.same("the name of an item", ce::nameof(The_type_(v)), names[v] ? names[v] : "???");' % top)
    wide = []
    if d["under"] in ("short", "unsigned short", "int", "unsigned") or (d["under"] is None and d["scoped"]):
        wide = [256, 257, 300, 511, 512, 32767, 256 + d["items"][0][1]]
        if d["under"] in ("int", "unsigned", None):
            wide += [65536 + d["items"][0][1], 0x7fffffff, (1 << 24) + 1]
    if d["under"] in ("long long", "unsigned long long"):
        wide = [256, 257, (1 << 32) + d["items"][0][1], (1 << 40) + 1, (1 << 62), 0x7fffffffffffffff, (1 << 31) + d["items"][-1][1]]
    if d["under"] in ("short", "int", "long long", "signed char") or (d["under"] is None and d["scoped"]):
        wide += [-1, -2, -100 if d["under"] == "signed char" else -256, -128]
    for v in wide:
        b.append('    r.same("the name of %d", ce::nameof(The_type_(%dll)), "???");' % (v, v))
    b.append('    for (int v = 0; v < 256; ++v) if (names[v]) { r.equal("the item by name", (long long)ce::as_enum<The_type_>(names[v]), (long long)v); r.equal("the item by name, other default", (long long)ce::as_enum(names[v], The_type_(%d)), (long long)v); }' % d["items"][-1][1])
    texts = ["", "???", "nope", " " + d["items"][0][0], d["items"][0][0] + " ", name + "::" + d["items"][0][0], "(T)0", "0"]
    for a, v in rng.sample(d["items"], min(6, len(d["items"]))):
        texts += [a[:-1], a + "x", a + "::", a.upper(), a.lower(), a[1:], a + a]
    unknown = [t for t in texts if t not in known.values()]
    dv = rng.choice(d["items"])[1]
    for t in unknown:
        t = t.replace("\\", "\\\\").replace('"', '\\"')
        b.append('    r.equal("an unknown name (%s)", (long long)ce::as_enum<The_type_>("%s"), 0ll); r.equal("an unknown name with default (%s)", (long long)ce::as_enum("%s", The_type_(%d)), %dll);' % (t.replace("%", "%%"), t, t.replace("%", "%%"), t, dv, dv))
    # the name of the type, as far as it does not depend on how compilers write anonymous scopes
    if not d["local"] and not d["unnamed"] and not any(k in ("anon", "inline") for k, _ in d["scope"]):
        b.append('    r.same("the name of the type", ce::nameof<The_type_>(), "%s");' % "::".join(["w%d" % n] + path(d, True) + [name]))
    return decl, "\n".join(body + b)


def reduce(d):
    def v(**k):
        return dict(d, **k)
    if len(d["items"]) > 1:
        h = len(d["items"]) // 2
        yield v(items=d["items"][:h])
        yield v(items=d["items"][h:])
        if len(d["items"]) < 20:
            for i in range(len(d["items"])):
                yield v(items=d["items"][:i] + d["items"][i + 1:])
    for i in range(len(d["scope"])):
        yield v(scope=d["scope"][:i] + d["scope"][i + 1:])
    if d["local"]:
        yield v(local=False)
    if d["unnamed"]:
        yield v(unnamed=False)
    if d["under"] not in (None, "int"):
        yield v(under="int")
    if d["under"]:
        yield v(under=None)
    if d["name"] != "E":
        yield v(name="E")
    for i, (a, x) in enumerate(d["items"]):
        s = "i%d" % i
        if len(d["items"]) < 9 and a != s and s not in [q[0] for q in d["items"]]:
            yield v(items=d["items"][:i] + [[s, x]] + d["items"][i + 1:])


def describe(d):
    sc = " ".join("%s %s" % (k, n) if k != "anon" else "namespace" for k, n in d["scope"])
    it = ", ".join("%s = %d" % (a, x) for a, x in d["items"][:12]) + (", ..." if len(d["items"]) > 12 else "")
    return "%s enum %s%s%s { %s }%s" % (sc, "class " if d["scoped"] else "", "" if d["unnamed"] else d["name"], " : " + d["under"] if d["under"] else "", it, " in a function" if d["local"] else "")


def nontrivial(d):
    return len(d["items"]) > 1


def labels(d):
    l = ["scoped" if d["scoped"] else "unscoped", "fixed type" if d["under"] else "no fixed type"]
    if d["scope"]:
        l.append("nested")
    if any(k == "anon" for k, _ in d["scope"]):
        l.append("anonymous namespace")
    if d["unnamed"]:
        l.append("unnamed")
    if d["local"]:
        l.append("local")
    return l


def run(ctx):
    import common, sys
    mod = sys.modules[__name__]
    if ctx.get("replay"):
        return common.replay(ctx, mod, ctx["replay"])
    n = 2000 if ctx["tier"] == "thorough" else 160
    return common.run(ctx, mod, n, 5, ["o0", "o2"], 1)
