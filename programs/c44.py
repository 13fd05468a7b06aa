"""C44: what can be computed by the compiler is: hashes, checksums, embedded data and vector arithmetic as constants equal their definitions and the same call at run time."""
import base64 as b64
NAME = "C44"
LINK = False
PRELUDE = r'''#include "ce/ce.h"
#include "ce/math.h"
#include "ce/lziii.h"
#include <type_traits>
#include <cstddef>
#include <cstdio>
#include <cstdint>
#include <cstring>
template<class T> __attribute__((noinline)) T hide(T v) { T volatile x = v; return x; }
template<class T, size_t N> struct kept { T data[N]; __attribute__((noinline)) kept(T const (&a)[N]) { for (size_t i = 0; i < N; ++i) { T volatile x = a[i]; data[i] = x; } } };
template<class T, size_t N> kept(T const (&)[N]) -> kept<T, N>;
template<ce::uint64_t V> struct constant { static constexpr ce::uint64_t value = V; };
'''
POLY = [0x82f63b78, 0xedb88320, 0xeb31d82e, 0xd5828281, 0x80000000, 0x00000001, 0xffffffff, 0x992c1a4c]
ALPHA = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
M32, M64 = (1 << 32) - 1, (1 << 64) - 1
ITYPES = {"ce::uint8_t": (1, 0), "ce::int8_t": (1, 1), "char": (1, 1), "ce::uint16_t": (2, 0), "ce::int16_t": (2, 1), "ce::uint32_t": (4, 0), "ce::int32_t": (4, 1), "ce::uint64_t": (8, 0), "ce::int64_t": (8, 1)}


def crc(poly, c, data):
    c ^= M32
    for b in data:
        c ^= b
        for _ in range(8):
            c = c >> 1 ^ (poly if c & 1 else 0)
    return c ^ M32


def fnv(bits, basis, data):
    prime, mask = (0x01000193, M32) if bits == 32 else (0x100000001B3, M64)
    for b in data:
        basis = (basis ^ b) * prime & mask
    return basis


def lz_decode(src):
    out, i, c = bytearray(), 0, 1
    while i < len(src):
        if c == 1:
            c = src[i] | 256
            i += 1
        if c & 1:
            out.append(src[i])
            i += 1
        else:
            at = len(out) + (src[i] | (src[i + 1] & 15) << 8) - 4096
            for k in range((src[i + 1] >> 4) + 3):
                out.append(out[at + k])
            i += 2
        c >>= 1
    return bytes(out)


def lz_stream(rng, tokens):
    """a valid stream"""
    toks, n = [], 0
    for _ in range(tokens):
        if n and rng.random() < 0.5:
            ln, back = rng.randrange(3, 19), 1 + (rng.randrange(n) if rng.random() < 0.6 else rng.randrange(min(n, 3)))
            if rng.random() < 0.2:
                back = n
            back = min(back, 4096)
            o = 4096 - back
            toks.append([o & 255, (o >> 8) | (ln - 3) << 4])
            n += ln
        else:
            toks.append([rng.randrange(256)])
            n += 1
    out = []
    for i in range(0, len(toks), 8):
        part = toks[i:i + 8]
        ctl = sum(1 << k for k, t in enumerate(part) if len(t) == 1)
        if len(part) < 8:
            ctl |= rng.randrange(256) >> len(part) << len(part)
        out.append(ctl)
        for t in part:
            out += t
    return out


def integer(rng, bits, signed):
    k = rng.randrange(4)
    v = rng.getrandbits(bits) if k else rng.choice([0, 1, (1 << bits) - 1, 1 << bits - 1, (1 << bits - 1) - 1])
    return v - (1 << bits) if signed and v >> bits - 1 else v


def generate(rng, n):
    k = rng.choice(["crc", "crc", "crc", "crc text", "fnv", "fnv", "fnv text", "base64", "base64", "lz", "lz", "ascii", "vec", "vec", "vec", "inside", "angle"])
    ln = rng.choice([0, 1, 2, 3, 4, 5, 7, 8, 9, 16, 31, 40])
    if k == "crc":
        w = rng.choice([1, 4, 8])
        return dict(k=k, w=w, poly=rng.choice(POLY) if rng.random() < 0.7 else rng.getrandbits(32), init=rng.choice([0, rng.getrandbits(32)]), data=[integer(rng, w * 8, False) for _ in range(max(1, ln // (1 if w == 1 else 2)))])
    if k in ("crc text", "fnv text"):
        return dict(k=k, data=[rng.randrange(1 if k[0] == "f" else 0, 256) if rng.random() < 0.4 else rng.randrange(32, 127) for _ in range(ln)])
    if k == "fnv":
        t = rng.choice(list(ITYPES))
        return dict(k=k, t=t, bits=rng.choice([32, 64]), basis=rng.choice([None, rng.getrandbits(64), 0]), data=[integer(rng, ITYPES[t][0] * 8, ITYPES[t][1]) for _ in range(max(1, ln))])
    if k == "base64":
        return dict(k=k, data=[rng.randrange(256) for _ in range(max(1, ln))], tail=rng.choice(["", "=", "==", "\n", " zz", "-", "\u00e9"]), part=rng.randrange(ln + 1))
    if k == "lz":
        return dict(k=k, stream=lz_stream(rng, rng.choice([1, 2, 3, 7, 8, 9, 17, 40, 120])))
    if k == "ascii":
        return dict(k=k, c=rng.randrange(256))
    if k == "vec":
        t = rng.choice(["int", "ce::int64_t", "float", "short"])
        lim = {"int": 1 << 31, "ce::int64_t": 1 << 30, "float": 1 << 11, "short": 1 << 12}[t]
        n = rng.choice([2, 3])
        if t == "int":
            a, b = [[max(-lim + 1, min(lim - 1, integer(rng, 32, True))) for _ in range(n)] for _ in range(2)]
            if rng.random() < 0.5:
                a, b = [x // 4 for x in a], [x // 4 for x in b]
            else:  # sums of products have to fit
                a, b = [x // 2 for x in a], [x // 2 for x in b]
        else:
            a, b = [[rng.randrange(-lim, lim) for _ in range(n)] for _ in range(2)]
        if rng.random() < 0.3:
            b = list(a)
            if rng.random() < 0.5:
                b[rng.randrange(n)] += 1
        return dict(k=k, t=t, a=a, b=b, s=rng.choice([1, -1, 2, 7, -13]))
    if k == "inside":
        s = rng.choice([2, 10, 1 << 15, 1 << 30])
        a, b = [rng.randrange(-s, s) for _ in range(2)], [rng.randrange(-s, s) for _ in range(2)]
        if rng.random() < 0.4:
            m = rng.choice([-2, -1, 0, 1, 2])
            a = [x // 2 for x in a]
            b = [x * m for x in a]
        return dict(k=k, a=a, b=b)
    return dict(k="angle", d=rng.choice([0, 1, 45, -45, 90, 180, -180, 179, -90, 30, 60, -1, rng.randrange(-1000, 1000)]))


def lit(v, t):
    s = "%d%s" % (v if v != -(1 << 63) else v + 1, "ull" if v > (1 << 63) - 1 else "ll")
    s = "(%s%s)" % (s, " - 1" if v == -(1 << 63) else "")
    return "%s%s" % (t, s) if " " not in t else "(%s)%s" % (t, s)


def text(bs):
    return '"%s"' % "".join(chr(b) if chr(b).isalnum() and b < 128 else "\\%03o" % b for b in bs)


def bytes_of(vals, size):
    return b"".join((v & (1 << size * 8) - 1).to_bytes(size, "little") for v in vals)


def emit(d, n):
    k, decl, b = d["k"], [], []

    def both(what, const, run, want, t="ce::uint64_t"):
        b.append("{ constexpr auto v = %s; r.equal<%s>(\"%s as a constant\", %s(v), %s); auto w = %s; r.equal<%s>(\"%s at run time\", %s(w), %s); }" % (const, t, what, t, lit(want, t), run, t, what, t, lit(want, t)))

    if k == "crc":
        t = {1: "ce::uint8_t", 4: "ce::uint32_t", 8: "ce::uint64_t"}[d["w"]]
        decl.append("static constexpr %s d%d[]{ %s };" % (t, n, ", ".join(lit(v, t) for v in d["data"])))
        ct = "ce::crc32_t<0x%xu>" % d["poly"] if d["poly"] != 0x82f63b78 else "ce::crc32c_t"
        by = bytes_of(d["data"], d["w"])
        b.append("kept h(d%d);" % n)
        both("crc32", "ce::uint32_t(ce::crc32(%s(%du), %d, d%d))" % (ct, d["init"], len(d["data"]), n), "ce::uint32_t(ce::crc32(%s(hide(%du)), %d, h.data))" % (ct, d["init"], len(d["data"])), crc(d["poly"], d["init"], by))
        h = len(d["data"]) // 2
        both("crc32 in two parts", "ce::uint32_t(ce::crc32(ce::crc32(%s(%du), %d, d%d), %d, d%d + %d))" % (ct, d["init"], h, n, len(d["data"]) - h, n, h), "ce::uint32_t(ce::crc32(ce::crc32(%s(%du), %d, h.data), %d, h.data + %d))" % (ct, d["init"], h, len(d["data"]) - h, h), crc(d["poly"], d["init"], by))
        b.append('r.check("the checksum as a template argument", constant<ce::uint64_t(ce::crc32(%s(%du), %d, d%d))>::value == %du);' % (ct, d["init"], len(d["data"]), n, crc(d["poly"], d["init"], by)))
    elif k == "crc text":
        b.append("static char const t[] = %s; kept h(t);" % text(d["data"]))
        both("crc32c of text", "ce::crc32c(%s)" % text(d["data"]), "ce::crc32c(h.data)", crc(0x82f63b78, 0, bytes(d["data"])))
    elif k == "fnv text":
        b.append("static char const t[] = %s; kept h(t);" % text(d["data"]))
        want = fnv(32, 0x811c9dc5, bytes(d["data"]))
        both("fnv1a of text", "ce::hash::fnv1a(%s)" % text(d["data"]), "ce::hash::fnv1a(h.data)", want)
        b.append('switch (hide(%du)) { case ce::hash::fnv1a(%s): r.check("case", true); break; default: r.check("the hash as a case label", false); }' % (want, text(d["data"])))
    elif k == "fnv":
        t, bits = d["t"], d["bits"]
        decl.append("static constexpr %s d%d[]{ %s };" % (t, n, ", ".join(lit(v, t) for v in d["data"])))
        basis = d["basis"]
        extra = "" if basis is None else ", %dull" % (basis & (1 << bits) - 1)
        want = fnv(bits, (basis if basis is not None else 0x811c9dc5 if bits == 32 else 0xcbf29ce484222325) & (1 << bits) - 1, bytes_of(d["data"], ITYPES[t][0]))
        b.append("kept h(d%d);" % n)
        both("fnv1a%d" % bits, "ce::hash::fnv1a%d(%d, d%d%s)" % (bits, len(d["data"]), n, extra), "ce::hash::fnv1a%d(hide(size_t(%d)), h.data%s)" % (bits, len(d["data"]), extra), want)
    elif k == "base64":
        by = bytes(d["data"])
        enc = b64.b64encode(by).rstrip(b"=") + d["tail"].encode("latin-1")
        decl.append("struct T%d { static constexpr char data[] = %s; };" % (n, text(enc)))
        decl.append("static constexpr ce::uint8_t w%d[]{ %s };" % (n, ", ".join(map(str, by))))
        b.append("constexpr ce::base64::decoder<T%d> v; static_assert(sizeof v == sizeof v.data); constexpr auto size = ce::base64::size(T%d::data); r.equal<size_t>(\"decoded size\", size, %d); r.equal<size_t>(\"size of the decoder\", sizeof v.data, %d); r.check(\"embedded bytes\", sizeof v.data == %d && !memcmp(v.data, w%d, sizeof v.data));" % (n, n, len(by), len(by), len(by), n))
        b.append("kept h(T%d::data); r.equal<size_t>(\"decoded size at run time\", ce::base64::size(h.data), %d); ce::uint8_t o[%d]; memset(o, 0xee, sizeof o); ce::base64::decode(%d, o, h.data); r.check(\"bytes at run time\", !memcmp(o, w%d, %d) && o[%d] == 0xee);" % (n, len(by), len(by) + 1, d["part"] if d["part"] <= len(by) else len(by), n, min(d["part"], len(by)), min(d["part"], len(by))))
    elif k == "lz":
        out = lz_decode(bytes(d["stream"]))
        decl.append("struct T%d { size_t size = %d; ce::uint8_t data[%d]{ %s }; };" % (n, len(d["stream"]), len(d["stream"]), ", ".join(map(str, d["stream"]))))
        decl.append("static constexpr ce::uint8_t w%d[]{ %s };" % (n, ", ".join(map(str, out))))
        b.append("constexpr ce::lziii::decoder<T%d> v; r.equal<size_t>(\"decompressed size\", v.size, %d); r.check(\"decompressed bytes\", sizeof v.data == %d && !memcmp(v.data, w%d, sizeof v.data));" % (n, len(out), len(out), n))
        b.append("T%d in; kept h(in.data); r.equal<size_t>(\"size at run time\", ce::lziii::size(%d, h.data), %d); static ce::uint8_t o[%d]; memset(o, 0xee, sizeof o); ce::lziii::decode(%d, o, h.data); r.check(\"bytes at run time\", !memcmp(o, w%d, %d) && o[%d] == 0xee);" % (n, len(d["stream"]), len(out), len(out) + 1, len(out), n, len(out), len(out)))
    elif k == "ascii":
        c = d["c"]
        ch = chr(c) if c < 128 else "\0"
        tests = dict(is_base10=ch.isdigit() and c < 128, is_base16=ch in "0123456789abcdefABCDEF" and c != 0, is_base64=ch in ALPHA and c != 0, is_alpha=ch.isalpha(), is_upper=ch.isupper(), is_lower=ch.islower())
        for f, w in tests.items():
            both(f, "ce::ascii::%s(char(%d))" % (f, c), "ce::ascii::%s(char(hide(%d)))" % (f, c), int(w))
    elif k == "vec":
        t, A, B, s = d["t"], d["a"], d["b"], d["s"]
        m = len(A)
        v = "ce::vec%d<%s>" % (m, t)
        # what the operators give in the element type
        sums = all(abs(x) < 1 << 29 for x in A + B) and t != "short"
        la, lb = "%s{ %s }" % (v, ", ".join(lit(x, t) for x in A)), "%s{ %s }" % (v, ", ".join(lit(x, t) for x in B))
        b.append("constexpr auto a = %s, b = %s; auto x = %s{ %s }; auto y = %s{ %s };" % (la, lb, v, ", ".join("hide(%s)" % lit(x, t) for x in A), v, ", ".join("hide(%s)" % lit(x, t) for x in B)))
        et = "float" if t == "float" else "ce::int64_t"
        dot = sum(p * q for p, q in zip(A, B))
        if t == "float":  # small enough to be exact
            pass
        both("dot product", "ce::dotx(a, b)", "ce::dotx(x, y)", dot, "ce::int64_t")
        if m == 2:
            both("square", "ce::sqrx(a)", "ce::sqrx(x)", sum(p * p for p in A), "ce::int64_t")
            both("cross product", "ce::crossx(a, b)", "ce::crossx(x, y)", A[0] * B[1] - A[1] * B[0], "ce::int64_t")
        else:
            for i, f in enumerate("xyz"):
                p, q = (i + 1) % 3, (i + 2) % 3
                both("cross product " + f, "ce::crossx(a, b).%s" % f, "ce::crossx(x, y).%s" % f, A[p] * B[q] - A[q] * B[p], "ce::int64_t")
        both("equality", "a == b", "x == y", int(A == B))
        both("inequality", "a != b", "x != y", int(A != B))
        both("equality to a number", "a == %s" % lit(A[0], t), "x == hide(%s)" % lit(A[0], t), int(all(q == A[0] for q in A)))
        if sums:
            for i, f in enumerate("xyz"[:m]):
                both("sum " + f, "(a + b).%s" % f, "(x + y).%s" % f, A[i] + B[i], "ce::int64_t")
                both("difference " + f, "(a - b).%s" % f, "(x - y).%s" % f, A[i] - B[i], "ce::int64_t")
                if t != "int" or abs(A[i] * s) < 1 << 31 and all(abs(p * s) < 1 << 31 for p in A):
                    both("multiple " + f, "(a * %s).%s" % (lit(s, t), f), "(x * hide(%s)).%s" % (lit(s, t), f), A[i] * s, "ce::int64_t")
                if t != "float":
                    both("quotient " + f, "(a / %s).%s" % (lit(s, t), f), "(x / hide(%s)).%s" % (lit(s, t), f), int(abs(A[i]) // abs(s)) * (1 if (A[i] < 0) == (s < 0) else -1), "ce::int64_t")
    elif k == "inside":
        A, B = d["a"], d["b"]
        p, q = A[0] * B[1], A[1] * B[0]
        want = p < q if p != q else B[1] < A[1] if A[1] != B[1] else A[0] < B[0]
        va, vb = "ce::vec2<int>{ %d, %d }" % tuple(A), "ce::vec2<int>{ %d, %d }" % tuple(B)
        both("inside", "ce::inside(%s, %s)" % (va, vb), "ce::inside(ce::vec2<int>{ hide(%d), hide(%d) }, ce::vec2<int>{ hide(%d), hide(%d) })" % (A[0], A[1], B[0], B[1]), int(want))
    else:
        e = d["d"]
        w = abs(e) * (1 << 31) // 360 * (1 if e >= 0 else -1)
        w = (w + (1 << 31)) % (1 << 32) - (1 << 31)
        b.append("constexpr auto v = ce::degrees_to_angle(%d); auto x = ce::degrees_to_angle(hide(%d)); r.check(\"angle\", v == %dll && v == x);" % (e, e, w))
    return "\n".join(decl), "    " + "\n    ".join(b)


def reduce(d):
    k = d["k"]
    for f in ("data",):
        if k != "lz" and f in d:
            x = d[f]
            low = 0 if "text" in k else 1
            if len(x) > low:
                yield dict(d, **{f: x[:max(low, len(x) // 2)]})
                yield dict(d, **{f: x[:-1]})
                yield dict(d, **{f: x[1:]})
            for i, v in enumerate(x):
                if v not in (0, 97):
                    yield dict(d, **{f: x[:i] + [97] + x[i + 1:]})
    if k == "crc" and d["init"]:
        yield dict(d, init=0)
    if k == "fnv" and d["basis"] is not None:
        yield dict(d, basis=None)
    if k == "base64" and d["tail"]:
        yield dict(d, tail="")
    if k in ("vec", "inside"):
        for f in ("a", "b"):
            for i, v in enumerate(d[f]):
                for w in (0, 1, v // 2):
                    if abs(w) < abs(v):
                        yield dict(d, **{f: d[f][:i] + [w] + d[f][i + 1:]})
    if k == "lz":
        # drop tokens from the end
        s = d["stream"]
        for cut in range(len(s) - 1, 0, -1):
            try:
                lz_decode(bytes(s[:cut]))
                yield dict(d, stream=s[:cut])
            except IndexError:
                pass


def describe(d):
    return str(d)


def nontrivial(d):
    return len(d.get("data", d.get("stream", [1, 1]))) > 1


def labels(d):
    return [d["k"]]


def run(ctx):
    import common, sys
    mod = sys.modules[__name__]
    if ctx.get("replay"):
        return common.replay(ctx, mod, ctx["replay"])
    th = ctx["tier"] == "thorough"
    return common.run(ctx, mod, 40000 if th else 2000, 40, ["dbg", "o2", "o0"], 1)
