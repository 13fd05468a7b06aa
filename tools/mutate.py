#!/usr/bin/env python3
"""Systematic small changes to /repo/lib, to find what no check sees: mutate.py [--files a,b] [--lines lo-hi] [--jobs N] [--max N] [--seed N] OUT.jsonl

Each change that still compiles and passes the tests is given to the checks of the properties anchored there (with fewer cases first).
Works on copies under /tmp only; the surviving changes are written to OUT.jsonl for reading.
"""
import argparse, concurrent.futures, json, os, random, re, shutil, subprocess, sys, tempfile, threading

REPO, VERIF = "/repo", "/verif"
CXX = "/usr/bin/clang++-18"
FLAGS = "-std=c++17 -Wno-enum-constexpr-conversion -m64 -fno-rtti -fno-exceptions -DDEBUG -w".split()
# section starts of ce.h (first line containing the text) and the properties of each section
SECTIONS = [("namespace core", ["C35", "C07", "C45"]), ("#define CE_ERROR_LEVEL", ["C07", "C45", "C43", "C05"]), ("template<class T, T...Is> struct items", ["C43"]), ("using as_enum_t", ["C35"]), ("template<class T> struct remove_reference", ["C43"]),
            ("template<uint32_t P> struct crc32", ["C08", "C44"]), ("namespace hash", ["C09", "C44"]), ("    namespace math", ["C24", "C44"]), ("in_polygon_xy", ["C27"]), ("    namespace random", ["C10"]), ("uint32_t next_ranged", ["C11"]), ("    namespace ascii", ["C35"]),
            ("    namespace base64", ["C12", "C44"]), ("struct rgba", ["C35"]), ("to_text(char text[], char value)", ["C03", "C01", "C04"]), ("struct measure", ["C04", "C45"]), ("struct error_hook", ["C07", "C06", "C45"]), ("struct names", ["C05", "C45"]), ("struct span", ["C17"]),
            ("#define CE_CONSTRUCT_AT", ["C14", "C19"]), ("struct bulk", ["C14"]), ("heap_raise", ["C15"]), ("struct bitset", ["C16"])]


def sections():
    lines = open(os.path.join(REPO, "lib/h/ce/ce.h")).read().split("\n")
    at = []
    for t, ps in SECTIONS:
        n = next((i + 1 for i, l in enumerate(lines) if t in l), None)
        if n:
            at.append((n, ps))
    at.sort()
    return [(n, (at[k + 1][0] - 1) if k + 1 < len(at) else 9999, ps) for k, (n, ps) in enumerate(at)]


CE = sections()
MATH = [(30, 80, ["C25"]), (81, 119, ["C30"]), (120, 137, ["C26", "C33"]), (138, 222, ["C25"]), (223, 267, ["C28"]), (268, 301, ["C30"]), (302, 428, ["C29", "C44"])]
Z = [(20, 47, ["C22"]), (48, 75, ["C23"]), (76, 91, ["C21"]), (92, 110, ["C22"]), (111, 172, ["C23"])]
SORT = [(1, 64, ["C21"]), (65, 176, ["C20"])]
MAP = {"lib/h/ce/ce.h": CE, "lib/h/ce/math.h": MATH, "lib/h/ce/zorder.h": Z, "lib/h/ce/sort.h": [(1, 176, ["C20", "C21"])], "lib/h/ce/atomic_std.h": [(1, 999, ["C36", "C37"])], "lib/h/ce/atomic.h": [(1, 999, ["C36"])],
       "lib/h/ce/cdt.h": [(1, 1081, ["C31", "C32", "C33", "C34"])], "lib/h/ce/clock.h": [(1, 99, ["C39"])], "lib/h/ce/dictionary.h": [(1, 199, ["C19"])], "lib/h/ce/io.h": [(1, 199, ["C42"])],
       "lib/h/ce/lziii.h": [(1, 199, ["C13", "C44"])], "lib/h/ce/mutex.h": [(1, 99, ["C38"])], "lib/mutex_std.cpp": [(1, 99, ["C38"])], "lib/h/ce/nameof.h": [(1, 199, ["C41"])], "lib/h/ce/pool.h": [(1, 199, ["C18"])],
       "lib/os.cpp": [(1, 99, ["C06", "C17"])], "lib/os_posix.cpp": [(1, 199, ["C06", "C40", "C17"])], "lib/to_text.cpp": [(1, 99, ["C01", "C02"])], "lib/to_text_from_integer.h": [(1, 999, ["C01"])]}
SWAPS = [(r" <= ", [" < "]), (r" >= ", [" > "]), (r" < ", [" <= "]), (r" > ", [" >= "]), (r" == ", [" != "]), (r" != ", [" == "]), (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" + "]), (r" / ", [" * "]),
         (r" << ", [" >> "]), (r" >> ", [" << "]), (r" & ", [" | "]), (r" \| ", [" & "]), (r" \^ ", [" | "]), (r" && ", [" || "]), (r" \|\| ", [" && "]), (r" \+= ", [" -= ", " = "]), (r" -= ", [" += "]), (r" \^= ", [" = "]), (r" &= ", [" = "]), (r" \|= ", [" = "]),
         (r"\+\+", ["--"]), (r"--", ["++"]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\buint64_t\b", ["uint32_t"]), (r"\bint64_t\b", ["int32_t", "uint64_t"]), (r"\bsize_t\b", ["uint32_t", "uint8_t"]), (r"\buint32_t\b", ["uint16_t", "int32_t"]),
         (r"\bint32_t\b", ["int16_t", "uint32_t"]), (r"\buint16_t\b", ["uint8_t"]), (r"\buint8_t\b", ["int8_t"]), (r"\bdouble\b", ["float"]), (r"!(?=[\w(])", [""]), (r"~(?=[\w(])", [""]), (r"\.x\b", [".y"]), (r"\.y\b", [".x"]), (r"\.z\b", [".x"]),
         (r"(?<![\w.])(\d+)(?=(?:u|ull|ll)?\b)(?!\.)", ["+1", "-1"]), (r"0x[0-9a-fA-F]+", ["+1"]), (r"\bconst&", [""]), (r"\? ", ["? !"]), (r"\bif \(", ["if (false && "]), (r"\bcontinue;", [";"]), (r"\bbreak;", [";"])]


def mutants(path, lo, hi):
    lines = open(os.path.join(REPO, path), newline="").read().split("\n")
    r = subprocess.run(["git", "-C", REPO, "blame", "-s", "--abbrev=12", path], stdout=subprocess.PIPE, text=True).stdout.splitlines()
    own = set(x[:12] for x in subprocess.run(["git", "-C", REPO, "rev-list", "f6f4dbb..HEAD"], stdout=subprocess.PIPE, text=True).stdout.split())
    out = []
    comment = False
    for i, l in enumerate(lines):
        n = i + 1
        if "/*" in l:
            comment = True
        if comment:
            comment = "*/" not in l
            continue
        if n < lo or n > hi:
            continue
        code = l.split("//")[0]
        st = code.strip()
        if not st or st.startswith(("#if", "#else", "#endif", "#pragma", "#include", "*", "/*", "static_assert", "CE_STATIC")):
            continue
        for pat, reps in SWAPS:
            for m in re.finditer(pat, code):
                for rep in reps:
                    if rep in ("+1", "-1"):
                        t = m.group(0)
                        v = int(t, 16 if t.startswith("0x") else 10) + (1 if rep == "+1" else -1)
                        if v < 0:
                            continue
                        new = hex(v) if t.startswith("0x") else str(v)
                    else:
                        new = rep
                    out.append((path, n, l, l[:m.start()] + new + l[m.end():]))
        if len(SWAPS) > 1 and st.endswith(";") and not re.match(r"(return|using|typedef|struct|constexpr|static|template|friend|else|auto|int|size_t|u?int\d+_t|bool|char|T|break|continue)\b", st) and "operator" not in st and "(" not in st.split("=")[0][:0]:
            out.append((path, n, l, l[:len(l) - len(l.lstrip())] + ";" + ("\r" if l.endswith("\r") else "")))
    return out


def sh(cmd, t=None, **kw):
    try:
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=t, **kw)
    except subprocess.TimeoutExpired as e:
        class R:
            returncode, stdout = 124, str(e.stdout or "")
        return R


loc = threading.local()
TMP = tempfile.mkdtemp(prefix="mut-")


def setup(scale, workers):
    d = tempfile.mkdtemp(prefix="w-", dir=TMP)
    shutil.copytree(REPO, d + "/repo", ignore=shutil.ignore_patterns("_build", ".git"))
    os.makedirs(d + "/v")
    for x in ("check.py", "registry.py", "engine", "harness", "programs", "known_findings.txt"):
        s = os.path.join(VERIF, x)
        (shutil.copytree if os.path.isdir(s) else shutil.copy)(s, d + "/v/" + x)
    with open(d + "/v/registry.py", "a") as f:
        f.write("\nimport os as _o\n_s = int(_o.environ.get('MUT_SCALE', '1'))\nif _s > 1:\n    for _k, _p in PROPS.items():\n        if _p.get('runs'): _p['runs'] = [(c, max(q // _s, 1), t) for c, q, t in _p['runs'] if c != 'o0'][:2]\n    for _k, _p in PROPS.items():\n        _p['workers'] = min(_p.get('workers', 4), 4)\n")
    os.makedirs(d + "/o")
    # precompile unchanged test objects is not possible: everything includes ce.h
    loc.d = d
    return d


def tests(d):
    c = d + "/repo"
    srcs = [os.path.join(c, a, f) for a in ("lib", "test") for f in sorted(os.listdir(os.path.join(c, a))) if f.endswith(".cpp")]
    objs = []
    for i, s in enumerate(srcs):
        o = d + "/o/%d.o" % i
        objs.append(o)
        r = sh([CXX] + FLAGS + ["-I" + c + "/lib/h", "-I/usr/src/googletest/googletest/include", "-c", s, "-o", o], 60)
        if r.returncode:
            return "compile"
    r = sh([CXX] + objs + [REPO + "/_build/libgoogletest.a", "-lpthread", "-o", d + "/o/t"])
    if r.returncode:
        return "link"
    r = sh(["timeout", "20", d + "/o/t", "--gtest_filter=-clock.*"], 30)
    return None if r.returncode == 0 else "tests"


def one(m, props):
    d = getattr(loc, "d", None) or setup(0, 0)
    path, n, old, new = m
    f = os.path.join(d, "repo", path)
    t = open(os.path.join(REPO, path), newline="").read().split("\n")
    assert t[n - 1] == old
    t[n - 1] = new
    open(f, "w", newline="").write("\n".join(t))
    res = dict(path=path, line=n, old=old.strip(), new=new.strip())
    try:
        k = tests(d)
        if k:
            res["end"] = k
            return res
        for p in props:
            r = sh(["python3", d + "/v/check.py", p], 600, env=dict(os.environ, CE_REPO=d + "/repo", MUT_SCALE=os.environ.get("MUT_SCALE", "10")))
            if r.returncode == 1:
                res["end"] = "caught " + p
                return res
            if r.returncode not in (0, 1):
                res["undecided"] = res.get("undecided", []) + [p + ": " + r.stdout[-300:]]
        res["end"] = "undecided" if res.get("undecided") else "SURVIVED"
        res["props"] = props
        return res
    except Exception as e:
        res["end"] = "error " + repr(e)
        return res
    finally:
        shutil.copy(os.path.join(REPO, path), f)


def main():
    a = argparse.ArgumentParser()
    a.add_argument("out")
    a.add_argument("--files", default="")
    a.add_argument("--lines", default="1-99999")
    a.add_argument("--jobs", type=int, default=5)
    a.add_argument("--max", type=int, default=10 ** 9)
    a.add_argument("--seed", type=int, default=1)
    a.add_argument("--swap", default="", help="only this swap: pattern=>replacement")
    a.add_argument("--per-line", type=int, default=99)
    a = a.parse_args()
    if a.swap:
        x, y = a.swap.split("=>")
        SWAPS[:] = [(x, [y])]
    rng = random.Random(a.seed)
    lo, hi = map(int, a.lines.split("-"))
    todo = []
    for path, regs in MAP.items():
        if a.files and not any(path.endswith(x) for x in a.files.split(",")):
            continue
        for l, h, props in regs:
            byline = {}
            for m in mutants(path, max(l, lo), min(h, hi)):
                byline.setdefault(m[1], []).append(m)
            for n, ms in byline.items():
                rng.shuffle(ms)
                todo += [(m, props) for m in ms[:a.per_line]]
    rng.shuffle(todo)
    todo = todo[:a.max]
    print(len(todo), "changes", flush=True)
    n = {}
    try:
        with open(a.out, "a") as f, concurrent.futures.ThreadPoolExecutor(a.jobs) as pool:
            for fu in concurrent.futures.as_completed([pool.submit(one, *x) for x in todo]):
                r = fu.result()
                k = r["end"].split()[0]
                n[k] = n.get(k, 0) + 1
                if k not in ("compile", "tests", "link"):
                    f.write(json.dumps(r) + "\n")
                    f.flush()
                if k in ("SURVIVED", "undecided", "error"):
                    print(json.dumps(r)[:300], flush=True)
        print(n)
    finally:
        shutil.rmtree(TMP, ignore_errors=True)


if __name__ == "__main__":
    main()
