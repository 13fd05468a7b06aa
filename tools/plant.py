#!/usr/bin/env python3
"""Plant one bug: verify it in a scratch copy and, if it qualifies, keep it under /verif/seeded/<id>/.

    from plant import plant, main
    plant("c01-x", "C01", [("lib/h/ce/ce.h", "old text", "new text")], demo_cpp, needs, what_it_breaks)

A bug qualifies when every removed line is an original one, the library and the tests build, all stable tests pass,
and the demonstration exits 0 on the unchanged tree and nonzero on the changed one.  Whether the property's check catches it
is reported but does not matter for keeping it.
"""
import json, os, re, shutil, subprocess, sys, tempfile, concurrent.futures, difflib, time

REPO, VERIF, BASE = "/repo", "/verif", "f6f4dbb"
CXX = "/usr/bin/clang++-18"
FLAGS = "-std=c++17 -Wno-enum-constexpr-conversion -m64 -fno-rtti -fno-exceptions -DDEBUG -w".split()

DEMO_SH = """#!/bin/bash
# run with cwd = the repository, after its build; exit 0: the property held
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
/usr/bin/clang++-18 -std=c++17 -Wno-enum-constexpr-conversion -w %s -I lib/h "$here/demo.cpp" lib/*.cpp -o "$t/demo" -lpthread || exit 3
timeout 120 "$t/demo"
"""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def tests_pass(copy):
    out = os.path.join(copy, "_t")
    os.makedirs(out)
    srcs = [os.path.join(copy, d, f) for d in ("lib", "test") for f in sorted(os.listdir(os.path.join(copy, d))) if f.endswith(".cpp")]
    objs = [os.path.join(out, "%d.o" % i) for i in range(len(srcs))]
    with concurrent.futures.ThreadPoolExecutor(8) as p:
        rs = list(p.map(lambda a: sh([CXX] + FLAGS + ["-I" + copy + "/lib/h", "-I/usr/src/googletest/googletest/include", "-c", a[0], "-o", a[1]]), zip(srcs, objs)))
    for r in rs:
        if r.returncode:
            return "does not compile:\n" + r.stdout[-3000:]
    r = sh([CXX] + objs + [REPO + "/_build/libgoogletest.a", "-lpthread", "-o", out + "/t"])
    if r.returncode:
        return "does not link:\n" + r.stdout[-3000:]
    r = sh(["timeout", "60", out + "/t", "--gtest_filter=-clock.*"])
    return None if r.returncode == 0 else "tests fail: " + " ".join(l for l in r.stdout.splitlines() if "FAILED  ]" in l and "ms)" not in l)


BLAME = {}


def original(path):
    if path not in BLAME:
        r = sh(["git", "-C", REPO, "blame", "-s", "--abbrev=12", path])
        BLAME[path] = [("^" in l.split()[0] or ok(l.split()[0])) for l in r.stdout.splitlines()]
    return BLAME[path]


OWN = None


def ok(sha):
    global OWN
    if OWN is None:
        OWN = [l[:12] for l in sh(["git", "-C", REPO, "rev-list", BASE + "..HEAD"]).stdout.split()]
    return sha[:12] not in OWN


RESULTS = []


def plant(id, prop, edits, demo, needs, breaks, flags="-O1 -DDEBUG", check=True, only=None, also=(), compile_fail=False, script=None):
    sel = [a for a in sys.argv[1:] if not a.startswith("-")]
    if sel and id not in sel:
        return
    if not sel and "--new" in sys.argv and os.path.exists(os.path.join(VERIF, "seeded", id)):
        return
    tmp = tempfile.mkdtemp(prefix="plant-")
    try:
        copy = os.path.join(tmp, "repo")
        shutil.copytree(REPO, copy, ignore=shutil.ignore_patterns("_build"))
        for path, old, new in edits:
            f = os.path.join(copy, path)
            t = open(f, newline="").read()
            crlf = "\r\n" in t
            if crlf:
                old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            if t.count(old) != 1:
                print("%s: text found %d times in %s: %s" % (id, t.count(old), path, old[:80]))
                return
            open(f, "w", newline="").write(t.replace(old, new))
        for path in sorted({e[0] for e in edits}):
            a = open(os.path.join(REPO, path), newline="").read().splitlines()
            b = open(os.path.join(copy, path), newline="").read().splitlines()
            o = original(path)
            n = 0
            for tag, i1, i2, j1, j2 in difflib.SequenceMatcher(None, a, b, autojunk=False).get_opcodes():
                if tag in ("replace", "delete"):
                    for i in range(i1, i2):
                        n += 1
                        if not o[i]:
                            print("%s: line %d of %s is not original: %s" % (id, i + 1, path, a[i]))
                            return
            if not n:
                print("%s: only inserts lines in %s" % (id, path))
                return
        patch = sh(["git", "-C", copy, "diff"]).stdout
        raw = subprocess.run(["git", "-C", copy, "diff", "--binary"], stdout=subprocess.PIPE).stdout
        d = os.path.join(tmp, "seed")
        os.makedirs(d)
        open(os.path.join(d, "patch.diff"), "wb").write(raw)
        open(os.path.join(d, "demo.cpp"), "w").write(demo.lstrip("\n"))
        open(os.path.join(d, "demo.sh"), "w").write(script or DEMO_SH % flags)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        t0 = time.time()
        e = tests_pass(copy)
        if e:
            print("%s: REJECTED %s" % (id, e))
            return
        r0 = sh(["bash", os.path.join(d, "demo.sh")], cwd=REPO)
        if r0.returncode:
            print("%s: REJECTED demo fails unchanged (%d)\n%s" % (id, r0.returncode, r0.stdout[-2000:]))
            return
        r1 = sh(["bash", os.path.join(d, "demo.sh")], cwd=copy)
        if r1.returncode == 0 or (r1.returncode == 3 and not compile_fail):
            print("%s: REJECTED demo %s with the change\n%s" % (id, "passes" if not r1.returncode else "does not compile", r1.stdout[-2000:]))
            return
        if subprocess.run(["git", "-C", REPO, "apply", "--check", os.path.join(d, "patch.diff")]).returncode:
            print("%s: REJECTED does not apply" % id)
            return
        dst = os.path.join(VERIF, "seeded", id)
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(d, dst)
        got = {}
        if check and "--nocheck" not in sys.argv:
            for p in (prop,) + tuple(also):
                t1 = time.time()
                r = sh([sys.executable, os.path.join(VERIF, "check.py"), p], env=dict(os.environ, CE_REPO=copy, VERIF_SEED="1", VERIF_TIER="quick"))
                v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
                got[p] = "%s in %.0f s" % ("CAUGHT" if r.returncode == 1 and v else "exit %d %s" % (r.returncode, r.stdout[-600:] if r.returncode else "MISSED"), time.time() - t1)
        RESULTS.append((id, got))
        print("%s: kept; %s" % (id, got), flush=True)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def recheck(ids):
    """run the property's check against kept bugs"""
    for id in ids:
        d = os.path.join(VERIF, "seeded", id)
        prop = json.load(open(os.path.join(d, "meta.json")))["property"]
        tmp = tempfile.mkdtemp(prefix="plant-")
        try:
            copy = os.path.join(tmp, "repo")
            shutil.copytree(REPO, copy, ignore=shutil.ignore_patterns("_build"))
            if subprocess.run(["git", "-C", copy, "apply", os.path.join(d, "patch.diff")]).returncode:
                print("%s: does not apply" % id)
                continue
            t1 = time.time()
            r = sh([sys.executable, os.path.join(VERIF, "check.py"), prop], env=dict(os.environ, CE_REPO=copy, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick"))
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            print("%s %s: %s in %.0f s" % (id, prop, "CAUGHT" if r.returncode == 1 and v else "exit %d %s" % (r.returncode, r.stdout[-600:]), time.time() - t1), flush=True)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    ids = sys.argv[1:] or sorted(os.listdir(os.path.join(VERIF, "seeded")))
    recheck(ids)
