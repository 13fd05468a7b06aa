"""Property checks over generated programs.

A case is a description (plain data) drawn from a seeded generator; it is emitted as a C++ function `void case_N(R& r)` (plus
declarations) that checks the code under test against expectations the generator worked out on its own. Cases are compiled in
batches; a case that fails to compile, crashes or reports a mismatch is a failure, which is shrunk by the generator's reductions.

A generator module has: NAME, PRELUDE, generate(rng, size) -> desc, emit(desc, n) -> (declarations, body), reduce(desc) -> iterable
of smaller descs, describe(desc) -> str, nontrivial(desc) -> bool, labels(desc) -> list.
"""
import concurrent.futures, json, os, random, re, subprocess, time

RT = r'''
#include <cstdio>
#include <cstdint>
#include <cstring>
#include <cstdlib>
#include <cstdarg>
#include <string>
#include <vector>
struct R
{
    unsigned long long evals = 0, rng; int n; bool bad = false;
    unsigned long long next() { rng += 0x9e3779b97f4a7c15ull; unsigned long long z = rng; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
    void fail(char const* f, ...) { if (bad) return; bad = true; printf("FAIL %d ", n); va_list ap; va_start(ap, f); vprintf(f, ap); va_end(ap); printf("\n"); fflush(stdout); }
    void same(char const* what, char const* got, char const* want) { ++evals; if (strcmp(got, want) != 0) fail("%s is \"%s\", expected \"%s\"", what, got, want); }
    template<class T> void equal(char const* what, T got, T want) { ++evals; if (!(got == want)) fail("%s is %lld, expected %lld", what, (long long)got, (long long)want); }
    void check(char const* what, bool ok) { ++evals; if (!ok) fail("%s", what); }
};
'''
MODES = {"o0": ["-O0"], "o2": ["-O2", "-DNDEBUG"], "dbg": ["-O1", "-g", "-DDEBUG", "-fsanitize=address,bounds,null,return,unreachable", "-fno-sanitize-recover=all"]}


def source(mod, cases, rounds, seed):
    out = [mod.PRELUDE, RT, getattr(mod, "RT2", "")]
    calls = []
    for n, desc in cases:
        decl, body = mod.emit(desc, n)
        out.append("// case %d: %s\n%s\nvoid case_%d(R& r)\n{\n%s\n}\n" % (n, mod.describe(desc).replace("\n", " ").replace("\\", "\\\\"), decl, n, body))
        calls.append("    { R r; r.n = %d; r.rng = %du; printf(\"RUN %d\\n\"); fflush(stdout); case_%d(r); printf(\"DONE %d %%llu\\n\", r.evals); }" % (n, (seed * 2654435761 + n) & 0xffffffff, n, n, n))
    out.append("unsigned ROUNDS = %d;\nint main()\n{\n%s\n}\n" % (rounds, "\n".join(calls)))
    return "\n".join(out)


class Builder:
    def __init__(self, ctx, mod):
        self.ctx, self.mod = ctx, mod
        self.repo, self.build = ctx["repo"], ctx["build"]
        self.k = 0
        self.libs = {}

    def flags(self, mode):
        return ["-std=c++17", "-Wno-enum-constexpr-conversion", "-w", "-I" + os.path.join(self.repo, "lib/h"), "-ferror-limit=3"] + MODES[mode.split("-")[0]] + (self.mod.defines(mode, self.build) if hasattr(self.mod, "defines") else [])

    def lib(self, mode):
        """the library's own sources, needed to link"""
        if mode in self.libs:
            return self.libs[mode]
        d = os.path.join(self.repo, "lib")
        objs = []
        for f in sorted(os.listdir(d)):
            if f.endswith(".cpp"):
                o = os.path.join(self.build, "lib-%s-%s.o" % (mode, f))
                r = self.ctx["sh"]([self.ctx["cxx"]] + self.flags(mode) + ["-fno-exceptions", "-fno-rtti", "-c", os.path.join(d, f), "-o", o])
                if r.returncode:
                    raise Base("the library does not compile: " + r.stdout[-2000:])
                objs.append(o)
        self.libs[mode] = objs
        return objs

    def run(self, cases, mode, rounds, seed):
        """returns (failures [(n, message)], evals)"""
        self.k += 1
        base = os.path.join(self.build, "p%d_%d_%s" % (self.k, cases[0][0], mode))
        with open(base + ".cpp", "w") as f:
            f.write(source(self.mod, cases, rounds, seed))
        objs = self.lib(mode) if getattr(self.mod, "LINK", True) else []
        r = self.ctx["sh"]([self.ctx["cxx"]] + self.flags(mode) + [base + ".cpp"] + objs + ["-o", base, "-lpthread"])
        if r.returncode:
            if len(cases) > 1:  # find the case
                h = len(cases) // 2
                a, ea = self.run(cases[:h], mode, rounds, seed)
                b, eb = self.run(cases[h:], mode, rounds, seed)
                return a + b, ea + eb
            os.unlink(base + ".cpp")
            return [(cases[0][0], "does not compile: " + first_error(r.stdout))], 0
        try:
            p = subprocess.run([base], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=self.ctx["env"], timeout=120)
            out, rc = p.stdout.decode(errors="replace"), p.returncode
        except subprocess.TimeoutExpired as e:
            out, rc = (e.stdout or b"").decode(errors="replace"), "timeout"
        fails, evals, running = [], 0, None
        for line in out.split("\n"):
            m = re.match(r"FAIL (\d+) (.*)", line)
            if m:
                fails.append((int(m.group(1)), m.group(2)))
            m = re.match(r"RUN (\d+)", line)
            if m:
                running = int(m.group(1))
            m = re.match(r"DONE (\d+) (\d+)", line)
            if m:
                evals += int(m.group(2))
                running = None
        if rc != 0:
            if running is None:
                running = cases[-1][0]
            fails.append((running, "the program ended with %s: %s" % (rc, " ".join(x for x in out.split("\n")[-30:] if "ERROR" in x or "#" in x)[:600])))
            rest = [c for c in cases if c[0] > running]
            if rest:
                f2, e2 = self.run(rest, mode, rounds, seed)
                fails += f2
                evals += e2
        for x in (base, base + ".cpp"):
            if os.path.exists(x):
                os.unlink(x)
        return fails, evals


class Base(Exception):
    pass


def first_error(text):
    for line in text.split("\n"):
        if "error:" in line or "undefined reference" in line:
            return re.sub(r"^/\S*/", "", line)[:400]
    return text[:400]


def kind(msg):
    return "compile" if msg.startswith("does not compile") else "crash" if msg.startswith("the program ended") else "value"


def shrink(b, mod, desc, mode, rounds, seed, msg, limit):
    t0, tries = time.time(), 0
    best, bmsg = desc, msg
    with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 8) as pool:
        go = True
        while go and time.time() - t0 < limit:
            go = False
            cand = list(mod.reduce(best))[:200]
            for i in range(0, len(cand), 8):
                if time.time() - t0 > limit:
                    break
                part = cand[i:i + 8]
                res = list(pool.map(lambda c: b.run([(c[0] + 1, c[1])], mode, rounds, seed), list(enumerate(part))))
                tries += len(part)
                hit = [(c, f[0][0][1]) for c, f in zip(part, res) if f[0] and kind(f[0][0][1]) == kind(msg)]
                if hit:
                    best, bmsg = hit[0]
                    go = True
                    break
    return best, bmsg, tries


def write_replay(ctx, mod, desc, mode, rounds, seed, msg, path):
    with open(path, "w") as f:
        f.write("property %s\nconfig %s\nrounds %d\nseed %d\ndesc %s\nfailure %s\n--- program\n%s" % (ctx["prop"], mode, rounds, seed, json.dumps(desc), msg, getattr(mod, "whole", source)(mod, [(1, desc)], rounds, seed)))


def replay(ctx, mod, path):
    v = {}
    for line in open(path):
        k, _, x = line.rstrip("\n").partition(" ")
        if k in ("config", "rounds", "seed", "desc") and k not in v:
            v[k] = x
        if line.startswith("--- program"):
            break
    b = getattr(mod, 'BUILDER', Builder)(ctx, mod)
    f, _ = b.run([(1, json.loads(v["desc"]))], v["config"], int(v["rounds"]), int(v["seed"]))
    print(f[0][1] if f else "passed")
    return 1 if f else 0


def run(ctx, mod, cases, batch, modes, rounds):
    b = getattr(mod, 'BUILDER', Builder)(ctx, mod)
    # is there anything to decide? an empty program has to build
    empty = os.path.join(ctx["build"], "empty.cpp")
    open(empty, "w").write(mod.PRELUDE + "\nint main() { }\n")
    for m in modes:
        b.lib(m) if getattr(mod, "LINK", True) else None
        r = ctx["sh"]([ctx["cxx"]] + b.flags(m) + [empty] + (b.lib(m) if getattr(mod, "LINK", True) else []) + ["-o", empty + ".bin", "-lpthread"])
        if r.returncode:
            raise Base("an empty program does not build: " + r.stdout[-2000:])
    t0 = time.time()
    rng = random.Random("%s %d" % (mod.NAME, ctx["seed"]))
    descs, seen, labels, samples, nontriv = [], set(), {}, [], 0
    for n in range(cases):
        d = mod.generate(rng, n)
        descs.append((n + 1, d))
        key = json.dumps(d, sort_keys=True)
        if mod.nontrivial(d):
            nontriv += 1
            seen.add(key)
        for l in mod.labels(d):
            labels[l] = labels.get(l, 0) + 1
        if n % max(1, cases // 4) == 0:
            samples.append(mod.describe(d)[:900])
    jobs = []
    for i in range(0, len(descs), batch):
        jobs.append((descs[i:i + batch], modes[(i // batch) % len(modes)]))
    evals, fails, done = 0, [], 0
    ex = concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 8)
    futs = [(j, ex.submit(b.run, j[0], j[1], rounds, ctx["seed"])) for j in jobs]
    for j, fu in futs:
        f, e = fu.result()
        evals += e
        done += len(j[0])
        if f:
            fails = [(n, msg, j[1]) for n, msg in f]
            break
    for _, fu in futs:
        fu.cancel()
    ex.shutdown(wait=True)
    out = []
    if fails:
        n, msg, mode = fails[0]
        desc = dict(descs)[n]
        f2, _ = b.run([(1, desc)], mode, rounds, ctx["seed"])
        r = dict(config="programs", violated=2, message=msg)
        best, bmsg, tries = desc, msg, 0
        if f2:
            best, bmsg, tries = shrink(b, mod, desc, mode, rounds, ctx["seed"], f2[0][1], 60)
            r["violated"] = 1
        rep = os.path.join(ctx["out"], "replay-%s.txt" % mode)
        write_replay(ctx, mod, best, mode, rounds, ctx["seed"], bmsg, rep)
        print("FAILURE program case %d (%s), shrunk in %d attempts\n  %s\n  case: %s" % (n, mode, tries, bmsg, mod.describe(best)[:1500]))
        if f2:
            out.append((rep, bmsg))
    wall = time.time() - t0
    print("programs cases=%d evals=%d nontrivial=%d distinct=%d wall=%.1fs" % (done, evals, nontriv, len(seen), wall))
    res = dict(config="programs (%s)" % ", ".join(modes), cases=done, evaluations=evals, nontrivial=nontriv, distinct=len(seen), discards=0, wall=round(wall, 2), labels=labels, samples=samples)
    return dict(results=[res], fails=out, inconclusive=["seen once, never reproduced: " + fails[0][1]] if fails and not out else [])
