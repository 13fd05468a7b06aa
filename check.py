#!/usr/bin/env python3
"""check.py <property-id>: decide one property by generated-input search against /repo's working tree.

exit 0: held on everything explored;  exit 1 + "VIOLATION property=<id> replay=<path>": broken;  exit 2: could not decide.
Environment: VERIF_SEED (default 1), VERIF_TIER (quick | thorough).
Options: --replay FILE re-runs one saved failing case;  --keep keeps the build directory.
"""
import concurrent.futures, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("CE_REPO", "/repo")
sys.path.insert(0, HERE)
from registry import PROPS  # noqa: E402

CXX = "/usr/bin/clang++-18"
BASE = ["-std=c++17", "-Wno-enum-constexpr-conversion", "-w", "-I" + os.path.join(REPO, "lib/h"), "-I" + os.path.join(REPO, "lib"),
        "-I" + os.path.join(HERE, "engine"), "-I" + os.path.join(HERE, "harness"), "-fno-omit-frame-pointer"]
# flags the repository is built with for its own sources; harness TUs need exceptions for the engine
LIBFLAGS = ["-fno-exceptions", "-fno-rtti"]
CONFIGS = {
    # debug build under the address sanitizer (and the UB checks the library does not violate on purpose)
    "dbg": ["-O1", "-g", "-DDEBUG", "-fsanitize=address,bounds,null,return,unreachable,vla-bound", "-fno-sanitize-recover=all"],
    # optimised build, no instrumentation
    "rel": ["-O2", "-DNDEBUG"],
    # unoptimised build
    "o0": ["-O0", "-DDEBUG"],
    # optimised build with the 128 bit products of the Microsoft compiler
    "ms": ["-O2", "-DNDEBUG", "-include", os.path.join(HERE, "harness", "win32", "math_msvc.h")],
    "tsan": ["-O1", "-g", "-DDEBUG", "-fsanitize=thread"],
}
FUZZ = ["-O1", "-g", "-DDEBUG", "-DPBT_FUZZ", "-fsanitize=fuzzer,address,bounds,null,return,unreachable", "-fno-sanitize-recover=all"]

ENV = dict(os.environ,
           ASAN_OPTIONS="detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_sigtrap=0:malloc_context_size=4",
           UBSAN_OPTIONS="halt_on_error=1:exitcode=99", TSAN_OPTIONS="halt_on_error=1:exitcode=98:detect_deadlocks=0:report_signal_unsafe=0")


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=ENV, **kw)


class Undecided(Exception):
    pass


def lib_sources():
    d = os.path.join(REPO, "lib")
    return sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith(".cpp"))


def build_all(prop, spec, build, names, pool):
    """compile the harness and every library source for each named config; returns {config: binary}"""
    jobs, objs = {}, {n: [] for n in names}
    for n in names:
        flags = FUZZ if n == "fuzz" else CONFIGS[n]
        d = os.path.join(build, n)
        os.makedirs(d, exist_ok=True)
        srcs = [(s, LIBFLAGS) for s in lib_sources()] + [(os.path.join(HERE, "harness", spec["src"]), ["-DPBT_HARNESS"] + spec.get("flags", []))]
        srcs += [(os.path.join(HERE, "harness", x), spec.get("flags", [])) for x in spec.get("extra", [])]
        for src, extra in srcs:
            o = os.path.join(d, os.path.basename(src) + ".o")
            objs[n].append(o)
            libonly = flags if "fuzz" not in n else [f.replace("fuzzer,", "fuzzer-no-link,") for f in flags]
            cmd = [CXX] + BASE + libonly + extra + spec.get("cflags", {}).get(n, []) + ["-c", src, "-o", o]
            jobs[(n, src)] = pool.submit(sh, cmd)
    for (n, src), j in jobs.items():
        r = j.result()
        if r.returncode != 0:
            raise Undecided("does not compile (%s, %s):\n%s" % (n, src, r.stdout[-4000:]))
    bins = {}
    links = {}
    for n in names:
        b = os.path.join(build, n, prop)
        san = [f for f in (FUZZ if n == "fuzz" else CONFIGS[n]) if f.startswith("-fsanitize")]
        links[n] = (b, pool.submit(sh, [CXX] + san + objs[n] + ["-o", b, "-lpthread", "-ldl"] + spec.get("ldflags", [])))
    for n, (b, j) in links.items():
        r = j.result()
        if r.returncode != 0:
            raise Undecided("does not link (%s):\n%s" % (n, r.stdout[-4000:]))
        bins[n] = b
    return bins


def known_findings():
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) match=(.*?) :: (.*)", line.strip())
            if m:
                out.append(m.groups())
    return out


def main():
    args = sys.argv[1:]
    prop = args[0]
    spec = PROPS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    outdir = os.path.join(HERE, "out", prop)
    if "--replay" not in args:
        shutil.rmtree(outdir, ignore_errors=True)
    os.makedirs(outdir, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    build = tempfile.mkdtemp(prefix="ce-verif-%s-" % prop)
    try:
        if "--replay" in args:
            return replay(prop, spec, build, args[args.index("--replay") + 1])
        if spec.get("module"):
            res = module_of(spec).run(context(prop, spec, build, outdir, seed, tier))
        else:
            res = run_engine(prop, spec, build, outdir, seed, tier)
        return report(prop, spec, seed, tier, t0, res)
    except Exception as e:
        if not isinstance(e, Undecided) and type(e).__name__ != "Base":
            import traceback
            traceback.print_exc()
        print("UNDECIDED property=%s %s" % (prop, e))
        return 2
    finally:
        if "--keep" in args:
            print("kept", build)
        else:
            shutil.rmtree(build, ignore_errors=True)


def module_of(spec):
    import importlib
    sys.path.insert(0, os.path.join(HERE, "programs"))
    return importlib.import_module(spec["module"])


def context(prop, spec, build, outdir, seed, tier, **more):
    return dict(repo=REPO, here=HERE, build=build, out=outdir, seed=seed, tier=tier, prop=prop, cxx=CXX, env=ENV, spec=spec, sh=sh, **more)


def replay(prop, spec, build, path):
    if spec.get("module"):
        return module_of(spec).run(context(prop, spec, build, build, 1, "quick", replay=os.path.abspath(path)))
    cfg = None
    for line in open(path):
        m = re.match(r"config\s+(\S+)", line)
        if m:
            cfg = m.group(1)
    cfg = cfg.split("-")[0] if cfg else spec["runs"][0][0]
    if cfg == "fuzz":
        cfg = "dbg"
    with concurrent.futures.ThreadPoolExecutor(8) as pool:
        bins = build_all(prop, spec, build, [cfg], pool)
    r = sh([bins[cfg], "--replay", path, "--replay-out", os.path.join(build, "r")] + spec.get("args", []))
    print(r.stdout)
    return r.returncode


def run_engine(prop, spec, build, outdir, seed, tier):
    thorough = tier == "thorough"
    runs = [r for r in spec["runs"] if (r[2] if thorough else r[1])]
    names = list(dict.fromkeys(r[0] for r in runs))
    fuzz_runs = spec.get("fuzz", 0) if thorough else 0
    if fuzz_runs:
        names.append("fuzz")
        if "dbg" not in names:
            names.append("dbg")
    workers = str(spec.get("workers", os.cpu_count() or 8))
    with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 8) as pool:
        bins = build_all(prop, spec, build, names, pool)
    results, fails, inconclusive = [], [], []
    for k, (cfg, q, t) in enumerate(runs):
        cases = t if thorough else q
        rep = os.path.join(outdir, "replay-%s.txt" % cfg)
        js = os.path.join(build, "res-%d.json" % k)
        cmd = [bins[cfg], "--seed", str((seed & 0xffffffff) * 64 + k), "--cases", str(cases), "--workers", workers, "--out", js,
               "--replay-out", rep, "--name", prop, "--config", cfg] + (["--thorough"] if thorough else [])
        cmd += ["--cpu-limit", str(spec.get("cpu_limit", 20))]
        if spec.get("wall_limit"):
            cmd += ["--wall-limit", str(spec["wall_limit"])]
        r = sh(cmd)
        sys.stdout.write(r.stdout)
        if not os.path.exists(js):
            raise Undecided("the engine ended with %d and no result (%s)" % (r.returncode, cfg))
        d = json.load(open(js))
        results.append(d)
        if d["inconclusive"]:
            inconclusive.append(d["inconclusive"])
        if d["violated"] == 1:
            fails.append((rep, d["message"]))
            break
        if d["violated"] == 2:
            inconclusive.append("seen once, never reproduced: " + d["message"])
    if fuzz_runs and not fails:
        d, f = run_fuzz(prop, spec, bins, build, outdir, seed, fuzz_runs)
        results.append(d)
        fails += f
    return dict(results=results, fails=fails, inconclusive=inconclusive)


def run_fuzz(prop, spec, bins, build, outdir, seed, runs):
    n = os.cpu_count() or 8
    procs = []
    for i in range(n):
        corpus = os.path.join(build, "corpus%d" % i)
        os.makedirs(corpus)
        tape = os.path.join(build, "tape%d" % i)
        log = open(os.path.join(build, "fuzz%d.log" % i), "wb")
        cmd = [bins["fuzz"], "-runs=%d" % runs, "-seed=%d" % ((seed & 0xffffff) * 16 + i + 1), "-max_len=%d" % spec.get("fuzz_len", 4096), "-len_control=20",
               "-timeout=120", "-rss_limit_mb=3000", "-max_total_time=%d" % spec.get("fuzz_time", 240), "-print_final_stats=1", "-artifact_prefix=" + build + "/", corpus]
        procs.append((subprocess.Popen(cmd, stdout=log, stderr=log, env=dict(ENV, PBT_TAPE=tape)), tape, log))
    fails, ev, cov = [], 0, 0
    for i, (p, tape, log) in enumerate(procs):
        p.wait()
        log.close()
        t = open(log.name, "rb").read().decode(errors="replace")
        m = re.search(r"stat::number_of_executed_units:\s*(\d+)", t)
        ev += int(m.group(1)) if m else 0
        cov += len(os.listdir(os.path.join(build, "corpus%d" % i)))
        if p.returncode != 0 and os.path.exists(tape) and not fails:
            rep = os.path.join(outdir, "replay-fuzz.txt")
            r = sh([bins["dbg"], "--shrink", tape, "--replay-out", rep, "--name", prop, "--config", "dbg-fuzz", "--cpu-limit", str(spec.get("cpu_limit", 20))])
            sys.stdout.write(r.stdout)
            if r.returncode == 1:
                fails.append((rep, "libFuzzer"))
            else:
                print("fuzzer stopped but the case does not fail in the engine:", t[-1500:])
    return dict(config="fuzz", violated=1 if fails else 0, message="", cases=ev, evaluations=ev, nontrivial=cov, distinct=cov, discards=0, labels={}, samples=[]), fails


def report(prop, spec, seed, tier, t0, res):
    results, fails = res["results"], res["fails"]
    kf = [k for k in known_findings() if k[0] == prop]
    real = []
    for rep, msg in fails:
        hit = [k for k in kf if k[1] in msg]
        if not hit:
            real.append((rep, msg))
    for k in kf:
        print("KNOWN-FINDING: property=%s %s" % (prop, k[2]))
    labels = {}
    for r in results:
        for k, v in r["labels"].items():
            labels[k] = labels.get(k, 0) + v
    samples = [s for r in results for s in r["samples"]][:8]
    ev = dict(property=prop, tier=tier, seed=seed, level=spec.get("level", "exploration"),
              coverage=dict(evaluations=sum(r["evaluations"] for r in results), distinct_nontrivial=sum(r["distinct"] for r in results),
                            rule=spec["rule"], samples=samples or ["(none recorded)"], labels=labels,
                            runs=[{k: r.get(k) for k in ("config", "cases", "evaluations", "nontrivial", "distinct", "discards", "wall")} for r in results]),
              assumptions=spec.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(real))
    if res.get("inconclusive"):
        ev["coverage"]["inconclusive"] = res["inconclusive"]
    if spec.get("exhaustive") and not fails:
        ev["coverage"]["exhaustive_parts"] = spec["exhaustive"]
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for rep, msg in real:
        print("  " + msg[:1000])
        print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(rep, HERE)))
    return 1 if real else 0


if __name__ == "__main__":
    sys.exit(main())
