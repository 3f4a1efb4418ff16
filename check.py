#!/usr/bin/env python3
"""check.py Cxx [--replay FILE]: decides property Cxx on /repo's working tree.

Compiles harness/Cxx*.cpp together with the library headers in /repo to LLVM
IR, runs every harness entry through the symbolic executor build/dsym, replays
counterexamples natively and reports.  Exit 0: held on everything within the
bounds; 1: VIOLATION; 2: no answer (error of the check)."""
import glob, hashlib, json, os, re, shutil, struct, subprocess, sys, threading, time, math
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("DSPBB_REPO", "/repo")
DSYM = V + "/build/dsym"
CF = ["-DXSIMD_ENABLE_XTL_COMPLEX=1", "-std=gnu++20", f"-I{REPO}/include", "-isystem", "/usr/include/eigen3", f"-I{V}/harness"]
T0 = time.time()
PLAIN_LOCK = threading.Lock()


def sh(cmd, timeout=None, **kw):
    try:
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout, **kw)
    except subprocess.TimeoutExpired as e:
        out = e.stdout or ""
        return subprocess.CompletedProcess(cmd, 124, out if isinstance(out, str) else out.decode(errors="replace"))


def die(msg):
    print("ERROR " + msg, flush=True)
    sys.exit(2)


class Module:
    def __init__(self, src, work, thorough):
        self.src, self.work = src, work
        self.name = os.path.basename(src)[:-4]
        text = open(src).read()
        self.cflags = []
        for m in re.finditer(r"^// @cflags (.*)$", text, re.M):
            self.cflags += m.group(1).split()
        self.entries = re.findall(r"^HARNESS (C\w+)\(", text, re.M)
        self.quick_only = set(re.findall(r"^// @quickonly (\w+)", text, re.M))
        self.thorough_only = set(re.findall(r"^// @thoroughonly (\w+)", text, re.M))
        self.opts = {}
        for m in re.finditer(r"^// @opts (\w+) (.*)$", text, re.M):
            self.opts[m.group(1)] = m.group(2).split()
        self.bounds = [m.group(1) for m in re.finditer(r"^// @bound (.*)$", text, re.M)]
        self.notes = [m.group(1) for m in re.finditer(r"^// @assume (.*)$", text, re.M)]
        self.entries = [e for e in self.entries if e not in (self.quick_only if thorough else self.thorough_only)]
        if thorough:
            self.cflags.append("-DTHOROUGH")

        if not self.entries:
            die(f"no entries in {src}")

    def bitcode(self):
        h, r, o = (f"{self.work}/{self.name}{s}.bc" for s in (".h", ".rt", ""))
        p = sh(["clang++", "-O1", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-ffp-contract=off", "-gline-tables-only", "-w",
                "-emit-llvm", "-c", *CF, *self.cflags, self.src, "-o", h])
        if p.returncode:
            return p.stdout
        p = sh(["clang++", "-O1", "-w", "-emit-llvm", "-c", f"{V}/harness/rt_engine.cpp", "-o", r])
        p2 = sh(["llvm-link-18", h, r, "-o", o])
        self.bc = o
        return p.stdout + p2.stdout if p.returncode or p2.returncode else ""

    def native(self, san):
        exe = f"{self.work}/{self.name}.{'san' if san else 'plain'}"
        fl = ["-fsanitize=address,undefined", "-fno-sanitize=null,alignment,vptr,pointer-overflow,nonnull-attribute", "-fno-sanitize-recover=all", "-O1"] if san else ["-O2"]
        p = sh(["g++", *fl, "-g1", "-w", *CF, *self.cflags, self.src, f"{V}/harness/rt_native.cpp", "-rdynamic", "-ldl", "-o", exe])
        if p.returncode:
            return p.stdout
        setattr(self, "san" if san else "plain", exe)
        return ""


ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1", UBSAN_OPTIONS="print_stacktrace=0:exitcode=98")


def run_native(exe, entry, path, extra=(), timeout=60):
    return sh([exe, entry, path, *extra], timeout=timeout, env=ENV)


def bits(h):
    return struct.unpack(">d", bytes.fromhex(h))[0]


def reproduces(mod, entry, path):
    """does the counterexample show on the real code? returns a description"""
    p = run_native(mod.san, entry, path)
    if p.returncode not in (0, 78):
        what = {77: "assertion", 79: "assertion or exception in the library", 99: "AddressSanitizer", 98: "UndefinedBehaviorSanitizer", 124: "does not terminate"}.get(p.returncode, f"exit {p.returncode}")
        lines = [l for l in p.stdout.splitlines() if l.strip()]
        key = [l for l in lines if "ASSERTION" in l or "ERROR: Addr" in l or "runtime error" in l or "Assertion" in l or "what()" in l]
        return what + ": " + " | ".join((key or lines)[-2:])[:400]
    if p.returncode == 78:
        return None
    with PLAIN_LOCK:
        err = "" if hasattr(mod, "plain") else mod.native(False)
    if err:
        return None
    p = run_native(mod.plain, entry, path)
    if p.returncode not in (0, 78):
        return f"exit {p.returncode} (optimised build): " + p.stdout.strip()[-300:]
    p = sh(["valgrind", "-q", "--error-exitcode=97", mod.plain, entry, path], timeout=120)
    if p.returncode == 97:
        key = [l for l in p.stdout.splitlines() if "==" in l][:2]
        return "valgrind: " + " | ".join(key)
    return None


def known(prop):
    try:
        return [k for k in json.load(open(f"{V}/known_findings.json"))["findings"] if k["property"] == prop and k.get("status", "open") == "open"]
    except FileNotFoundError:
        return []


def matches(k, entry, v):
    if k["entry"] != entry or k.get("id", v["id"]) != v["id"]:
        return False
    ins = {l.split(" ", 1)[0]: l.split(" ", 1)[1] for l in v["inputs"]}
    return all(re.fullmatch(pat, ins.get(n, "")) for n, pat in k.get("inputs", {}).items())


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    thorough = tier == "thorough"
    only = None
    if "--entry" in sys.argv:
        only = re.compile(sys.argv[sys.argv.index("--entry") + 1])
    p = sh(["flock", V + "/build.lock", "bash", V + "/engine/build.sh"])
    if p.returncode or not os.path.exists(DSYM):
        die("engine does not build:\n" + p.stdout[-2000:])
    work = f"{V}/build/run/{prop}.{os.getpid()}"
    os.makedirs(work, exist_ok=True)
    try:
        rc = run(prop, tier, seed, thorough, only, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def run(prop, tier, seed, thorough, only, work):
    mods = [Module(s, work, thorough) for s in sorted(glob.glob(f"{V}/harness/{prop}*.cpp"))]
    if only:
        for m in mods:
            m.entries = [e for e in m.entries if only.search(e)]
        mods = [m for m in mods if m.entries]
    if not mods:
        die("no harness for " + prop)
    if "--replay" in sys.argv:
        f = sys.argv[sys.argv.index("--replay") + 1]
        entry = open(f).readline().split()[-1]
        m = next(m for m in mods if entry in m.entries)
        err = m.native(True)
        if err:
            die(err[-2000:])
        r = reproduces(m, entry, f)
        print(r or "does not reproduce")
        return 1 if r else 0

    budget = float(os.environ.get("DSYM_BUDGET", 0)) or (3000 if thorough else 420)  # per entry, s
    hard = T0 + (20000 if thorough else 780)
    pool = ThreadPoolExecutor(max_workers=int(os.environ.get("DSYM_JOBS", 0)) or os.cpu_count() or 4)
    results, build_errors = {}, []

    def job(m, e):
        out = f"{work}/{e}.json"
        t = max(5, min(budget, hard - time.time()))
        if stop and time.time() > stop[0]:
            return {"entry": e, "crash": "not run: a violation was found", "violations": []}
        log = open(f"{work}/{e}.log", "w+", errors="replace")
        p = subprocess.Popen([DSYM, m.bc, "--entry", e, "--out", out, "--timeout", str(t), "--qtimeout", "60000" if not thorough else "300000", "--seed", str(seed),
                              *(["--vlimit", "60"] if not known_list else []), *m.opts.get("ALL", []), *m.opts.get(e, [])], stdout=log, stderr=subprocess.STDOUT)
        end = time.time() + t + 90
        while True:
            try:
                p.wait(1)
                break
            except subprocess.TimeoutExpired:
                if time.time() > end or (stop and time.time() > stop[0]):
                    p.kill()
                    p.wait()
                    break
        try:
            r = json.load(open(out))
        except Exception as ex:
            log.seek(0)
            return {"entry": e, "crash": "stopped: a violation was found" if stop else f"engine exit {p.returncode}: {log.read()[-500:]} {ex}", "violations": []}
        r["handled"] = []
        for i, v in enumerate(r["violations"]):
            if m.native_done.result():
                break
            h = handle((m, e, v, i))
            r["handled"].append(h)
            if h[4] and not any(matches(k, e, v) for k in known_list) and not stop:
                stop.append(time.time() + 60)  # what is still running has this long to report more
        return r

    known_list = known(prop)
    stop = []
    rdir = f"{V}/evidence/replays/{prop}"
    shutil.rmtree(rdir, ignore_errors=True)

    def handle(arg):
        m, e, v, i = arg
        os.makedirs(rdir, exist_ok=True)
        path = f"{rdir}/{e}-{i}.txt"
        with open(path, "w") as f:
            f.write(f"# entry {e}\n# {v['kind']} {v['id']}: {v['msg']} at {v['where']}\n")
            f.write("\n".join(v["inputs"]) + "\n")
        return m, e, v, path, reproduces(m, e, path)

    nat = []
    for m in mods:
        m.native_done = pool.submit(m.native, True)
        nat.append((m, m.native_done))
    bcs = [(m, pool.submit(m.bitcode)) for m in mods]
    # (bitcode first matters more, but both are needed)
    futs = []
    for m, b in bcs:
        err = b.result()
        if err:
            build_errors.append(f"{m.name} (IR):\n{err[-3000:]}")
            continue
        for e in m.entries:
            futs.append((m, e, pool.submit(job, m, e)))
    for m, n in nat:
        err = n.result()
        if err:
            build_errors.append(f"{m.name} (native):\n{err[-3000:]}")
    if build_errors:
        die("harness does not compile against /repo: " + "\n".join(build_errors))
    res = [(m, e, f.result()) for m, e, f in futs]

    known_hit = {}
    reported, unreproduced, inconclusive = [], [], []

    handled = []
    for m, e, r in res:
        if "crash" in r:
            inconclusive.append((e, "engine", r["crash"]))
            continue
        handled += r["handled"]
        for x in r["inconclusive"]:
            inconclusive.append((e, x["kind"], f"{x['id']} {x['msg']} at {x['where']}"))
    for m, e, v, path, how in handled:
        if not how:
            unreproduced.append((e, v, path))
            continue
        k = next((k for k in known_list if matches(k, e, v)), None)
        if k:
            known_hit[k["name"]] = k
            os.unlink(path)
            continue
        reported.append((e, v, path, how))

    # validation: native runs of the sampled paths must agree with the encoding
    vjobs = []
    for m, e, r in res:
        for j, s in enumerate(r.get("samples", [])):
            vjobs.append((m, e, j, s))

    def validate(arg):
        m, e, j, s = arg
        path = f"{work}/{e}.s{j}"
        with open(path, "w") as f:
            f.write("\n".join(s["inputs"]) + "\n")
        p = run_native(m.san, e, path, ["-v"])
        if p.returncode != 0:
            return 0, f"{e} sample {j}: native exit {p.returncode}: {p.stdout[-300:]}", s
        obs = [l.split()[-1] for l in p.stdout.splitlines() if l.startswith("OBS ")]
        n = 0
        if len(obs) != len(s["obs"]) and not s["reject"]:
            return 0, f"{e} sample {j}: {len(obs)} observations, predicted {len(s['obs'])}", s
        for got, want in zip(obs, s["obs"]):
            *_, h, tol = want.split(" ")
            if h == "-":
                continue
            a, b = bits(got), bits(h)
            if not (a == b or (math.isnan(a) and math.isnan(b)) or abs(a - b) <= float(tol) * (1 + 1e-9)):
                return n, f"{e} sample {j}: observed {a!r} predicted {b!r} +- {tol} ({want.rsplit(' ', 2)[0]})", s
            n += 1
        return n, None, s

    vres = list(pool.map(validate, vjobs))
    bad_samples = [b for _, b, _ in vres if b]
    compared = sum(n for n, _, _ in vres)

    tot = lambda k: sum(r.get(k, 0) for _, _, r in res)
    asserts = {}
    for _, e, r in res:
        for a, st in r.get("asserts", {}).items():
            d = asserts.setdefault(a, dict(evaluated=0, discharged=0, by_simplification=0, queries=0, unknown=0))
            for kk in d:
                d[kk] += st[kk]
    vac = [f"{e}: no assertion reached" for _, e, r in res if "crash" not in r and not any(s["evaluated"] for s in r["asserts"].values()) and not r["violations"]]
    for b in vac:
        inconclusive.append((b, "vacuous", ""))
    funcs = sorted({f for _, _, r in res for f in r.get("functions", [])})
    lines = {}
    for _, _, r in res:
        for f, n in r.get("lines", {}).items():
            lines[f] = max(lines.get(f, 0), n)
    samples = [{"entry": a[1], "inputs": s["inputs"][:12], "observed": s["obs"][:4]} for (a, (_, _, s)) in list(zip(vjobs, vres))[:: max(1, len(vjobs) // 6)]][:8]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot("paths"), "transitions": tot("instructions"), "traces_validated_against_impl": len([1 for v in vres if not v[1]]),
            "samples": samples,
            "explanation": "states: symbolic paths (each stands for all values of its symbolic inputs) explored to the end; transitions: LLVM IR instructions executed symbolically; traces_validated: paths re-run natively (g++, ASan+UBSan) with concrete inputs whose observations match the encoding's predictions",
            "exhaustive": not inconclusive and not reported,
            "bounds": [b for m in mods for b in m.bounds],
            "entries": {e: {k: r.get(k) for k in ("paths", "forks", "rejected_paths", "assumed_away", "queries", "assert_queries", "unknown", "solver_s", "wall_s", "instructions")} for _, e, r in res},
            "assertions": asserts,
            "obligations": sum(a["evaluated"] for a in asserts.values()), "discharged": sum(a["discharged"] for a in asserts.values()),
            "discharged_by_term_normalisation": sum(a["by_simplification"] for a in asserts.values()),
            "solver_queries": tot("queries"), "solver_unknown": tot("unknown"), "solver_s": round(tot("solver_s"), 3),
            "solver": next((r["z3"] for _, _, r in res if "z3" in r), ""),
            "functions_encoded": funcs, "library_lines_executed": lines, "native_observations_compared": compared,
            "inconclusive": [" ".join(x) for x in inconclusive[:100]],
            "known_findings_seen": sorted(known_hit),
        },
        "assumptions": [n for m in mods for n in m.notes],
        "wall_s": round(time.time() - T0, 3), "violations": len(reported),
    }
    os.makedirs(f"{V}/evidence", exist_ok=True)
    with open(f"{V}/evidence/{prop}.json.tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(f"{V}/evidence/{prop}.json.tmp", f"{V}/evidence/{prop}.json")

    for k in sorted(known_hit):
        print(f"KNOWN-FINDING: property={prop} {known_hit[k]['what']}")
    if os.environ.get("DSYM_VERBOSE"):
        for m, e, r in res:
            print(f"  {e}: paths {r.get('paths')} queries {r.get('queries')} unknown {r.get('unknown')} wall {r.get('wall_s')} solver {r.get('solver_s')}")
    if reported:
        seen = set()
        for e, v, path, how in reported:
            key = (e, v["id"], v["kind"])
            if key in seen:
                continue
            seen.add(key)
            print(f"  {e}: {v['kind']} {v['id']} {v['msg']} at {v['where']}\n    native: {how}")
        print(f"VIOLATION property={prop} replay={reported[0][2]}", flush=True)
        return 1
    bad = False
    for e, v, path in unreproduced:
        print(f"UNREPRODUCED {e}: {v['kind']} {v['id']} {v['msg']} at {v['where']} (inputs {path})")
        bad = True
    for x in inconclusive[:12]:
        print(("INCONCLUSIVE " + " ".join(x))[:1000])
    if len(inconclusive) > 12:
        print(f"INCONCLUSIVE ... {len(inconclusive)} in all")
    bad = bad or bool(inconclusive)
    for b in bad_samples[:12]:
        print("ENCODING MISMATCH " + b)
    bad = bad or bool(bad_samples)
    if bad:
        return 2
    print(f"OK property={prop} paths={tot('paths')} obligations={ev['coverage']['obligations']} queries={tot('queries')} solver_s={tot('solver_s'):.1f} validated={ev['coverage']['traces_validated_against_impl']} wall_s={time.time() - T0:.1f}", flush=True)
    return 0


if __name__ == "__main__":
    main()
