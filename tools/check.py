#!/usr/bin/env python3
"""Decides one property: builds the harness crate against /repo's current tree, executes its
LLVM IR symbolically, replays every counterexample (and a sample of the explored paths) on the
natively compiled harness, writes the evidence file, and reports.

exit 0: held on everything explored; exit 1: VIOLATION (reproduced natively);
exit 2: no verdict (build failure, unsupported construct, budget or solver timeout, ...)."""
import json, os, subprocess, sys, time, pathlib, shutil, hashlib, threading, glob

TOOLS = pathlib.Path(__file__).resolve().parent
VERIF = TOOLS.parent
sys.path.insert(0, str(TOOLS))
import ws, props

BUILD = VERIF / "build"
JOBS = os.cpu_count() or 8
ENV = dict(os.environ, HOME="/root", PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
           RUSTUP_TOOLCHAIN="nightly-2023-04-01", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0", RUSTC_WRAPPER="", RUSTFLAGS="")
for k in ("CARGO_TARGET_DIR",):
    ENV.pop(k, None)


class NoVerdict(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        raise NoVerdict("command failed: %s\n%s" % (" ".join(map(str, cmd)), r.stdout[-6000:]))
    return r.stdout


def build_engine():
    d = BUILD / "engine"
    d.mkdir(parents=True, exist_ok=True)
    sh(["make", "-j8", "B=%s" % d, "all"], cwd=VERIF / "engine")
    return d / "symex"


def stage(crate):
    """The harness crate is built from a staged copy, so that cargo writes nothing into /verif's
    committed files; the lock file is /repo's."""
    dst = BUILD / "crates" / crate
    src = VERIF / "harness" / crate
    dst.mkdir(parents=True, exist_ok=True)
    lock = dst / "Cargo.lock"
    lk = (ws.REPO / "Cargo.lock").read_text()
    stamp = dst / ".lock-src"
    if not lock.exists() or not stamp.exists() or stamp.read_text() != lk:
        lock.write_text(lk)
        stamp.write_text(lk)
    text = (src / "Cargo.toml").read_text().replace('path = "../../build/', 'path = "%s/' % BUILD).replace('path = "../../', 'path = "%s/' % VERIF).replace('path = "../', 'path = "%s/' % (VERIF / "harness"))
    ws.put(dst / "Cargo.toml", text)
    ws.link(src / "src", dst / "src")
    return dst


def build_harness(crate):
    d = stage(crate)
    name = crate.replace("-", "_")
    res, err = {}, []

    def symbolic():
        t = BUILD / "target-sym" / crate
        sh(["cargo", "rustc", "--release", "--offline", "--lib", "--crate-type", "staticlib", "--target-dir", str(t), "--",
            "--emit=llvm-bc", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp"], cwd=d, env=ENV)
        c = sorted(glob.glob(str(t / "release" / "deps" / (name + "*.bc"))), key=os.path.getmtime)
        if not c:
            raise NoVerdict("no bitcode was produced")
        res["bc"] = c[-1]

    def native():
        t = BUILD / "target-nat" / crate
        sh(["cargo", "build", "--offline", "--features", "native", "--bin", "native", "--target-dir", str(t)], cwd=d, env=ENV)
        res["bin"] = str(t / "debug" / "native")

    def wrap(f):
        try:
            f()
        except Exception as e:
            err.append(e)
    # the first build of a crate resolves the lock file; do that once, before the two builds race
    sh(["cargo", "metadata", "--offline", "--format-version", "1", "--no-deps"], cwd=d, env=ENV)
    ts = [threading.Thread(target=wrap, args=(f,)) for f in (symbolic, native)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if err:
        raise err[0]
    return res


def build_replayer(built):
    """The very bitcode the engine ran, compiled to a program that follows a recorded schedule."""
    if "replay" not in built:
        bc, b = built["bc"], BUILD / "engine"
        out = pathlib.Path(bc).with_suffix(".replay")
        sh([str(b / "instrument"), bc, str(out) + ".bc"])
        sh(["clang-18", "-O0", str(out) + ".bc", str(b / "rt.o"), "-rdynamic", "-o", str(out), "-lpthread", "-ldl", "-lgcc_s", "-Wno-override-module"])
        os.unlink(str(out) + ".bc")
        built["replay"] = str(out)
    return built["replay"]


def native_run(binary, entry, cases, params, timeout=10):
    if not cases:
        return []
    BUILD.mkdir(exist_ok=True)
    f = BUILD / ("cases-%d.txt" % os.getpid())
    f.write_text("\n".join(cases) + "\n")
    r = subprocess.run([binary, entry, str(f), "timeout=%d" % timeout] + ["%s=%d" % kv for kv in params.items()],
                       stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    f.unlink()
    out = []
    for l in r.stdout.decode("utf8", "replace").splitlines():
        if l.startswith("RESULT\t"):
            p = l.split("\t")
            out.append((p[1], p[2], p[3] if len(p) > 3 else ""))
    if len(out) != len(cases):
        raise NoVerdict("native runner answered %d of %d cases" % (len(out), len(cases)))
    return out


def run_ts(prop, spec, tier, only, seed):
    """A module of the packages: its syntax tree is interpreted symbolically (tools/ts), counterexamples and
    sampled paths are replayed on the module under Node."""
    runs = [dict(entry=r["entry"], params=dict(r.get("params", {}), **r[tier if tier in r else "quick"])) for r in spec["runs"]
            if (not only or r["entry"] == only) and not (tier == "quick" and r.get("tier") == "thorough")]
    BUILD.mkdir(exist_ok=True)
    a, b = BUILD / ("ts-%s-%d.json" % (prop, os.getpid())), BUILD / ("ts-%s-%d.out" % (prop, os.getpid()))
    a.write_text(json.dumps(dict(ts=str(ws.REPO / spec["ts"]), jobs=JOBS, seed=seed, max_secs=300 if tier == "quick" else 3000, runs=runs)))
    try:
        sh(["python3-vt", str(TOOLS / "ts" / "adapter.py"), str(a), str(b)])
        return json.loads(b.read_text())
    finally:
        for f in (a, b):
            if f.exists():
                f.unlink()


def summary(r):
    s = r["stats"]
    print("%s: %d paths (%d ok), %d branches forked, %d assertions, %d z3 queries (%.1f s), %.1f s" % (
        r["entry"], sum(v for k, v in s.items() if k.startswith("paths_")), s.get("paths_ok", 0), s.get("forks", 0), s.get("asserts", 0), s.get("z3_queries", 0), s.get("z3_time_ms", 0) / 1000, r["wall_s"]), flush=True)


BAD = ("assert", "panic", "crash", "timeout", "deadlock")


def run_one(prop, spec, run, tier, built, symex, seed):
    params = dict(run.get("params", {}))
    params.update(run[tier] if tier in run else run.get("quick", {}))
    opts = dict(run.get("opts", {}))
    if tier == "thorough":
        opts.update(run.get("topts", {}))
    out = BUILD / ("out-%s-%s-%d.jsonl" % (prop, run["entry"], os.getpid()))
    max_secs = opts.pop("max_secs", 420 if tier == "quick" else 3000)
    cmd = [str(symex), "--module", built["bc"], "--entry", run["entry"], "--out", str(out), "-j", str(JOBS), "--seed", str(seed),
           "--max-secs", str(max_secs), "--samples", str(opts.pop("samples", 160))]
    for k, v in opts.items():
        cmd += ["--" + k.replace("_", "-"), str(v)]
    for k, v in params.items():
        cmd += ["--param", "%s=%d" % (k, v)]
    t = time.time()
    for old in glob.glob(str(out) + "*"):
        os.unlink(old)
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=max_secs + 90)
    except subprocess.TimeoutExpired:
        subprocess.run(["pkill", "-P", str(os.getpid())])
        raise NoVerdict("symex did not stop on %s" % run["entry"])
    wall = time.time() - t
    if r.returncode != 0:
        raise NoVerdict("symex failed on %s: %s" % (run["entry"], r.stderr[-2000:]))
    recs = []
    files = sorted(glob.glob(str(out) + "*"))
    for fn in files:
        with open(fn) as fh:
            for l in fh:
                l = l.strip()
                if l:
                    recs.append(json.loads(l))
        os.unlink(fn)
    st, reach, cov, fns, known = {}, {}, {}, set(), {}
    for x in recs:
        if x["t"] == "stats":
            for k, v in x.items():
                if k in ("t", "tag"):
                    continue
                st[k] = max(st.get(k, 0), v) if k == "z3_max_ms" else (st.get(k, 0) + v)
            if x["tag"] == "main" and JOBS > 1:
                st["left"] -= x["left"]  # handed to the workers
        elif x["t"] == "reach":
            reach[x["id"]] = reach.get(x["id"], 0) + x["n"]
        elif x["t"] == "cov":
            cov.setdefault(x["file"], set()).update(x["lines"])
        elif x["t"] == "fn":
            fns.add(x["name"])
        elif x["t"] == "known":
            known[x["id"]] = known.get(x["id"], 0) + x["n"]
    res = dict(entry=run["entry"], params=params, wall_s=round(wall, 2), stats=st, reach=reach, cov={k: sorted(v) for k, v in cov.items()}, fns=sorted(fns), known=known)
    problems = []
    if any(x["t"] == "crash" for x in recs):
        problems.append("a symbolic-execution worker died")
    viol = [x for x in recs if x["t"] == "viol"]
    seen, uniq = set(), []
    for v in viol:
        if v["kind"] == "unsupported":
            problems.append("unsupported: " + v["msg"])
            continue
        k = (v["kind"], v["msg"], v["known"])
        n = sum(1 for u in uniq if (u["kind"], u["msg"], u["known"]) == k)
        if n < 4:
            uniq.append(v)
    threads = run.get("threads")
    nat_bin = build_replayer(built) if threads else built["bin"]
    case = (lambda x: x["inputs"] + " " + x["sched"]) if threads else (lambda x: x["inputs"])
    nat = native_run(nat_bin, run["entry"], [case(v) for v in uniq], params)
    conf, unconf = [], []
    for v, (kind, _, msg) in zip(uniq, nat):
        v["native"] = [kind, msg]
        (conf if kind in BAD and (not threads or kind == v["kind"]) else unconf).append(v)
    res["violations"], res["unconfirmed"] = conf, unconf
    samples = [x for x in recs if x["t"] == "sample"]
    nat = native_run(nat_bin, run["entry"], [case(x) for x in samples], params)
    mism = []
    for x, (kind, obs, msg) in zip(samples, nat):
        if kind != x["end"] or (kind == "ok" and obs != x["obs"]):
            mism.append(dict(inputs=x["inputs"], symbolic=[x["end"], x["obs"][:400]], native=[kind, obs[:400], msg]))
    # a panic sample is also reported as a violation; only real disagreements count
    res["samples_checked"] = len(samples)
    res["mismatches"] = mism
    res["samples"] = [dict(inputs=x["inputs"], end=x["end"]) for x in samples[:3]]
    if mism:
        problems.append("symbolic and native execution disagree: %s" % json.dumps(mism[0])[:800])
    if st.get("left", 0) > 0:
        problems.append("time limit: %d states left unexplored" % st["left"])
    if st.get("z3_unknown", 0):
        problems.append("solver gave up on %d queries" % st["z3_unknown"])
    if unconf:
        problems.append("counterexample does not reproduce natively: %s" % json.dumps(unconf[0])[:600])
    for w in run.get("reach", [0]):
        if not reach.get("r%d" % w) and not conf:
            problems.append("vacuous: witness %d of %s was never reached" % (w, run["entry"]))
    res["problems"] = problems
    return res


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    only = sys.argv[sys.argv.index("--only") + 1] if "--only" in sys.argv else None
    seed = int(os.environ.get("VERIF_SEED", "1"))
    spec = props.H[prop]
    t0 = time.time()
    results, problems = [], []
    built = {}
    try:
        if "ts" in spec:
            results = run_ts(prop, spec, tier, only, seed)
            for r in results:
                summary(r)
        else:
            ws.generate()
            box = {}
            th = threading.Thread(target=lambda: box.update(s=build_engine()))
            th.start()
            crates = sorted({r.get("crate", spec["crate"]) for r in spec["runs"]})
            for c in crates:
                built[c] = build_harness(c)
            th.join()
            if "s" not in box:
                raise NoVerdict("engine did not build")
            tb = time.time() - t0
            for run in spec["runs"]:
                if only and run["entry"] != only:
                    continue
                if tier == "quick" and run.get("tier") == "thorough":
                    continue
                r = run_one(prop, spec, run, tier, built[run.get("crate", spec["crate"])], box["s"], seed)
                results.append(r)
                summary(r)
    except NoVerdict as e:
        problems.append(str(e))
    kf = json.loads((VERIF / "known_findings.json").read_text())
    open_findings = {f["id"]: f for f in kf["findings"] if f["property"] == prop}
    violations, hits = [], {}
    for r in results:
        problems += ["%s: %s" % (r["entry"], p) for p in r["problems"]]
        for v in r["violations"]:
            if v["known"] and v["known"] in open_findings:
                hits[v["known"]] = hits.get(v["known"], 0) + 1
            else:
                violations.append((r, v))
    for k in sorted(hits):
        print("KNOWN-FINDING: property=%s %s %s" % (prop, k, open_findings[k]["what_fails"]))
    replay = None
    if violations:
        # shortest input first
        violations.sort(key=lambda rv: len(rv[1]["inputs"]))
        d = BUILD / "replay"
        d.mkdir(parents=True, exist_ok=True)
        replay = d / ("%s.json" % prop)
        r, v = violations[0]
        replay.write_text(json.dumps(dict(property=prop, entry=r["entry"], params=r["params"], counterexample=v,
                                          others=[x[1] for x in violations[1:10]],
                                          how="%s %s CASEFILE %s" % (("node tools/ts/replay.js on the inputs for" if "ts" in spec else built.get(r.get("crate", spec.get("crate")), {}).get("replay" if v["sched"] else "bin", "native")), r["entry"], " ".join("%s=%s" % kv for kv in r["params"].items()))), indent=1))
    evidence(prop, tier, seed, spec, results, violations, problems, time.time() - t0, hits)
    for p in problems:
        print("PROBLEM: %s" % p)
    if violations:
        r, v = violations[0]
        print("  %s: %s %s | native: %s | inputs %s" % (r["entry"], v["kind"], v["msg"], " ".join(v["native"]), v["inputs"]))
        print("VIOLATION property=%s replay=%s" % (prop, replay))
        sys.exit(1)
    if problems or not results:
        print("NO VERDICT for %s" % prop)
        sys.exit(2)
    print("HELD property=%s tier=%s (%.0f s)" % (prop, tier, time.time() - t0))


def evidence(prop, tier, seed, spec, results, violations, problems, wall, hits):
    tot = {}
    for r in results:
        for k, v in r["stats"].items():
            tot[k] = tot.get(k, 0) + v
    paths = sum(v for k, v in tot.items() if k.startswith("paths_"))
    lines = {}
    fns = set()
    for r in results:
        for f, ls in r["cov"].items():
            f = f[f.index("/src/"):] if "/src/" in f and "/harness/" not in f else None
            if f:
                lines.setdefault(f[1:], set()).update(ls)
        fns.update(f for f in r["fns"])
    samples = []
    for r in results:
        for s in r["samples"][:2]:
            samples.append(dict(harness=r["entry"], bounds=r["params"], inputs_hex=s["inputs"], outcome=s["end"]))
    cov = dict(
        states=tot.get("forks", 0) + paths, transitions=tot.get("steps", 0),
        traces_validated_against_impl=sum(r["samples_checked"] for r in results),
        samples=samples or [dict(note="no path completed")],
        harnesses=[dict(entry=r["entry"], bounds=r["params"], wall_s=r["wall_s"], stats=r["stats"], witnesses=r["reach"], known=r["known"],
                        trace_mismatches=len(r["mismatches"])) for r in results],
        paths=paths, assertions_checked=tot.get("asserts", 0), solver_queries=tot.get("z3_queries", 0), solver_unsat=tot.get("z3_unsat", 0), solver_sat=tot.get("z3_sat", 0),
        solver_time_s=round(tot.get("z3_time_ms", 0) / 1000, 2), byte_domain_queries=tot.get("table_queries", 0),
        functions_encoded=sorted(fns), source_lines_encoded={f: len(v) for f, v in sorted(lines.items())},
        bounds=spec.get("bounds", ""), outside=spec.get("outside", ""), problems=problems, known_findings=hits)
    ev = dict(property=prop, tier=tier, seed=seed, level=spec.get("level", "model_checking"), coverage=cov,
              assumptions=spec.get("assumptions", []) + props.ASSUMPTIONS, wall_s=round(wall, 2), violations=len(violations))
    d = VERIF / "evidence"
    d.mkdir(exist_ok=True)
    (d / ("%s.json" % prop)).write_text(json.dumps(ev, indent=1))


if __name__ == "__main__":
    main()
