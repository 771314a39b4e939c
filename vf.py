#!/usr/bin/env python3
"""Driver: vf.py check PROPERTY [--tier quick|thorough] | vf.py build | vf.py replay FILE | vf.py run ENTRY [k/n]"""
import concurrent.futures as cf
import glob, json, os, resource, shutil, subprocess, sys, threading, time

ROOT = os.path.dirname(os.path.abspath(__file__))
BUILD = os.environ.get("VF_BUILD", os.path.join(ROOT, "build"))
HARNESS = os.path.join(ROOT, "harness")
TOOLCHAIN = "stable-x86_64-unknown-linux-gnu"
T0 = time.time()


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


class BuildError(Exception):
    pass


def env():
    e = dict(os.environ)
    e["RUSTUP_TOOLCHAIN"] = TOOLCHAIN
    e["CARGO_NET_OFFLINE"] = "true"
    e["RUSTFLAGS"] = "--cfg rerecast_verif -Awarnings"
    e.pop("CARGO_TARGET_DIR", None)
    e.pop("CARGO_ENCODED_RUSTFLAGS", None)
    return e


def sh(cmd, cwd, e=None, what=""):
    p = subprocess.run(cmd, cwd=cwd, env=e or env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError("%s failed (%d):\n%s" % (what or cmd[0], p.returncode, p.stdout[-6000:]))
    return p.stdout


def build_engine():
    e = env()
    e["RUSTFLAGS"] = "-Awarnings"
    sh(["cargo", "build", "--release", "--offline", "--target-dir", BUILD + "/engine"], ROOT + "/engine", e, "engine build")
    return BUILD + "/engine/release/rvsym"


def crate_dir(crate):
    """Private copy of a harness crate with the repository's lock file (the committed crate stays untouched)."""
    src = os.path.join(ROOT, crate)
    dst = os.path.join(BUILD, "src", crate)
    os.makedirs(dst, exist_ok=True)
    keep = set()
    for base, _, files in os.walk(src):
        if "/target" in base:
            continue
        for f in files:
            a = os.path.join(base, f)
            b = os.path.join(dst, os.path.relpath(a, src))
            keep.add(b)
            data = open(a, "rb").read()
            if not os.path.exists(b) or open(b, "rb").read() != data:
                os.makedirs(os.path.dirname(b), exist_ok=True)
                open(b, "wb").write(data)
    lock = os.path.join(dst, "Cargo.lock")
    if not os.path.exists(os.path.join(src, "Cargo.lock")):
        if not os.path.exists(lock):
            shutil.copy("/repo/Cargo.lock", lock)
        keep.add(lock)
    for base, _, files in os.walk(dst):
        for f in files:
            if os.path.join(base, f) not in keep:
                os.unlink(os.path.join(base, f))
    return dst


def build_ir(crate):
    d = crate_dir(crate)
    t = "%s/ir-%s" % (BUILD, crate)
    lib = crate.replace("-", "_")
    lib = {"harness": "hx"}.get(crate, lib)
    pat = "%s/release/deps/%s-*.rcgu.bc" % (t, lib)
    sh(["cargo", "rustc", "--release", "--offline", "--lib", "--target-dir", t, "--",
        "-C", "save-temps", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp"], d, None, "IR build")
    c = [f for f in glob.glob(pat) if ".lto." not in f and "no-opt" not in f and "-in." not in f]
    if not c:
        raise BuildError("no bitcode in " + pat)
    bc = max(c, key=os.path.getmtime)
    ll = "%s/%s.ll" % (BUILD, crate)
    if not os.path.exists(ll) or os.path.getmtime(ll) < os.path.getmtime(bc):
        dis = "/root/.rustup/toolchains/%s/lib/rustlib/x86_64-unknown-linux-gnu/bin/llvm-dis" % TOOLCHAIN
        sh([dis, bc, "-o", ll + ".tmp"], d, None, "llvm-dis")
        os.replace(ll + ".tmp", ll)
    return ll


def build_native(crate, prof):
    d = crate_dir(crate)
    t = "%s/%s-%s" % (BUILD, prof, crate)
    sh(["cargo", "rustc", "--offline", "--lib", "--crate-type", "cdylib", "--features", "native", "--profile", prof,
        "--target-dir", t], d, None, "native build " + prof)
    lib = {"harness": "hx"}.get(crate, crate.replace("-", "_"))
    return "%s/%s/lib%s.so" % (t, prof, lib)


def build_all(crates):
    os.makedirs(BUILD, exist_ok=True)
    out = {}
    for c in crates:
        crate_dir(c)
    with cf.ThreadPoolExecutor(8) as ex:
        f = {"engine": ex.submit(build_engine)}
        for c in crates:
            f["ll", c] = ex.submit(build_ir, c)
            f["native-rel", c] = ex.submit(build_native, c, "native-rel")
            f["native-dev", c] = ex.submit(build_native, c, "native-dev")
        for k, v in f.items():
            out[k] = v.result()
    return out


def limit():
    # address space per engine process; eight run side by side
    resource.setrlimit(resource.RLIMIT_AS, (14 << 30, 14 << 30))


PROCS = set()
PLOCK = threading.Lock()
STOP = threading.Event()


def run_engine(bins, job, shard, nshard, tier, deadline):
    if STOP.is_set():
        return None
    out = "%s/out/%s.%d.json" % (BUILD, job["entry"], shard)
    os.makedirs(os.path.dirname(out), exist_ok=True)
    if os.path.exists(out):
        os.unlink(out)
    left = deadline - time.time()
    tl = min(job.get("time", 800), left - 10)
    if tl <= 5:
        return {"entry": job["entry"], "status": "incomplete", "incomplete": ["no time left"], "shard": shard}
    cmd = [bins["engine"], "--ll", bins["ll", job.get("crate", "harness")], "--entry", job["entry"], "--out", out, "--time", "%.0f" % tl,
           "--witnesses", str(job.get("witnesses", 3)), "--query-ms", str(job.get("query_ms", 400000)),
           "--path-steps", str(job.get("path_steps", 3000000)), "--shard", "%d/%d" % (shard, nshard)]
    if job.get("ids"):
        cmd += ["--ids", ",".join(map(str, job["ids"]))]
    e = dict(os.environ)
    e.update(job.get("env", {}))
    p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, preexec_fn=limit, env=e)
    with PLOCK:
        PROCS.add(p)
    try:
        _, err = p.communicate(timeout=tl + 60)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        err = "killed"
    with PLOCK:
        PROCS.discard(p)
    if STOP.is_set() and p.returncode not in (0, 1):
        return None
    if not os.path.exists(out):
        # out of memory or time outside the engine's own accounting
        st = "incomplete" if (p.returncode and p.returncode < 0) or "memory allocation" in (err or "") or err == "killed" else "error"
        return {"entry": job["entry"], "status": st, "incomplete": ["engine ended: rc=%s %s" % (p.returncode, (err or "")[-300:])], "error": (err or "")[-500:], "shard": shard}
    r = json.load(open(out))
    r["shard"] = shard
    return r


def replay(bins, crate, entry, prof, vecs, tmo=30):
    if not vecs:
        return []
    p = subprocess.run([sys.executable, ROOT + "/replay.py", bins[prof, crate], entry, str(tmo)], input=json.dumps(vecs), text=True,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=tmo * len(vecs) + 60)
    if p.returncode:
        raise BuildError("replay failed: " + p.stderr[-800:])
    return json.loads(p.stdout)


BAD = ("check", "panic", "crash", "timeout")


def confirm(bins, crate, entry, v):
    """Run a counterexample against the real code in both profiles."""
    res = {}
    for prof in ("native-rel", "native-dev"):
        res[prof] = replay(bins, crate, entry, prof, [v["inputs"]])[0]
    ok = any(r["kind"] in BAD for r in res.values())
    if v["kind"] == "check":
        # the same assertion has to fail, or the run has to end before it
        ok = any(r["kind"] in BAD and (r["kind"] != "check" or int(v["id"]) in r["checks"]) for r in res.values())
    return ok, res


def load_findings():
    p = ROOT + "/known_findings.json"
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p)).get("findings", []) if f.get("status") == "open"]


def match_finding(fs, pid, entry, v, conf):
    for f in fs:
        if f["property"] != pid or f.get("entry", entry) != entry:
            continue
        if f.get("kind") and f["kind"] != v["kind"]:
            continue
        if f.get("check") is not None and f["check"] != v["id"]:
            continue
        if f.get("panic_in"):
            blob = v.get("loc", "") + " " + " ".join(v.get("stack", []))
            if f["panic_in"] not in blob:
                continue
        return f
    return None


def main_check(pid, tier, only=None, maxtime=None):
    sys.path.insert(0, ROOT)
    import props
    P = props.PROPS[pid]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    budget = maxtime or (860 if tier == "quick" else P.get("thorough_s", 3400))
    deadline = T0 + budget
    jobs = [j for j in P["jobs"] if tier == "thorough" or not j.get("thorough_only")]
    if tier == "thorough":
        jobs = [j for j in jobs if not j.get("quick_only")]
    if only:
        jobs = [j for j in jobs if j["entry"] in only]
    crates = sorted({j.get("crate", "harness") for j in jobs})
    bins = build_all(crates)
    log("built", ", ".join(crates))
    findings = load_findings()
    tasks = []
    for j in jobs:
        n = j.get("shards", 1)
        for k in range(n):
            tasks.append((j, k, n))
    tasks.sort(key=lambda t: -t[0].get("weight", 1))
    results, violations, known, engine_errors = [], [], {}, []
    per = {}
    covers = {}
    validated = 0
    vlock = threading.Lock()

    def work(t):
        nonlocal validated
        j, k, n = t
        crate = j.get("crate", "harness")
        r = run_engine(bins, j, k, n, tier, deadline)
        if r is None:
            return
        with vlock:
            results.append(r)
            st = r.get("stats", {})
            log("%s %d/%d: %s paths=%s steps=%s solver=%ss wall=%ss" % (j["entry"], k, n, r["status"], st.get("paths"), st.get("steps"), r.get("solver", {}).get("time_s"), st.get("wall_s")),
                r.get("error", ""), "; ".join(r.get("incomplete", [])[:3]))
        for v in r.get("violations", []):
            okc, conf = confirm(bins, crate, j["entry"], v)
            f = match_finding(findings, pid, j["entry"], v, conf)
            with vlock:
                if not okc:
                    engine_errors.append("%s: counterexample does not reproduce natively: %s %s %s inputs=%s -> %s" % (j["entry"], v["kind"], v["id"], v["msg"], v["inputs"], {a: b["kind"] for a, b in conf.items()}))
                elif f:
                    known.setdefault(f["id"], (f, v))
                else:
                    violations.append((j, v, conf))
                    if not os.environ.get("VF_KEEP_GOING"):
                        STOP.set()
                        with PLOCK:
                            for p in PROCS:
                                p.kill()
        ws = r.get("witnesses", [])
        if ws and not STOP.is_set():
            rr = replay(bins, crate, j["entry"], "native-rel", [w["inputs"] for w in ws])
            with vlock:
                for w, x in zip(ws, rr):
                    if x["kind"] == "check" and j.get("ids") and not set(x["checks"]) & set(j["ids"]):
                        x["kind"] = "ok"
                    if x["kind"] != "ok" and not (r.get("violations") and x["kind"] in BAD):
                        engine_errors.append("%s: witness %s behaves differently natively: %s %s" % (j["entry"], w["inputs"], x["kind"], x["err"]))
                    elif x["kind"] == "ok" and x["obs"] != w["obs"]:
                        engine_errors.append("%s: witness %s: engine observed %s, real code %s" % (j["entry"], w["inputs"], w["obs"], x["obs"]))
                    else:
                        validated += 1
        with vlock:
            c = covers.setdefault(j["entry"], {})
            for i, w in r.get("covers", {}).items():
                if w is not None or i not in c:
                    c[i] = w

    with cf.ThreadPoolExecutor(8) as ex:
        for f in [ex.submit(work, t) for t in tasks]:
            f.result()

    incomplete, errors = [], list(engine_errors)
    for r in results:
        if r["status"] == "error":
            errors.append("%s: %s" % (r["entry"], r.get("error", "?")))
        if r.get("incomplete"):
            incomplete.append("%s[%d]: %s" % (r["entry"], r["shard"], "; ".join(r["incomplete"][:3])))
    vac = []
    if not violations and not errors and not incomplete:
        for e, c in covers.items():
            for i, w in c.items():
                if w is None:
                    vac.append("%s: reachability witness %s is unreachable" % (e, i))
        for j in jobs:
            if j.get("checks", True) and not any(r.get("checks") for r in results if r["entry"] == j["entry"]):
                vac.append("%s: no assertion evaluated" % j["entry"])
    # evidence
    tot = lambda a, b: sum(r.get(a, {}).get(b, 0) or 0 for r in results)
    funcs = sorted({f for r in results for f in r.get("functions", [])})
    lines = {}
    for r in results:
        for f, ls in r.get("lines", {}).items():
            if "/repo/" in f:
                lines.setdefault(f.split("/repo/")[-1], set()).update(ls)
    chk = {}
    for r in results:
        for i, (a, b) in r.get("checks", {}).items():
            x = chk.setdefault("%s#%s" % (r["entry"], i), [0, 0])
            x[0] += a
            x[1] += b
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot("stats", "paths") + tot("stats", "merges") + tot("stats", "forks"),
            "transitions": tot("stats", "steps"),
            "traces_validated_against_impl": validated,
            "samples": [{"entry": r["entry"], "inputs": w["inputs"][:64], "observed": w["obs"][:32]} for r in results for w in r.get("witnesses", [])][:8],
            "explanation": "bounded symbolic execution of rustc's LLVM IR for the real code; states = symbolic states (path ends, forks, merges), transitions = IR instructions executed symbolically; each symbolic state stands for all input values within the bounds",
            "harnesses": [j["entry"] for j in jobs],
            "bounds": [j.get("bounds", "") for j in jobs],
            "functions_encoded": funcs,
            "source_lines_executed": {f: len(s) for f, s in sorted(lines.items())},
            "queries": tot("solver", "queries"), "queries_sent_to_solver": tot("solver", "solver_calls"),
            "floating_point_queries": tot("solver", "fp_calls"), "solver_time_s": round(tot("solver", "time_s"), 3),
            "solver_unknown": tot("solver", "unknown"),
            "paths_completed": tot("stats", "paths"), "concrete_cases": tot("stats", "cases"),
            "assertions_evaluated_and_symbolic": chk,
            "reachability_witnesses": {e: {i: w is not None for i, w in c.items()} for e, c in covers.items()},
            "complete_within_bounds": not incomplete and not errors and not vac and not violations,
            "incomplete": incomplete, "errors": errors + vac,
            "known_findings_seen": sorted(known),
            "exhaustive": False,
        },
        "assumptions": props.COMMON_ASSUMPTIONS + P.get("assumptions", []),
        "wall_s": round(time.time() - T0, 2),
        "violations": len(violations),
    }
    if not only:
        os.makedirs(ROOT + "/evidence", exist_ok=True)
        json.dump(ev, open("%s/evidence/%s.json" % (ROOT, pid), "w"), indent=1)
    for k, (f, v) in sorted(known.items()):
        print("KNOWN-FINDING: property=%s %s" % (pid, f["what"]))
    for e in errors + vac:
        print("ERROR:", e[:1500])
    for i in incomplete[:20]:
        print("INCOMPLETE:", i[:600])
    if violations:
        os.makedirs(BUILD + "/replay", exist_ok=True)
        for n, (j, v, conf) in enumerate(violations[:5]):
            path = "%s/replay/%s-%d.json" % (BUILD, pid, n)
            json.dump({"property": pid, "crate": j.get("crate", "harness"), "entry": j["entry"], "violation": v, "native": conf,
                       "meaning": P.get("ids", {}).get(str(v["id"]), v["msg"]), "rerun": "python3 %s/vf.py replay %s" % (ROOT, path)}, open(path, "w"), indent=1)
            print("  %s: %s %s %s at %s; %s" % (j["entry"], v["kind"], v["id"], v["msg"], v["loc"], {a: (b["kind"], b["checks"], b["err"][:200]) for a, b in conf.items()}))
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if errors or vac or incomplete:
        print("NO ANSWER for %s" % pid)
        return 2
    log("%s holds within the bounds (%d paths, %d queries, %.1fs solver)" % (pid, tot("stats", "paths"), tot("solver", "queries"), tot("solver", "time_s")))
    return 0


def main():
    a = sys.argv[1:]
    try:
        if a and a[0] == "check":
            tier = "quick"
            if "--tier" in a:
                tier = a[a.index("--tier") + 1]
            only = a[a.index("--only") + 1].split(",") if "--only" in a else None
            mt = float(a[a.index("--max") + 1]) if "--max" in a else None
            sys.exit(main_check(a[1], tier, only, mt))
        if a and a[0] == "build":
            build_all(a[1:] or ["harness"])
            log("ok")
            return
        if a and a[0] == "replay":
            r = json.load(open(a[1]))
            bins = {}
            for p in ("native-rel", "native-dev"):
                bins[p, r["crate"]] = build_native(r["crate"], p)
                x = replay(bins, r["crate"], r["entry"], p, [r["violation"]["inputs"]])[0]
                print(p, json.dumps(x, indent=1))
            return
    except BuildError as e:
        print("BUILD ERROR:", e)
        sys.exit(2)
    print(__doc__)
    sys.exit(2)


main()
