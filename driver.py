#!/usr/bin/env python3
"""Check driver: builds the symbolic harness from /repo's working tree, explores it with the
symbolic executor (engine/), replays counterexamples natively, writes evidence."""
import hashlib, json, os, re, subprocess, sys, tempfile, threading, time, fcntl

V = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(V, "build")
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true")
for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET"):
    ENV.pop(k, None)
ENGINE = os.path.join(BUILD, "engine/release/symex")
# properties of the command-line layer are checked on the crate built with its default
# features; all others on the library without them
CLI = {"C23", "C24"}
H, R, HN, RN = "harness", "replay", "vharness", "vreplay"
REPLAY = BC = None


def variant(cli):
    global H, R, HN, RN, REPLAY, BC
    H, R, HN, RN = ("harness-cli", "replay-cli", "vhcli", "vreplaycli") if cli else ("harness", "replay", "vharness", "vreplay")
    REPLAY = os.path.join(BUILD, R, "debug", RN)
    BC = os.path.join(BUILD, H + ".bc")


NPROC = min(8, os.cpu_count() or 8)


def die(msg, code=2):
    print("ERROR:", msg)
    sys.stdout.flush()
    os._exit(code)


def tree_hash(paths):
    h = hashlib.sha256()
    for root in paths:
        if os.path.isfile(root):
            files = [root]
        else:
            files = []
            for d, ds, fs in os.walk(root):
                ds[:] = sorted(x for x in ds if x not in ("target", ".git", "build", "node_modules"))
                files += [os.path.join(d, f) for f in sorted(fs)]
        for f in sorted(files):
            try:
                with open(f, "rb") as fh:
                    data = fh.read()
            except OSError:
                continue
            h.update(f.encode() + b"\0" + hashlib.sha256(data).digest())
    return h.hexdigest()


def src_hash():
    return tree_hash([os.path.join(REPO, p) for p in ("src", "Cargo.toml", "Cargo.lock", "build.rs", "API.md", "GRAMMAR.md", "README.md")]
                     + [os.path.join(V, p) for p in ("harness/src", H + "/src", H + "/Cargo.toml", "replay/src", R + "/Cargo.toml")])


def sh(cmd, cwd, env=None, log=None):
    p = subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        print(p.stdout[-6000:])
        die("command failed: " + " ".join(cmd))
    return p.stdout


def build_engine():
    env = dict(ENV, CARGO_TARGET_DIR=os.path.join(BUILD, "engine"))
    sh(["cargo", "build", "--release", "--offline"], os.path.join(V, "engine"), env)


def build():
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    t0 = time.time()
    if not os.path.exists(ENGINE):
        build_engine()
    elif tree_hash([os.path.join(V, "engine/src")]) != read(os.path.join(BUILD, "engine.stamp")):
        build_engine()
    write(os.path.join(BUILD, "engine.stamp"), tree_hash([os.path.join(V, "engine/src")]))
    h = src_hash()
    stamp = os.path.join(BUILD, "stamp-" + H)
    if read(stamp) == h and os.path.exists(BC) and os.path.exists(REPLAY):
        return time.time() - t0, False
    if os.path.exists(stamp):
        os.remove(stamp)
    henv = dict(ENV, CARGO_TARGET_DIR=os.path.join(BUILD, H))
    renv = dict(ENV, CARGO_TARGET_DIR=os.path.join(BUILD, R))
    res = []

    def bc():
        # never trust mtimes: the tree under /repo may have been swapped
        subprocess.run(["cargo", "clean", "--release", "--offline", "-p", "substrait-explain", "-p", HN],
                       cwd=os.path.join(V, H), env=henv, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        deps = os.path.join(BUILD, H, "release/deps")
        if os.path.isdir(deps):
            for f in os.listdir(deps):
                if f.startswith((HN, "lib" + HN)):
                    os.remove(os.path.join(deps, f))
        p = subprocess.run(["cargo", "rustc", "--release", "--lib", "--offline", "--", "-C", "save-temps",
                            "-C", "link-args=-Wl,--unresolved-symbols=ignore-all"],
                           cwd=os.path.join(V, H), env=henv, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        res.append(("harness", p))
        if p.returncode == 0:
            c = [f for f in os.listdir(deps) if re.match(HN + r"\." + HN + r"\.[^.]*-cgu\.0\.rcgu\.bc$", f)]
            if len(c) != 1:
                die("expected one bitcode file, found %s" % c)
            os.replace(os.path.join(deps, c[0]), BC)
            for f in os.listdir(deps):
                if f.startswith(HN + ".") and f.endswith((".bc", ".o")):
                    os.remove(os.path.join(deps, f))

    def rp():
        subprocess.run(["cargo", "clean", "--offline", "-p", "substrait-explain", "-p", RN],
                       cwd=os.path.join(V, R), env=renv, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        p = subprocess.run(["cargo", "build", "--offline"], cwd=os.path.join(V, R), env=renv,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        res.append(("replay", p))
    ts = [threading.Thread(target=f) for f in (bc, rp)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    for n, p in res:
        if p.returncode != 0:
            print(p.stdout[-6000:])
            die("build of %s failed" % n)
    write(stamp, h)
    return time.time() - t0, True


def read(p):
    try:
        return open(p).read()
    except OSError:
        return None


def write(p, s):
    with open(p, "w") as f:
        f.write(s)


def inputs_str(inp):
    return ",".join("%d:%d" % (w, v) for w, v in inp)


def run_replay(entry, case, inp):
    # replays of file harnesses leave their files in the scratch directory
    try:
        with tempfile.TemporaryDirectory(prefix="vreplay") as d:
            p = subprocess.run([REPLAY, entry, str(case), inputs_str(inp)], cwd=d, env=dict(os.environ, RUST_BACKTRACE="0"), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
            return p.returncode, p.stdout, p.stderr.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        return 124, b"", "timeout"


def explore(jobs, budget_total, z3_all=False):
    """Run (entry, case, budget, samples) jobs over worker processes."""
    q = list(reversed(jobs))
    out, lock, found = [], threading.Lock(), [0]
    env = dict(os.environ)
    if z3_all:
        env["SYMEX_Z3_ALL"] = "1"
    deadline = time.time() + budget_total
    stop = [deadline]  # brought forward by the first counterexample
    procs, over = set(), threading.Event()

    def watchdog():
        # engines that overrun are ended, so that what was found is reported in time
        while not over.wait(1):
            if time.time() > stop[0] + 20:
                with lock:
                    for x in procs:
                        x.kill()

    def worker():
        p = None
        while True:
            with lock:
                if not q:
                    break
                j = q.pop()
            if found[0] >= 40 and not os.environ.get("ALL"):
                continue  # plenty of counterexamples
            if time.time() > stop[0]:
                with lock:
                    out.append({"entry": j[0], "case": j[1], "incomplete": "total time budget exhausted", "crash": False})
                continue
            if p is None:
                p = subprocess.Popen([ENGINE, BC], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env)
                with lock:
                    procs.add(p)
            try:
                p.stdin.write("%s %d %g %d\n" % (j[0], j[1], max(1, min(j[2], stop[0] - time.time())), j[3]))
                p.stdin.flush()
                line = p.stdout.readline()
            except BrokenPipeError:
                line = ""
            if not line:
                err = p.stderr.read()[-2000:]
                p.wait()
                with lock:
                    procs.discard(p)
                    out.append({"entry": j[0], "case": j[1], "incomplete": "engine ended: rc=%s %s" % (p.returncode, err), "crash": True})
                p = None
                continue
            with lock:
                out.append(json.loads(line))
                if out[-1].get("violations"):
                    found[0] += 1
                    if not os.environ.get("ALL"):
                        stop[0] = min(stop[0], time.time() + 60)
        if p:
            p.stdin.close()
            p.wait()
            with lock:
                procs.discard(p)
    threading.Thread(target=watchdog, daemon=True).start()
    ts = [threading.Thread(target=worker) for _ in range(NPROC)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    over.set()
    return out


def entries():
    r = {}
    o = subprocess.run([REPLAY, "--list"], stdout=subprocess.PIPE, text=True, check=True).stdout
    for line in o.splitlines():
        f = line.split(" ")
        cs = [[int(x) for x in f[i].split(",") if x] if len(f) > i else [] for i in (2, 3)]
        r.setdefault(f[0], []).append((f[1], cs[0], cs[1]))
    return r


def demangle(names):
    try:
        p = subprocess.run(["c++filt", "-s", "rust"], input="\n".join(names), stdout=subprocess.PIPE, text=True)
        d = p.stdout.splitlines()
        return d if len(d) == len(names) else names
    except OSError:
        return names


def main():
    prop = sys.argv[1]
    if prop == "setup":
        for cli in (False, True):
            variant(cli)
            t, _ = build()
            print("built in %.1f s" % t)
        return
    variant(prop in CLI)
    tier = os.environ.get("VERIF_TIER") or (sys.argv[2] if len(sys.argv) > 2 else "quick")
    if len(sys.argv) > 2 and sys.argv[2] in ("quick", "thorough"):
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    only = os.environ.get("ONLY")
    t0 = time.time()
    bt, rebuilt = build()
    props = {json.loads(l)["id"]: json.loads(l) for l in open(os.path.join(V, "properties.jsonl")) if l.strip()}
    notes = json.load(open(os.path.join(V, "bounds.json"))).get(prop, {})
    es = entries().get(prop)
    if not es:
        die("no harness for " + prop)
    jobs = []
    th = tier == "thorough"
    per = 3000 if th else 400
    for name, quick, thor in es:
        if only and not re.search(only, name):
            continue
        for c in (thor if th else quick):
            jobs.append((name, c, per, 4 if not th else 8))
    if os.environ.get("CASES"):
        keep = {int(x) for x in os.environ["CASES"].split(",")}
        jobs = [j for j in jobs if j[1] in keep]
    # longest first, from the last run if known
    hist_p = os.path.join(V, "costs.json")
    hist = json.loads(read(hist_p) or "{}")
    jobs.sort(key=lambda j: -hist.get("%s/%d" % (j[0], j[1]), 0.3))
    res = explore(jobs, 3300 if th else max(300, 720 - bt), z3_all=bool(os.environ.get("Z3_ALL")))
    if os.environ.get("SAVE_COSTS"):
        hist = json.loads(read(hist_p) or "{}")
        for r in res:
            if "wall_s" in r:
                k = "%s/%d" % (r["entry"], r["case"])
                hist.pop(k, None)
                if r["wall_s"] > 1:
                    hist[k] = round(r["wall_s"], 1)
        write(hist_p, json.dumps(hist, indent=0, sort_keys=True) + "\n")

    # validate sampled paths: same outputs natively
    lines, seen = [], set()
    for r in res:
        for s in r.get("samples", []):
            lines.append("%s %d %s %s" % (r["entry"], r["case"], inputs_str(s["inputs"]), s["emit"]))
    validated, diffs, vout = 0, 0, []
    if lines:
        with tempfile.TemporaryDirectory(prefix="vreplay") as d:
            p = subprocess.run([REPLAY, "--batch"], cwd=d, input="\n".join(lines) + "\n", stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        vout = p.stdout.splitlines()
        m = re.match(r"VALIDATED (\d+) (\d+)", vout[-1]) if vout else None
        if m:
            validated, diffs = int(m[1]), int(m[2])
        else:
            diffs = -1
            vout.append("native validation ended early: rc=%d %s" % (p.returncode, p.stderr[-600:]))

    # counterexamples
    known = [k for k in json.load(open(os.path.join(V, "known_findings.json")))["findings"] if k["property"] == prop]
    bad, notrep, hit = [], [], {}
    cands = []
    for r in res:
        for v in r.get("violations", []):
            cands.append((r, v))
    rep_by_key = {}
    for r, v in cands:
        key = (r["entry"], v["kind"], v["msg"], v["place"])
        if rep_by_key.get(key, 0) >= 4:
            continue
        rc, so, se = run_replay(r["entry"], r["case"], v["inputs"])
        if rc in (3, 101, 134, -6, 124, -11):
            rep_by_key[key] = rep_by_key.get(key, 0) + 1
            what = se.strip()[:1500]
            k = next((k for k in known if re.search(k["entry"], r["entry"]) and re.search(k["match"], what)
                      and ("case" not in k or r["case"] in k["case"])), None)
            if k:
                hit[k["what"]] = 1
            else:
                bad.append((r, v, rc, so, what))
        else:
            notrep.append((r, v, rc, se))
    incomplete = [r for r in res if r.get("incomplete")]

    fns = sorted({f for r in res for f in r.get("fns", [])})
    dm = demangle(fns)
    own = sorted({re.sub(r"::h[0-9a-f]{16}$", "", d) for d in dm if "substrait_explain" in d})
    tot = lambda k: sum(r.get(k, 0) or 0 for r in res)
    samples = []
    for r in res:
        for s in r.get("samples", [])[:1]:
            if len(samples) < 5:
                samples.append({"harness": r["entry"], "case": r["case"], "inputs": s["inputs"][:40],
                                "observed": bytes.fromhex(s["emit"]).decode("utf8", "replace")[:600]})
    vac = []
    for name, quick, thor in es:
        if not any(r["entry"] == name and r.get("paths") for r in res) and not only and not os.environ.get("CASES"):
            vac.append(name)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot("paths") + tot("forks"),
            "transitions": tot("steps"),
            "paths_completed": tot("paths"),
            "paths_cut_by_assumptions": tot("killed"),
            "harness_cases": len(res),
            "solver_queries": tot("queries"), "queries_sat": tot("sat"), "queries_unsat": tot("unsat"),
            "queries_unknown": tot("unknown"), "query_cache_hits": tot("cache_hits"),
            "branches_decided_by_finite_domain": tot("fd"), "finite_domain_decisions_confirmed_by_z3": tot("crossed"), "branches_decided_by_interval": tot("range"),
            "solver_seconds": round(sum(r.get("solver_s", 0) for r in res), 3),
            "slowest_query_s": max([r.get("max_query_s", 0) for r in res] or [0]),
            "engine_cpu_seconds": round(sum(r.get("wall_s", 0) for r in res), 1),
            "functions_encoded_total": len(fns),
            "functions_encoded_of_the_crate": own,
            "traces_validated_against_impl": validated,
            "trace_mismatches": diffs,
            "bounds": notes.get("bounds", ""), "outside_bounds": notes.get("outside", ""),
            "samples": samples,
            "exhaustive": not incomplete,
            "cases_cut_short": ["%s/%d: %s" % (r["entry"], r["case"], r["incomplete"][:120]) for r in incomplete[:50]],
        },
        "assumptions": notes.get("assumptions", []) + [
            "rustc's optimized LLVM bitcode (opt-level 1, fat LTO, overflow checks on, panic=abort) represents the source",
            "engine models of the allocator (never fails, never reuses), hash function (constant), getrandom (constant), memcmp/memcpy/LLVM intrinsics",
            "Z3 4.8.12",
        ],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(bad),
    }
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    write(os.path.join(V, "evidence", prop + ".json"), json.dumps(ev, indent=1) + "\n")
    print("%s %s: %d cases, %d paths, %d forks, %d queries (%d unsat), solver %.1fs, engine cpu %.1fs, build %.1fs, wall %.1fs, validated %d" % (
        prop, tier, len(res), tot("paths"), tot("forks"), tot("queries"), tot("unsat"), ev["coverage"]["solver_seconds"],
        ev["coverage"]["engine_cpu_seconds"], bt, time.time() - t0, validated))
    if os.environ.get("SHOW"):
        for r in sorted(res, key=lambda r: -r.get("wall_s", 0))[:int(os.environ["SHOW"])]:
            print("  %-24s case %-8d %8.2fs paths %6d forks %6d killed %d q %d solver %.2f covers %s" % (r["entry"], r["case"], r.get("wall_s", 0), r.get("paths", 0), r.get("forks", 0), r.get("killed", 0), r.get("queries", 0), r.get("solver_s", 0), r.get("covers")))
        by = {}
        for r in res:
            by.setdefault(r["entry"], []).append(r.get("wall_s", 0))
        for e in sorted(by, key=lambda e: -sum(by[e])):
            print("  %-24s %4d cases %8.1f s" % (e, len(by[e]), sum(by[e])))
    for w in hit:
        print("KNOWN-FINDING: property=%s %s" % (prop, w))
    if bad:
        os.makedirs(os.path.join(V, "replays"), exist_ok=True)
        n = 0
        shown = set()
        for r, v, rc, so, what in bad:
            key = (r["entry"], v["kind"], v["msg"], v["place"])
            if key in shown and not os.environ.get("ALL"):
                continue
            shown.add(key)
            n += 1
            path = os.path.join(V, "replays", "%s_%d.txt" % (prop, n))
            dmt = demangle(v["trace"])
            write(path, "property: %s\n%s\n\nreplay: %s %s %d %s\nexit: %d\n\nwhat: %s\n\noutput:\n%s\n\nsymbolic stack:\n%s\n" % (
                prop, props.get(prop, {}).get("statement"), REPLAY, r["entry"], r["case"], inputs_str(v["inputs"]), rc, what,
                so.decode("utf8", "replace"), "\n".join(dmt)))
            if n <= 30:
                print("VIOLATION property=%s replay=%s" % (prop, path))
                print("   %s case %d: %s | %s" % (r["entry"], r["case"], what.replace("\n", " / ")[:400], so.decode("utf8", "replace").replace("\n", "\\n")[:300]))
        sys.stdout.flush()
        os._exit(1)
    if notrep:
        r, v, rc, se = notrep[0]
        print("counterexample of %s case %d (%s %s at %s) did not reproduce natively: rc=%d %s inputs=%s" % (r["entry"], r["case"], v["kind"], v["msg"], v["place"], rc, se[-300:], inputs_str(v["inputs"])))
        print("\n".join(demangle(v["trace"])))
        die("%d counterexamples do not reproduce: encoding error" % len(notrep))
    if incomplete:
        for r in incomplete[:8]:
            print("incomplete: %s case %d: %s" % (r["entry"], r["case"], r["incomplete"][:700]))
        if 3 * len(incomplete) > len(res):
            die("%d of %d cases not decided" % (len(incomplete), len(res)))
        print("INCOMPLETE property=%s: %d of %d cases were cut short (evidence: exhaustive=false)" % (prop, len(incomplete), len(res)))
    if diffs:
        print("\n".join(vout[-10:])[:3000])
        die("native runs disagree with the encoding")
    if vac:
        die("vacuous harness: " + ",".join(vac))
    print("OK property=%s held on everything explored" % prop)


main()
