#!/usr/bin/env python3
"""check.py ID [quick|thorough]      decide one property
   check.py --replay FILE           re-run one saved failure
   check.py --build [PKG...]        build the check binaries only

Exit 0: held on everything explored. Exit 1: VIOLATION line printed. Exit 3: the check itself could not run."""
import hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
MODULE = "github.com/ElrondNetwork/arwen-wasm-vm/v1_3"
CHECKS = json.load(open(os.path.join(VERIF, "checks.json")))
ERR = 3


def goenv():
    e = dict(os.environ)
    path = e.get("PATH", "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
    if "/opt/veriftools/go1.27.3/bin" not in path.split(":"):
        path = "/opt/veriftools/go1.27.3/bin:" + path
    e.update(PATH=path, HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOSUMDB="off", GOFLAGS="-mod=mod",
             CGO_ENABLED="1", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOWORK="off",
             GOCACHE=e.get("GOCACHE", "/root/.cache/go-build"),
             # the go tool does not notice when the library changes: the second
             # (missing) directory makes it link again
             CGO_LDFLAGS="-L%s -L%s" % (os.path.join(BUILD, "lib"), libdigest()))
    for k in ("GOMAXPROCS", "GODEBUG", "GOEXPERIMENT", "GOOS", "GOARCH"):
        e.pop(k, None)
    return e


def libdigest():
    h = hashlib.sha256()
    for f in ("wasmvm.c", "opcosts.h", "build.sh"):
        with open(os.path.join(VERIF, "wasmlib", f), "rb") as fh:
            h.update(fh.read())
    return "/nonexistent/" + h.hexdigest()[:16]


def sh(cmd, timeout=800, **kw):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                         start_new_session=True, **kw)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        return 124, out


def die(msg):
    print("check error: " + msg, flush=True)
    sys.exit(ERR)


def build(pkg, tmp):
    os.makedirs(os.path.join(BUILD, "lib"), exist_ok=True)
    rc, out = sh(["bash", os.path.join(VERIF, "wasmlib", "build.sh"), os.path.join(BUILD, "lib")])
    if rc:
        die("engine build failed\n" + out)
    # module file: the repository's, plus rapid
    mod = open(os.path.join(REPO, "go.mod")).read()
    modfile = os.path.join(tmp, "go.mod")
    open(modfile, "w").write(mod + "\nrequire pgregory.net/rapid v1.3.0\n")
    shutil.copy(os.path.join(REPO, "go.sum"), os.path.join(tmp, "go.sum"))
    repl = {}
    root = os.path.join(VERIF, "harness")
    for d, _, fs in os.walk(root):
        rel = os.path.relpath(d, root)
        for f in fs:
            if f.endswith(".go"):
                repl[os.path.join(REPO, "zzverif", rel, f)] = os.path.join(d, f)
    overlay = os.path.join(tmp, "overlay.json")
    json.dump({"Replace": repl}, open(overlay, "w"))
    binary = os.path.join(tmp, pkg + ".test")
    cmd = ["go", "test", "-c", "-vet=off", "-overlay", overlay, "-modfile", modfile, "-o", binary, "./zzverif/" + pkg]
    rc, out = sh(cmd, cwd=REPO, env=goenv())
    if rc:
        die("the check does not build against the current tree\n" + out)
    return binary


def run_shard(binary, cfg, prop, tier, seed, checks, shard, shards, tmp, failfile=None, timeout=800):
    cwd = os.path.join(tmp, "shard%d" % shard)
    shutil.rmtree(cwd, ignore_errors=True)
    os.makedirs(cwd)
    ev = os.path.join(cwd, "evidence.json")
    e = goenv()
    e.update(VH_EVIDENCE=ev, VERIF_TIER=tier, VERIF_SEED=str(seed), VH_SHARD=str(shard), VH_SHARDS=str(shards),
             VH_REPO=REPO, VH_VERIF=VERIF, VH_CHECKS=str(checks), TMPDIR=cwd, GOTRACEBACK="single",
             VH_SECONDS=str((280 if tier == "quick" else 4500) // (cfg["run"].count("|") + 1)))
    for k, v in cfg.get("env", {}).items():
        e[k] = v
    args = [binary, "-test.run", "^(%s)$" % cfg["run"], "-test.timeout", "%ds" % (timeout - 5), "-test.count=1",
            "-rapid.seed=%d" % (((seed & 0x7fffffff) * 1000003 + shard * 7919 + 17) & 0x7fffffffffffffff or 1),
            "-rapid.checks=%d" % checks, "-rapid.shrinktime=20s"]
    if cfg.get("steps"):
        args.append("-rapid.steps=%d" % cfg["steps"])
    if failfile:
        e["VH_REPLAY"] = failfile
        args += ["-rapid.failfile=" + failfile, "-test.v"]
    rc, out = sh(args, timeout=timeout, cwd=cwd, env=e)
    return dict(rc=rc, out=out, cwd=cwd, ev=ev, shard=shard)


CRASH = re.compile(r"^(fatal error: |SIGSEGV|SIGBUS|SIGABRT|SIGFPE|unexpected fault address|runtime: |panic: |\[signal SIG)", re.M)


def classify(r):
    if r["rc"] == 0:
        return "ok"
    o = r["out"]
    if r["rc"] in (124, -9, 137) or "panic: test timed out" in o:
        return "timeout"
    if "out of memory" in o or "cannot allocate memory" in o:
        return "error"
    if "INFRA:" in o:
        return "error"
    if r["rc"] == 1 and "--- FAIL" in o:
        return "fail"
    if CRASH.search(o) or r["rc"] < 0:
        return "crash"
    return "error"


def story(out):
    """The output without rapid's list of draws: the failure and the minimal case come first."""
    lines = [l for l in out.splitlines() if "[rapid] draw " not in l]
    return "\n".join(lines)[:20000]


def save_replay(prop, r, seed, tier, checks, shards, binary_cfg):
    d = os.path.join(VERIF, "replays", prop)
    os.makedirs(d, exist_ok=True)
    fails = []
    td = os.path.join(r["cwd"], "testdata", "rapid")
    for root, _, fs in os.walk(td):
        for f in fs:
            if f.endswith(".fail"):
                fails.append(os.path.join(root, f))
    tag = hashlib.sha1(r["out"].encode()).hexdigest()[:10]
    path = os.path.join(d, "fail-%s.json" % tag)
    doc = dict(property=prop, seed=seed, tier=tier, checks=checks, shard=r["shard"], shards=shards,
               how="python3 /verif/check.py --replay " + path,
               log=story(r["out"]), rapid_failfile=open(fails[0]).read() if fails else None,
               rapid_test=os.path.relpath(os.path.dirname(fails[0]), td) if fails else None)
    json.dump(doc, open(path, "w"), indent=1)
    return path


def known_lines(prop):
    """KNOWN-FINDING lines: committed findings whose demonstration still fails (decided by the harness)."""
    return []


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        sys.exit(ERR)
    tmp = tempfile.mkdtemp(prefix="vcheck-")
    os.chmod(tmp, 0o755)
    try:
        if sys.argv[1] == "--build":
            pkgs = sys.argv[2:] or sorted({c["pkg"] for c in CHECKS.values()})
            for p in pkgs:
                build(p, tmp)
            return 0
        if sys.argv[1] == "--replay":
            doc = json.load(open(sys.argv[2]))
            cfg = CHECKS[doc["property"]]
            binary = build(cfg["pkg"], tmp)
            ff = None
            checks = doc["checks"]
            if doc.get("rapid_failfile"):
                ff = os.path.join(tmp, "replay.fail")
                open(ff, "w").write(doc["rapid_failfile"])
                cfg = dict(cfg, run=doc["rapid_test"].split("/")[0])
                checks = 1
            r = run_shard(binary, cfg, doc["property"], doc["tier"], doc["seed"], checks, doc["shard"], doc["shards"], tmp, ff)
            print(story(r["out"]))
            bad = classify(r) in ("fail", "crash")
            print("replay: still fails" if bad else "replay: passes")
            return 1 if bad else 0
        prop = sys.argv[1]
        tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
        return check(prop, tier, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def check(prop, tier, tmp):
    t0 = time.time()
    cfg = CHECKS[prop]
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    shards = cfg.get("shards", 8)
    checks = cfg["quick"] if tier == "quick" else cfg["thorough"]
    timeout = 600 if tier == "quick" else 5400
    binary = build(cfg["pkg"], tmp)
    with ThreadPoolExecutor(max_workers=8) as ex:
        rs = list(ex.map(lambda i: run_shard(binary, cfg, prop, tier, seed, checks, i, shards, tmp, timeout=timeout),
                         range(shards)))
    bad = None
    errors = []
    for r in rs:
        c = classify(r)
        if c == "crash":  # must be reproducible from the seed to count
            r2 = run_shard(binary, cfg, prop, tier, seed, checks, r["shard"], shards, os.path.join(tmp, "again"), timeout=timeout)
            if classify(r2) in ("crash", "fail"):
                c = "fail"
            else:
                errors.append("shard %d crashed once, not reproducibly\n%s" % (r["shard"], r["out"][-4000:]))
                continue
        if c == "fail" and bad is None:
            bad = r
        elif c in ("timeout", "error"):
            errors.append("shard %d: %s (rc %s)\n%s" % (r["shard"], c, r["rc"], r["out"][-4000:]))
    evals, seen, classes, samples, notes, rule = 0, set(), {}, [], [], ""
    for r in rs:
        if not os.path.exists(r["ev"]):
            continue
        d = json.load(open(r["ev"]))
        rule = d["rule"] or rule
        evals += d["evaluations"]
        seen.update(d["hashes"])
        for k, v in d["classes"].items():
            classes[k] = classes.get(k, 0) + v
        for s in d["samples"] or []:
            if len(samples) < 12 or sum(x.split(":")[0] == s.split(":")[0] for x in samples) == 0 and len(samples) < 40:
                samples.append(s)
        for n in d["notes"] or []:
            if n not in notes:
                notes.append(n)
    for r in rs:
        for l in re.findall(r"^\s*(KNOWN-FINDING: property=%s .*)$" % prop, r["out"], re.M):
            if l not in notes:
                notes.append(l)
                print(l)
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration",
              coverage=dict(evaluations=evals, distinct_nontrivial=len(seen), rule=rule,
                            samples=samples or ["(none)"], classes=dict(sorted(classes.items())), notes=notes,
                            shards=shards, cases_per_generator_per_shard=checks),
              assumptions=cfg.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=1 if bad else 0)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if bad:
        path = save_replay(prop, bad, seed, tier, checks, shards, cfg)
        m = re.search(r"--- FAIL.*?(?=\n\s*(Traceback|To reproduce|Failed test output)|\Z)", bad["out"], re.S)
        print((m.group(0) if m else bad["out"])[-3500:])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors:
        die("; ".join(errors))
    if evals == 0 or len(seen) == 0:
        die("nothing was explored")
    print("%s: held on %d cases (%d distinct non-trivial), %.1fs" % (prop, evals, len(seen), time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
