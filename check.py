#!/usr/bin/env python3
"""Driver: builds the harness of one property against /repo's working tree, runs
its generated cases in shards, writes the evidence file, and reports.

  check.py <ID>                 one property, tier from VERIF_TIER, seed from VERIF_SEED
  check.py <ID> --replay FILE   re-run a saved failing case

Exit 0: held on everything explored.  Exit 1 and a VIOLATION line: broken.
Exit 2: an error of the check itself (build failure, no memory, time limit).
"""
import json, os, re, shutil, struct, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402


def env():
    e = dict(os.environ)
    e.setdefault("HOME", "/root")
    e["PATH"] = "/opt/veriftools/go1.23.12/bin:" + e.get("PATH", "/usr/bin:/bin")
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GO111MODULE="on",
             CGO_ENABLED="1", GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build",
             GOSUMDB="off", GONOSUMDB="*", GONOSUMCHECK="1", GOFLAGS_EXTRA="")
    for k in list(e):
        if k.startswith("RAPID_"):
            del e[k]
    return e


def die(msg):
    print("ERROR: " + msg)
    sys.exit(2)


def build(cfg, work, e):
    exe = os.path.join(work, "h.test")
    cmd = ["go", "test", "-c", "-vet=off", "-o", exe]
    if cfg.get("race"):
        cmd.append("-race")
    if os.environ.get("VH_REPO"):  # development only: judge a scratch copy of the repository
        mod = os.path.join(work, "go.mod")
        open(mod, "w").write(open(os.path.join(VERIF, "harness", "go.mod")).read().replace("=> /repo", "=> " + os.environ["VH_REPO"]))
        shutil.copy(os.path.join(VERIF, "harness", "go.sum"), os.path.join(work, "go.sum"))
        cmd.append("-modfile=" + mod)
    cmd.append("./" + cfg["pkg"])
    p = subprocess.run(cmd, cwd=os.path.join(VERIF, "harness"), env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0 or not os.path.exists(exe):
        die("build of the harness failed:\n" + p.stdout[-6000:])
    return exe


def run_shard(exe, work, e, shard, shards, run, timeout, extra_env=None, pin=False):
    d = os.path.join(work, "s%d" % shard)
    os.makedirs(d, exist_ok=True)
    ee = dict(e)
    ee.update(VH_SHARD=str(shard), VH_SHARDS=str(shards), VH_STATS=os.path.join(d, "stats.json"),
              VH_VERIF=VERIF, TMPDIR=d, GOMAXPROCS=str(e.get("VH_PROCS", "2")))
    ee.update(extra_env or {})
    cpus = sorted(os.sched_getaffinity(0))
    if pin:
        # the affinity of this thread is inherited by the process: the work
        # that a proof takes grows with the number of processors
        ee["GOMAXPROCS"] = "1"
        try:
            os.sched_setaffinity(0, {ALL_CPUS[shard % len(ALL_CPUS)]})
        except OSError:
            pass
    log = os.path.join(d, "log")
    start, failed = time.time(), None
    with open(log, "w") as f:
        p = subprocess.Popen([exe, "-test.run", run, "-test.v", "-test.timeout", "%ds" % timeout],
                             cwd=d, env=ee, stdout=f, stderr=subprocess.STDOUT)
        rc, tick = None, 0
        while rc is None:
            try:
                rc = p.wait(0.2 if tick < 50 else 2)
            except subprocess.TimeoutExpired:
                tick += 1
                now = time.time()
                if failed is None and (FAST or tick % 5 == 0) and "VH-FAILED" in open(log, errors="replace").read():
                    failed = now
                if FAST and failed:
                    FAST.append(1)
                if now > start + timeout + 60 or failed is not None and now > failed + SHRINK[e["VERIF_TIER"]] or len(FAST) > 1:
                    p.kill()
                    p.wait()
                    rc = 124
    if pin:
        try:
            os.sched_setaffinity(0, set(cpus))
        except OSError:
            pass
    return rc, open(log, errors="replace").read(), d


# development only: stop at the first failure
FAST = [1] if os.environ.get("VH_FAST") else []

# seconds for making a failing case smaller, which rapid checks only now and
# then; afterwards the case is reported as it was found
SHRINK = {"quick": 60, "thorough": 200}

ALL_CPUS = sorted(os.sched_getaffinity(0))

CRASH = re.compile(r"^(panic: |fatal error: (all goroutines are asleep|concurrent map|stack overflow|sync: )|SIGSEGV|unexpected fault address)", re.M)


def classify(rc, out):
    """-> ("ok"|"violation"|"error", note)"""
    if rc == 0:
        return "ok", ""
    if "VH-HARNESS-ERROR" in out:
        return "error", re.search(r"VH-HARNESS-ERROR.*", out).group(0)
    if (rc == 124 or "panic: test timed out" in out) and "VH-FAILED" in out:
        return "violation", "not made smaller"
    if rc == 124 or "panic: test timed out" in out:
        return "error", "time limit"
    if "cannot allocate memory" in out or "out of memory" in out or "no space left on device" in out:
        return "error", "out of memory or disk"
    if rc == 3 and "VH-HANG" in out:
        return "violation", re.search(r"VH-HANG.*", out).group(0)
    if rc < 0:
        return "error", "killed by signal %d" % -rc
    if "[rapid] only generated" in out and "[rapid] failed after" not in out and "[rapid] panic after" not in out:
        return "error", "the generator discarded too much"
    if rc in (1, 66) and ("--- FAIL" in out or "DATA RACE" in out):
        return "violation", ""
    if CRASH.search(out):
        return "violation", CRASH.search(out).group(0)
    return "error", "exit code %d" % rc


def save_replay(pid, shard, shards, out, d, seed, tier):
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    test = None
    m = re.search(r"^\s*--- FAIL: (\S+)", out, re.M)
    if m:
        test = m.group(1).split("/")[0]
    else:
        ms = re.findall(r"^VH-TEST (\S+)", out, re.M) or re.findall(r"^=== RUN\s+(\S+)", out, re.M)
        mf = re.findall(r"^VH-FAILED (\S+)", out, re.M)
        if mf:
            test = mf[0].split("/")[0]
        elif ms:
            test = ms[-1].split("/")[0]
    rec = {"property": pid, "test": test, "seed": seed, "shard": shard, "shards": shards, "tier": tier}
    ff = re.search(r'-rapid\.failfile="([^"]+)"', out)
    if ff:
        p = os.path.join(d, ff.group(1))
        if os.path.exists(p):
            rec["failfile"] = open(p, errors="replace").read()
    rec["log"] = out[-20000:]
    path = os.path.join(rdir, "%s-%s-seed%d-%d.json" % (pid, test, seed, shard))
    with open(path, "w") as f:
        json.dump(rec, f, indent=1)
    return path


def excerpt(out):
    i = out.find("--- FAIL")
    j = out.find("[rapid]", max(i, 0))
    s = out[j if j >= 0 else (i if i >= 0 else max(0, len(out) - 3000)):]
    return s[:3000]


def setup():
    """Compiles all the harness packages, plain and with the race detector, to fill the build cache."""
    e = env()
    work = tempfile.mkdtemp(prefix="vh-setup-")
    try:
        for pkg, race in sorted({(c["pkg"], bool(c.get("race"))) for c in CHECKS.values()}):
            build({"pkg": pkg, "race": race}, work, e)
            print("built", pkg, "(race)" if race else "")
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    if sys.argv[1:] == ["--setup"]:
        setup()
        return
    if len(sys.argv) < 2 or sys.argv[1] not in CHECKS:
        die("usage: check.py <ID> [--replay FILE]; ids: " + " ".join(sorted(CHECKS)))
    pid = sys.argv[1]
    cfg = CHECKS[pid]
    tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
    if "--thorough" in sys.argv:
        tier = "thorough"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    e = env()
    e["VERIF_TIER"], e["VERIF_SEED"] = tier, str(seed & (2**63 - 1))
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="vh-%s-" % pid)
    try:
        rc = go(pid, cfg, tier, seed, e, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def go(pid, cfg, tier, seed, e, work, t0):
    exe = build(cfg, work, e)
    run = "^Test%s_" % pid
    if "--replay" in sys.argv:
        rec = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
        x = {"VERIF_SEED": str(rec["seed"]), "VERIF_TIER": rec["tier"]}
        if rec.get("failfile"):
            p = os.path.join(work, "replay.fail")
            open(p, "w").write(rec["failfile"])
            x["VH_REPLAY_FAILFILE"] = p
        rc, out, _ = run_shard(exe, work, e, rec["shard"], rec["shards"], "^%s$" % rec["test"],
                               cfg.get("timeout", {}).get(tier, 700), x)
        kind, note = classify(rc, out)
        print(out[-8000:])
        if kind == "violation":
            print("VIOLATION property=%s replay=%s" % (pid, sys.argv[sys.argv.index("--replay") + 1]))
            return 1
        return 0 if kind == "ok" else 2

    shards = cfg.get("shards", {}).get(tier, 8)
    timeout = cfg.get("timeout", {}).get(tier, 600 if tier == "quick" else 5400)
    with ThreadPoolExecutor(max_workers=min(shards, cfg.get("parallel", 8))) as ex:
        res = list(ex.map(lambda s: run_shard(exe, work, e, s, shards, run, timeout, pin=cfg.get("pin")), range(shards)))

    kinds = [classify(rc, out) for rc, out, _ in res]
    violations = [i for i, k in enumerate(kinds) if k[0] == "violation"]
    errors = [i for i, k in enumerate(kinds) if k[0] == "error"]

    # merge statistics
    evals, hashes, tests, known = 0, set(), {}, []
    for rc, out, d in res:
        for line in out.splitlines():
            if line.startswith("KNOWN-FINDING:") and line not in known:
                known.append(line)
        sp = os.path.join(d, "stats.json")
        if os.path.exists(sp):
            for name, s in json.load(open(sp)).items():
                t = tests.setdefault(name, {"rule": s["rule"], "evaluations": 0, "labels": {}, "samples": []})
                t["evaluations"] += s["evaluations"]
                evals += s["evaluations"]
                for k, v in (s["labels"] or {}).items():
                    t["labels"][k] = t["labels"].get(k, 0) + v
                if len(t["samples"]) < 3:
                    t["samples"] += (s["samples"] or [])[: 3 - len(t["samples"])]
        hp = sp + ".hashes"
        if os.path.exists(hp):
            b = open(hp, "rb").read()
            hashes.update(struct.unpack("<%dQ" % (len(b) // 8), b[: len(b) // 8 * 8]))
    ran = sorted(set(re.findall(r"^=== RUN\s+(Test\w+)", "\n".join(o for _, o, _ in res), re.M)))
    cov = {
        "evaluations": evals,
        "distinct_nontrivial": len(hashes),
        "rule": "; ".join("%s: %s" % (n, t["rule"]) for n, t in sorted(tests.items())) or "none",
        "samples": [{"test": n, "case": s} for n, t in sorted(tests.items()) for s in t["samples"]],
        "classes": {n: {"evaluations": t["evaluations"], **dict(sorted(t["labels"].items()))} for n, t in sorted(tests.items())},
        "tests": ran,
        "shards": shards,
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": cfg.get("level", "exploration"), "coverage": cov,
          "assumptions": cfg.get("assumptions", []), "wall_s": round(time.time() - t0, 2),
          "violations": len(violations)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)

    for k in known:
        print(k)
    if violations:
        i = violations[0]
        rc, out, d = res[i]
        print(kinds[i][1])
        print(excerpt(out))
        path = save_replay(pid, i, shards, out, d, seed, tier)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if errors:
        i = errors[0]
        print(res[i][1][-4000:])
        die("shard %d: %s" % (i, kinds[i][1]))
    if not ran or not evals:
        die("no cases ran")
    print("OK property=%s tier=%s seed=%d evaluations=%d distinct_nontrivial=%d wall=%.1fs"
          % (pid, tier, seed, evals, len(hashes), time.time() - t0))
    return 0


if __name__ == "__main__":
    main()
