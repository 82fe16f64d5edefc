#!/usr/bin/env python3
"""Development tool: plants each change of seeded/ in a scratch copy of /repo and
reports whether it builds, passes the stable tests, is shown by its
demonstration, and is caught by the check of its property.

  tools/seeds.py [--no-tests] [--no-check] [--all-checks] [ID...]
  tools/seeds.py --save ID PROP   save the diff of the scratch copy /tmp/sw as seeded/ID/patch.diff
"""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/seedwork"
ENV = dict(os.environ, PATH="/opt/veriftools/go1.23.12/bin:" + os.environ["PATH"], GOTOOLCHAIN="local", GOPROXY="off",
           GOFLAGS="-mod=mod", GO111MODULE="on", CGO_ENABLED="1", GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build")


def sh(cmd, cwd=W, env=ENV, timeout=1200):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)


def stable_ok():
    st = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    M = "github.com/iden3/go-iden3-core"
    seen = set()
    pk = [p for p in sh("go list -e ./...").stdout.split() if p not in (M + "/components/verifier", M + "/identity/issuer", M + "/core/claims")]
    out = sh("go test -json -vet=off -count=1 " + " ".join(pk)).stdout
    for t in sh("go test -vet=off -list . " + M + "/core/claims").stdout.split():
        if t.startswith("Test"):
            out += sh("go test -json -vet=off -count=1 -run '^%s$' %s/core/claims" % (t, M)).stdout
    for l in out.splitlines():
        try:
            d = json.loads(l)
        except ValueError:
            continue
        if d.get("Action") == "pass" and d.get("Test"):
            seen.add(d["Package"] + "/" + d["Test"])
    return sorted(st - seen)


def fresh():
    shutil.rmtree(W, ignore_errors=True)
    sh("cp -a /repo " + W, cwd="/")
    sh("git checkout -q -- .")


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    ids = args or sorted(os.listdir(V + "/seeded"))
    res = []
    for i in ids:
        d = "%s/seeded/%s" % (V, i)
        prop = json.load(open(d + "/meta.json"))["property"]
        fresh()
        r = [i, prop]
        if "--no-demo" not in sys.argv:
            p = sh("bash %s/demo.sh" % d)
            r.append("demo-clean:" + ("ok" if p.returncode == 0 else "FAIL\n" + p.stdout[-1500:]))
        p = sh("git apply %s/patch.diff" % d)
        if p.returncode:
            r.append("APPLY FAILED " + p.stdout)
            print(*r, flush=True)
            continue
        p = sh("go build ./...")
        r.append("build:" + ("ok" if p.returncode == 0 else "FAIL " + p.stdout[-1500:]))
        if "--no-demo" not in sys.argv:
            p = sh("bash %s/demo.sh" % d)
            r.append("demo-patched:" + ("fails(good)" if p.returncode else "PASSES(bad)"))
            if "-v" in sys.argv:
                print(p.stdout[-1500:])
        if "--no-tests" not in sys.argv:
            m = stable_ok()
            r.append("tests:" + ("ok" if not m else "BROKEN %s" % m))
        if "--no-check" not in sys.argv:
            sys.path.insert(0, V)
            from checks import CHECKS
            for c in (sorted(CHECKS) if "--all-checks" in sys.argv else [prop]):
                p = sh("python3 %s/check.py %s" % (V, c), cwd=V, env=dict(os.environ, VH_REPO=W, VERIF_SEED="1"))
                r.append("%s:%s" % (c, {0: "quiet", 1: "caught"}.get(p.returncode, "ERROR " + p.stdout[-800:])))
        print(*r, flush=True)
    shutil.rmtree(W, ignore_errors=True)


main()
