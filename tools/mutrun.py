#!/usr/bin/env python3
"""mutrun.py MUTS.jsonl OUT.jsonl WORKERS: tries small changes of the repository (tools/mut) on scratch
copies: those that build and pass the tests of their package are judged by the checks of the properties
that name the file. Development only."""
import json, os, subprocess, sys, threading, shutil, importlib.util, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
muts = [json.loads(l) for l in open(sys.argv[1])]
out = sys.argv[2]
done = set()
if os.path.exists(out):
    done = {json.loads(l)["key"] for l in open(out)}
env = dict(os.environ, PATH="/opt/veriftools/go1.23.12/bin:" + os.environ["PATH"], GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOSUMDB="off")
props = []
for f in sorted(glob.glob(V + "/props/*.py")):
    sp = importlib.util.spec_from_file_location("p", f); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
    props += m.PROPS
COST = {"K01": 94, "K03": 42, "S05": 80, "S08": 62, "P01": 60, "P03": 55, "S01": 107, "S09": 20, "S10": 30, "S02": 21, "S03": 33, "S04": 38, "S06": 28, "S07": 26}
def checks(file):
    ids = [p["id"] for p in props if file in p["files"] or any(file == m[1] for m in p["mechanism"])]
    return sorted(ids, key=lambda i: COST.get(i, 15))
STABLE = ['TestAddLeafRevocationsTree', 'TestAddLeafRootsTree', 'TestClaimBasic1', 'TestClaimKeyBabyJub', 'TestClaimOtherIden1', 'TestLeafRevocationsTree', 'TestLeafRootsTree', 'TestMetadata', 'TestRandomClaimKeyBabyJub']
NOTEST = ("identity/issuer", "components/verifier")
lock = threading.Lock()
it = iter(muts)
def sh(cmd, cwd, timeout, **kw):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=dict(env, **kw), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace")
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return 124, str(e.stdout)
def worker(n):
    r, v = "/tmp/mw%d" % n, "/tmp/vw%d" % n
    shutil.rmtree(r, True); shutil.rmtree(v, True)
    subprocess.check_call(["cp", "-a", "/repo", r]); 
    subprocess.check_call(["cp", "-a", V, v])
    while True:
        with lock:
            m = next(it, None)
        if m is None:
            return
        key = "%s:%d:%s:%s" % (m["file"], m["Start"], m["op"], m["new"])
        if key in done:
            continue
        p = os.path.join(r, m["file"])
        orig = open(p, "rb").read()
        open(p, "wb").write(orig[:m["Start"]] + m["new"].encode() + orig[m["End"]:])
        res = dict(m, key=key)
        try:
            pkg = "./" + os.path.dirname(m["file"])
            rc, o = sh(["go", "build", "./..."], r, 120)
            if rc:
                res["result"] = "no build"
            else:
                rc = 0
                if os.path.dirname(m["file"]) not in NOTEST:
                    run = []
                    if pkg == "./core/claims": # two of its tests panic
                        run = ["-run", "^(%s)$" % "|".join(STABLE)]
                    rc, o = sh(["go", "test", "-vet=off", "-count=1", "-timeout", "60s"] + run + [pkg], r, 120)
                if rc:
                    res["result"] = "tests"
                else:
                    res["result"], res["why"] = "SURVIVED", []
                    for c in checks(m["file"]):
                        rc, o = sh(["python3", "check.py", c], v, 900, VH_REPO=r, VH_FAST="1", VERIF_SEED="1")
                        if rc == 1 and "VIOLATION" in o:
                            res["result"] = "killed"
                            res["why"] = c
                            break
                        res["why"].append("%s:%d" % (c, rc))
                        if rc != 0:
                            res["noanswer"] = c + ": " + o[-600:]
        finally:
            open(p, "wb").write(orig)
        with lock:
            open(out, "a").write(json.dumps(res) + "\n")
ts = [threading.Thread(target=worker, args=(i,)) for i in range(int(sys.argv[3]))]
[t.start() for t in ts]; [t.join() for t in ts]
