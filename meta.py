#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the definitions in props/*.py."""
import glob, json, os, runpy, sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from checks import CHECKS

props = []
for f in sorted(glob.glob(os.path.join(HERE, "props", "*.py"))):
    props += runpy.run_path(f)["PROPS"]

NA = []
with open(os.path.join(HERE, "properties.jsonl"), "w") as out:
    for p in props:
        if p.get("na"):
            NA.append({"property": p["id"], "reason": p["na"]})
        elif p["id"] not in CHECKS:
            continue
        assert len(p["title"]) <= 80, p["id"]
        assert p["statement"].count(". ") <= 2, (p["id"], "three sentences at most")
        for fn in p["files"]:
            assert os.path.exists(os.path.join("/repo", fn)), fn
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]]}
        if p.get("state"):
            a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        if p.get("observe_at"):
            a["observe_at"] = p["observe_at"]
        a["hook_needed"] = None
        rec = {"id": p["id"], "title": p["title"], "statement": p["statement"],
               "quantifier": {"over": p["over"], "text": p["forall"]},
               "why_tests_cant": p["why"], "anchors": a}
        out.write(json.dumps(rec) + "\n")

checks = []
for p in props:
    if p["id"] not in CHECKS:
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "python3 check.py %s" % p["id"],
        "thorough_cmd": "python3 check.py %s --thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": p["technique"],
        "level": CHECKS[p["id"]].get("level", "exploration"),
        "level_note": p["note"],
    })
man = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "hooks": {"guard": "none", "enable": "The checks need no hooks: they link the packages of /repo as they are.", "source_commits": []},
    "checks": checks,
    "not_applicable": NA,
    "notes": "Every check is 'python3 check.py ID': see DESIGN.md. VERIF_SEED chooses the cases, VERIF_TIER the depth.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
missing = set(CHECKS) - {p["id"] for p in props}
assert not missing, missing
print(len(checks), "checks")
