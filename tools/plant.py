#!/usr/bin/env python3
"""Development helper: makes /verif/seeded/<id> from a spec (id, property, needs, breaks, edits, demo source), then applies it to
/repo's tree, confirms demo and stable tests, runs the checks and undoes it.  usage: plant.py spec.py [id ...]"""
import json, os, subprocess, sys
PKG = "src/tight_binding_redweasel/"
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, cwd="/repo", t=900):
    r = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=t)
    return r.returncode, r.stdout + r.stderr


def one(s, checks):
    d = f"{HERE}/seeded/{s['id']}"
    os.makedirs(d, exist_ok=True)
    assert not sh("git status --porcelain")[1].strip(), "dirty /repo"
    res = {}
    try:
        open(d + "/demo.py", "w").write(s["demo"])
        open(d + "/demo.sh", "w").write('#!/bin/sh\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(d + "/demo.sh", 0o755)
        rc0, o0 = sh(f"bash {d}/demo.sh", t=300)
        for f, old, new in s["edits"]:
            p = "/repo/" + PKG + f
            t = open(p).read()
            assert t.count(old) == 1, (s["id"], f, t.count(old), old)
            open(p, "w").write(t.replace(old, new))
        open(d + "/patch.diff", "w").write(sh("git diff")[1])
        json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
        rc1, o1 = sh(f"bash {d}/demo.sh", t=300)
        rct = sh("bash /opt/vp/test.sh /tmp/plant.json")
        base = json.load(open("/opt/vp/BASELINE.json"))
        stable = set(base.get("stable") or base.get("passed") or base.get("tests"))
        got = set(json.load(open("/tmp/plant.json"))["passed"])
        chk = {}
        for c in (checks or [s["property"]]):
            rc, o = sh(f"python3 check.py {c}", cwd=HERE)
            chk[c] = rc
            if rc == 1:
                chk[c + "_msg"] = next((l for l in o.splitlines() if l.startswith(c + " ")), "")[:160]
        res = dict(demo_clean=rc0, demo_bug=rc1, missing_tests=sorted(stable - got), checks=chk)
        if rc0: res["o0"] = o0[-400:]
        res["o1"] = o1[-150:]
    finally:
        sh("git checkout -- .")
    ok = rc0 == 0 and rc1 != 0 and not res["missing_tests"]
    print("VALID  " if ok else "INVALID", s["id"], "CAUGHT" if chk.get(s["property"]) == 1 else "missed", res)


ns = {}
exec(open(sys.argv[1]).read(), ns)
ids = [a for a in sys.argv[2:] if not a.startswith("-")]
checks = None
if "--all" in sys.argv:
    checks = [c["property"] for c in json.load(open(HERE + "/MANIFEST.json"))["checks"]]
for s in ns["SPECS"]:
    if not ids or s["id"] in ids:
        one(s, checks)
