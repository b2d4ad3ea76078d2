"""Findings, the known-findings file, evidence and exit codes."""
import importlib
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Finding:
    """key identifies rule + construct (no line numbers); text is the full diagnosis"""

    def __init__(self, key, text):
        self.key, self.text = key, text


class Report:
    def __init__(self):
        self.findings = {}
        self.coverage = {}
        self.samples = []
        self.obligations = 0
        self.discharged = 0
        self.assumptions = []
        self.explanation = ""

    def add(self, key, text):
        if key not in self.findings:
            self.findings[key] = Finding(key, text)

    def oblige(self, ok, key=None, text=None):
        self.obligations += 1
        if ok:
            self.discharged += 1
        else:
            self.add(key, text)

    def absorb(self, other):
        for k, f in other.findings.items():
            self.add(k, f.text)
        for k, n in other.coverage.items():
            self.count(k, n)
        self.samples = (self.samples + other.samples)[:8]
        self.obligations += other.obligations
        self.discharged += other.discharged

    def count(self, name, n=1):
        self.coverage[name] = self.coverage.get(name, 0) + n


def load_known():
    known, fixed = {}, []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            line = line.rstrip("\n")
            if not line.strip() or line.startswith("#"):
                continue
            if line.startswith("fixed:"):
                fixed.append(line)
                continue
            # known: property=<id> key=<key> :: <text>
            if line.startswith("known:"):
                head, _, text = line[len("known:"):].strip().partition(" :: ")
                pid, _, key = head.partition(" key=")
                known.setdefault(pid.strip().split("=", 1)[1], {})[key.strip()] = text
    return known, fixed


def main(pid, root="/repo", tier=None):
    from sa.project import AnalysisBroken, Project
    t0 = time.time()
    tier = tier or os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    try:
        project = Project(root)
        mod = importlib.import_module("rules." + pid.lower())
        rep = mod.check(project, tier)
        minimum = getattr(mod, "MINIMUM", {})
        for k, n in minimum.items():
            if rep.coverage.get(k, 0) < n:
                raise AnalysisBroken(f"{pid}: only {rep.coverage.get(k, 0)} instances of '{k}' analysed, expected at least {n}")
    except AnalysisBroken as e:
        print(f"ANALYSIS-BROKEN property={pid} {e}")
        return 3
    known, _ = load_known()
    known = known.get(pid, {})
    viol, seen = [], []
    for k, f in sorted(rep.findings.items()):
        (seen if k in known else viol).append(f)
    for f in seen:
        print(f"KNOWN-FINDING: property={pid} {f.key}: {known[f.key]}")
    for k in sorted(set(known) - set(rep.findings)):
        print(f"note: listed finding not present any more: {pid} {k}")
    cov = dict(rep.coverage)
    cov["modules"] = len(project.modules)
    cov["source_digest"] = project.digest()
    cov["explanation"] = rep.explanation or (mod.__doc__ or "").strip()
    cov["rule"] = (mod.__doc__ or "").strip()
    cov["obligations"] = rep.obligations
    cov["discharged"] = rep.discharged
    cov["samples"] = rep.samples[:20] or ["(none)"]
    cov["known_findings"] = [f.key for f in seen]
    cov["checker_cmd"] = f"python3 check.py {pid}"
    cov["trusted_base"] = ["sa/engine.py (abstract interpreter)", "sa/driver.py (entry points and symbolic arguments)", "tables of numpy/scipy view, copy and mutation behaviour in sa/engine.py", "CPython ast"]
    ev = {"property": pid, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": "other",
          "coverage": cov, "wall_s": round(time.time() - t0, 3), "assumptions": rep.assumptions, "violations": [f.text for f in viol]}
    ev["level"] = getattr(mod, "LEVEL", "other")
    if not rep.assumptions:
        ev.pop("assumptions")
    evdir = os.path.join(HERE, "evidence") if os.path.realpath(root) == "/repo" else os.path.join(root, "evidence")
    os.makedirs(evdir, exist_ok=True)
    with open(os.path.join(evdir, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    if viol:
        rp = os.path.join(evdir, pid + ".violations.txt")
        with open(rp, "w") as f:
            for v in viol:
                f.write(v.key + "\n    " + v.text + "\n")
        for v in viol:
            print(f"{pid} {v.key}\n    {v.text}")
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    print(f"{pid}: held on everything analysed; {rep.obligations} obligations, {rep.coverage}  ({time.time() - t0:.1f} s)")
    return 0
