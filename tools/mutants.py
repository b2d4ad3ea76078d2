#!/usr/bin/env python3
"""Development self-test: applies one textual change at a time to a scratch copy of /repo/src and compares the verdict of
a check with the expectation (1 = must report, 0 = must stay quiet).  usage: mutants.py [PXX ...] [-k substring]"""
import os, shutil, subprocess, sys, tempfile, concurrent.futures as cf
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
PKG = "src/tight_binding_redweasel/"


def one(m):
    pid, want, name, edits = m
    d = tempfile.mkdtemp(prefix="mut")
    try:
        shutil.copytree(os.environ.get("R", "/repo") + "/src", d + "/src")
        for f, old, new in edits:
            p = os.path.join(d, PKG, f)
            s = open(p).read()
            if s.count(old) < 1:
                return m, "STALE", f"{f}: {old[:60]!r} not found"
            open(p, "w").write(s.replace(old, new, 1))
            compile(open(p).read(), p, "exec")
        r = subprocess.run([sys.executable, os.path.join(HERE, "check.py"), pid, "--root", d], capture_output=True, text=True, timeout=1500)
        lines = [l for l in r.stdout.splitlines() if l.startswith(pid + " ") or "BROKEN" in l]
        return m, r.returncode, ("; ".join(lines) or r.stdout[-300:] + r.stderr[-600:])[:600]
    finally:
        shutil.rmtree(d)


def main():
    from mutant_table import MUTANTS
    args = sys.argv[1:]
    k = None
    if "-k" in args:
        i = args.index("-k"); k = args[i + 1]; del args[i:i + 2]
    ms = [m for m in MUTANTS if (not args or m[0] in args) and (k is None or k in m[2])]
    bad = 0
    with cf.ThreadPoolExecutor(7) as ex:
        for m, rc, out in ex.map(one, ms):
            ok = rc == m[1]
            bad += not ok
            print(("ok  " if ok else "BAD ") + f"{m[0]} want {m[1]} got {rc}: {m[2]}" + ("" if ok and rc == 0 else "\n        " + out), flush=True)
    print(f"{len(ms)} mutants, {bad} unexpected")


main()
