"""python3 tools/vocab.py [cases]: evaluate tools/vocab_cases.py (or tools/lang_cases.py) with the analyser and with the interpreter, compare."""
import json
import os
import subprocess
import sys
import tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
HERE = os.path.dirname(os.path.abspath(__file__))
CASES = sys.argv[1] if len(sys.argv) > 1 else "vocab_cases"
RUN = """
import sys, json; sys.path.insert(0, %r)
import numpy as np, %s as m
def show(x):
    if isinstance(x, (list, tuple)): return [show(i) for i in x]
    a = np.asarray(x)
    return [list(a.shape), [[float(v.real), float(v.imag)] for v in a.astype(complex).ravel()]]
print(json.dumps({k: show(f()) for k, f in list(vars(m).items()) if callable(f) and getattr(f, "__module__", "") == m.__name__ and not isinstance(f, type)}))
""" % (HERE, CASES)


def main():
    want = json.loads(subprocess.check_output(["/opt/venv/bin/python", "-c", RUN]))
    from rules.ten import TRun
    from sa.numdom import NumDomain, approx
    from sa.project import Project
    from sa.values import FnV, V
    with tempfile.TemporaryDirectory() as d:
        pk = os.path.join(d, "src", "tight_binding_redweasel")
        os.makedirs(pk)
        open(os.path.join(pk, "__init__.py"), "w").write("")
        open(os.path.join(pk, "cases.py"), "w").write(open(os.path.join(HERE, CASES + ".py")).read())
        p = Project(d)
        run = TRun(p, next(m for m in p.modules if m.endswith("cases")), NumDomain())
        bad = 0
        run.dom.strict = True

        def got(st, v):
            its = run.eng.seq_items(st, v)
            if its is None and v.tups:
                its = list(next(iter(v.tups))[1])
            if its is not None and run.dom.arr(v) is None:
                return [got(st, i) for i in its]
            na = run.value(st, v)
            if na is None:
                return None
            vs = [approx(type(na)((), (e,))) if e is not None else None for e in na.e]
            return [list(na.shape), [[complex(x[0]).real, complex(x[0]).imag] if x else None for x in vs]]

        def cmp(name, g, w):
            nonlocal bad
            if g is None:
                print("?   ", name)
                bad += 1
                return
            leaf = lambda q: len(q) == 2 and isinstance(q[0], list) and all(isinstance(i, int) for i in q[0]) and isinstance(q[1], list) and (not q[1] or q[1][0] is None or not isinstance(q[1][0][0], list))
            if leaf(w):
                ok = leaf(g) and g[0] == w[0] and all(x is not None and abs(x[0] - y[0]) + abs(x[1] - y[1]) < 1e-9 for x, y in zip(g[1], w[1]))
                if not ok:
                    bad += 1
                    print("BAD " if leaf(g) and None not in g[1] else "?   ", name, str(g)[:150], str(w)[:150])
                return
            if len(g) != len(w):
                bad += 1
                print("BAD ", name, "lengths", len(g), len(w))
                return
            for i, (a, b) in enumerate(zip(g, w)):
                cmp(f"{name}[{i}]", a, b)
        for k, w in want.items():
            st = run.fresh()
            try:
                r = run.call(st, V(fns=frozenset([FnV(run.mod.funcs[k].node if hasattr(run.mod.funcs[k], "node") else run.mod.funcs[k], ("mod", run.mod.name))])), [])
            except Exception as err:
                print('ERR ', k, repr(err)[:100])
                bad += 1
                continue
            cmp(k, got(st, r) if r is not None else None, w)
        print(bad, "differences")


main()
