"""development: report what the concrete domains could not follow.  Usage: import and call install(limit)."""
import ast

import sa.engine as en
import sa.tendom as td

ON = [True]


def install(limit=60):
    seen = {}

    def say(*a):
        k = str(a)[:150]
        if ON[0] and k not in seen and len(seen) < limit:
            seen[k] = 1
            print(*a, flush=True)
    ob = en.Engine.branch

    def branch(self, test, st):
        r = ob(self, test, st)
        if None in r:
            return r
        say("UNDECIDED", getattr(test, "lineno", 0), ast.unparse(test)[:80], str(self.eval(test, st))[:100])
        return r
    en.Engine.branch = branch
    ot = en.Engine.turns

    def turns(self, s, st, items):
        r = ot(self, s, st, items)
        if r is None:
            say("TURNS abort", s.lineno, ast.unparse(s)[:60])
        return r
    en.Engine.turns = turns
    o = td.TenDomain.ext_call

    def ext(self, eng, st, path, args, kw, node):
        r = o(self, eng, st, path, args, kw, node)
        y = self.get(eng, st, r) if r is not None and not r.tups and not r.refs and not r.fns else 0
        if r is None or y is None or (y and any(e is None for e in y.e)):
            if path.split(".")[0] != "builtins" or path.split(".")[-1] in ("sum", "abs", "max", "min", "float", "int"):
                say("EXT?", path, getattr(node, "lineno", 0), ast.unparse(node)[:70], [str(a)[:50] for a in args], "".join(f"{k}={str(v)[:40]}" for k, v in kw.items()))
        return r
    td.TenDomain.ext_call = ext
    ob2 = td.TenDomain.binop

    def binop(self, eng, st, op, l, r, node):
        x = ob2(self, eng, st, op, l, r, node)
        y = self.get(eng, st, x) if x is not None and isinstance(x, td.V if hasattr(td, "V") else object) else 0
        if y is not 0 and y is not None and any(e is None for e in y.e):
            say("BIN?", getattr(node, "lineno", 0), ast.unparse(node)[:70], str(l)[:60], str(r)[:60])
        return x
    td.TenDomain.binop = binop
    osub = td.TenDomain.subscript

    def sub(self, eng, st, base, idx, node):
        x = osub(self, eng, st, base, idx, node)
        if x is None or not isinstance(x, td.V):
            say("SUB?", getattr(node, "lineno", 0), ast.unparse(node)[:70], str(base)[:60], str(idx)[:80])
        return x
    td.TenDomain.subscript = sub
