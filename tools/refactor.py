#!/usr/bin/env python3
"""Development self-test: writes a copy of a package tree with behaviour-preserving rewrites applied everywhere (all checks have to
stay quiet on it).  usage: refactor.py SRC_ROOT DST_ROOT mode...   modes: ifs, returns, calls, impl, comps, loops, kwargs, names, aug"""
import ast, os, shutil, sys, itertools


class Base(ast.NodeTransformer):
    def __init__(self):
        self.n = itertools.count()

    def tmp(self):
        return f"tmp_{next(self.n)}"


class Ifs(Base):
    def visit_If(self, node):
        self.generic_visit(node)
        if node.orelse and not (len(node.orelse) == 1 and isinstance(node.orelse[0], ast.If)):
            return ast.If(ast.UnaryOp(ast.Not(), node.test), node.orelse, node.body)
        return node


class Returns(Base):
    def visit_Return(self, node):
        if node.value is None or isinstance(node.value, (ast.Name, ast.Constant)):
            return node
        t = self.tmp()
        return [ast.Assign([ast.Name(t, ast.Store())], node.value), ast.Return(ast.Name(t, ast.Load()))]


class Hoist(ast.NodeTransformer):
    """calls in the arguments of an expression go to variables, in evaluation order"""

    def __init__(self, tmp):
        self.tmp, self.pre = tmp, []

    def visit_Lambda(self, n): return n
    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_IfExp = visit_BoolOp = visit_Lambda
    visit_Await = visit_Yield = visit_NamedExpr = visit_JoinedStr = visit_Compare = visit_Lambda

    def visit_Call(self, n):
        n = self.generic_visit(n)
        if any(isinstance(a, ast.Starred) for a in n.args) or isinstance(n.func, ast.Name) and n.func.id in ("super", "range", "slice"):
            return n
        t = self.tmp()
        self.pre.append(ast.Assign([ast.Name(t, ast.Store())], n))
        return ast.Name(t, ast.Load())


def pure(e):
    return not any(isinstance(x, (ast.IfExp, ast.BoolOp, ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp, ast.Compare, ast.JoinedStr, ast.Starred)) for x in ast.walk(e))


class Calls(Base):
    def visit_Assign(self, node):
        if isinstance(node.value, ast.Call) and len(node.targets) == 1 and pure(node.value):
            h = Hoist(self.tmp)
            v = node.value
            f = v.func
            if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call):
                return node
            v.args = [h.visit(a) for a in v.args]
            for k in v.keywords:
                k.value = h.visit(k.value)
            return h.pre + [node]
        if isinstance(node.value, ast.BinOp) and len(node.targets) == 1 and pure(node.value):
            h = Hoist(self.tmp)
            node.value = h.visit(node.value)
            return h.pre + [node]
        return node


class Impl(Base):
    """the body of every method moves to another method"""

    def visit_ClassDef(self, node):
        out = []
        for f in node.body:
            if isinstance(f, ast.FunctionDef) and not f.decorator_list and not f.name.startswith("__") and f.args.args and f.args.args[0].arg == "self" and not f.args.vararg and not f.args.kwarg and not f.args.kwonlyargs and not any(
                    isinstance(x, (ast.Yield, ast.YieldFrom)) or isinstance(x, ast.Name) and x.id in ("super", "__class__", "locals") for x in ast.walk(f)):
                import copy
                g = copy.deepcopy(f)
                g.name = "_" + f.name + "_body"
                g.args.defaults = []
                doc = [f.body[0]] if ast.get_docstring(f) else []
                f.body = doc + [ast.Return(ast.Call(ast.Attribute(ast.Name("self", ast.Load()), g.name, ast.Load()), [ast.Name(a.arg, ast.Load()) for a in f.args.args[1:]], []))]
                out += [f, g]
            else:
                out.append(f)
        node.body = out
        return node


class Comps(Base):
    """x = [e for ...] becomes a loop with append"""

    def visit_Assign(self, node):
        v = node.value
        if isinstance(v, ast.ListComp) and len(node.targets) == 1 and isinstance(node.targets[0], ast.Name) and self.infunc and node.targets[0].id not in {x.id for x in ast.walk(v) if isinstance(x, ast.Name)}:
            # the loop variables get names of their own
            names = {x.id for g in v.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
            new = {n: f"{n}_{next(self.n)}" for n in names}
            if any(isinstance(x, (ast.Lambda, ast.ListComp, ast.GeneratorExp)) for x in ast.walk(v) if x is not v):
                return node

            class R(ast.NodeTransformer):
                def visit_Name(self, x):
                    return ast.Name(new.get(x.id, x.id), x.ctx)
            first = v.generators[0].iter
            v2 = R().visit(v)
            v2.generators[0].iter = first if not names & {x.id for x in ast.walk(first) if isinstance(x, ast.Name)} else first
            body = [ast.Expr(ast.Call(ast.Attribute(ast.Name(node.targets[0].id, ast.Load()), "append", ast.Load()), [v2.elt], []))]
            for g in reversed(v2.generators):
                for c in reversed(g.ifs):
                    body = [ast.If(c, body, [])]
                body = [ast.For(g.target, g.iter, body, [])]
            return [ast.Assign(node.targets, ast.List([], ast.Load()))] + body
        return node
    infunc = False

    def visit_FunctionDef(self, node):
        old, self.infunc = self.infunc, True
        self.generic_visit(node)
        self.infunc = old
        return node


class Loops(Base):
    """for i in range(...) becomes a while loop, for x in seq a loop over positions of a list"""

    def visit_For(self, node):
        self.generic_visit(node)

        def has_continue(b):
            for s in b:
                if isinstance(s, ast.Continue):
                    return True
                if isinstance(s, (ast.For, ast.While, ast.FunctionDef)):
                    continue
                for f in ("body", "orelse", "finalbody"):
                    if has_continue(getattr(s, f, [])):
                        return True
                for h in getattr(s, "handlers", []):
                    if has_continue(h.body):
                        return True
            return False
        if node.orelse:
            return node
        it = node.iter
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "range" and len(it.args) == 1 and isinstance(node.target, ast.Name) and not has_continue(node.body):
            t, e = self.tmp(), self.tmp()
            L = lambda n: ast.Name(n, ast.Load())
            return [ast.Assign([ast.Name(t, ast.Store())], ast.Constant(0)), ast.Assign([ast.Name(e, ast.Store())], it.args[0]),
                    ast.While(ast.Compare(L(t), [ast.Lt()], [L(e)]), [ast.Assign([node.target], L(t))] + node.body + [ast.AugAssign(ast.Name(t, ast.Store()), ast.Add(), ast.Constant(1))], [])]
        return node


class Names(ast.NodeTransformer):
    """local variables of functions without nested functions get other names"""

    def visit_FunctionDef(self, node):
        if any(isinstance(x, (ast.FunctionDef, ast.Lambda, ast.Global, ast.Nonlocal, ast.ClassDef)) for x in ast.walk(node) if x is not node):
            self.generic_visit(node)
            return node
        if any(isinstance(x, ast.Name) and x.id == "locals" for x in ast.walk(node)):
            return node
        params = {a.arg for a in node.args.args + node.args.kwonlyargs + [x for x in (node.args.vararg, node.args.kwarg) if x]}
        loc = {x.id for x in ast.walk(node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - params
        loc -= {a.asname or a.name for x in ast.walk(node) if isinstance(x, (ast.Import, ast.ImportFrom)) for a in x.names}
        for x in ast.walk(node):
            if isinstance(x, ast.Name) and x.id in loc:
                x.id = "v_" + x.id
            if isinstance(x, ast.ExceptHandler) and x.name in loc:
                x.name = "v_" + x.name
        return node


class Aug(Base):
    """x += number / counters and the like stay; np.conj(a.T) -> a.conj().T, a @ b -> np.matmul(a, b)"""

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.MatMult):
            return ast.Call(ast.Attribute(ast.Name("np", ast.Load()), "matmul", ast.Load()), [node.left, node.right], [])
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == "np" and f.attr == "conj" and len(node.args) == 1:
            return ast.Call(ast.Attribute(ast.Name("np", ast.Load()), "conjugate", ast.Load()), node.args, [])
        return node


MODES = dict(ifs=Ifs, returns=Returns, calls=Calls, impl=Impl, comps=Comps, loops=Loops, names=Names, aug=Aug)


def main():
    src, dst, *modes = sys.argv[1:]
    shutil.copytree(src + "/src", dst + "/src", dirs_exist_ok=True)
    for root, _, files in os.walk(dst + "/src"):
        for f in files:
            if f.endswith(".py"):
                p = os.path.join(root, f)
                t = ast.parse(open(p).read())
                for m in modes:
                    t = ast.fix_missing_locations(MODES[m]().visit(t))
                open(p, "w").write(ast.unparse(t) + "\n")
                compile(open(p).read(), p, "exec")


main()
