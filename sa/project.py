"""Loads the package source (syntax only; nothing is imported or executed)."""
import ast
import hashlib
import os

PKG = "tight_binding_redweasel"


class AnalysisBroken(Exception):
    """An anchor or an assumption of the analysis is gone: neither pass nor violation."""


class ClassInfo:
    def __init__(self, name, mod, node):
        self.name, self.mod, self.node = name, mod, node
        self.bases = []
        self.funcs = {}      # name -> FunctionDef (last definition wins, as in Python)
        self.decor = {}      # name -> set of decorator names
        self.attrs = {}      # class level assignments (ast expr)
        for s in node.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.funcs[s.name] = s
                self.decor[s.name] = {ast.unparse(d) for d in s.decorator_list}
                s._cls = self
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = s.value
                        # alias such as  __rmul__ = __mul__
                        if isinstance(s.value, ast.Name) and s.value.id in self.funcs:
                            self.funcs[t.id] = self.funcs[s.value.id]
                            self.decor[t.id] = self.decor[s.value.id]
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                self.attrs[s.target.id] = s.value

    def __repr__(self):
        return f"<class {self.name}>"


class ModuleInfo:
    def __init__(self, name, path):
        self.name, self.path = name, path
        with open(path, encoding="utf-8") as f:
            self.src = f.read()
        self.tree = ast.parse(self.src, path)
        self.classes, self.funcs = {}, {}
        for n in self.tree.body:
            self._top(n)
        # parents, qualified names, scope tables
        self._annotate(self.tree, None, "", None)

    def _top(self, n):
        if isinstance(n, ast.ClassDef):
            self.classes[n.name] = ClassInfo(n.name, self, n)
        elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            self.funcs[n.name] = n
        elif isinstance(n, (ast.If, ast.Try)):
            for f in ("body", "orelse", "finalbody"):
                for c in getattr(n, f, []):
                    self._top(c)

    def _annotate(self, node, func, qual, cls):
        for child in ast.iter_child_nodes(node):
            child._parent = node
            child._mod = self
            child._func = func
            if isinstance(child, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                q = f"{qual}.{child.name}" if qual else child.name
                child._qual = q
                if isinstance(child, ast.ClassDef):
                    self._annotate(child, func, q, child)
                else:
                    if not hasattr(child, "_cls"):
                        child._cls = None
                    self._annotate(child, child, q, None)
            elif isinstance(child, ast.Lambda):
                child._qual = f"{qual}.<lambda>"
                child._cls = None
                self._annotate(child, child, child._qual, None)
            else:
                self._annotate(child, func, qual, cls)


class Project:
    def __init__(self, root="/repo"):
        self.root = root
        self.src = os.path.join(root, "src", PKG)
        if not os.path.isdir(self.src):
            raise AnalysisBroken(f"no package at {self.src}")
        self.modules = {}
        for dirpath, _, files in sorted(os.walk(self.src)):
            for f in sorted(files):
                if f.endswith(".py"):
                    p = os.path.join(dirpath, f)
                    rel = os.path.relpath(p, self.src)[:-3].replace(os.sep, ".")
                    self.modules[rel] = ModuleInfo(rel, p)
        for m in self.modules.values():
            for c in m.classes.values():
                for b in c.node.bases:
                    if isinstance(b, ast.Name):
                        k = self.find_class(b.id)
                        if k is not None:
                            c.bases.append(k)

    def find_class(self, name):
        for m in self.modules.values():
            if name in m.classes:
                return m.classes[name]
        return None

    def digest(self):
        h = hashlib.sha256()
        for n in sorted(self.modules):
            h.update(n.encode() + b"\0" + self.modules[n].src.encode() + b"\0")
        return h.hexdigest()

    def func(self, mod, qual, required=True):
        m = self.modules.get(mod)
        if m is not None:
            for n in ast.walk(m.tree):
                if isinstance(n, ast.FunctionDef) and n._qual == qual:
                    found = n
                    # last definition wins
                    for k in ast.walk(m.tree):
                        if isinstance(k, ast.FunctionDef) and k._qual == qual:
                            found = k
                    return found
        if required:
            raise AnalysisBroken(f"anchor {mod}.{qual} is gone")
        return None


def lookup_method(cls, name):
    seen = [cls]
    while seen:
        c = seen.pop(0)
        if name in c.funcs:
            return c, c.funcs[name]
        seen.extend(c.bases)
    return None, None


def where(node):
    m = getattr(node, "_mod", None)
    f = getattr(node, "_func", None)
    q = getattr(f, "_qual", "<module>") if f is not None else "<module>"
    if isinstance(node, (ast.FunctionDef, ast.Lambda)):
        q = node._qual
    return f"{m.name if m else '?'}.py:{getattr(node, 'lineno', 0)} in {q}"


def scope_names(node):
    """Local names of a function/lambda (assigned anywhere in it), minus global/nonlocal."""
    cached = getattr(node, "_locals", None)
    if cached is not None:
        return cached
    loc, glob, nonl = set(), set(), set()
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        loc.add(x.arg)
    if a.vararg:
        loc.add(a.vararg.arg)
    if a.kwarg:
        loc.add(a.kwarg.arg)

    def visit(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            loc.add(n.name)
            for d in n.decorator_list:
                visit(d)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            # targets are local to the comprehension, but walrus leaks
            for s in ast.walk(n):
                if isinstance(s, ast.NamedExpr):
                    loc.add(s.target.id)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            loc.add(n.id)
        elif isinstance(n, ast.Global):
            glob.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nonl.update(n.names)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            loc.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                if al.name != "*":
                    loc.add((al.asname or al.name).split(".")[0])
        for c in ast.iter_child_nodes(n):
            visit(c)

    body = node.body if isinstance(node.body, list) else [node.body]
    for s in body:
        visit(s)
    node._locals = (frozenset(loc - glob - nonl), frozenset(glob), frozenset(nonl))
    return node._locals
