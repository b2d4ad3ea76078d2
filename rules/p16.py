"""Every public operation is interpreted once per combination of its optional / boolean / enumerated arguments and once per
receiver a constructor configuration produces; reported is a use of a name or attribute that is bound on no path, a call whose
arguments cannot fit the signature, an unpacking or constant index that cannot fit, a use of None as an object, and an import of
a name the standard library does not have."""
import ast
import importlib
import itertools
import os
import sys

from sa.alias import AliasDomain
from sa.driver import Driver, Entry, entries
from sa.engine import Engine
from sa.project import AnalysisBroken, lookup_method, where
from sa.values import BOT, EMPTY, Obj, V, ref

from .api import API
from .common import Report

MINIMUM = {"operations": 270, "configurations": 800, "statements_interpreted": 20000}

# work in progress of the package (the module says so): it binds its names through self.__dict__ |= locals()
EXCLUDED = {"SlaterKosterOriginal"}
MAX_FULL = 5
KINDS = ("unbound", "noattr", "arity", "unpack", "index", "nonenull")


def width(v):
    return len(v.consts) + (v.data is not None) + len(v.tups) + len(v.refs) + len(v.fns)


class RunEngine(Engine):
    """Engine that counts visits of every construct per call context, and how many of them failed on every path"""

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.weak = [False]
        self.visits = {}
        self.hit = {}

    def where_now(self, node):
        return tuple(id(n) for _, n in self.callstack), id(node)

    def eval(self, e, st):
        if isinstance(e, (ast.Name, ast.Attribute, ast.Call, ast.Subscript, ast.BinOp, ast.Compare)):
            k = self.where_now(e)
            self.visits[k] = self.visits.get(k, 0) + 1
            self.hit.pop(k, None) if self.visits[k] == 1 else None
            old = self.mark
            self.mark = (k, self.visits[k])
            try:
                return super().eval(e, st)
            finally:
                self.mark = old
        return super().eval(e, st)

    mark = None

    def exec_stmt(self, s, st):
        k = self.where_now(s)
        self.visits[k] = self.visits.get(k, 0) + 1
        return super().exec_stmt(s, st)

    def getattr(self, st, b, name, node):
        self.weak.append(self.weak[-1] if width(b) == 1 else True)
        try:
            return super().getattr(st, b, name, node)
        finally:
            self.weak.pop()

    def unpack(self, t, v, st, node):
        self.weak.append(self.weak[-1] if width(v) == 1 else True)
        try:
            return super().unpack(t, v, st, node)
        finally:
            self.weak.pop()

    def subscript(self, st, b, idx, node):
        self.weak.append(self.weak[-1] if width(b) == 1 else True)
        try:
            return super().subscript(st, b, idx, node)
        finally:
            self.weak.pop()

    def call(self, st, f, args, kwargs, node, star=False):
        self.weak.append(self.weak[-1] if width(f) == 1 else True)
        try:
            return super().call(st, f, args, kwargs, node, star)
        finally:
            self.weak.pop()


class RunDomain(AliasDomain):
    loops_run = True

    def __init__(self):
        super().__init__()
        self.fails = {}        # (context, node id) -> (description, number of visits that certainly failed)

    def event(self, eng, st, kind, node, **info):
        if eng.entry is None or kind not in KINDS or not hasattr(node, "_mod"):
            return
        if info.get("must") is False or eng.weak[-1]:
            return
        if kind == "index" and info["length"] == 0:
            return      # a query of an object that holds no data yet
        d = self.describe(kind, node, info)
        k = eng.where_now(node) + (d,)
        seen = self.fails.setdefault(k, (node, kind, info, set(), self.chain(eng)))
        seen[3].add(eng.visits.get(k[:2], 0))

    def describe(self, kind, node, info):
        f = getattr(node, "_func", None)
        w = f"{node._mod.name}.{getattr(f, '_qual', '<module>')}"
        what = {"unbound": lambda: info["name"], "noattr": lambda: f"{info['cls']}.{info['attr']}",
                "arity": lambda: f"{info['func']}: {info['detail']}", "unpack": lambda: f"{info['want']} names from {info['got']} values",
                "index": lambda: f"index {info['index']} of {info['length']}", "nonenull": lambda: f"None.{info['attr']}"}[kind]()
        return kind, w, what


def alternatives(v):
    """independent ways this argument can be given"""
    if width(v) < 2:
        return [v]
    out = [V(consts=frozenset([c])) for c in sorted(v.consts, key=repr)]
    rest = V(EMPTY, v.data, v.tups, v.refs, v.fns)
    if not rest.empty():
        out.append(rest)
    return out


def show(v):
    if len(v.consts) == 1 and width(v) == 1:
        return repr(v.const())
    return "given"


def configs(alts, cap=1 << MAX_FULL):
    """all combinations when few, else the base, single and pairwise changes"""
    keys = [k for k, a in alts.items() if len(a) > 1]
    n = 1
    for k in keys:
        n *= len(alts[k])
    if n <= cap:
        for c in itertools.product(*(range(len(alts[k])) for k in keys)):
            yield dict(zip(keys, c))
        return
    seen = set()
    for r in (0, 1, 2):
        for ks in itertools.combinations(keys, r):
            for c in itertools.product(*(range(len(alts[k])) for k in ks)):
                t = tuple(sorted(zip(ks, c)))
                full = tuple(dict(t).get(k, 0) for k in keys)
                if full not in seen:
                    seen.add(full)
                    yield dict(zip(keys, full))


class Runner:
    def __init__(self, project, full=MAX_FULL):
        self.p = project
        self.full = full
        self.dom = RunDomain()
        self.drv = Driver(project, self.dom, RunEngine)
        self.receivers = {}

    def names(self, entry):
        a = entry.node.args
        return [p.arg for p in a.posonlyargs + a.args]

    def one(self, entry, chosen, alts_out=None, self_v=None):
        """one run; chosen: parameter -> alternative number"""
        eng = self.drv.eng
        label = []

        def prep(st, args, kwargs):
            names = self.names(entry)
            args = list(args)
            for i, v in enumerate(args):
                n = names[i] if i < len(names) else f"*{i}"
                if i == 0 and entry.kind in ("method", "class"):
                    continue
                al = alternatives(v)
                if alts_out is not None:
                    alts_out[n] = al
                if len(al) > 1:
                    args[i] = al[chosen.get(n, 0)]
                    label.append(f"{n}={show(args[i])}")
            for n, v in list(kwargs.items()):
                al = alternatives(v)
                if alts_out is not None:
                    alts_out[n] = al
                if len(al) > 1:
                    kwargs[n] = al[chosen.get(n, 0)]
                    label.append(f"{n}={show(kwargs[n])}")
            return args, kwargs

        self.dom.fails = {}
        eng.visits = {}
        st, r, _ = self.drv.run(entry, prep=prep)
        return st, r, ", ".join(label)

    def collect(self, out, entry, label):
        eng = self.drv.eng
        for k, (node, kind, info, visits, chain) in self.dom.fails.items():
            total = eng.visits.get(k[:2], 0)
            if len(visits) >= max(total, 1):
                out.setdefault(k[2], (entry.label, label, chain, where(node)))

    def alts(self, entry):
        """alternatives of every argument without running the body"""
        st = self.drv.fresh()
        args, kwargs = self.drv.symargs(st, entry)
        names = self.names(entry)
        d = {}
        for i, v in enumerate(args):
            if i == 0 and entry.kind in ("method", "class"):
                continue
            d[names[i] if i < len(names) else f"*{i}"] = alternatives(v)
        for n, v in kwargs.items():
            d[n] = alternatives(v)
        return d

    def run_entry(self, entry):
        found, n = {}, 0
        shapes = [None]
        if entry.cls is not None and entry.kind == "method" and entry.name != "__init__":
            shapes += self.constructed(entry.cls)
        general = self.drv.shapes.get(entry.cls.name) if entry.cls else None
        alts = self.alts(entry)
        for shp in shapes:
            lab0 = ""
            if shp is not None:
                self.drv.shapes[entry.cls.name], lab0 = shp
            elif general is not None:
                self.drv.shapes[entry.cls.name] = general
            for cfg in configs(alts, 1 << (self.full if shp is None else self.full - 2)):
                _, _, label = self.one(entry, cfg)
                self.collect(found, entry, "; ".join(x for x in (lab0, label) if x))
                n += 1
        if general is not None:
            self.drv.shapes[entry.cls.name] = general
        return found, n

    def constructed(self, cls):
        """receivers produced by the constructor under each configuration of its arguments"""
        if cls.name in self.receivers:
            return self.receivers[cls.name]
        self.drv.shape(cls)
        out = []
        c, m = lookup_method(cls, "__init__")
        if m is not None:
            e = Entry(c.mod, cls, "__init__", m, "method")
            cf = list(configs(self.alts(e), 1 << (self.full - 2)))
            if len(cf) > 1:
                for cfg in cf[:12 if self.full == MAX_FULL else 64]:
                    st, _, label = self.one(e, cfg)
                    oid = ("inst", "init", cls.name, None)
                    if oid in st.heap and st.heap[oid].fields:
                        out.append((self.drv._template(st, oid, cls), f"{cls.name}({label})"))
        self.receivers[cls.name] = out
        return out


def work(run, ents, w, n):
    found, ops, cfgs = {}, 0, 0
    for i, e in enumerate(ents):
        if i % n == w:
            f, c = run.run_entry(e)
            for k, v in f.items():
                found.setdefault(k, v)
            ops += 1
            cfgs += c
    eng = run.drv.eng
    return found, ops, cfgs, eng.stats["stmts"], eng.stats["calls"], {where(f) for f in eng.stats["functions"]}


def stdlib_imports(project, rep):
    """from <standard library module> import name: the name exists"""
    std = sys.stdlib_module_names
    for m in project.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ImportFrom) and not n.level and n.module and n.module.split(".")[0] in std:
                try:
                    lib = importlib.import_module(n.module)
                except ImportError:
                    rep.oblige(False, f"import|{m.name}|{n.module}", f"{where(n)}: module {n.module} does not exist")
                    continue
                for a in n.names:
                    ok = a.name == "*" or hasattr(lib, a.name)
                    if not ok:
                        try:
                            importlib.import_module(n.module + "." + a.name)
                            ok = True
                        except ImportError:
                            pass
                    rep.oblige(ok, f"import|{m.name}|{n.module}.{a.name}", f"{where(n)}: {n.module} has no name '{a.name}'; importing {m.name} fails")
                    rep.count("stdlib_imports")


def check(project, tier):
    from .pool import fork_map
    rep = Report()
    ents = [e for e in entries(project) if e.label in API and not (e.cls and e.cls.name in EXCLUDED)]
    run = Runner(project, MAX_FULL + 2 if tier == "thorough" else MAX_FULL)
    found, funcs = {}, set()
    ents.sort(key=lambda e: (e.cls.name if e.cls else "", e.label))
    for f, ops, cfgs, stm, calls, fs in fork_map(lambda w, n: work(run, ents, w, n)):
        for k, v in f.items():
            if k not in found or v < found[k]:
                found[k] = v
        funcs |= fs
        rep.count("operations", ops)
        rep.count("configurations", cfgs)
        rep.count("statements_interpreted", stm)
        rep.count("calls_resolved", calls)
    rep.obligations += rep.coverage["configurations"]
    rep.discharged += rep.coverage["configurations"]
    for (kind, w, what), (lab, cfg, chain, at) in sorted(found.items(), key=str):
        if any(x in w for x in EXCLUDED):
            continue
        rep.oblige(False, f"{kind}|{w}|{what}", f"{at}: {kind} {what}; reached from {lab} with {cfg or 'any arguments'} ({chain})")
    stdlib_imports(project, rep)
    rep.coverage["functions"] = len(funcs)
    return rep
