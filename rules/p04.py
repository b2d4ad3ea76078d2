"""Typestate of every process-wide setting over all paths of every public operation, exceptional ones included.  A call
that changes a setting moves it to `changed at <call site>`; giving back the saved value (the value read with the matching
getter while the setting was unchanged) or leaving a context manager that restores it moves it back.  `changed` at a
return, or at any statement an exception can leave from, is a violation.  Rebinding of module globals and writes into
module-level or class-level tables are violations at any point."""
import ast

from sa.alias import AliasDomain
from sa.driver import Driver, entries
from sa.project import where
from sa.values import EMPTY, BoundV, Data, ExtM, ExtV, FnV, Obj, V

from .api import API
from .common import Report

MINIMUM = {"operations": 270, "setting_changes": 2, "module_tables": 5, "exceptional_exits": 100}

# call -> setting it changes; the arguments decide whether it is a restore
SETTERS = {
    "numpy.set_printoptions": "number print formatting", "numpy.set_string_function": "number print formatting",
    "numpy.seterr": "floating-point error handling", "numpy.seterrcall": "floating-point error handling", "numpy.setbufsize": "numpy buffer size",
    "numpy.random.seed": "random seed", "numpy.random.set_state": "random seed", "random.seed": "random seed", "random.setstate": "random seed",
    "warnings.simplefilter": "warning filters", "warnings.filterwarnings": "warning filters", "warnings.resetwarnings": "warning filters",
    "os.chdir": "working directory", "os.fchdir": "working directory", "os.umask": "file mode mask", "os.putenv": "environment", "os.unsetenv": "environment",
    "sys.setrecursionlimit": "recursion limit", "locale.setlocale": "locale", "signal.signal": "signal handlers",
    "gc.disable": "garbage collector", "gc.enable": "garbage collector", "logging.basicConfig": "logging", "logging.disable": "logging",
    "matplotlib.use": "plot settings", "matplotlib.pyplot.switch_backend": "plot settings", "matplotlib.style.use": "plot settings",
    "matplotlib.pyplot.style.use": "plot settings", "matplotlib.rc": "plot settings", "matplotlib.pyplot.rc": "plot settings",
    "matplotlib.rcdefaults": "plot settings", "matplotlib.pyplot.rcdefaults": "plot settings", "multiprocessing.set_start_method": "start method",
    "decimal.setcontext": "decimal context",
}
GETTERS = {
    "numpy.get_printoptions": "number print formatting", "numpy.geterr": "floating-point error handling", "numpy.geterrcall": "floating-point error handling",
    "numpy.getbufsize": "numpy buffer size", "numpy.random.get_state": "random seed", "random.getstate": "random seed",
    "os.getcwd": "working directory", "sys.getrecursionlimit": "recursion limit", "locale.getlocale": "locale", "locale.setlocale": "locale",
    "signal.getsignal": "signal handlers", "os.umask": "file mode mask", "os.environ.get": "environment", "os.environ[]": "environment",
    "os.getenv": "environment", "os.environ.copy": "environment", "decimal.getcontext": "decimal context",
    # these return the previous value
    "numpy.seterr": "floating-point error handling", "numpy.seterrcall": "floating-point error handling", "signal.signal": "signal handlers",
}
CONTEXTS = {
    "numpy.printoptions": "number print formatting", "numpy.errstate": "floating-point error handling", "warnings.catch_warnings": "warning filters",
    "matplotlib.pyplot.rc_context": "plot settings", "matplotlib.rc_context": "plot settings", "matplotlib.style.context": "plot settings",
    "matplotlib.pyplot.style.context": "plot settings", "contextlib.chdir": "working directory", "contextlib.redirect_stdout": "standard streams",
    "contextlib.redirect_stderr": "standard streams", "unittest.mock.patch.dict": "environment",
}
# prefix of a written external attribute / container -> setting
WRITTEN = [("os.environ", "environment"), ("sys.path", "import path"), ("sys.modules", "import path"), ("sys.stdout", "standard streams"), ("sys.stderr", "standard streams"),
           ("matplotlib.pyplot.rcParams", "plot settings"), ("matplotlib.rcParams", "plot settings"), ("numpy", "numpy"), ("warnings", "warning filters"),
           ("builtins", "builtins"), ("sys", "interpreter"), ("os", "os module"), ("random", "random seed")]
MUTMETHODS = {"update", "append", "insert", "pop", "clear", "setdefault", "remove", "extend", "popitem", "sort", "__setitem__"}

# operation, module variable -> documented purpose
EXEMPT = {("qespresso_interface.qe_prepare", "pp_files"): "documented: registers the pseudopotential files used by all later crystals",
          ("qespresso_interface.from_disk", "pp_files"): "documented: adds the pseudopotentials of the calculation to the dictionary"}


def canon(path):
    p = path.replace("numpy.core.arrayprint.", "numpy.").replace("numpy._core.arrayprint.", "numpy.")
    return p


class SettingsDomain(AliasDomain):
    def __init__(self):
        super().__init__()
        self.changes = {}          # where -> setting (all change sites seen)
        self.tables = {}           # oid -> (module, variable)
        self.table_writes = {}     # entry -> {(module, variable): (where, how, chain)}
        self.defaults = {}
        self.restores = set()

    # -- facet: token of a saved setting: (setting, status when saved)
    def join_x(self, a, b):
        return a if a == b else None

    def widen_x(self, x):
        return x

    def token(self, v):
        d = v.data
        return d.x if d is not None and isinstance(d.x, tuple) else None

    def status(self, st, name):
        return st.ts.get(("setting", name)) or EMPTY

    def join_ts(self, key, a, b):
        return (a or EMPTY) | (b or EMPTY)

    def change(self, eng, st, name, node, args, kwargs):
        toks = [t for t in (self.token(v) for v in list(args) + list(kwargs.values())) if t is not None and t[0] == name]
        if toks:
            st.ts[("setting", name)] = toks[0][1]
            self.restores.add(where(node))
            return
        if eng.entry is not None:
            self.changes[where(node)] = name
        st.ts[("setting", name)] = self.status(st, name) | {(where(node), ast.unparse(node)[:70], self.chain(eng))}

    def ext_call(self, eng, st, path, args, kwargs, node):
        p = canon(path)
        r = None
        if p in GETTERS:
            r = V(data=Data(EMPTY, "str" if p == "os.getcwd" else "any", (GETTERS[p], self.status(st, GETTERS[p]))))
        if p in SETTERS and (args or kwargs or p not in GETTERS):
            self.change(eng, st, SETTERS[p], node, args, kwargs)
        else:
            head, _, leaf = p.rpartition(".")
            if leaf in MUTMETHODS:
                for pre, name in WRITTEN:
                    if head == pre and pre not in ("numpy", "os", "sys", "random", "builtins", "warnings"):
                        self.change(eng, st, name, node, args, kwargs)
                        break
        if p in ("builtins.dict", "copy.copy", "copy.deepcopy") and args and self.token(args[0]) is not None and not kwargs:
            return args[0]
        if p in CONTEXTS:
            return V(data=Data(EMPTY, "obj", ("ctx", CONTEXTS[p])))
        return r

    def method(self, eng, st, recv, name, args, kwargs, node):
        t = self.token(recv)
        if t is not None and t[0] == "ctx" and name == "__enter__":
            st.ts[("entered", t[1])] = self.status(st, t[1])
            st.ts[("setting", t[1])] = self.status(st, t[1]) | {(where(node), ast.unparse(node)[:70], self.chain(eng))}
        if t is not None and t[0] == "ctx" and name == "__exit__":
            st.ts[("setting", t[1])] = st.ts.pop(("entered", t[1]), EMPTY) or EMPTY
            self.restores.add(where(node))
        if name == "copy" and self.token(recv) is not None:
            return V(data=Data(EMPTY, recv.data.ty, recv.data.x))
        return None

    def with_enter(self, eng, st, item, v, node):
        t = self.token(v)
        if t is not None and t[0] == "ctx":
            st.ts[("ctx", id(item))] = self.status(st, t[1])
        return None

    def with_exit(self, eng, st, item, v, node, tag):
        t = self.token(v)
        if t is not None and t[0] == "ctx":
            st.ts[("setting", t[1])] = st.ts.pop(("ctx", id(item)), EMPTY) or EMPTY
            self.restores.add(where(node))

    def may_raise(self, eng, st, stmt):
        # putting a setting back does not fail
        calls = [c for c in ast.walk(stmt) if isinstance(c, ast.Call)] if isinstance(stmt, ast.Expr) else []
        for c in calls:
            f = c.func
            if isinstance(f, ast.Attribute) or isinstance(f, ast.Name):
                v = eng.eval_quiet(f, st) if all(isinstance(x, (ast.Attribute, ast.Name, ast.Load)) for x in ast.walk(f)) else None
                if v is not None and any(isinstance(q, ExtV) and canon(q.path) in SETTERS for q in v.fns):
                    return False
        if isinstance(stmt, ast.Assign) and len(stmt.targets) == 1:
            t = stmt.targets[0]
            if isinstance(t, ast.Subscript) and ast.unparse(t.value).endswith(("environ", "rcParams")):
                return False
        return True

    def event(self, eng, st, kind, node, **info):
        super().event(eng, st, kind, node, **info)
        if kind == "extwrite":
            for pre, name in WRITTEN:
                if info["path"] == pre or info["path"].startswith(pre + "."):
                    vals = []
                    if isinstance(node, ast.Assign):
                        vals = [eng.eval_quiet(node.value, st)] if all(isinstance(x, (ast.Attribute, ast.Name, ast.Load, ast.Subscript, ast.Constant)) for x in ast.walk(node.value)) else []
                    self.change(eng, st, name, node, vals, {})
                    break
        if eng.entry is None:
            return
        if kind == "globalwrite":
            self.table(eng, (info["mod"], info["name"]), node, "rebound")
        elif kind == "mutobj":
            t = self.tables.get(info["oid"]) or self.defaults.get(info["oid"])
            if t is not None:
                self.table(eng, t, node, info["how"])
        elif kind == "mutate":
            for s in info["buf"]:
                if s[0] == "module":
                    self.table(eng, (s[1], s[2]), node, info["how"])
        elif kind == "mutdefault":
            self.defaults[info["oid"]] = (node._mod.name, f"default argument at {where(node)}")
        elif kind == "classattr":
            self.defaults[info["oid"]] = (info["cls"].mod.name, f"{info['cls'].name}.{info['attr']}")

    def table(self, eng, t, node, how):
        if t[1].split(".")[-1].startswith("_"):
            return
        self.table_writes.setdefault(eng.entry.label, {}).setdefault(t, (where(node), how, self.chain(eng)))


def tag_modules(drv, dom, rep):
    """names the storage of every module-level value"""
    st = drv.base
    seen = {}

    def tag(v, t):
        d = v.data
        if d is not None and d.ty not in ("num", "str"):
            d = Data(d.st | {("module",) + t}, d.ty, d.x)
        tups = tuple((n, tuple(tag(i, t) for i in q)) for n, q in v.tups)
        for r in v.refs:
            obj(r, t)
        return V(v.consts, d, tups, v.refs, v.fns, v.unbound)

    def obj(r, t):
        if r in seen:
            return
        seen[r] = t
        o = st.heap.get(r)
        if o is None:
            return
        f = {k: (tuple(tag(i, t) for i in q) if k == "#items" else (tag(q, t) if isinstance(q, V) else q)) for k, q in o.fields.items()}
        st.heap[r] = Obj(o.kind, o.cls, f, tag(o.elem, t), o.x)
    for m in sorted(drv.p.modules):
        # the module that creates a value names it, not the ones importing it
        made = {t.id for s in drv.p.modules[m].tree.body for n in ast.walk(s) if isinstance(n, (ast.Assign, ast.AnnAssign, ast.AugAssign))
                and n._func is None for t in (n.targets if isinstance(n, ast.Assign) else [n.target]) if isinstance(t, ast.Name)}
        fr = st.frames.get(("mod", m), {})
        for name in sorted(fr):
            if name in made and not name.startswith("__"):
                v = fr[name]
                if v.refs or v.tups or v.data is not None:
                    rep.count("module_tables")
                st.setvar(("mod", m), name, tag(v, (m, name)))
    for m in sorted(drv.p.modules):
        fr = st.frames.get(("mod", m), {})
        for name, v in list(fr.items()):
            src = next((x for x in sorted(drv.p.modules) if x != m and st.frames.get(("mod", x), {}).get(name) is not None
                        and any(s[:3] == ("module", x, name) for s in drv.eng.deep_st(st, st.frames[("mod", x)][name]))), None)
            imported = any(isinstance(n, ast.ImportFrom) and any((a.asname or a.name) in (name, "*") for a in n.names) for n in drv.p.modules[m].tree.body)
            if imported and src is not None and v.data is not None and not v.data.st:
                st.setvar(("mod", m), name, st.frames[("mod", src)][name])
    dom.tables = seen


def check(project, tier):
    rep = Report()
    dom = SettingsDomain()
    drv = Driver(project, dom)
    tag_modules(drv, dom, rep)
    todo = [e for e in entries(project) if e.label in API]
    for e in todo:
        st, r, ex = drv.run(e, exc=True)
        rep.count("operations")
        rep.count("exceptional_exits", 1 if ex is not None else 0)
        for s, kind in ((st, "returns"), (ex, "raises")):
            if s is None:
                continue
            for key, val in sorted(s.ts.items(), key=str):
                if key[0] != "setting":
                    continue
                for w, src, chain in sorted(val or ()):
                    rep.oblige(False, f"setting|{e.label}|{key[1]}|{kind}",
                               f"{e.label} {kind} with the {key[1]} changed: `{src}` at {w} is not undone on every such path (call path {chain})")
        rep.oblige(True)
        for (m, n), (w, how, chain) in sorted(dom.table_writes.get(e.label, {}).items()):
            if (e.label, n) in EXEMPT:
                continue
            rep.oblige(False, f"module-state|{e.label}|{m}.{n}", f"{e.label} changes the module-level {m}.{n}: {how} at {w} (call path {chain})")
    rep.coverage["setting_changes"] = len(dom.changes) + len(dom.restores)
    rep.coverage["functions"] = len(drv.eng.stats["functions"])
    rep.coverage["statements_interpreted"] = drv.eng.stats["stmts"]
    rep.samples = [f"{n} changed at {w}" for w, n in sorted(dom.changes.items())] + [f"restored at {w}" for w in sorted(dom.restores)]
    rep.samples += [f"table {m}.{n}" for m, n in sorted(set(dom.tables.values()))]
    return rep
