"""Enumerates the public operations and builds symbolic arguments and receivers for them."""
import ast

from .engine import Engine, FrameCtx
from .project import AnalysisBroken, lookup_method, where
from .values import BOOL, BOT, EMPTY, NONE, Data, ExtM, BoundV, FnV, Obj, V, data, fn, ref

# parameters that are plain numbers / strings although the signature carries no annotation
SCALARS = {
    "band_count", "band_offset", "add_bands", "param_count", "sigma", "min_energy", "max_energy", "batch_div", "iterations",
    "regularization", "learning_rate", "convergence_threshold", "loss_threshold", "max_cg_iterations", "max_accel_global",
    "N", "rtol", "spin_factor", "max_a", "beta", "tol", "max_i", "electrons", "energy", "value", "dim", "n", "err",
    "count", "p", "max_steps", "maxsteps", "h", "add_bands_below", "add_bands_above", "restarts", "start_neighbors_count",
    "start_axis", "epsilon", "s_index", "index", "i", "k0", "nw", "size", "a", "b", "c", "iteration", "grid_size", "max_error",
    "z_", "extrapolation_point", "dist", "mu", "T_min", "T_max", "fermi_energy", "limit_count", "fac", "wannier_count",
    "num_iterations", "cutoff", "max_count", "max_length", "min_norm", "tolerance", "sqrt3",
}
# ... in these functions the names above are arrays after all
ARRAYS_IN = {("linalg", "_direct_sum"): {"a", "b"}, ("symmetry", "from_lattice"): {"b"}, ("linalg", "conjugate_gradient_solve"): {"b"},
             ("smearing", "cube_tetra_cut_volume"): {"a"}, ("smearing", "cube_tetra_cut_dvolume"): {"a"}}
STRINGS = {"name", "filename", "prefix", "program", "out_file", "out_path", "msg", "format", "extrapolation", "smearing", "method",
           "unit", "k_points", "end", "label", "projections", "calculation"}
CALLABLES = {"f_i", "df_i", "ddf_i", "f", "func", "func1", "func2", "foo", "g", "model", "equiv_relation", "invariant_func", "hamilton", "show", "ax", "y"}
CLASS_HINTS = {"sym": "Symmetry", "symmetry": "Symmetry", "dos_model": "DensityOfStates", "urepr": "UnitaryRepresentation",
               "u_repr": "UnitaryRepresentation", "unitary_repr": "UnitaryRepresentation", "hsym": "HamiltonianSymmetry",
               "kpath": "KPath"}
ENUMS = {"extrapolation": ("flat", "none"), "smearing": ("cubes", "spheres", "tetras"), "k_points": ()}


# attributes users assign from outside (documented on the class)
EXTERNAL_FIELDS = {"BandStructureModel": {"symmetrizer": data(EMPTY, "any")}}


class Entry:
    def __init__(self, mod, cls, name, node, kind):
        self.mod, self.cls, self.name, self.node, self.kind = mod, cls, name, node, kind
        self.label = f"{mod.name}.{cls.name + '.' if cls else ''}{name}"

    @property
    def public(self):
        return not self.name.startswith("_") or (self.name.startswith("__") and self.name.endswith("__"))

    def __repr__(self):
        return self.label


def entries(project, private=False):
    out = []
    for mname in sorted(project.modules):
        m = project.modules[mname]
        for fname, f in m.funcs.items():
            e = Entry(m, None, fname, f, "func")
            if e.public or private:
                out.append(e)
        for c in m.classes.values():
            for fname, f in c.funcs.items():
                d = c.decor.get(fname, set())
                kind = "static" if "staticmethod" in d else ("class" if "classmethod" in d else "method")
                if kind == "method" and (not f.args.args or f.args.args[0].arg not in ("self", "cls")):
                    kind = "static"     # undecorated factory called on the class
                e = Entry(m, c, fname, f, kind)
                if e.public or private:
                    out.append(e)
    return out


class Driver:
    def __init__(self, project, domain, engine=Engine):
        self.p = project
        self.eng = engine(project, domain)
        self.eng.load_modules()
        self.base = self.eng.base_state
        self.shapes = {}
        self.frames = {}       # class name -> captured frames of closures held by its instances
        self.building = []

    # ------------------------------------------------------------------ running
    def fresh(self):
        return self.base.copy()

    def run(self, entry, st=None, args=None, kwargs=None, exc=False, prep=None):
        """runs one entry; returns (state, result, exception state)"""
        eng = self.eng
        eng.fids = [("mod", entry.mod.name)]
        eng.ctx = [FrameCtx(None)]
        eng.callstack = []
        eng.exc_acc = [[None]] if exc else []
        eng.entry = entry
        st = st if st is not None else self.fresh()
        if args is None:
            args, kwargs = self.symargs(st, entry)
        if prep is not None:
            args, kwargs = prep(st, args, kwargs or {})
        f = FnV(entry.node, ("mod", entry.mod.name))
        r = eng.call_fn(st, f, args, kwargs or {}, entry.node)
        if getattr(eng.d, "call_results", False):
            # a returned function is called by the user with arrays of their own
            for g in sorted((g for g in r.fns if isinstance(g, FnV) and isinstance(g.node, (ast.FunctionDef, ast.Lambda)) and not (g.node.args.vararg or g.node.args.kwarg)), key=lambda g: where(g.node)):
                a = g.node.args
                pos = [p.arg for p in a.posonlyargs + a.args]
                eng.call_fn(st, g, [data(frozenset([("arg", p)]), "arr") for p in pos[:len(pos) - len(a.defaults)]], {}, g.node)
        ex = eng.exc_acc[0][0] if exc else None
        eng.exc_acc = []
        return st, r, ex

    # ------------------------------------------------------------------ symbolic arguments
    def symargs(self, st, entry, prefix=("arg",), init_self=None):
        a = entry.node.args
        pos = a.posonlyargs + a.args
        args = []
        defaults = [None] * (len(pos) - len(a.defaults)) + list(a.defaults)
        for i, (p, d) in enumerate(zip(pos, defaults)):
            if i == 0 and entry.kind in ("method", "class"):
                if entry.kind == "class":
                    from .values import ClsV
                    args.append(fn(ClsV(entry.cls)))
                elif init_self is not None:
                    args.append(init_self)
                elif entry.name == "__init__":
                    oid = ("inst", "init", entry.cls.name, None)
                    st.heap[oid] = Obj("inst", entry.cls, {}, BOT)
                    args.append(ref(oid))
                else:
                    args.append(self.instance(st, entry.cls, ("self",)))
                continue
            args.append(self.symarg(st, entry, p, d, prefix + (p.arg,)))
        kwargs = {}
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            kwargs[p.arg] = self.symarg(st, entry, p, d, prefix + (p.arg,))
        if a.vararg is not None:
            s = frozenset([prefix + (a.vararg.arg,)])
            args += [data(s, "arr"), data(s, "arr")] if entry.mod.name == "linalg" else []
        return args, kwargs

    def symarg(self, st, entry, p, default, sym):
        name = p.arg
        ann = ast.unparse(p.annotation).strip("'\"") if p.annotation is not None else ""
        out = []
        s = frozenset([sym])
        dv = None
        if isinstance(default, ast.Constant):
            dv = default.value
        parts = [x.strip() for x in ann.replace("Optional[", "").split("|")] if ann else []
        none = (isinstance(default, ast.Constant) and dv is None) or "None" in parts
        parts = [x for x in parts if x != "None"]
        arr = name in ARRAYS_IN.get((entry.mod.name, entry.name), ())
        handled = False
        for x in parts:
            leaf = x.split("[")[0].split(".")[-1]
            c = self.p.find_class(leaf)
            handled = True
            if c is not None:
                out.append(self.instance(st, c, sym))
            elif leaf in ("float", "int", "complex"):
                out.append(data(EMPTY, "num"))
            elif leaf == "bool":
                out.append(BOOL)
            elif leaf == "str":
                out.append(self.string(name))
            elif leaf == "Callable":
                out.append(data(EMPTY, "obj"))
            elif leaf in ("dict",):
                out.append(data(s, "obj"))
            elif leaf in ("ndarray",):
                out.append(data(s, "arr"))
            elif leaf in ("list", "tuple", "Sequence", "Iterable"):
                out.append(data(s, "obj"))
            else:
                out.append(data(s, "obj"))
        if not handled:
            if isinstance(dv, bool):
                out.append(BOOL)
            elif isinstance(dv, (int, float)) and not arr:
                out.append(data(EMPTY, "num"))
            elif isinstance(dv, str):
                out.append(self.string(name))
            elif name in CLASS_HINTS:
                out.append(self.instance(st, self.need_class(CLASS_HINTS[name]), sym))
            elif name in ("other", "rhs") and entry.cls is not None:
                out.append(self.instance(st, entry.cls, sym))
                if entry.name in ("__mul__", "__add__", "__rmul__"):
                    out.append(data(EMPTY, "num"))
            elif name == "log":
                out.append(BOOL)
                out.append(self.instance(st, self.need_class("OptimisationLogger"), sym))
            elif name == "S" and entry.cls is not None and entry.cls.name == "AsymTightBindingModel":
                out.append(self.instance(st, self.need_class("HermitianFourierSeries"), sym))
            elif name in STRINGS:
                out.append(self.string(name))
            elif name in CALLABLES:
                out.append(data(EMPTY, "obj"))
            elif name in SCALARS and not arr:
                out.append(data(EMPTY, "num"))
            else:
                out.append(data(s, "obj"))
        if isinstance(default, ast.Name):
            fr = st.frames.get(("mod", entry.mod.name), {})
            if default.id in fr:
                out.append(fr[default.id])
        if none:
            out.append(NONE)
        return self.eng.j.joinall(out)

    def string(self, name):
        return data(EMPTY, "str", self.eng.d.string_facet(name) if hasattr(self.eng.d, "string_facet") else None)

    def need_class(self, name):
        c = self.p.find_class(name)
        if c is None:
            raise AnalysisBroken(f"anchor class {name} is gone")
        return c

    # ------------------------------------------------------------------ symbolic receivers
    def instance(self, st, cls, sym):
        """adds a symbolic instance of cls to the heap; buffers are named sym + path"""
        tpl = self.shape(cls)
        if tpl is None:
            return data(frozenset([sym]), "any")
        root, heap = tpl
        ren = {}
        for oid in heap:
            ren[oid] = ("sym", sym, oid)
        for oid, (o, path) in heap.items():
            st.heap[ren[oid]] = self._rename_obj(o, ren, sym, path)
        for fid, fr in self.frames.get(cls.name, {}).items():
            new = {k: self._rename(v, ren, sym + ("closure",)) for k, v in fr.items()}
            old = st.frames.get(fid)
            if old is not None:
                for k, v in old.items():
                    new[k] = self.eng.join(new[k], v) if k in new else v
            st.frames[fid] = new
            st.own.add(fid)
            self.eng.captured.add(fid)
        return ref(ren[root])

    def _rename_obj(self, o, ren, sym, path):
        f = {}
        for k, v in o.fields.items():
            if k == "#items":
                f[k] = tuple(self._rename(i, ren, sym + path) for i in v)
            elif isinstance(v, V):
                f[k] = self._rename(v, ren, sym + path + ((k,) if isinstance(k, str) else ()))
            else:
                f[k] = v
        return Obj(o.kind, o.cls, f, self._rename(o.elem, ren, sym + path), o.x)

    def _rename(self, v, ren, s):
        d = None
        if v.data is not None:
            mod = frozenset(x for x in v.data.st if x[:1] == ("module",))   # storage of the module stays what it is
            d = Data(frozenset([s]) | mod if v.data.ty not in ("num", "str") else EMPTY, v.data.ty, self.eng.d.rename_x(v.data.x, s) if hasattr(self.eng.d, "rename_x") else v.data.x)
        tups = tuple((n, tuple(self._rename(i, ren, s) for i in t)) for n, t in v.tups)
        fns = frozenset(self._rename_fn(f, ren, s) for f in v.fns)
        return V(v.consts, d, tups, frozenset(ren.get(r, r) for r in v.refs), fns, v.unbound)

    def _rename_fn(self, f, ren, s):
        if isinstance(f, BoundV):
            return BoundV(self._rename(f.recv, ren, s), f.fn, f.cls)
        if isinstance(f, ExtM):
            return ExtM(self._rename(f.recv, ren, s), f.name)
        return f

    def shape(self, cls):
        """template heap of an instance in any state its own public operations can leave it in"""
        if cls.name in self.shapes:
            return self.shapes[cls.name]
        if cls in self.building:
            return None
        self.building.append(cls)
        eng, d = self.eng, self.eng.d
        outer = "event" in d.__dict__
        d.event = lambda *a, **k: None
        saved = (eng.fids, eng.ctx, eng.callstack, eng.exc_acc, eng.entry)
        try:
            st = self.fresh()
            c, m = lookup_method(cls, "__init__")
            if m is None:
                oid = ("inst", "init", cls.name, None)
                st.heap[oid] = Obj("inst", cls, {}, BOT)
            else:
                e = Entry(c.mod, cls, "__init__", m, "method")
                st, r, _ = self.run(e, st)
                oid = ("inst", "init", cls.name, None)
            self.shapes[cls.name] = self._template(st, oid, cls)
            # factories
            for name, f in cls.funcs.items():
                if f is m or (f.args.args and f.args.args[0].arg in ("self", "cls")):
                    continue
                if not any(isinstance(n, (ast.Assign,)) and any(isinstance(t, ast.Attribute) for t in n.targets) for n in ast.walk(f)):
                    continue
                s, r, _ = self.run(Entry(cls.mod, cls, name, f, "static"))
                for ro in r.refs:
                    o = s.heap.get(ro)
                    if o is not None and o.kind == "inst" and o.cls is cls:
                        self.shapes[cls.name] = self._merge(self.shapes[cls.name], self._template(s, ro, cls))
            for name, hint in EXTERNAL_FIELDS.get(cls.name, {}).items():
                self.shapes[cls.name] = self._merge(self.shapes[cls.name], (("root",), {("root",): (Obj("inst", cls, dict(self.shapes[cls.name][1][("root",)][0].fields, **{name: hint})), ())}))
            # operations that change the receiver
            muts = [x for x in self._mutators(cls)]
            for rnd in range(2 if muts else 0):
                before = self.shapes[cls.name]
                acc = None
                for name in muts:
                    k, f = lookup_method(cls, name)
                    if "staticmethod" in k.decor.get(name, ()):
                        continue
                    e = Entry(k.mod, cls, name, f, "method")
                    s = self.fresh()
                    root = self.instance(s, cls, ("shape",))
                    self.run(e, s, *self._args_with_self(s, e, root))
                    (ro,) = root.refs
                    acc = self._merge(acc, self._template(s, ro, cls))
                self.shapes[cls.name] = self._merge(before, acc)
            self.shapes[cls.name] = self._loosen(self.shapes[cls.name])
        finally:
            if not outer:
                del d.__dict__["event"]
            eng.fids, eng.ctx, eng.callstack, eng.exc_acc, eng.entry = saved
            self.building.pop()
        return self.shapes[cls.name]

    def _args_with_self(self, st, e, root):
        return self.symargs(st, e, init_self=root)

    def _mutators(self, cls):
        out = []
        for name, f in cls.funcs.items():
            if name == "__init__" or name.startswith("plot"):
                continue
            if not f.args.args or f.args.args[0].arg != "self":
                continue
            for n in ast.walk(f):
                t = None
                if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
                    ts = n.targets if isinstance(n, ast.Assign) else [n.target]
                    for t in ts:
                        if any(isinstance(q, ast.Attribute) and isinstance(q.value, ast.Name) and q.value.id == "self" for q in ast.walk(t)):
                            out.append(name)
                            break
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("append", "extend", "update", "insert") and isinstance(n.func.value, ast.Attribute) and isinstance(n.func.value.value, ast.Name) and n.func.value.value.id == "self":
                    out.append(name)
                if out and out[-1] == name:
                    break
        # the expensive fit routines change no field kinds beyond what the cheap ones do
        return [n for n in dict.fromkeys(out) if not n.startswith("optimize")]

    def _template(self, st, root, cls):
        """objects reachable from root, keyed by a canonical path"""
        heap = {}
        self._cap = {}
        self._cst = st
        canon = {root: ("root",)}
        order = [root]
        paths = {root: ()}
        i = 0
        while i < len(order):
            oid = order[i]
            i += 1
            o = st.heap.get(oid)
            if o is None:
                continue
            for k, v in sorted(o.fields.items(), key=lambda kv: str(kv[0])):
                vs = v if k == "#items" else ([v] if isinstance(v, V) else [])
                for q in vs:
                    self._reach(q, canon, order, paths, oid, k if isinstance(k, str) and k != "#items" else "[]")
            self._reach(o.elem, canon, order, paths, oid, "[]")
        for oid in order:
            o = st.heap.get(oid)
            if o is None:
                o = Obj("list", None, {}, data())
            heap[canon[oid]] = (self._canon_obj(o, canon), paths[oid])
        fr = self.frames.setdefault(cls.name, {})
        for fid, vars_ in self._cap.items():
            new = {k: self._rename(v, canon, ()) for k, v in vars_.items()}
            for k, v in fr.get(fid, {}).items():
                new[k] = self.eng.join(new[k], v) if k in new else v
            fr[fid] = new
        return ("root",), heap

    def _reach(self, v, canon, order, paths, parent, label):
        for r in sorted(v.refs, key=repr):
            if r not in canon and r not in self.eng.d.__dict__.get("tables", ()):
                n = 0
                while (canon[parent] + (label, n)) in canon.values():
                    n += 1
                canon[r] = canon[parent] + (label, n)
                paths[r] = paths[parent] + ((label,) if label != "[]" else ())
                order.append(r)
        for _, t in v.tups:
            for i in t:
                self._reach(i, canon, order, paths, parent, label)
        for f in v.fns:
            if isinstance(f, (BoundV, ExtM)):
                self._reach(f.recv, canon, order, paths, parent, label)
            elif isinstance(f, FnV):
                fid = f.env
                while fid is not None and fid[0] != "mod":
                    if fid not in self._cap:
                        fr = self._cst.frames.get(fid, {})
                        self._cap[fid] = fr
                        for name, q in sorted(fr.items()):
                            self._reach(q, canon, order, paths, parent, label + "/" + name)
                    fid = self.eng.frame_meta[fid][1]

    def _canon_obj(self, o, canon):
        f = {}
        for k, v in o.fields.items():
            if k == "#items":
                f[k] = tuple(self._rename(i, canon, ()) for i in v)
            elif isinstance(v, V):
                f[k] = self._rename(v, canon, ())
            else:
                f[k] = v
        return Obj(o.kind, o.cls, f, self._rename(o.elem, canon, ()), o.x)

    def _merge(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        J = self.eng.join
        heap = dict(a[1])
        for oid, (o, path) in b[1].items():
            if oid not in heap:
                heap[oid] = (o, path)
                continue
            p, pp = heap[oid]
            f = {}
            for k in p.fields.keys() | o.fields.keys():
                if k == "#items":
                    ia, ib = p.fields.get(k), o.fields.get(k)
                    if ia is not None and ib is not None and len(ia) == len(ib):
                        f[k] = tuple(J(x, y) for x, y in zip(ia, ib))
                    continue
                va, vb = p.fields.get(k), o.fields.get(k)
                if isinstance(va, V) or isinstance(vb, V):
                    from .values import UNBOUND
                    f[k] = J(va if va is not None else UNBOUND, vb if vb is not None else UNBOUND)
                else:
                    f[k] = va
            heap[oid] = (Obj(p.kind, p.cls or o.cls, f, J(p.elem, o.elem), p.x), pp)
        return a[0], heap

    def _loosen(self, tpl):
        return tpl
