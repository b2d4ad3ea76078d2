"""Abstract interpreter over the syntax tree of the package (context sensitive by inlining)."""
import ast
import itertools
import math
import sys

from .project import AnalysisBroken, lookup_method, scope_names, where
from .values import (BOOL, BOT, EMPTY, NONE, UNBOUND, BoundV, ClsV, Data, ExtM, ExtV, FnV, Joiner, ModV, Obj, State,
                     V, const, data, fn, ref, tup)

sys.setrecursionlimit(20000)

# numpy / scipy functions whose result may share memory with an argument (index of the argument)
VIEW_FUNCS = {
    "asarray": 0, "asanyarray": 0, "ascontiguousarray": 0, "asfortranarray": 0, "asmatrix": 0, "reshape": 0,
    "ravel": 0, "transpose": 0, "swapaxes": 0, "moveaxis": 0, "rollaxis": 0, "squeeze": 0, "expand_dims": 0,
    "atleast_1d": 0, "atleast_2d": 0, "atleast_3d": 0, "broadcast_to": 0, "real": 0, "imag": 0, "diagonal": 0,
    "diag": 0, "flip": 0, "fliplr": 0, "flipud": 0, "rot90": 0, "require": 0, "permute_dims": 0, "matrix_transpose": 0,
    "split": 0, "array_split": 0, "hsplit": 0, "vsplit": 0, "dsplit": 0, "broadcast_arrays": 0, "real_if_close": 0,
    "asarray_chkfinite": 0, "frombuffer": 0, "memmap": 0, "nditer": 0,
}
VIEW_METHODS = {"reshape", "ravel", "transpose", "swapaxes", "squeeze", "view", "diagonal", "conj", "conjugate",
                "__getitem__", "get", "items", "values", "keys", "pop", "setdefault", "popitem", "mT"}
VIEW_ATTRS = {"T", "real", "imag", "flat", "mT", "base", "H", "data"}
MUT_METHODS = {"sort", "fill", "resize", "put", "itemset", "partition", "setfield", "append", "extend", "insert", "pop",
               "remove", "clear", "update", "setdefault", "add", "discard", "popitem", "reverse", "setflags",
               "intersection_update", "difference_update", "symmetric_difference_update", "__setitem__", "__iadd__",
               "__imul__", "__isub__", "appendleft", "popleft"}
NUM_ATTRS = {"size", "ndim", "nbytes", "itemsize"}
# scipy and numpy may work in the storage of these arguments: keyword -> position
OVERWRITE = {"overwrite_a": 0, "overwrite_b": 1, "overwrite_x": 0, "overwrite_input": 0, "overwrite_ab": 0,
             "overwrite_v": 0, "overwrite_c": 0, "overwrite_data": 0}
MUT_FUNCS = {"copyto": 0, "put": 0, "place": 0, "putmask": 0, "fill_diagonal": 0, "put_along_axis": 0, "shuffle": 0}
ARR_FUNCS = {"array", "zeros", "ones", "empty", "full", "arange", "linspace", "eye", "identity", "zeros_like",
             "ones_like", "empty_like", "full_like", "concatenate", "stack", "vstack", "hstack", "block", "meshgrid",
             "einsum_arr", "argsort", "unique", "nonzero", "flatnonzero", "logspace", "geomspace", "tile", "repeat",
             "argwhere", "where_arr", "diag", "outer", "kron", "take_along_axis", "triu", "tril", "fromiter", "roll"}
NUM_FUNCS = {"prod_num"}
_NUM = frozenset({"Number", "Complex"})
_SEQ = frozenset({"Sequence", "Iterable", "Collection", "Sized", "Container", "Reversible"})
ABCS = {"int": _NUM | {"Real", "Rational", "Integral"}, "bool": _NUM | {"Real", "Rational", "Integral"}, "float": _NUM | {"Real"}, "complex": _NUM,
        "str": _SEQ, "tuple": _SEQ, "list": _SEQ | {"MutableSequence"}, "dict": frozenset({"Mapping", "MutableMapping", "Iterable", "Collection", "Sized", "Container"}),
        "set": frozenset({"Set", "MutableSet", "Iterable", "Collection", "Sized", "Container"})}
NUMPY_SCALARS = frozenset({"integer", "signedinteger", "floating", "number", "generic", "inexact", "complexfloating", "int64", "int32", "float64", "complex128"})
EXC_NAMES = {n for n in dir(__builtins__ if not isinstance(__builtins__, dict) else object)}


class Domain:
    """default domain: only aliasing"""
    name = "alias"
    track_exc = False
    unroll_max = 3
    max_loop = 8
    split_alloc = False    # True: objects made in different turns of an unrolled loop are kept apart
    seq_max = 8            # longest range whose items are kept apart
    sure_raises = False    # only exceptions that are certain are followed
    concrete = 0           # > 0: loops and comprehensions whose conditions are all decided are run turn by turn, up to this many turns
    loops_run = False      # True: a loop body is assumed to run at least once

    def num_const(self, path):
        """value of a library constant (None: the Python number)"""
        return None

    def key_const(self, eng, st, v):
        """the number a value of the domain is when used as a dict key, or None"""
        return None

    def key_value(self, k):
        return const(k)

    def join_x(self, a, b):
        return None

    def widen_x(self, x):
        return None

    def const_x_join(self, consts):
        return None

    def collapse_x(self, v):
        return v.data.x if v.data is not None and not v.consts and not v.tups else None

    def join_ts(self, key, a, b):
        if a is None:
            return b
        if b is None:
            return a
        return a | b

    def binop(self, eng, st, op, l, r, node):
        return None

    def unop(self, eng, st, op, v, node):
        return None

    def aug(self, eng, st, old, rhs, op, node):
        """in-place operator on a value of the domain; None: generic treatment"""
        return None

    def compare(self, eng, st, node, left, rights):
        return None

    def ext_call(self, eng, st, path, args, kwargs, node):
        return None

    def method(self, eng, st, recv, name, args, kwargs, node):
        return None

    def subscript(self, eng, st, base, idx, node):
        return None

    def attr(self, eng, st, base, name, node):
        return None

    def on_call(self, eng, st, fnv, args, kwargs, node):
        """may return a V to replace the inlined call"""
        return None

    def on_return(self, eng, st, fnv, result, node, bound=None):
        return result

    def event(self, eng, st, kind, node, **info):
        pass

    def with_enter(self, eng, st, item, v, node):
        return None

    def with_exit(self, eng, st, item, v, node, tag):
        pass

    def store_name(self, eng, st, name, v, node):
        return v

    def may_raise(self, eng, st, stmt):
        """False: no exception is assumed to start at this statement"""
        return True

    def store_sub(self, eng, st, base, idx, val, node, aug):
        """new facet for the container after base[idx] (op)= val"""
        return None

    def fstring(self, eng, st, parts, node):
        return None

    def assign_attr(self, eng, st, obj, attr, v, node):
        return v

    def refine(self, eng, st, test, val):
        """called for every atomic condition on the branch where it is val"""

    def fold(self, eng, st, op, l, r, node):
        """replaces python arithmetic on constants"""
        return None

    def items(self, eng, st, v):
        """positional items of array data whose length is known to the domain"""
        return None


STR_FUNCS = frozenset("join split rsplit splitlines format strip lstrip rstrip lower upper title capitalize index find rfind rindex count startswith endswith replace partition rpartition removeprefix removesuffix isalnum isalpha isdigit isnumeric islower isupper isspace zfill center ljust rjust".split())


class FrameCtx:
    __slots__ = ("ret_v", "ret_s", "brk", "cont", "node", "yields", "gen")

    def __init__(self, node):
        self.node = node
        self.ret_v, self.ret_s = BOT, None
        self.brk, self.cont = None, None
        self.yields = self.gen = None


RESULT_FIELDS = {"Q": 0, "R": 1, "sign": 0, "logabsdet": 1, "eigenvalues": 0, "eigenvectors": 1, "U": 0, "S": 1, "Vh": 2}     # named results of numpy.linalg


class Engine:
    def __init__(self, project, domain=None):
        self.p = project
        self.d = domain or Domain()
        self.j = Joiner(self.d)
        self.join = self.j.join
        self.frame_meta = {}       # fid -> (fnode|None, parent fid, mod)
        self.captured = set()
        self.callstack = []        # (fnode, call node)
        self.ctx = []              # FrameCtx stack
        self.fids = []             # active fids
        self.exc_acc = []          # exception accumulators
        self.noret = False         # the function called last if it never returns normally
        self.mod_state = None
        self.entry = None
        self.stats = {"stmts": 0, "calls": 0, "functions": set(), "extcalls": 0}
        self.max_depth = 40
        self.itertag = []
        self._nid = 0
        self._number()
        self.base_state = None

    # ---------------------------------------------------------------- setup
    def _number(self):
        for mname in sorted(self.p.modules):
            for n in ast.walk(self.p.modules[mname].tree):
                self._nid += 1
                n._nid = self._nid

    def load_modules(self):
        """abstractly executes every module body once (imports first)"""
        st = State()
        self.loaded = {}
        self.loading = []
        for m in sorted(self.p.modules):
            self._load(st, m)
        self.base_state = st
        return st

    def _load(self, st, mname):
        if mname in self.loaded:
            return
        mod = self.p.modules[mname]
        fid = ("mod", mname)
        self.loaded[mname] = fid
        self.frame_meta[fid] = (None, None, mod)
        self.captured.add(fid)
        st.setvar(fid, "__name__", const("pkg." + mname))
        self.fids.append(fid)
        self.ctx.append(FrameCtx(None))
        r = self.exec_block(mod.tree.body, st)
        self.ctx.pop()
        self.fids.pop()
        if r is None:
            return
        st.frames, st.own, st.heap, st.ts = r.frames, r.own, r.heap, r.ts

    # ---------------------------------------------------------------- states
    def join_states(self, a, b):
        if a is None:
            return b
        if b is None or a is b:
            return a
        if a.dead != b.dead:
            self.dies(a if a.dead else b)
            return b if a.dead else a
        s = State()
        s.dead = a.dead
        J = self.join
        guards = {}
        dist_ab = frozenset(f for f in a.facts if (f[0], f[1], f[2], not f[3]) in b.facts)
        dist_ba = frozenset(f for f in b.facts if (f[0], f[1], f[2], not f[3]) in a.facts)
        for fid in a.frames.keys() | b.frames.keys():
            fa, fb = a.frames.get(fid), b.frames.get(fid)
            if fa is fb:
                s.frames[fid] = fa
                for k in [k for k in a.guards if k[0] == fid]:
                    ga, gb = a.guards.get(k), b.guards.get(k)
                    if ga is not None and gb is not None:
                        guards[k] = ga | gb
                continue
            if fa is None or fb is None:
                s.frames[fid] = fa if fb is None else fb
                src = a if fb is None else b
                for k, g in src.guards.items():
                    if k[0] == fid:
                        guards[k] = g
                continue
            out = {}
            for name in fa.keys() | fb.keys():
                va, vb = fa.get(name, UNBOUND), fb.get(name, UNBOUND)
                if va is vb:
                    v = va
                else:
                    v = J(va, vb)
                out[name] = v
                if v.unbound:
                    k = (fid, name)
                    ua, ub = va.unbound, vb.unbound
                    ga, gb = a.guards.get(k), b.guards.get(k)
                    only_a, only_b = va is UNBOUND or va == UNBOUND, vb is UNBOUND or vb == UNBOUND
                    g = None
                    if only_a and only_b:
                        g = None
                    elif only_b:
                        if dist_ab and (not ua or ga is not None):
                            g = dist_ab | (ga or EMPTY)
                    elif only_a:
                        if dist_ba and (not ub or gb is not None):
                            g = dist_ba | (gb or EMPTY)
                    elif not ua:
                        g = gb
                    elif not ub:
                        g = ga
                    elif ga is not None and gb is not None:
                        g = ga | gb
                    elif ga is not None and dist_ab:
                        g = ga | dist_ab
                    elif gb is not None and dist_ba:
                        g = gb | dist_ba
                    if g is not None:
                        guards[k] = g
            s.frames[fid] = out
            s.own.add(fid)
        for oid in a.heap.keys() | b.heap.keys():
            oa, ob = a.heap.get(oid), b.heap.get(oid)
            if oa is ob or ob is None:
                s.heap[oid] = oa
            elif oa is None:
                s.heap[oid] = ob
            elif oa == ob:
                s.heap[oid] = oa
            else:
                f = {}
                for n in oa.fields.keys() | ob.fields.keys():
                    if n == "#items":
                        ia, ib = oa.fields.get(n), ob.fields.get(n)
                        if ia is not None and ib is not None and len(ia) == len(ib):
                            f[n] = tuple(J(p, q) for p, q in zip(ia, ib))
                        continue
                    f[n] = J(oa.fields.get(n, UNBOUND), ob.fields.get(n, UNBOUND))
                x = oa.x if oa.x == ob.x else self.d.join_x(oa.x, ob.x)
                s.heap[oid] = Obj(oa.kind if oa.kind == ob.kind else "list", oa.cls if oa.cls is ob.cls else None, f, J(oa.elem, ob.elem), x)
        for k in a.ts.keys() | b.ts.keys():
            va, vb = a.ts.get(k), b.ts.get(k)
            s.ts[k] = va if va == vb else self.d.join_ts(k, va, vb)
        s.facts = a.facts & b.facts
        s.guards = guards
        return s

    def note_exc(self, st):
        if self.exc_acc:
            acc = self.exc_acc[-1]
            acc[0] = st.copy() if acc[0] is None else self.join_states(acc[0], st)

    def clean_frames(self, st):
        live = set(self.fids)
        for fid in list(st.frames):
            if fid not in live and fid not in self.captured:
                del st.frames[fid]
                st.own.discard(fid)

    # ---------------------------------------------------------------- names
    def lookup(self, st, name, node):
        fid = self.fids[-1]
        first = True
        while fid is not None:
            fnode, parent, mod = self.frame_meta[fid]
            if fnode is None or name in self.frame_locals(fid):
                frame = st.frames.get(fid, {})
                if name in frame or fnode is not None:
                    v = frame.get(name, UNBOUND)
                    if v.unbound:
                        g = st.guards.get((fid, name))
                        if g is not None and g <= st.facts:
                            v = v.without_unbound()
                        else:
                            self.d.event(self, st, "unbound", node, name=name, must=v.without_unbound().empty(), fid=fid)
                            v = v.without_unbound()
                            if v.empty():
                                v = data()
                    return v, fid
            fid = parent
            first = False
        b = self.builtin(name)
        if b is not None:
            return b, None
        self.d.event(self, st, "unbound", node, name=name, must=True, fid=None)
        return data(), None

    def frame_locals(self, fid):
        fnode = self.frame_meta[fid][0]
        if isinstance(fnode, frozenset):
            return fnode
        return scope_names(fnode)[0]

    def resolve_fid(self, name):
        fid = self.fids[-1]
        while fid is not None:
            fnode, parent, mod = self.frame_meta[fid]
            if fnode is None:
                return fid
            if name in self.frame_locals(fid):
                return fid
            if not isinstance(fnode, frozenset) and name in scope_names(fnode)[1]:
                while self.frame_meta[fid][0] is not None:
                    fid = self.frame_meta[fid][1]
                return fid
            fid = parent
        return None

    def bind(self, st, name, v, node):
        fid = self.fids[-1]
        fnode = self.frame_meta[fid][0]
        if fnode is not None and name not in self.frame_locals(fid):
            fid2 = self.resolve_fid(name)
            if fid2 is not None:
                fid = fid2
            if self.frame_meta[fid][0] is None:
                self.d.event(self, st, "globalwrite", node, name=name, mod=self.frame_meta[fid][2].name)
        v = self.d.store_name(self, st, name, v, node)
        st.setvar(fid, name, v)
        self.kill(st, (fid, name))

    def kill(self, st, key):
        if st.facts:
            keep = frozenset(f for f in st.facts if key not in f[2])
            if len(keep) != len(st.facts):
                st.facts = keep
        if st.guards:
            dead = [k for k, g in st.guards.items() if k == key or any(key in f[2] for f in g)]
            for k in dead:
                del st.guards[k]

    def builtin(self, name):
        import builtins
        if name in ("True", "False", "None"):
            return const({"True": True, "False": False, "None": None}[name])
        if hasattr(builtins, name) or name in ("__file__",):
            return fn(ExtV("builtins." + name))
        return None

    # ---------------------------------------------------------------- statements
    def exec_block(self, stmts, st):
        for s in stmts:
            if st is None:
                return None
            st = self.exec_stmt(s, st)
        return st

    def exec_stmt(self, s, st):
        self.stats["stmts"] += 1
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is None:
            raise AnalysisBroken(f"statement kind {type(s).__name__} not modelled at {where(s)}")
        if st.dead:
            return self.dies(st)
        if self.exc_acc and not isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Pass, ast.Global, ast.Nonlocal)):
            if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                if not self.d.sure_raises and self._may_raise(s) and self.d.may_raise(self, st, s):
                    self.note_exc(st)
        r = m(s, st)
        return self.dies(r) if r is not None and r.dead else r

    def dies(self, st):
        """something evaluated in the statement raises on every path"""
        st = st.copy()
        st.dead = False
        self.note_exc(st)
        return None

    def _may_raise(self, s):
        r = getattr(s, "_mr", None)
        if r is None:
            r = False
            if isinstance(s, (ast.If, ast.While)):
                it = ast.walk(s.test)
            elif isinstance(s, (ast.For,)):
                it = ast.walk(s.iter)
            elif isinstance(s, ast.With):
                it = [n for i in s.items for n in ast.walk(i.context_expr)]
            elif isinstance(s, ast.Try):
                it = []
            else:
                it = ast.walk(s)
            for n in it:
                if isinstance(n, (ast.Call, ast.Subscript, ast.BinOp, ast.Raise, ast.Assert, ast.AugAssign, ast.Attribute, ast.Compare, ast.Import, ast.ImportFrom, ast.Yield, ast.YieldFrom)):
                    r = True
                    break
            s._mr = r
        return r

    def x_Pass(self, s, st):
        return st

    def x_Global(self, s, st):
        return st

    x_Nonlocal = x_Global

    def x_Expr(self, s, st):
        self.eval(s.value, st)
        return st

    def x_Import(self, s, st):
        for a in s.names:
            if a.asname:
                self.bind(st, a.asname, fn(ExtV(a.name)), s)
            else:
                self.bind(st, a.name.split(".")[0], fn(ExtV(a.name.split(".")[0])), s)
        return st

    def x_ImportFrom(self, s, st):
        if s.level > 0 or (s.module or "").split(".")[0] == "tight_binding_redweasel":
            base = (s.module or "")
            if s.level == 0:
                base = ".".join(base.split(".")[1:])
            if base:
                if base not in self.p.modules:
                    for a in s.names:
                        self.bind(st, a.asname or a.name, data(), s)
                    return st
                self._load(st, base)
                src = st.frames.get(("mod", base), {})
                mod = self.p.modules[base]
                for a in s.names:
                    if a.name == "*":
                        for k, v in src.items():
                            if not k.startswith("_"):
                                self.bind(st, k, v, s)
                    else:
                        if a.name in src:
                            self.bind(st, a.asname or a.name, src[a.name], s)
                        else:
                            self.d.event(self, st, "noattr", s, cls=base, attr=a.name, must=True)
                            self.bind(st, a.asname or a.name, data(), s)
            else:
                for a in s.names:
                    if a.name in self.p.modules:
                        self._load(st, a.name)
                        self.bind(st, a.asname or a.name, fn(ModV(self.p.modules[a.name])), s)
                    elif a.name == "*":
                        pass
                    else:
                        self.bind(st, a.asname or a.name, data(), s)
            return st
        for a in s.names:
            if a.name == "*":
                continue
            self.bind(st, a.asname or a.name, fn(ExtV(s.module + "." + a.name)), s)
        return st

    def x_FunctionDef(self, s, st):
        fid = self.fids[-1]
        self.captured.add(fid)
        self.bind(st, s.name, fn(FnV(s, fid, self.def_values(s.args, st))), s)
        return st

    def x_ClassDef(self, s, st):
        mod = s._mod
        c = mod.classes.get(s.name)
        if c is not None:
            self.bind(st, s.name, fn(ClsV(c)), s)
        else:
            self.bind(st, s.name, data(), s)
        return st

    def x_Return(self, s, st):
        v = NONE if s.value is None else self.eval(s.value, st)
        if st.dead:
            return self.dies(st)
        self.d.event(self, st, "return", s, value=v)
        c = self.ctx[-1]
        c.ret_v = self.join(c.ret_v, v)
        c.ret_s = self.join_states(c.ret_s, st)
        return None

    def x_Raise(self, s, st):
        if s.exc is not None:
            self.eval(s.exc, st)
        self.d.event(self, st, "raise", s)
        self.note_exc(st)
        return None

    def x_Assert(self, s, st):
        t, f = self.branch(s.test, st)
        if f is not None:
            self.d.event(self, f, "assertfail", s)
            self.note_exc(f)
        if t is not None:
            self.d.event(self, t, "assertpass", s)
        return t

    def x_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.bind(st, t.id, UNBOUND, s)
            elif isinstance(t, ast.Subscript):
                b = self.eval(t.value, st)
                self.eval_index(t.slice, st)
                self.mutate(st, b, s, "del")
                for oid in b.refs:
                    o = st.heap.get(oid)
                    if self.d.concrete and o is not None and len(b.refs) == 1 and self.exact_del(st, oid, o, t):
                        continue
                    if o is not None and ("#items" in o.fields or "#exact" in o.fields):
                        f = dict(o.fields)
                        f.pop("#items", None)
                        f.pop("#exact", None)
                        st.heap[oid] = Obj(o.kind, o.cls, f, o.elem, o.x)
            elif isinstance(t, ast.Attribute):
                b = self.eval(t.value, st)
                for oid in b.refs:
                    self.d.event(self, st, "setattr", s, oid=oid, attr=t.attr)
        return st

    def exact_del(self, st, oid, o, t):
        """removes the item of an exact list or dict; False when not known which"""
        idx = self.eval_index(t.slice, st)
        f = dict(o.fields)
        if o.kind == "dict" and self.exact_keys(o) is not None:
            k = self.dict_key(st, idx)
            if k is None or f.pop(k, None) is None:
                return False
        elif o.kind == "list" and "#items" in f:
            its, ci = list(f["#items"]), self.const_slice(idx) if self.index_is_slice(idx) else self.const_index(idx)
            if ci is None or isinstance(ci, bool) or not isinstance(ci, (int, slice)):
                return False
            try:
                del its[ci]
            except IndexError:
                return False
            f["#items"] = tuple(its)
        else:
            return False
        st.heap[oid] = Obj(o.kind, o.cls, f, o.elem, o.x)
        return True

    def x_If(self, s, st):
        t, f = self.branch(s.test, st)
        rt = self.exec_block(s.body, t) if t is not None else None
        rf = self.exec_block(s.orelse, f) if f is not None else None
        return self.join_states(rt, rf)

    def x_While(self, s, st):
        c = self.ctx[-1]
        obrk, ocont = c.brk, c.cont
        c.brk = None
        cur = st
        out = None
        done = self.turns(s, st, None)
        if done is not None:
            out = done[0]
        for it in range(self.d.max_loop + 3 if done is None else 0):
            t, f = self.branch(s.test, cur.copy())
            out = f if it or not self.d.loops_run or t is None else None
            if t is None:
                break
            c.cont = None
            n = self.exec_block(s.body, t)
            n = self.join_states(n, c.cont)
            if n is None:
                break
            new = self.join_states(cur, n)
            if it >= self.d.max_loop:
                new = self.widen(cur, new)
            if new.same(cur):
                break
            cur = new
        c.cont = ocont
        brk, c.brk = c.brk, obrk
        if out is not None and s.orelse:
            out = self.exec_block(s.orelse, out)
        return self.join_states(out, brk)

    def turns(self, s, st, items):
        """runs a loop turn by turn; None unless every condition that ends or continues it is decided, else (state after it,)"""
        if not self.d.concrete:
            return None
        c = self.ctx[-1]
        saved = c.ret_v, c.ret_s, c.brk, c.cont, c.yields
        cur = st.copy()
        for k in range(self.d.concrete + 1):
            if items is None:
                tv = self.truth(cur, self.eval(s.test, cur))
                if tv is None:
                    break
                if tv is False:
                    return (cur,)
            elif k >= len(items):
                return (cur,)
            else:
                self.assign(s.target, items[k], cur, s)
            c.cont = None
            brk, ret = c.brk, c.ret_s
            self.itertag.append(k)
            n = self.exec_block(s.body, cur)
            self.itertag.pop()
            cur = self.join_states(n, c.cont)
            if cur is None:
                return (None,)
            if c.brk is not brk or c.ret_s is not ret:
                break
        c.ret_v, c.ret_s, c.brk, c.cont, c.yields = saved
        return None

    def widen(self, old, new):
        def wv(a, b):
            if a == b:
                return b
            return self.widen_v(b)
        for fid, fr in list(new.frames.items()):
            fo = old.frames.get(fid)
            if fo is fr or fo is None:
                continue
            for k, v in list(fr.items()):
                if fo.get(k) != v:
                    new.setvar(fid, k, wv(fo.get(k, UNBOUND), v))
        for oid, o in list(new.heap.items()):
            oo = old.heap.get(oid)
            if oo is o or oo is None or oo == o:
                continue
            f = {k: (v if k == "#items" else wv(oo.fields.get(k, UNBOUND), v)) for k, v in o.fields.items()}
            new.heap[oid] = Obj(o.kind, o.cls, f, wv(oo.elem, o.elem), self.d.widen_x(o.x))
        return new

    def widen_v(self, v):
        d = v.data
        if v.consts and not v.only_consts() or len(v.consts) > 4:
            pass
        if d is not None and d.x is not None:
            d = Data(d.st, d.ty, self.d.widen_x(d.x))
        if v.tups:
            e = self.j.collapse(v)
            return V(v.consts, Data(e.st, "any", None), (), v.refs, v.fns, v.unbound)
        nums = frozenset(c for c in v.consts if c[0] in ("int", "float"))
        if len(nums) > 1:
            d = self.j.jdata(d, Data(EMPTY, "num", self.d.const_x_join(nums)))
            return V(v.consts - nums, d, v.tups, v.refs, v.fns, v.unbound)
        return V(v.consts, d, v.tups, v.refs, v.fns, v.unbound)

    def x_For(self, s, st):
        itv = self.eval(s.iter, st)
        elem, items, nonempty = self.iterate(st, itv, s.iter)
        c = self.ctx[-1]
        obrk, ocont = c.brk, c.cont
        c.brk = None
        if items is not None and len(items) <= self.d.unroll_max:
            cur = st
            for k, e in enumerate(items):
                if cur is None:
                    break
                self.assign(s.target, e, cur, s)
                c.cont = None
                if self.d.split_alloc:
                    self.itertag.append(k)
                n = self.exec_block(s.body, cur)
                if self.d.split_alloc:
                    self.itertag.pop()
                cur = self.join_states(n, c.cont)
            out = cur
        elif items is not None and (done := self.turns(s, st, items)) is not None:
            out = done[0]
        else:
            cur = st
            first = None
            for it in range(self.d.max_loop + 3):
                w = cur.copy()
                self.note_exc(w)
                self.d.event(self, w, "loopiter", s, itervalue=itv)
                self.assign(s.target, elem, w, s)
                c.cont = None
                n = self.exec_block(s.body, w)
                n = self.join_states(n, c.cont)
                if n is None:
                    break
                first = n if first is None else self.join_states(first, n)
                new = self.join_states(cur, n)
                if it >= self.d.max_loop:
                    new = self.widen(cur, new)
                if new.same(cur):
                    break
                cur = new
            out = (first if (nonempty or (self.d.loops_run and first is not None)) else cur)
        c.cont = ocont
        brk, c.brk = c.brk, obrk
        if out is not None and s.orelse:
            out = self.exec_block(s.orelse, out)
        return self.join_states(out, brk)

    def x_Break(self, s, st):
        c = self.ctx[-1]
        c.brk = self.join_states(c.brk, st)
        return None

    def x_Continue(self, s, st):
        c = self.ctx[-1]
        c.cont = self.join_states(c.cont, st)
        return None

    def x_With(self, s, st):
        vals = []
        for item in s.items:
            v = self.eval(item.context_expr, st)
            r = self.d.with_enter(self, st, item, v, s)
            rv = r if r is not None else v
            vals.append((item, v))
            if item.optional_vars is not None:
                self.assign(item.optional_vars, rv, st, s)
        c = self.ctx[-1]
        saved = (c.ret_v, c.ret_s, c.brk, c.cont)
        c.ret_v, c.ret_s, c.brk, c.cont = BOT, None, None, None
        tracking = bool(self.exc_acc)
        if tracking:
            self.exc_acc.append([None])
        out = self.exec_block(s.body, st)
        exc = self.exc_acc.pop()[0] if tracking else None

        def leave(z, tag):
            if z is not None:
                for item, v in reversed(vals):
                    self.d.with_exit(self, z, item, v, s, tag)
            return z
        if exc is not None:
            self.clean_frames(exc)
            self.note_exc(leave(exc, "exc"))
        rv, rs, rb, rc = c.ret_v, leave(c.ret_s, "ret"), leave(c.brk, "brk"), leave(c.cont, "cont")
        c.ret_v = self.join(saved[0], rv)
        c.ret_s = self.join_states(saved[1], rs)
        c.brk = self.join_states(saved[2], rb)
        c.cont = self.join_states(saved[3], rc)
        return leave(out, "normal")

    def x_Try(self, s, st):
        c = self.ctx[-1]
        saved = None
        if s.finalbody:
            saved = (c.ret_v, c.ret_s, c.brk, c.cont)
            c.ret_v, c.ret_s, c.brk, c.cont = BOT, None, None, None
            self.exc_acc.append([None])
        self.exc_acc.append([None if self.d.sure_raises else st.copy()])
        out = self.exec_block(s.body, st)
        exc = self.exc_acc.pop()[0]
        if out is not None and s.orelse:
            out = self.exec_block(s.orelse, out)
        res = out
        if exc is not None:
            self.clean_frames(exc)
            caught_all = False
            for h in s.handlers:
                hs = exc.copy()
                if h.type is not None:
                    self.eval(h.type, hs)
                    tn = ast.unparse(h.type)
                    if tn in ("BaseException",):
                        caught_all = True
                else:
                    caught_all = True
                if h.name:
                    self.bind(hs, h.name, data(), h)
                self.d.event(self, hs, "handler", h)
                hs = self.exec_block(h.body, hs)
                if h.name and hs is not None:
                    self.bind(hs, h.name, UNBOUND, h)
                res = self.join_states(res, hs)
            if not caught_all:
                self.note_exc(exc)
        if s.finalbody:
            fexc = self.exc_acc.pop()[0]
            rv, rs, rb, rc = c.ret_v, c.ret_s, c.brk, c.cont
            c.ret_v, c.ret_s, c.brk, c.cont = saved
            if fexc is not None:
                self.clean_frames(fexc)
                z = self.exec_block(s.finalbody, fexc)
                if z is not None:
                    self.note_exc(z)
            if rs is not None:
                z = self.exec_block(s.finalbody, rs)
                if z is not None:
                    c.ret_v = self.join(c.ret_v, rv)
                    c.ret_s = self.join_states(c.ret_s, z)
            if rb is not None:
                c.brk = self.join_states(c.brk, self.exec_block(s.finalbody, rb))
            if rc is not None:
                c.cont = self.join_states(c.cont, self.exec_block(s.finalbody, rc))
            if res is not None:
                res = self.exec_block(s.finalbody, res)
        return res

    def x_Assign(self, s, st):
        v = self.eval(s.value, st)
        for t in s.targets:
            self.assign(t, v, st, s)
        return st

    def x_AnnAssign(self, s, st):
        if s.value is not None:
            v = self.eval(s.value, st)
            self.assign(s.target, v, st, s)
        return st

    def assign(self, t, v, st, node):
        if isinstance(t, ast.Name):
            self.bind(st, t.id, v, node)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t, v, st, node)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, node)
        elif isinstance(t, ast.Attribute):
            b = self.eval(t.value, st)
            self.setattr(st, b, t.attr, v, node)
        elif isinstance(t, ast.Subscript):
            b = self.eval(t.value, st)
            idx = self.eval_index(t.slice, st)
            self.store_sub(st, t, b, idx, v, node, None)

    def unpack(self, t, v, st, node):
        n = len(t.elts)
        star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
        if star and self.d.concrete and self.seq_items(st, v) is not None:
            v = tup(self.seq_items(st, v))
        parts = [BOT] * n
        got = False
        if v.data is not None:
            its = self.d.items(self, st, v)
            if its is not None:
                v = tup(its)
        for ln, items in v.tups:
            if not star and ln != n:
                self.d.event(self, st, "unpack", node, want=n, got=ln)
                continue
            got = True
            if star:
                i = star[0]
                after = n - i - 1
                if ln < n - 1:
                    self.d.event(self, st, "unpack", node, want=n - 1, got=ln)
                    continue
                for k in range(i):
                    parts[k] = self.join(parts[k], items[k])
                for k in range(after):
                    parts[n - 1 - k] = self.join(parts[n - 1 - k], items[ln - 1 - k])
                lst = self.alloc(st, "list", node, fields={"#items": tuple(items[i:ln - after])} if self.d.concrete else {}, elem=self.j.joinall(items[i:ln - after]) if items[i:ln - after] else BOT, tag=i)
                parts[i] = self.join(parts[i], lst)
            else:
                for k in range(n):
                    parts[k] = self.join(parts[k], items[k])
        for oid in v.refs:
            o = st.heap.get(oid)
            if o is not None and o.kind == "inst":
                continue
            if o is not None and "#items" in o.fields and not star:
                if len(o.fields["#items"]) != n:
                    self.d.event(self, st, "unpack", node, want=n, got=len(o.fields["#items"]))
                    continue
                got = True
                for k in range(n):
                    parts[k] = self.join(parts[k], o.fields["#items"][k])
                continue
            e = o.elem if o is not None else data()
            got = True
            for k in range(n):
                parts[k] = self.join(parts[k], e)
        if v.data is not None or v.fns or not got:
            d = self.j.collapse(V(data=v.data, fns=v.fns))
            for f in v.fns:
                if isinstance(f, ExtM):
                    d = self.j.jdata(d, self.j.collapse(f.recv))
            ex = self.d.subscript(self, st, v, ("unpack",), node)
            e = V(data=Data(d.st, "any", ex))
            for k in range(n):
                parts[k] = self.join(parts[k], e)
        for e, p in zip(t.elts, parts):
            self.assign(e.value if isinstance(e, ast.Starred) else e, p, st, node)

    def x_AugAssign(self, s, st):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.lookup(st, t.id, t)[0]
            rhs = self.eval(s.value, st)
            new = self.aug(st, old, rhs, s.op, s)
            self.bind(st, t.id, new, s)
            self.propagate(st, old, new)
        elif isinstance(t, ast.Attribute):
            b = self.eval(t.value, st)
            old = self.getattr(st, b, t.attr, t)
            rhs = self.eval(s.value, st)
            new = self.aug(st, old, rhs, s.op, s)
            self.setattr(st, b, t.attr, new, s)
        elif isinstance(t, ast.Subscript):
            b = self.eval(t.value, st)
            idx = self.eval_index(t.slice, st)
            old = self.subscript(st, b, idx, t)
            rhs = self.eval(s.value, st)
            # element itself may be a mutable object updated in place
            if old.refs or (old.data is not None and old.data.st and old.data.ty not in ("num", "str")):
                bst = b.data.st if b.data is not None else EMPTY
                if old.data is not None and not (old.data.st <= bst):
                    self.mutate(st, V(data=Data(old.data.st - bst, old.data.ty)), s, "augmented assignment")
            if b.refs and b.data is None:
                own = self.d.aug(self, st, old, rhs, s.op, s)
                if own is not None:     # an array held by a list is updated in place
                    self.store_sub(st, t, b, idx, own, s, s.op)
                    return st
            if old.only_consts() and rhs.only_consts():
                self.store_sub(st, t, b, idx, self.do_binop(st, s.op, old, rhs, s), s, s.op)
                return st
            x = self.d.binop(self, st, s.op, old, rhs, s)
            nd = self.result_type(st, s.op, old, rhs, x)
            if old.data is not None and old.data.st and old.data.ty not in ("num", "str"):
                nd = V(data=Data(old.data.st | (nd.data.st if nd.data else EMPTY), nd.data.ty if nd.data else "any", x))
            self.store_sub(st, t, b, idx, nd, s, s.op)
        return st

    def propagate(self, st, old, new):
        pass

    def aug(self, st, old, rhs, op, node):
        own = self.d.aug(self, st, old, rhs, op, node)
        if own is not None:
            return own
        if self.d.concrete and old.refs == frozenset() and old.data is None and rhs.data is None:
            return self.do_binop(st, op, old, rhs, node)
        x = self.d.binop(self, st, op, old, rhs, node)
        res = self.result_type(st, op, old, rhs, x)
        if old.refs:
            for oid in old.refs:
                o = st.heap.get(oid)
                if o is not None and o.kind in ("list", "set", "dict"):
                    self.mutate(st, V(refs=frozenset([oid])), node, "augmented assignment")
                    if o.kind == "set" and self.d.concrete and isinstance(op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
                        its = self.set_op(st, {"bitor": "or", "bitand": "and", "sub": "sub", "bitxor": "xor"}[type(op).__name__.lower()], o.fields.get("#items"), self.seq_items(st, rhs), node) if len(old.refs) == 1 else None
                        f = {k: v for k, v in o.fields.items() if k != "#items"}
                        if its is not None:
                            f["#items"] = tuple(its)
                        st.heap[oid] = Obj(o.kind, o.cls, f, self.join(o.elem, self.iterate(st, rhs, node)[0]), o.x)
                    elif isinstance(op, ast.Add):
                        e = self.iterate(st, rhs, node)[0]
                        f = dict(o.fields)
                        it = f.pop("#items", None)
                        r2 = self.seq_items(st, rhs)
                        if it is not None and r2 is not None:
                            f["#items"] = tuple(it) + tuple(r2)
                        st.heap[oid] = Obj(o.kind, o.cls, f, self.join(o.elem, e), o.x)
                elif o is not None and o.kind == "inst":
                    r = self.inst_op(st, oid, op, rhs, node, inplace=True)
                    if r is not None:
                        return r
            if old.data is None and not old.tups:
                return V(refs=old.refs, data=None)
        if old.data is not None and old.data.ty not in ("num", "str"):
            self.mutate(st, V(data=old.data), node, "augmented assignment")
            d = res.data or Data()
            return V(data=Data(d.st | old.data.st, d.ty, d.x), refs=old.refs, tups=res.tups)
        return res

    # ---------------------------------------------------------------- branching
    def branch(self, test, st):
        v = self.eval(test, st)
        tv = self.truth(st, v)
        s_t = s_f = None
        if tv is not False:
            s_t = st.copy()
            s_t = self.refine(test, s_t, True)
        if tv is not True:
            s_f = st.copy() if tv is None else st
            s_f = self.refine(test, s_f, False)
        return s_t, s_f

    def truth(self, st, v):
        res = set()
        if v.data is not None:
            return None
        for c in v.consts:
            try:
                res.add(bool(c[1]))
            except Exception:
                return None
        for n, _ in v.tups:
            res.add(n > 0)
        for oid in v.refs:
            o = st.heap.get(oid)
            if o is not None and o.kind == "inst":
                if lookup_method(o.cls, "__len__")[1] is None and lookup_method(o.cls, "__bool__")[1] is None:
                    res.add(True)
                    continue
            if o is not None and "#items" in o.fields:
                res.add(len(o.fields["#items"]) > 0)
                continue
            return None
        for f in v.fns:
            if isinstance(f, ExtM):
                return None
            res.add(True)
        if len(res) == 1:
            return res.pop()
        return None

    def fact(self, test):
        """(canonical key, polarity, names) of an atomic test, or None"""
        pol = True
        while isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            test, pol = test.operand, not pol
        names = set()
        for n in ast.walk(test):
            if isinstance(n, ast.Call):
                if not (isinstance(n.func, ast.Name) and n.func.id in ("len", "isinstance", "callable", "hasattr", "bool")):
                    return None
            elif isinstance(n, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.Await, ast.NamedExpr)):
                return None
            elif isinstance(n, ast.Name) and n.id not in ("len", "isinstance", "callable", "hasattr", "bool"):
                fid = self.resolve_fid(n.id)
                names.add((fid, n.id))
            elif isinstance(n, ast.Attribute):
                names.add(("attr", n.attr))
        key = test
        if isinstance(test, ast.Compare) and len(test.ops) == 1:
            op = type(test.ops[0])
            neg = {ast.IsNot: ast.Is, ast.NotEq: ast.Eq, ast.GtE: ast.Lt, ast.Gt: ast.LtE, ast.NotIn: ast.In}
            if op in neg:
                pol = not pol
                op = neg[op]
            key = f"{op.__name__}({ast.dump(test.left)},{ast.dump(test.comparators[0])})"
        else:
            key = ast.dump(test)
        return key, pol, frozenset(names)

    def add_fact(self, test, st, val):
        f = self.fact(test)
        if f is not None:
            key, pol, names = f
            st.facts = st.facts | {(self.fids[-1], key, names, pol == val)}

    def refine(self, test, st, val):
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.refine(test.operand, st, not val)
        if isinstance(test, ast.BoolOp):
            conj = isinstance(test.op, ast.And)
            if conj == val:
                for t in test.values:
                    st = self.refine(t, st, val)
                    if st is None:
                        return None
            else:
                self.add_fact(test, st, val)
            return st
        self.add_fact(test, st, val)
        self.d.refine(self, st, test, val)
        if isinstance(test, ast.Name):
            self.narrow(test, st, lambda c: bool(c[1]) == val, keep_data=True, drop_objs=False if val else True)
        elif isinstance(test, ast.Compare) and len(test.ops) == 1:
            op, r = test.ops[0], test.comparators[0]
            if isinstance(r, ast.Constant) and isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
                pos = isinstance(op, (ast.Is, ast.Eq)) == val
                rv = r.value
                if rv is None or isinstance(rv, (str, bool)):
                    if pos:
                        self.narrow(test.left, st, lambda c: c[1] == rv and (rv is None) == (c[1] is None), keep_data=not (rv is None), drop_objs=True)
                    else:
                        self.narrow(test.left, st, lambda c: not (c[1] == rv and (rv is None) == (c[1] is None)), keep_data=True, drop_objs=False)
            elif isinstance(op, (ast.In, ast.NotIn)) and isinstance(r, (ast.Set, ast.Tuple, ast.List)) and all(isinstance(e, ast.Constant) for e in r.elts):
                vals = [e.value for e in r.elts]
                pos = isinstance(op, ast.In) == val
                self.narrow(test.left, st, lambda c: (c[1] in vals) == pos, keep_data=True, drop_objs=False)
                if pos and isinstance(test.left, (ast.Name, ast.Attribute)):
                    # an unknown value is now one of the listed ones
                    v = self.peek(test.left, st)
                    if v is not None and v.data is not None and v.data.x is None and len(vals) <= 8:
                        self.poke(test.left, st, V(v.consts | frozenset((type(c).__name__, c) for c in vals), None, v.tups, v.refs, v.fns, v.unbound))
        elif isinstance(test, ast.Call) and isinstance(test.func, ast.Name) and test.func.id == "isinstance" and len(test.args) == 2:
            v = self.peek(test.args[0], st)
            cls = self.eval(test.args[1], st)
            if v is not None:
                clss = [f.cls for f in cls.fns if isinstance(f, ClsV)]
                exts = [f.path for f in cls.fns if isinstance(f, ExtV)]
                for n, t in cls.tups:
                    for e in t:
                        clss += [f.cls for f in e.fns if isinstance(f, ClsV)]
                        exts += [f.path for f in e.fns if isinstance(f, ExtV)]
                nv = self.filter_isinstance(st, v, clss, exts, val)
                if nv.empty():
                    return st
                self.poke(test.args[0], st, nv)
        return st

    def filter_isinstance(self, st, v, clss, exts, val):
        refs = set()
        for oid in v.refs:
            o = st.heap.get(oid)
            hit = False
            if o is not None and o.kind == "inst":
                hit = any(self.subclass(o.cls, c) for c in clss)
            elif o is not None:
                hit = f"builtins.{o.kind}" in exts
            if hit == val:
                refs.add(oid)
        pyt = {e.split(".")[-1] for e in exts}
        consts = frozenset(c for c in v.consts if (c[0] in pyt or (c[0] == "bool" and "int" in pyt)) == val)
        tups = v.tups if ("tuple" in pyt) == val else ()
        d = v.data
        if d is not None and val and exts and not clss:
            if pyt <= {"int", "float", "complex"}:
                d = Data(EMPTY, "num", d.x)
            elif pyt == {"str"}:
                d = Data(EMPTY, "str", d.x)
            elif pyt == {"ndarray"}:
                d = Data(d.st, "arr", d.x)
        fns = v.fns if not (val and exts and not clss and pyt <= {"int", "float", "str", "list", "tuple", "dict"}) else EMPTY
        return V(consts, d, tups, frozenset(refs), fns, v.unbound)

    def subclass(self, c, d):
        seen = [c]
        while seen:
            k = seen.pop()
            if k is d:
                return True
            seen.extend(k.bases)
        return False

    def peek(self, e, st):
        if isinstance(e, ast.Name):
            fid = self.resolve_fid(e.id)
            if fid is None:
                return None
            return st.frames.get(fid, {}).get(e.id)
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name):
            b = self.peek(e.value, st)
            if b is not None and len(b.refs) == 1 and b.data is None:
                (oid,) = b.refs
                o = st.heap.get(oid)
                if o is not None:
                    return o.fields.get(e.attr)
        return None

    def poke(self, e, st, v):
        if isinstance(e, ast.Name):
            fid = self.resolve_fid(e.id)
            st.setvar(fid, e.id, v)
        elif isinstance(e, ast.Attribute):
            b = self.peek(e.value, st)
            (oid,) = b.refs
            st.heap[oid] = st.heap[oid].set(e.attr, v)

    def narrow(self, e, st, pred, keep_data, drop_objs):
        v = self.peek(e, st)
        if v is None:
            return
        consts = frozenset(c for c in v.consts if pred(c))
        nv = V(consts, v.data if keep_data else None, () if drop_objs else v.tups, EMPTY if drop_objs and v.consts else v.refs, EMPTY if drop_objs and v.consts else v.fns, v.unbound)
        if nv.empty() or (nv.unbound and nv.without_unbound().empty()):
            return
        if nv != v:
            self.poke(e, st, nv)

    # ---------------------------------------------------------------- heap
    def alloc(self, st, kind, node, cls=None, fields=None, elem=BOT, tag=None, x=None):
        oid = (kind, getattr(node, "_nid", 0), tag, self.fids[-1] if self.fids else None)
        if self.itertag:
            oid += (tuple(self.itertag),)
        st.heap[oid] = Obj(kind, cls, fields, elem, x)
        return ref(oid)

    def setattr(self, st, b, attr, v, node):
        if not v.refs and v.data is None and not v.consts and not v.tups and not v.fns:
            v = data()
        for oid in b.refs:
            o = st.heap.get(oid)
            if o is None:
                continue
            self.d.event(self, st, "setattr", node, oid=oid, attr=attr, value=v)
            nv = self.d.assign_attr(self, st, oid, attr, v, node)
            if len(b.refs) == 1 and b.data is None:
                st.heap[oid] = o.set(attr, nv)
            else:
                st.heap[oid] = o.set(attr, self.join(o.fields.get(attr, UNBOUND), nv))
        if b.data is not None and b.data.st:
            self.d.event(self, st, "mutate", node, buf=b.data.st, how=f"attribute {attr} assigned")
        for f in b.fns:
            if isinstance(f, ClsV):
                self.d.event(self, st, "globalwrite", node, name=f"{f.cls.name}.{attr}", mod=f.cls.mod.name)
            elif isinstance(f, ModV):
                self.d.event(self, st, "globalwrite", node, name=attr, mod=f.mod.name)
            elif isinstance(f, ExtV):
                self.d.event(self, st, "extwrite", node, path=f.path + "." + attr)
        self.kill(st, ("attr", attr))

    def mutate(self, st, v, node, how):
        if v.data is not None and v.data.st and v.data.ty not in ("num", "str"):
            self.d.event(self, st, "mutate", node, buf=v.data.st, how=how)
        for oid in v.refs:
            self.d.event(self, st, "mutobj", node, oid=oid, how=how)
        for f in v.fns:
            if isinstance(f, ExtM):
                self.mutate(st, f.recv, node, how)
            elif isinstance(f, ExtV):
                self.d.event(self, st, "extwrite", node, path=f.path)

    def store_sub(self, st, t, b, idx, v, node, aug):
        self.mutate(st, b, node, "item assignment" if aug is None else "augmented item assignment")
        for oid in b.refs:
            o = st.heap.get(oid)
            if o is None or o.kind == "inst":
                if o is not None:
                    m = lookup_method(o.cls, "__setitem__")
                    if m[1] is not None:
                        self.call_method(st, oid, m, [idx[-1] if isinstance(idx, tuple) else data(), v], {}, node)
                continue
            f = o.fields
            ci = self.const_index(idx)
            if "#items" in f:
                items = f["#items"]
                f = dict(f)
                if isinstance(ci, int) and not isinstance(ci, bool) and -len(items) <= ci < len(items):
                    it = list(items)
                    it[ci] = v if len(b.refs) == 1 else self.join(it[ci], v)
                    f["#items"] = tuple(it)
                elif self.d.concrete and len(b.refs) == 1 and self.index_is_slice(idx) and self.const_slice(idx) is not None and self.iterate(st, v, node)[1] is not None:
                    it = list(items)
                    try:
                        it[self.const_slice(idx)] = self.iterate(st, v, node)[1]
                        f["#items"] = tuple(it)
                    except ValueError:
                        f.pop("#items")
                elif isinstance(idx, tuple) and idx[0] == "expr" and not self.index_is_slice(idx):
                    f["#items"] = tuple(self.join(i, v) for i in items)
                else:
                    f.pop("#items")
            if o.kind == "dict":
                f = dict(f)
                k = self.dict_key(st, idx)
                if k is not None:
                    if len(b.refs) > 1:
                        f.pop("#exact", None)
                    f[k] = v
                else:
                    f.pop("#exact", None)
                    for q in [q for q in f if isinstance(q, tuple) and q[0] == "k"]:
                        f[q] = self.join(f[q], v)
            e = v
            if self.index_is_slice(idx):
                e = self.iterate(st, v, node)[0]
            st.heap[oid] = Obj(o.kind, o.cls, f, self.join(o.elem, e), o.x)
        nx = self.d.store_sub(self, st, b, idx, v, node, aug)
        if b.data is not None and (nx is not None or b.data.x is not None):
            self.update_facet(st, t.value, b, nx, node)

    def update_facet(self, st, expr, b, nx, node):
        """the container expression now has facet nx"""
        if isinstance(expr, ast.Name):
            fid = self.resolve_fid(expr.id)
            v = st.frames.get(fid, {}).get(expr.id)
            if v is not None and v.data is not None:
                st.setvar(fid, expr.id, V(v.consts, Data(v.data.st, v.data.ty, nx), v.tups, v.refs, v.fns, v.unbound))
        elif isinstance(expr, ast.Attribute):
            bb = self.eval_quiet(expr.value, st)
            for oid in bb.refs:
                o = st.heap.get(oid)
                if o is not None and expr.attr in o.fields:
                    v = o.fields[expr.attr]
                    if v.data is not None:
                        st.heap[oid] = o.set(expr.attr, V(v.consts, Data(v.data.st, v.data.ty, nx), v.tups, v.refs, v.fns, v.unbound))

    def eval_quiet(self, e, st):
        return self.eval(e, st)

    def const_index(self, idx):
        if isinstance(idx, tuple) and idx[0] == "expr":
            v = idx[1]
            if v.is_single_const():
                return v.const()
        return None

    def keyof(self, st, v):
        """the constant a value is as a dict key, or None"""
        if v.is_single_const():
            return ("k", v.const())
        if v.unbound or v.refs or v.fns or v.consts:
            return None
        if len(v.tups) == 1 and v.data is None:
            ks = [self.keyof(st, i) for i in v.tups[0][1]]
            return None if None in ks else ("k", tuple(k[1] for k in ks))
        if v.data is not None and not v.tups:
            c = self.d.key_const(self, st, v)
            return None if c is None else ("k", c)
        return None

    def dict_key(self, st, idx):
        if not isinstance(idx, tuple):
            return None
        if idx[0] == "tuple" and self.d.concrete:
            ks = [self.dict_key(st, i) for i in idx[1]]
            return None if None in ks else ("k", tuple(k[1] for k in ks))
        return self.keyof(st, idx[1]) if idx[0] == "expr" else None

    def keyval(self, k):
        return tup([self.keyval(i) for i in k]) if isinstance(k, tuple) else self.d.key_value(k)

    @staticmethod
    def exact_keys(o):
        """all keys of a dict in insertion order, or None"""
        e = o.fields.get("#exact")
        if e is None or not e.is_single_const():
            return None
        ks = [k for k in o.fields if isinstance(k, tuple) and k[0] == "k"]
        return None if any(o.fields[k].unbound for k in ks) else ks

    def index_is_slice(self, idx):
        return isinstance(idx, tuple) and idx[0] == "slice"

    # ---------------------------------------------------------------- expressions
    def eval(self, e, st):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise AnalysisBroken(f"expression kind {type(e).__name__} not modelled at {where(e)}")
        return m(e, st)

    def e_Constant(self, e, st):
        if e.value is Ellipsis:
            return const(Ellipsis)
        return const(e.value)

    def e_Name(self, e, st):
        return self.lookup(st, e.id, e)[0]

    def e_NamedExpr(self, e, st):
        v = self.eval(e.value, st)
        self.bind(st, e.target.id, v, e)
        return v

    def e_Tuple(self, e, st):
        return self.seq(e, st)

    def seq(self, e, st):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, st)
                el, items, _ = self.iterate(st, v, x)
                if items is None:
                    # unknown length
                    d = self.j.collapse(self.j.joinall(out + [el])) if (out or not el.empty()) else Data()
                    for rest in e.elts[len(out) + 1:]:
                        d = self.j.jdata(d, self.j.collapse(self.eval(rest.value if isinstance(rest, ast.Starred) else rest, st)))
                    return V(data=Data(d.st, "any", None))
                out.extend(items)
            else:
                out.append(self.eval(x, st))
        return tup(out)

    def e_List(self, e, st):
        v = self.seq(e, st)
        if v.tups:
            items = v.tups[0][1]
            return self.alloc(st, "list", e, fields={"#items": items}, elem=self.j.joinall(items))
        return self.alloc(st, "list", e, elem=V(data=v.data))

    def e_Set(self, e, st):
        v = self.seq(e, st)
        if v.tups:
            return self.make_set(st, v.tups[0][1], e)
        return self.alloc(st, "set", e, elem=V(data=v.data))

    def make_set(self, st, items, node):
        """a set; its members are known when all of them are constants"""
        f = {"#items": tuple(items)} if items is not None else {}
        if self.d.concrete and items is not None:
            ks = [self.keyof(st, i) for i in items]
            f = {} if None in ks else {"#items": tuple({k: i for k, i in reversed(list(zip(ks, items)))}[k] for k in dict.fromkeys(ks))}
        return self.alloc(st, "set", node, fields=f, elem=self.j.joinall(items) if items else BOT)

    def set_ref(self, st, v):
        if len(v.refs) == 1 and v.data is None and not (v.tups or v.consts or v.fns):
            o = st.heap.get(next(iter(v.refs)))
            return o is not None and o.kind == "set"
        return False

    def set_op(self, st, name, its, other, node):
        """members of a | b, a & b, a - b, a ^ b; None when not all are known"""
        if its is None or other is None:
            return None
        ka, kb = [self.keyof(st, i) for i in its], [self.keyof(st, i) for i in other]
        if None in ka or None in kb:
            return None
        a, b = dict(zip(ka, its)), dict(zip(kb, other))
        ks = {"or": list(a) + [k for k in b if k not in a], "and": [k for k in a if k in b], "sub": [k for k in a if k not in b],
              "xor": [k for k in a if k not in b] + [k for k in b if k not in a]}[name]
        return [a[k] if k in a else b[k] for k in ks]

    def e_Dict(self, e, st):
        f = {"#exact": const(True)}
        elem = BOT
        for k, v in zip(e.keys, e.values):
            vv = self.eval(v, st)
            if k is None:
                elem = self.join(elem, self.iterate(st, vv, e)[0])
                f.pop("#exact", None)
                continue
            kv = self.eval(k, st)
            elem = self.join(elem, vv)
            kk = self.keyof(st, kv)
            if kk is not None:
                f[kk] = vv
            else:
                f.pop("#exact", None)
        return self.alloc(st, "dict", e, fields=f, elem=elem)

    def e_JoinedStr(self, e, st):
        parts = []
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                parts.append(self.eval(v.value, st))
                if v.format_spec is not None:
                    self.eval(v.format_spec, st)
            else:
                parts.append(const(v.value))
        if all(p.is_single_const() for p in parts) and all(not isinstance(v, ast.FormattedValue) or v.format_spec is None for v in e.values):
            return const("".join(str(p.const()) for p in parts))
        return data(EMPTY, "str", self.d.fstring(self, st, parts, e))

    def e_FormattedValue(self, e, st):
        self.eval(e.value, st)
        return data(EMPTY, "str")

    def e_Starred(self, e, st):
        return self.eval(e.value, st)

    def e_Lambda(self, e, st):
        self.captured.add(self.fids[-1])
        return fn(FnV(e, self.fids[-1], self.def_values(e.args, st)))

    def e_IfExp(self, e, st):
        t, f = self.branch(e.test, st)
        r = BOT
        outs = []
        if t is not None:
            r = self.join(r, self.eval(e.body, t))
            outs.append(t)
        if f is not None:
            r = self.join(r, self.eval(e.orelse, f))
            outs.append(f)
        self.merge_into(st, outs)
        return r

    def merge_into(self, st, outs):
        z = None
        for o in outs:
            z = self.join_states(z, o)
        if z is not None and z is not st:
            st.frames, st.own, st.heap, st.ts, st.facts, st.guards, st.dead = z.frames, set(), z.heap, z.ts, z.facts, z.guards, z.dead

    def e_BoolOp(self, e, st):
        conj = isinstance(e.op, ast.And)
        r = BOT
        cur = st
        outs = []
        for i, x in enumerate(e.values):
            v = self.eval(x, cur)
            tv = self.truth(cur, v)
            last = i == len(e.values) - 1
            if last:
                r = self.join(r, v)
                outs.append(cur)
                break
            if conj:
                if tv is False:
                    r = self.join(r, v)
                    outs.append(cur)
                    break
                if tv is None:
                    r = self.join(r, self.keep_truth(v, False))
                    outs.append(cur.copy())
                cur = self.refine(x, cur.copy(), True)
            else:
                if tv is True:
                    r = self.join(r, v)
                    outs.append(cur)
                    break
                if tv is None:
                    r = self.join(r, self.keep_truth(v, True))
                    outs.append(cur.copy())
                cur = self.refine(x, cur.copy(), False)
        if len(outs) == 1 and outs[0] is st:
            return r
        self.merge_into(st, outs)
        return r

    def keep_truth(self, v, val):
        consts = frozenset(c for c in v.consts if bool(c[1]) == val)
        return V(consts, v.data, v.tups if val else (), v.refs, v.fns if val else EMPTY)

    def e_UnaryOp(self, e, st):
        v = self.eval(e.operand, st)
        if isinstance(e.op, ast.Not):
            t = self.truth(st, v)
            return BOOL if t is None else const(not t)
        if v.only_consts():
            try:
                fns = {ast.USub: lambda a: -a, ast.UAdd: lambda a: +a, ast.Invert: lambda a: ~a}
                return self.j.joinall([const(fns[type(e.op)](c[1])) for c in v.consts])
            except Exception:
                pass
        for oid in v.refs:
            o = st.heap.get(oid)
            if o is not None and o.kind == "inst":
                name = {ast.USub: "__neg__", ast.UAdd: "__pos__", ast.Invert: "__invert__"}[type(e.op)]
                m = lookup_method(o.cls, name)
                if m[1] is not None:
                    return self.call_method(st, oid, m, [], {}, e)
        x = self.d.unop(self, st, e.op, v, e)
        if isinstance(x, V):
            return x
        d = self.j.collapse(v)
        return data(EMPTY, d.ty, x)

    def e_BinOp(self, e, st):
        l = self.eval(e.left, st)
        r = self.eval(e.right, st)
        return self.do_binop(st, e.op, l, r, e)

    def do_binop(self, st, op, l, r, e):
        if l.only_consts() and r.only_consts() and len(l.consts) * len(r.consts) <= 9:
            x = self.d.fold(self, st, op, l, r, e)
            if x is not None:
                return x
            out = []
            try:
                for a in l.consts:
                    for b in r.consts:
                        out.append(const(self.pyop(op, a[1], b[1])))
                return self.j.joinall(out)
            except Exception:
                pass
        if self.d.concrete and isinstance(op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)) and self.set_ref(st, l) and self.set_ref(st, r):
            its = self.set_op(st, {"bitor": "or", "bitand": "and", "sub": "sub", "bitxor": "xor"}[type(op).__name__.lower()], self.seq_items(st, l), self.seq_items(st, r), e)
            return self.make_set(st, its, e) if its is not None else self.alloc(st, "set", e, elem=self.join(self.iterate(st, l, e)[0], self.iterate(st, r, e)[0]))
        # sequence concatenation
        if isinstance(op, ast.Add):
            li, ri = self.seq_items(st, l), self.seq_items(st, r)
            if li is not None and ri is not None:
                if l.tups and r.tups:
                    return tup(tuple(li) + tuple(ri))
                items = tuple(li) + tuple(ri)
                return self.alloc(st, "list", e, fields={"#items": items}, elem=self.j.joinall(items))
            lref = self.list_ref(st, l)
            rref = self.list_ref(st, r)
            if lref or rref:
                if (lref or li is not None) and (rref or ri is not None):
                    el = self.join(self.iterate(st, l, e)[0], self.iterate(st, r, e)[0])
                    return self.alloc(st, "list", e, elem=el)
        if isinstance(op, ast.Mult):
            for a, b in ((l, r), (r, l)):
                it = self.seq_items(st, a)
                if it is not None and not (b.data is not None and b.data.ty == "arr"):
                    n = b.const_or(None)
                    if isinstance(n, int) and not isinstance(n, bool) and 0 <= n * len(it) <= 64:
                        items = tuple(it) * n
                        if a.tups:
                            return tup(items)
                        return self.alloc(st, "list", e, fields={"#items": items}, elem=self.j.joinall(items))
                    if a.refs and self.list_ref(st, a):
                        return self.alloc(st, "list", e, elem=self.j.joinall(it))
                    if a.tups:
                        d = self.j.collapse(a)
                        return V(data=Data(d.st, "any", d.x))
                elif a.refs and self.list_ref(st, a) and not b.refs:
                    return self.alloc(st, "list", e, elem=self.iterate(st, a, e)[0])
        rr = []
        for oid in l.refs:
            o = st.heap.get(oid)
            if o is not None and o.kind == "inst":
                v = self.inst_op(st, oid, op, r, e)
                if v is not None:
                    rr.append(v)
        if rr and l.data is None:
            return self.j.joinall(rr)
        for oid in r.refs:
            o = st.heap.get(oid)
            if o is not None and o.kind == "inst":
                v = self.inst_op(st, oid, op, l, e, reflected=True)
                if v is not None:
                    rr.append(v)
        if rr and r.data is None:
            return self.j.joinall(rr)
        x = self.d.binop(self, st, op, l, r, e)
        return self.j.joinall([self.result_type(st, op, l, r, x)] + rr)

    OPN = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "truediv", ast.MatMult: "matmul", ast.Pow: "pow",
           ast.FloorDiv: "floordiv", ast.Mod: "mod", ast.BitAnd: "and", ast.BitOr: "or", ast.BitXor: "xor",
           ast.LShift: "lshift", ast.RShift: "rshift"}

    def inst_op(self, st, oid, op, other, node, inplace=False, reflected=False):
        o = st.heap[oid]
        n = self.OPN[type(op)]
        names = [f"__i{n}__", f"__{n}__"] if inplace else ([f"__r{n}__"] if reflected else [f"__{n}__"])
        for name in names:
            m = lookup_method(o.cls, name)
            if m[1] is not None:
                return self.call_method(st, oid, m, [other], {}, node)
        if not reflected and o.cls is not None:
            # the other operand may implement the reflected operation
            for oid2 in other.refs:
                o2 = st.heap.get(oid2)
                if o2 is not None and o2.kind == "inst" and lookup_method(o2.cls, f"__r{n}__")[1] is not None:
                    return None
            if other.data is None or other.data.ty in ("num", "str"):
                self.d.event(self, st, "noattr", node, cls=o.cls.name, attr=f"__{n}__", must=True)
        return None

    def pyop(self, op, a, b):
        if isinstance(op, ast.Pow) and isinstance(b, int) and abs(b) > 512:
            raise ValueError
        if isinstance(op, ast.Mult) and (isinstance(a, (str, bytes)) or isinstance(b, (str, bytes))):
            raise ValueError
        f = {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b, ast.Div: lambda: a / b,
             ast.Pow: lambda: a ** b, ast.FloorDiv: lambda: a // b, ast.Mod: lambda: a % b, ast.BitAnd: lambda: a & b,
             ast.BitOr: lambda: a | b, ast.BitXor: lambda: a ^ b, ast.LShift: lambda: a << min(b, 256), ast.RShift: lambda: a >> b}[type(op)]
        return f()

    def result_type(self, st, op, l, r, x):
        if isinstance(x, V):
            return x
        dl, dr = self.j.collapse(l), self.j.collapse(r)
        if isinstance(op, ast.Mod) and dl.ty == "str":
            return data(EMPTY, "str", x)
        if dl.ty == dr.ty and dl.ty in ("num", "str"):
            ty = dl.ty
        elif "arr" in (dl.ty, dr.ty):
            ty = "arr"
        elif "str" in (dl.ty, dr.ty) and isinstance(op, ast.Add):
            ty = "str"
        else:
            ty = "any"
        return data(EMPTY, ty, x)

    def seq_items(self, st, v):
        if v.tups and len(v.tups) == 1 and v.data is None and not v.refs and not v.consts and not v.fns:
            return v.tups[0][1]
        if len(v.refs) == 1 and v.data is None and not v.tups and not v.consts and not v.fns:
            (oid,) = v.refs
            o = st.heap.get(oid)
            if o is not None and o.kind in ("list", "set") and "#items" in o.fields:
                return o.fields["#items"]
            if o is not None and o.kind == "dict" and self.d.concrete:
                ks = self.exact_keys(o)
                return None if ks is None else tuple(self.keyval(k[1]) for k in ks)
        return None

    def list_ref(self, st, v):
        return bool(v.refs) and all(st.heap.get(o) is not None and st.heap[o].kind in ("list",) for o in v.refs)

    def e_Compare(self, e, st):
        left = self.eval(e.left, st)
        rights = [self.eval(c, st) for c in e.comparators]
        x = self.d.compare(self, st, e, left, rights)
        if isinstance(x, V):
            return x
        if len(rights) > 1:
            vals = [left] + rights
            if all(v.is_single_const() for v in vals):
                try:
                    return const(all(self.pycmp(o, a.const(), b.const()) for o, a, b in zip(e.ops, vals, vals[1:])))
                except Exception:
                    pass
            for o, a, b in zip(e.ops, vals, vals[1:]):   # one false link settles a chain
                if a.is_single_const() and b.is_single_const():
                    try:
                        if not self.pycmp(o, a.const(), b.const()):
                            return const(False)
                    except Exception:
                        pass
        if len(rights) == 1:
            r = rights[0]
            op = e.ops[0]
            if self.d.concrete and isinstance(op, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)):
                a, b = (self.the_type(v) for v in (left, r))
                if a is not None and b is not None:
                    return const((a == b) == isinstance(op, (ast.Eq, ast.Is)))
            if isinstance(op, (ast.Is, ast.IsNot)):
                res = self.compare_is(left, r)
                if res is not None:
                    return const(res == isinstance(op, ast.Is))
                return BOOL
            if left.only_consts() and r.only_consts():
                out = set()
                try:
                    for a in left.consts:
                        for b in r.consts:
                            out.add(self.pycmp(op, a[1], b[1]))
                    return self.j.joinall([const(o) for o in out])
                except Exception:
                    pass
            if isinstance(op, (ast.In, ast.NotIn)):
                items = self.seq_items(st, r)
                if items is not None and left.only_consts() and all(i.is_single_const() for i in items):
                    vals = [i.const() for i in items]
                    out = {(c[1] in vals) == isinstance(op, ast.In) for c in left.consts}
                    return self.j.joinall([const(o) for o in out])
                if items is not None and self.d.concrete:
                    if not items:
                        return const(isinstance(op, ast.NotIn))
                    lk, ks = self.keyof(st, left), [self.keyof(st, i) for i in items]
                    if lk is not None and None not in ks:
                        return const((lk in ks) == isinstance(op, ast.In))
                if len(r.refs) == 1 and r.data is None and not r.tups and not r.consts and not r.fns:
                    o = st.heap.get(next(iter(r.refs)))
                    ks = self.exact_keys(o) if o is not None and o.kind == "dict" else None
                    lk = self.keyof(st, left) if ks is not None else None
                    if lk is not None:
                        return const((lk in ks) == isinstance(op, ast.In))
                return BOOL
            if isinstance(op, (ast.Eq, ast.NotEq)) and self.d.concrete and len(left.refs) == 1 and left.data is None and not (left.consts or left.tups or left.fns):
                o = st.heap.get(next(iter(left.refs)))
                m = lookup_method(o.cls, "__eq__") if o is not None and o.kind == "inst" else (None, None)
                if m[1] is not None:
                    res = self.call_method(st, next(iter(left.refs)), m, [r], {}, e)
                    if isinstance(op, ast.Eq):
                        return res
                    t = self.truth(st, res)
                    return BOOL if t is None else const(not t)
            if isinstance(op, (ast.Eq, ast.NotEq)):
                # an object never equals a bool / str / None constant unless it defines __eq__
                if r.only_consts() and left.data is None and not left.tups and all(c[0] in ("bool", "str", "NoneType") for c in r.consts):
                    outs = set()
                    for oid in left.refs:
                        outs.add(isinstance(op, ast.NotEq))
                    for f in left.fns:
                        if isinstance(f, ExtM):
                            return BOOL
                        outs.add(isinstance(op, ast.NotEq))
                    for a in left.consts:
                        for b in r.consts:
                            outs.add(self.pycmp(op, a[1], b[1]))
                    return self.j.joinall([const(o) for o in outs])
                if left.fns and r.fns and left.data is None and r.data is None and all(isinstance(f, (ClsV,)) for f in left.fns | r.fns) and len(left.fns) == 1 and len(r.fns) == 1 and not left.refs and not r.refs:
                    return const((left.fns == r.fns) == isinstance(op, ast.Eq))
        dl = self.j.collapse(left)
        tys = {dl.ty} | {self.j.collapse(r).ty for r in rights}
        if tys <= {"num", "str"}:
            return BOOL
        return data(EMPTY, "arr" if "arr" in tys else "any", x)

    @staticmethod
    def the_type(v):
        """the class this value is, when it is one"""
        if len(v.fns) != 1 or v.refs or v.consts or v.tups or v.data is not None:
            return None
        f = next(iter(v.fns))
        if isinstance(f, ClsV):
            return f
        return f.path if isinstance(f, ExtV) and f.path in ("builtins.int", "builtins.float", "builtins.str", "builtins.bool", "builtins.list", "builtins.tuple", "builtins.dict", "builtins.NoneType", "builtins.complex") else None

    def compare_is(self, a, b):
        if b.only_consts() and len(b.consts) == 1 and a.only_consts() and len(a.consts) == 1:
            return a.consts == b.consts
        if b.is_single_const():
            if b.consts & a.consts:
                return None
            if a.data is not None and a.data.ty not in ("num", "str", "arr", "obj", "shape", "file"):
                return None
            return False   # symbolic data never is None / True: an optional argument carries the None alternative
        return None

    def pycmp(self, op, a, b):
        return {ast.Eq: lambda: a == b, ast.NotEq: lambda: a != b, ast.Lt: lambda: a < b, ast.LtE: lambda: a <= b,
                ast.Gt: lambda: a > b, ast.GtE: lambda: a >= b, ast.In: lambda: a in b, ast.NotIn: lambda: a not in b}[type(op)]()

    # ---- attributes
    def e_Attribute(self, e, st):
        b = self.eval(e.value, st)
        return self.getattr(st, b, e.attr, e)

    NUMCONST = {"numpy.pi": math.pi, "math.pi": math.pi, "numpy.inf": math.inf, "math.inf": math.inf, "numpy.e": math.e,
                "math.e": math.e, "numpy.newaxis": None}

    def getattr(self, st, b, name, node):
        out = []
        for oid in b.refs:
            o = st.heap.get(oid)
            if o is None:
                out.append(data())
                continue
            if o.kind == "inst":
                out.append(self.inst_attr(st, oid, o, name, node))
            else:
                out.append(fn(ExtM(V(refs=frozenset([oid])), name)))
        for f in b.fns:
            if isinstance(f, ExtV):
                p = f.path + "." + name
                if p in self.NUMCONST:
                    out.append(self.d.num_const(p) or const(self.NUMCONST[p]))
                else:
                    out.append(fn(ExtV(p)))
            elif isinstance(f, ModV):
                fr = st.frames.get(("mod", f.mod.name), {})
                if name in fr:
                    out.append(fr[name])
                else:
                    self.d.event(self, st, "noattr", node, cls=f.mod.name, attr=name, must=True)
                    out.append(data())
            elif isinstance(f, ClsV):
                c, m = lookup_method(f.cls, name)
                if m is not None:
                    fv = FnV(m, ("mod", c.mod.name))
                    if "classmethod" in c.decor.get(name, ()):
                        out.append(fn(BoundV(V(fns=frozenset([f])), fv, c)))
                    else:
                        out.append(fn(fv))
                elif name in f.cls.attrs:
                    out.append(self.class_attr(st, f.cls, name))
                elif name in ("__name__", "__doc__", "__qualname__"):
                    out.append(data(EMPTY, "str"))
                else:
                    self.d.event(self, st, "noattr", node, cls=f.cls.name, attr=name, must=True)
                    out.append(data())
            elif isinstance(f, BoundV) and name == "__self__":
                out.append(f.recv)
            elif isinstance(f, ExtM):
                # attribute of an opaque attribute
                if isinstance(f.recv, V):
                    d = self.j.collapse(f.recv)
                    out.append(fn(ExtM(data(d.st, "any"), name)))
            else:
                out.append(data())
        if b.data is not None:
            out.append(self.data_attr(st, b, name, node))
        for n, t in b.tups:
            if name in ("count", "index"):
                out.append(fn(ExtM(V(tups=((n, t),)), name)))
            elif self.d.concrete and RESULT_FIELDS.get(name, 9) < len(t):
                out.append(t[RESULT_FIELDS[name]])
            else:
                self.d.event(self, st, "noattr", node, cls="tuple", attr=name, must=True)
                out.append(data())
        for c in b.consts:
            if c[1] is None:
                self.d.event(self, st, "nonenull", node, attr=name)
                continue
            if c[0] == "str":
                out.append(fn(ExtM(V(consts=frozenset([c])), name)))
            else:
                out.append(data(EMPTY, "num") if name in ("real", "imag", "shape", "dtype") else fn(ExtM(V(consts=frozenset([c])), name)))
        return self.j.joinall(out) if out else data()

    def class_attr(self, st, cls, name):
        self.fids.append(("mod", cls.mod.name))
        try:
            v = self.eval(cls.attrs[name], st)
        finally:
            self.fids.pop()
        for oid in v.refs:
            self.d.event(self, st, "classattr", cls.attrs[name], oid=oid, cls=cls, attr=name)
        return v

    def inst_attr(self, st, oid, o, name, node):
        c = o.cls
        if name in o.fields:
            v = o.fields[name]
            if v.unbound:
                self.d.event(self, st, "noattr", node, cls=c.name, attr=name, must=v.without_unbound().empty(), oid=oid)
                v = v.without_unbound()
                if v.empty():
                    v = data()
            return v
        k, m = lookup_method(c, name)
        if m is not None:
            decor = k.decor.get(name, set())
            fv = FnV(m, ("mod", k.mod.name))
            if "staticmethod" in decor:
                return fn(fv)
            if "classmethod" in decor:
                return fn(BoundV(V(fns=frozenset([ClsV(c)])), fv, k))
            if "property" in decor or any(d.endswith("cached_property") for d in decor):
                return self.call_method(st, oid, (k, m), [], {}, node)
            return fn(BoundV(ref(oid), fv, k))
        cc = [c]
        while cc:
            q = cc.pop(0)
            if name in q.attrs:
                return self.class_attr(st, q, name)
            cc.extend(q.bases)
        if name == "__class__":
            return fn(ClsV(c))
        if name == "__dict__":
            return data()
        self.d.event(self, st, "noattr", node, cls=c.name, attr=name, must=True, oid=oid)
        return data()

    def data_attr(self, st, b, name, node):
        d = b.data
        x = self.d.attr(self, st, V(data=d), name, node)
        if isinstance(x, V):
            return x
        if d.ty in ("arr", "any", "obj", "num"):
            if name in ("T", "real", "imag", "flat", "mT"):
                return data(d.st, "arr" if d.ty != "num" else "num", x)
            if name in NUM_ATTRS:
                return data(EMPTY, "num", x)
            if name == "shape":
                return data(EMPTY, "shape", x)
            if name == "dtype":
                return data(EMPTY, "dtype", x)
        if x is not None:
            return data(d.st, "any", x)
        return fn(ExtM(V(data=d), name))

    # ---- subscripts
    def eval_index(self, s, st):
        """('slice', lo, hi, step) | ('tuple', [..]) | ('expr', V)"""
        if isinstance(s, ast.Slice):
            return ("slice",) + tuple(self.eval(p, st) if p is not None else None for p in (s.lower, s.upper, s.step))
        if isinstance(s, ast.Tuple) and any(isinstance(e, (ast.Slice,)) for e in s.elts) or isinstance(s, ast.Tuple):
            return ("tuple", [self.eval_index(e.value if isinstance(e, ast.Starred) else e, st) for e in s.elts])
        return ("expr", self.eval(s, st))

    def e_Slice(self, e, st):
        return data()

    def e_Subscript(self, e, st):
        b = self.eval(e.value, st)
        idx = self.eval_index(e.slice, st)
        return self.subscript(st, b, idx, e)

    def index_kind(self, st, idx):
        """'view' basic, 'copy' fancy, 'maybe'"""
        if idx[0] == "slice":
            return "view"
        if idx[0] == "unpack":
            return "view"
        if idx[0] == "tuple":
            ks = [self.index_kind(st, i) for i in idx[1]]
            if "copy" in ks:
                return "copy"
            if "maybe" in ks:
                return "maybe"
            return "view"
        v = idx[1]
        if v.only_consts():
            return "view"
        if v.data is not None and v.data.ty == "arr":
            return "copy"
        if v.data is not None and v.data.ty in ("num",):
            return "view"
        if v.refs and v.data is None:
            return "copy"
        if v.tups and v.data is None:
            return "view"
        return "maybe"

    def subscript(self, st, b, idx, node):
        if b.is_single_const() and isinstance(b.const(), str) and self.d.concrete:
            try:
                if idx[0] == "expr" and idx[1].is_single_const() and isinstance(idx[1].const(), int):
                    return const(b.const()[idx[1].const()])
                if idx[0] == "slice" and all(p is None or p.is_single_const() for p in idx[1:]):
                    return const(b.const()[slice(*(p.const() if p is not None else None for p in idx[1:]))])
            except (IndexError, TypeError, ValueError):
                pass
        out = []
        ci = self.const_index(idx)
        for oid in b.refs:
            o = st.heap.get(oid)
            if o is None:
                out.append(data())
                continue
            if o.kind == "inst":
                m = lookup_method(o.cls, "__getitem__")
                if m[1] is not None:
                    out.append(self.call_method(st, oid, m, [idx[1] if idx[0] == "expr" else data()], {}, node))
                else:
                    self.d.event(self, st, "noattr", node, cls=o.cls.name, attr="__getitem__", must=True)
                    out.append(data())
                continue
            if o.kind == "dict":
                ck = self.dict_key(st, idx)
                if ck is not None and ck in o.fields:
                    out.append(o.fields[ck].without_unbound())
                elif not o.elem.empty():
                    out.append(o.elem)
                else:
                    out.append(data())
                continue
            items = o.fields.get("#items")
            if items is not None and isinstance(ci, int):
                if -len(items) <= ci < len(items):
                    out.append(items[ci])
                    continue
                self.d.event(self, st, "index", node, index=ci, length=len(items))
                out.append(data())
                continue
            if idx[0] == "slice":
                sl = self.const_slice(idx)
                if items is not None and sl is not None:
                    it = tuple(items[sl])
                    out.append(self.alloc(st, "list", node, fields={"#items": it}, elem=self.j.joinall(it)))
                else:
                    out.append(self.alloc(st, "list", node, elem=o.elem))
                continue
            out.append(o.elem if not o.elem.empty() else data())
        for n, t in b.tups:
            if isinstance(ci, int) and not isinstance(ci, bool):
                if -n <= ci < n:
                    out.append(t[ci])
                else:
                    self.d.event(self, st, "index", node, index=ci, length=n)
                continue
            if idx[0] == "slice":
                sl = self.const_slice(idx)
                if sl is not None:
                    out.append(tup(t[sl]))
                    continue
                d = self.j.collapse(V(tups=((n, t),)))
                out.append(V(data=Data(d.st, "any", d.x)))
                continue
            out.append(self.j.joinall(t) if t else data())
        for c in b.consts:
            if c[0] == "str":
                out.append(data(EMPTY, "str"))
            elif c[0] in ("int", "float", "complex", "bool") and b.is_single_const():
                x = self.d.subscript(self, st, b, idx, node)    # a library scalar
                if isinstance(x, V):
                    out.append(x)
        for f in b.fns:
            if isinstance(f, ExtM):
                d = self.j.collapse(f.recv)
                out.append(data(d.st, "any"))
            elif isinstance(f, ExtV):
                x = self.d.ext_call(self, st, f.path + "[]", [idx[1] if idx[0] == "expr" else data()], {}, node)
                out.append(x if isinstance(x, V) else data())
        if b.data is not None:
            d = b.data
            x = self.d.subscript(self, st, b, idx, node)
            if isinstance(x, V):
                out.append(x)
            elif d.ty == "str":
                out.append(data(EMPTY, "str", x))
            elif d.ty == "shape":
                out.append(data(EMPTY, "shape" if idx[0] == "slice" else "num", x))
            else:
                k = self.index_kind(st, idx)
                if k == "copy":
                    out.append(data(EMPTY, "arr", x))
                else:
                    ty = "arr" if (idx[0] != "expr" and d.ty == "arr" and self.has_slice(idx)) else "any"
                    out.append(data(d.st, ty, x))
        return self.j.joinall(out) if out else data()

    def has_slice(self, idx):
        if idx[0] == "slice":
            return True
        if idx[0] == "tuple":
            return any(self.has_slice(i) or (i[0] == "expr" and i[1].is_single_const() and i[1].const() in (None, Ellipsis)) for i in idx[1])
        return False

    def const_slice(self, idx):
        vals = []
        for p in idx[1:]:
            if p is None:
                vals.append(None)
            elif p.is_single_const() and (p.const() is None or isinstance(p.const(), int)):
                vals.append(p.const())
            else:
                return None
        return slice(*vals)

    # ---- iteration
    def iterate(self, st, v, node):
        """(element V, positional items or None, known non-empty)"""
        items = self.seq_items(st, v)
        if items is None and v.data is not None:
            items = self.d.items(self, st, v)
        if items is None and self.d.concrete and v.is_single_const() and isinstance(v.const(), str):
            items = [const(c) for c in v.const()]
        if items is not None:
            return (self.j.joinall(items) if items else BOT), list(items), len(items) > 0
        out = []
        nonempty = False
        for oid in v.refs:
            o = st.heap.get(oid)
            if o is None:
                out.append(data())
            elif o.kind == "inst":
                m = lookup_method(o.cls, "__iter__")
                if m[1] is not None:
                    r = self.call_method(st, oid, m, [], {}, node)
                    out.append(self.iterate(st, r, node)[0])
                else:
                    m = lookup_method(o.cls, "__getitem__")
                    if m[1] is None:
                        self.d.event(self, st, "noattr", node, cls=o.cls.name, attr="__iter__", must=True)
                    out.append(data())
            elif o.kind == "dict":
                ks = [k[1] for k in o.fields if isinstance(k, tuple) and k[0] == "k"]
                out.append(self.j.joinall([self.keyval(k) for k in ks]) if ks else data(EMPTY, "any"))
            elif o.kind == "iter":
                out.append(o.elem)
                if o.fields.get("#nonempty"):
                    nonempty = True
            else:
                out.append(o.elem)
        for n, t in v.tups:
            out.append(self.j.joinall(t) if t else BOT)
        if v.data is not None:
            d = v.data
            x = self.d.subscript(self, st, v, ("unpack",), node)
            if isinstance(x, V):
                out.append(x)
            else:
                out.append(data(d.st, "str" if d.ty == "str" else ("num" if d.ty == "shape" else "any"), x))
        for f in v.fns:
            if isinstance(f, ExtM):
                d = self.j.collapse(f.recv)
                out.append(data(d.st, "any"))
            else:
                out.append(data())
        for c in v.consts:
            if c[0] == "str":
                out.append(data(EMPTY, "str"))
        r = self.j.joinall(out) if out else BOT
        return r, None, nonempty

    def comp(self, e, st, elts):
        """evaluates a comprehension; returns list of element Vs"""
        names = set()
        for g in e.generators:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    names.add(n.id)
        parent = self.fids[-1]
        fid = ("comp", e._nid, parent)
        self.frame_meta[fid] = (frozenset(names), parent, self.frame_meta[parent][2])
        g0 = e.generators[0]
        results = None
        itv = self.eval(g0.iter, st)
        st.frames[fid] = {}
        st.own.add(fid)
        self.fids.append(fid)
        try:
            elem, items, _ = self.iterate(st, itv, g0.iter)
            vals = []
            if len(e.generators) == 1 and items is not None and len(items) <= max(8, self.d.unroll_max) and not g0.ifs:
                for k, it in enumerate(items):
                    self.assign(g0.target, it, st, e)
                    if self.d.split_alloc:
                        self.itertag.append(k)
                    vals.append([self.eval(x, st) for x in elts])
                    if self.d.split_alloc:
                        self.itertag.pop()
                positional = True
                out = [[vv[i] for vv in vals] for i in range(len(elts))]
                return out, True
            if self.d.concrete and items is not None:
                trial = st.copy()
                vals = []
                if self.comp_turns(e, trial, elts, 0, items, vals):
                    self.merge_into(st, [trial])
                    return [[vv[i] for vv in vals] for i in range(len(elts))], True
            before = st.copy()
            self.d.event(self, st, "loopiter", e, itervalue=itv)
            cur = [st]

            def gen(k):
                g = e.generators[k]
                if k > 0:
                    v = self.eval(g.iter, cur[0])
                    el = self.iterate(cur[0], v, g.iter)[0]
                else:
                    el = elem
                self.assign(g.target, el if not el.empty() else data(), cur[0], e)
                for c in g.ifs:
                    t, f = self.branch(c, cur[0])
                    if t is not None:
                        cur[0] = t
                if k + 1 < len(e.generators):
                    gen(k + 1)
            gen(0)
            vals = [self.eval(x, cur[0]) for x in elts]
            # second pass when the body has effects is not needed for the domains used (monotone joins)
            self.merge_into(st, [before, cur[0]])
            return [[v] for v in vals], False
        finally:
            self.fids.pop()
            if fid not in self.captured:
                st.frames.pop(fid, None)
                st.own.discard(fid)

    def comp_turns(self, e, st, elts, k, items, vals):
        g = e.generators[k]
        for n, it in enumerate(items):
            if n > self.d.concrete or len(vals) > 16 * self.d.concrete:
                return False
            self.itertag.append(n)
            try:
                self.assign(g.target, it, st, e)
                keep = True
                for c in g.ifs:
                    keep = self.truth(st, self.eval(c, st))
                    if keep is None:
                        return False
                    if not keep:
                        break
                if not keep:
                    continue
                if k + 1 == len(e.generators):
                    vals.append([self.eval(x, st) for x in elts])
                    continue
                nxt = self.iterate(st, self.eval(e.generators[k + 1].iter, st), e)[1]
                if nxt is None or not self.comp_turns(e, st, elts, k + 1, nxt, vals):
                    return False
            finally:
                self.itertag.pop()
        return True

    def e_ListComp(self, e, st):
        vals, pos = self.comp(e, st, [e.elt])
        vs = vals[0]
        f = {"#items": tuple(vs)} if pos else {}
        return self.alloc(st, "list", e, fields=f, elem=self.j.joinall(vs))

    def e_GeneratorExp(self, e, st):
        return self.e_ListComp(e, st)

    def e_SetComp(self, e, st):
        vals, pos = self.comp(e, st, [e.elt])
        return self.make_set(st, vals[0], e) if pos and self.d.concrete else self.alloc(st, "set", e, elem=self.j.joinall(vals[0]))

    def e_DictComp(self, e, st):
        vals, pos = self.comp(e, st, [e.key, e.value])
        f = {"#exact": const(True)} if pos else {}
        if pos:
            for k, v in zip(vals[0], vals[1]):
                kk = self.keyof(st, k)
                if kk is not None:
                    f[kk] = v
                else:
                    f.pop("#exact", None)
        return self.alloc(st, "dict", e, fields=f, elem=self.j.joinall(vals[1]))

    def e_Yield(self, e, st):
        v = self.eval(e.value, st) if e.value is not None else NONE
        c = self.ctx[-1]
        self.yielded(st, c, [v])
        c.yields = v if c.yields is None else self.join(c.yields, v)
        return data()

    def yielded(self, st, c, items):
        """what a generator hands out is collected in order in a list of the state"""
        o = st.heap.get(c.gen) if c.gen is not None else None
        if o is None:
            return
        f = dict(o.fields)
        if items is None or "#items" in f and len(f["#items"]) + len(items) > self.d.seq_max:
            f.pop("#items", None)
        elif "#items" in f:
            f["#items"] = f["#items"] + tuple(items)
        st.heap[c.gen] = Obj(o.kind, o.cls, f, o.elem, o.x)

    def e_YieldFrom(self, e, st):
        v, its, _ = self.iterate(st, self.eval(e.value, st), e)
        c = self.ctx[-1]
        self.yielded(st, c, its)
        c.yields = v if c.yields is None else self.join(c.yields, v)
        return data()

    def e_Await(self, e, st):
        return self.eval(e.value, st)

    # ---- calls
    def e_Call(self, e, st):
        # super()
        if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Call) and isinstance(e.func.value.func, ast.Name) and e.func.value.func.id == "super":
            return self.super_call(e, st)
        f = self.eval(e.func, st)
        args, kwargs, star = self.eval_args(e, st)
        return self.call(st, f, args, kwargs, e, star)

    def eval_args(self, e, st):
        args, star = [], False
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, st)
                el, items, _ = self.iterate(st, v, a)
                if items is not None and not star:
                    args.extend(items)
                else:
                    star = True
                    args.append(el if not el.empty() else data())
            else:
                args.append(self.eval(a, st))
        kwargs = {}
        for k in e.keywords:
            v = self.eval(k.value, st)
            if k.arg is None:
                done = False
                if len(v.refs) == 1 and v.data is None:
                    (oid,) = v.refs
                    o = st.heap.get(oid)
                    if o is not None and o.kind == "dict" and len(o.fields) > ("#exact" in o.fields) and all(q == "#exact" or isinstance(q, tuple) and isinstance(q[1], str) for q in o.fields):
                        for q, vv in o.fields.items():
                            if q != "#exact":
                                kwargs[q[1]] = vv
                        done = True
                if not done:
                    kwargs["**"] = v
            else:
                kwargs[k.arg] = v
        return args, kwargs, star

    def super_call(self, e, st):
        args, kwargs, star = self.eval_args(e, st)
        fnode = e._func
        while fnode is not None and fnode._cls is None:
            fnode = fnode._func
        if fnode is None:
            return data()
        selfname = fnode.args.args[0].arg
        selfv = self.lookup(st, selfname, e)[0]
        for b in fnode._cls.bases:
            c, m = lookup_method(b, e.func.attr)
            if m is not None:
                r = self.call_fn(st, FnV(m, ("mod", c.mod.name)), [selfv] + args, kwargs, e, star)
                if self.noret and self.d.concrete:
                    st.dead = True
                return r
        return data()

    def call(self, st, f, args, kwargs, node, star=False):
        out = []
        # a call that may go to several callees: effects are joined
        targets = list(f.fns)
        insts = [o for o in f.refs]
        n = len(targets) + len(insts) + (1 if f.data is not None else 0)
        if f.consts and n == 0:
            if f.may_none():
                self.d.event(self, st, "nonenull", node, attr="()")
            return data()
        multi = n > 1
        states = []
        for t in sorted(targets, key=repr):
            s = st.copy() if multi else st
            out.append(self.call_one(s, t, args, kwargs, node, star))
            states.append(s)
        for oid in sorted(insts, key=repr):
            s = st.copy() if multi else st
            o = s.heap.get(oid)
            if o is not None and o.kind == "inst":
                m = lookup_method(o.cls, "__call__")
                if m[1] is not None:
                    out.append(self.call_method(s, oid, m, args, kwargs, node, star))
                else:
                    self.d.event(self, s, "noattr", node, cls=o.cls.name, attr="__call__", must=True)
                    out.append(data())
            else:
                out.append(data())
            states.append(s)
        if f.data is not None:
            s = st.copy() if multi else st
            r = self.d.method(self, s, V(data=f.data), "()", args, kwargs, node)
            self.d.event(self, s, "opaquecall", node, fv=f, args=args)
            out.append(r if isinstance(r, V) else data(EMPTY, "any", r))
            states.append(s)
        if multi:
            self.merge_into(st, states)
        if not out:
            return data()
        return self.j.joinall(out)

    def call_one(self, st, t, args, kwargs, node, star):
        dead = st.dead
        self.noret = self.doomed = False
        r = self.call_target(st, t, args, kwargs, node, star)
        # library code may call its arguments or not: only code of the project is known to be run
        st.dead = dead or (self.noret and bool(self.d.concrete) and isinstance(t, (FnV, BoundV, ClsV))) or self.doomed
        self.doomed = False    # (set by a model of a library call that certainly raises)
        return r

    def call_target(self, st, t, args, kwargs, node, star):
        if isinstance(t, FnV):
            return self.call_fn(st, t, args, kwargs, node, star)
        if isinstance(t, BoundV):
            return self.call_fn(st, t.fn, [t.recv] + list(args), kwargs, node, star, bound=True)
        if isinstance(t, ClsV):
            return self.instantiate(st, t.cls, args, kwargs, node, star)
        if isinstance(t, ExtV):
            return self.call_ext(st, t.path, args, kwargs, node, star)
        if isinstance(t, ExtM):
            return self.call_extm(st, t, args, kwargs, node, star)
        return data()

    def instantiate(self, st, cls, args, kwargs, node, star=False, tag=None):
        r = self.alloc(st, "inst", node, cls=cls, fields={}, tag=tag or cls.name)
        (oid,) = r.refs
        c, m = lookup_method(cls, "__init__")
        self.d.event(self, st, "new", node, cls=cls, args=args, kwargs=kwargs)
        if m is not None:
            self.call_fn(st, FnV(m, ("mod", c.mod.name)), [r] + list(args), kwargs, node, star, bound=True)
        elif args or kwargs:
            if not any("dataclass" in ast.unparse(d) for d in cls.node.decorator_list):
                self.d.event(self, st, "arity", node, func=cls.name, detail="takes no arguments")
        self.d.event(self, st, "constructed", node, cls=cls, oid=oid)
        return r

    def call_method(self, st, oid, cm, args, kwargs, node, star=False):
        c, m = cm
        r = self.call_fn(st, FnV(m, ("mod", c.mod.name)), [ref(oid)] + list(args), kwargs, node, star, bound=True)
        if self.noret and self.d.concrete:
            st.dead = True
        return r

    def def_values(self, a, st):
        """values of the defaults of a function defined inside another one"""
        if not self.d.concrete or not isinstance(self.fids[-1], tuple) or self.fids[-1][0] == "mod":
            return None
        ds = [d for d in list(a.defaults) + list(a.kw_defaults) if d is not None]
        return tuple(self.eval(d, st) for d in ds) if ds else None

    def bind_args(self, st, fnode, args, kwargs, node, star, env_fid, bound=False, defs=None):
        a = fnode.args
        pos = a.posonlyargs + a.args
        name = fnode._qual
        env = {}
        # defaults are evaluated in the defining module scope (literals in practice)
        n = len(args)
        kw = dict(kwargs)
        kwstar = kw.pop("**", None)
        for i, p in enumerate(pos):
            if i < n:
                if star and i >= n - 1:
                    env[p.arg] = args[n - 1]
                else:
                    env[p.arg] = args[i]
                if p.arg in kw and not star:
                    self.d.event(self, st, "arity", node, func=name, detail=f"multiple values for argument '{p.arg}'")
                    kw.pop(p.arg)
            elif p.arg in kw:
                env[p.arg] = kw.pop(p.arg)
            elif star:
                env[p.arg] = args[-1] if args else data()
        if n > len(pos) and not star:
            if a.vararg is None:
                self.d.event(self, st, "arity", node, func=name, detail=f"takes {len(pos)} positional arguments but {n} were given")
        if a.vararg is not None:
            rest = args[len(pos):]
            if star:
                env[a.vararg.arg] = V(data=Data(self.j.collapse(self.j.joinall(rest) if rest else BOT).st, "any"))
            else:
                env[a.vararg.arg] = tup(rest)
        for p in a.kwonlyargs:
            if p.arg in kw:
                env[p.arg] = kw.pop(p.arg)
        if kw:
            if a.kwarg is None:
                for k in kw:
                    self.d.event(self, st, "arity", node, func=name, detail=f"unexpected keyword argument '{k}'")
        if a.kwarg is not None:
            env[a.kwarg.arg] = self.alloc(st, "dict", fnode, fields={("k", k): v for k, v in kw.items()} | ({"#exact": const(True)} if kwstar is None and self.d.concrete else {}), elem=self.j.joinall(kw.values()) if kw else BOT, tag="kw")
        nd = len(a.defaults)
        known = dict(zip([id(d) for d in list(a.defaults) + list(a.kw_defaults) if d is not None], defs)) if defs is not None else {}
        for i, p in enumerate(pos):
            if p.arg not in env:
                k = i - (len(pos) - nd)
                if k >= 0:
                    env[p.arg] = known[id(a.defaults[k])] if id(a.defaults[k]) in known else self.eval_default(st, a.defaults[k], env_fid)
                else:
                    if kwstar is None and not star:
                        self.d.event(self, st, "arity", node, func=name, detail=f"missing required argument '{p.arg}'")
                    env[p.arg] = data()
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if p.arg not in env:
                if d is not None:
                    env[p.arg] = known[id(d)] if id(d) in known else self.eval_default(st, d, env_fid)
                else:
                    if kwstar is None:
                        self.d.event(self, st, "arity", node, func=name, detail=f"missing required keyword argument '{p.arg}'")
                    env[p.arg] = data()
        return env

    def eval_default(self, st, e, env_fid):
        self.fids.append(env_fid)
        try:
            v = self.eval(e, st)
        finally:
            self.fids.pop()
        if isinstance(e, (ast.List, ast.Dict, ast.Set)):
            # mutable default lives as long as the function
            for oid in v.refs:
                self.d.event(self, st, "mutdefault", e, oid=oid)
        return v

    def call_fn(self, st, f, args, kwargs, node, star=False, bound=False):
        fnode = f.node
        self.stats["calls"] += 1
        self.stats["functions"].add(fnode)
        self.noret = False
        r = self.d.on_call(self, st, f, args, kwargs, node)
        self.noret = False
        if isinstance(r, V):
            return r
        depth = sum(1 for n, _ in self.callstack if n is fnode)
        deep = 12 if self.d.concrete and all(a.is_single_const() for a in args) else 2
        if depth >= deep or len(self.callstack) > self.max_depth:
            d = Data()
            for a in list(args) + list(kwargs.values()):
                d = self.j.jdata(d, Data(self.j.collapse(a).st, "any", None))
            return V(data=d)
        ctxsite = tuple(n._nid for _, n in self.callstack[-6:]) + (getattr(node, "_nid", 0),) + ((depth,) if depth > 1 else ())
        fid = ("f", fnode._nid, ctxsite)
        if f.env not in self.frame_meta:
            raise AnalysisBroken("lost environment")
        self.frame_meta[fid] = (fnode, f.env, fnode._mod if hasattr(fnode, "_mod") else None)
        env = self.bind_args(st, fnode, args, kwargs, node, star, f.env, bound, f.defs)
        st.frames[fid] = dict(env)
        st.own.add(fid)
        if st.facts:
            st.facts = frozenset(x for x in st.facts if not any(isinstance(n[0], tuple) and n[0] == fid for n in x[2]))
        for k in [k for k in st.guards if k[0] == fid]:
            del st.guards[k]
        self.fids.append(fid)
        self.ctx.append(FrameCtx(fnode))
        self.callstack.append((fnode, node))
        try:
            self.d.event(self, st, "enter", fnode, call=node)
            if isinstance(fnode, ast.Lambda):
                work = st
                rv = self.eval(fnode.body, work)
                rs = work
                if work.dead:
                    rs = None
                    st.dead = False
            else:
                work = st.copy()
                gen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) and x._func is fnode for x in ast.walk(fnode))
                c = self.ctx[-1]
                if gen and self.d.concrete:
                    (c.gen,) = self.alloc(work, "list", fnode, fields={"#items": ()}, tag="genitems").refs
                end = self.exec_block(fnode.body, work)
                c = self.ctx[-1]
                rv, rs = c.ret_v, c.ret_s
                if end is not None:
                    self.d.event(self, end, "falloff", fnode)
                    rv = self.join(rv, NONE)
                    rs = self.join_states(rs, end)
                if c.yields is not None or gen:
                    if rs is not None and c.gen is not None and c.gen in rs.heap:
                        o = rs.heap[c.gen]
                        rv = self.alloc(rs, "list", fnode, fields=dict(o.fields), elem=c.yields if c.yields is not None else BOT, tag="gen")
                    elif rs is not None:
                        rv = self.alloc(rs, "list", fnode, elem=c.yields if c.yields is not None else BOT, tag="gen")
        finally:
            self.callstack.pop()
            self.ctx.pop()
            self.fids.pop()
        noret = fnode if rs is None else False
        if rs is None:
            # never returns normally
            self.d.event(self, st, "noreturn", node, func=fnode)
            rv = BOT
            rs = st
        if rs is not st:
            st.frames, st.own, st.heap, st.ts, st.facts, st.guards = rs.frames, set(rs.own), rs.heap, rs.ts, rs.facts, rs.guards
            rs.own = set()
        if fid not in self.captured:
            st.frames.pop(fid, None)
            st.own.discard(fid)
        rv = self.d.on_return(self, st, f, rv, node, env)
        self.noret = noret
        return rv if not rv.empty() else data()

    # ---- external callables
    def kw(self, kwargs, name):
        return kwargs.get(name)

    def call_ext(self, st, path, args, kwargs, node, star):
        self.stats["extcalls"] += 1
        self.d.event(self, st, "extcall", node, path=path, args=args, kwargs=kwargs)
        if path.startswith("builtins."):
            r = self.call_builtin(st, path[9:], args, kwargs, node, star)
            x = self.d.ext_call(self, st, path, args, kwargs, node)
            if isinstance(x, V):
                return x
            if x is not None and r.data is not None:
                r = V(r.consts, Data(r.data.st, r.data.ty, x), r.tups, r.refs, r.fns)
            return r
        leaf = path.split(".")[-1]
        out = kwargs.get("out")
        if out is not None:
            self.mutate(st, out, node, f"out= argument of {leaf}")
            for _, t in out.tups:
                for i in t:
                    self.mutate(st, i, node, f"out= argument of {leaf}")
        if leaf in MUT_FUNCS and args:
            self.mutate(st, args[0], node, leaf)
        for k, v in kwargs.items():
            if k in OVERWRITE and not (v.is_single_const() and not v.const()):
                i = OVERWRITE[k]
                if i < len(args):
                    self.mutate(st, args[i], node, f"{k} of {leaf}")
        if path.startswith("numpy.") and leaf == "at" and args:
            self.mutate(st, args[0], node, path)
        x = self.d.ext_call(self, st, path, args, kwargs, node)
        if isinstance(x, V):
            return x
        if out is not None:
            d = self.j.collapse(out)
            return V(data=Data(d.st, d.ty, x))
        root = path.split(".")[0]
        if path in ("copy.deepcopy",):
            return self.deepcopy(st, args[0], node) if args else data()
        if path == "copy.copy" and args:
            return self.shallow(st, args[0], node)
        if path in ("functools.partial",) and args:
            return args[0]
        if root in ("numpy", "scipy"):
            if leaf in ("array",) and args:
                cp = kwargs.get("copy")
                if cp is not None and not (cp.is_single_const() and cp.const() is True):
                    d = self.j.collapse(args[0])
                    return data(self.deep_st(st, args[0]), "arr", x)
                return data(EMPTY, "arr", x)
            if leaf == "nan_to_num" and "copy" in kwargs and args:
                self.mutate(st, args[0], node, leaf)
                return data(self.deep_st(st, args[0]), "any", x)
            if leaf in VIEW_FUNCS and args and path.count(".") == 1:
                a = args[VIEW_FUNCS[leaf]]
                s = self.view_st(st, a)
                ty = "num" if (leaf in ("real", "imag") and self.j.collapse(a).ty == "num") else "arr"
                return data(s, ty, x)
            if leaf == "einsum" and args and args[0].is_single_const() and isinstance(args[0].const(), str) and len(args) == 2:
                sub = args[0].const()
                # a pure relabelling or diagonal returns a view
                return data(self.view_st(st, args[1]), "arr", x)
            if leaf in ("shape",):
                return data(EMPTY, "shape", x)
            if leaf in ("ndim", "size"):
                return data(EMPTY, "num", x)
            if leaf in ("round", "sum", "mean", "max", "min", "abs", "real", "prod", "sqrt", "exp", "log", "cos", "sin", "maximum", "minimum", "std", "median", "norm", "det", "argmin", "argmax", "dot", "floor", "ceil", "sign"):
                ds = [self.j.collapse(a) for a in args[:1]]
                ty = "num" if ds and all(d.ty == "num" for d in ds) else ("num" if leaf in ("det",) and False else "any")
                return data(EMPTY, ty, x)
            if leaf in ARR_FUNCS:
                if leaf in ("meshgrid", "unique_all"):
                    return self.alloc(st, "list", node, elem=data(EMPTY, "arr", x))
                return data(EMPTY, "arr", x)
            if leaf in ("eigh", "eig", "qr", "svd", "slogdet", "linear_sum_assignment", "lstsq") and path.split(".")[-2] in ("linalg", "optimize"):
                return data(EMPTY, "any", x)
            return data(EMPTY, "any", x)
        if root in ("itertools", "functools") and args and self.d.concrete and not star:
            r = self.call_iter(st, leaf, args, kwargs, node)
            if r is not None:
                return r
        if root == "itertools" and args:
            d = Data()
            for a in args:
                d = self.j.jdata(d, Data(self.view_st(st, a), "any"))
            return self.alloc(st, "iter", node, elem=V(data=Data(d.st, "any", x)))
        if root in ("math", "cmath", "time", "random"):
            return data(EMPTY, "num", x)
        if root in ("os", "re", "json", "subprocess", "shutil", "sys"):
            ty = "any"
            if path.startswith("os.path") or path in ("os.getcwd", "json.dumps"):
                ty = "num" if leaf in ("exists", "isfile", "isdir", "getsize") else "str"
            return data(EMPTY, ty, x)
        return data(EMPTY, "any", x)

    def call_iter(self, st, name, args, kwargs, node):
        """functions of itertools and functools on sequences whose items are known"""
        def out(items):
            items = tuple(items)
            return self.alloc(st, "list", node, fields={"#items": items}, elem=self.j.joinall(items) if items else BOT) if len(items) <= self.d.seq_max else None
        if name == "reduce":
            its = self.iterate(st, args[1], node)[1] if len(args) > 1 else None
            its = its if its is None or len(args) < 3 else [args[2]] + list(its)
            if not its:
                return None
            r = its[0]
            for i in its[1:]:
                r = self.call(st, args[0], [r, i], {}, node)
            return r
        if name in ("accumulate", "starmap", "takewhile", "dropwhile", "repeat", "islice", "chain", "product", "permutations", "combinations", "combinations_with_replacement", "zip_longest", "pairwise"):
            num = [a.const() if a.is_single_const() and isinstance(a.const(), int) else None for a in args]
            lists = [None if n is not None else self.iterate(st, a, node)[1] for a, n in zip(args, num)]
            if name in ("chain", "product", "pairwise") and None not in lists:
                rp = kwargs.get("repeat", const(1))
                if name == "product" and rp.is_single_const() and set(kwargs) <= {"repeat"}:
                    return out(tup(x) for x in itertools.product(*lists, repeat=rp.const()))
                if not kwargs:
                    return out(x for l in lists for x in l) if name == "chain" else out(tup(x) for x in zip(lists[0], lists[0][1:]))
            if name in ("permutations", "combinations", "combinations_with_replacement") and lists[0] is not None and not kwargs:
                if len(args) == 1 or num[1] is not None:
                    return out(tup(x) for x in getattr(itertools, name)(lists[0], *num[1:]))
            if name == "islice" and lists[0] is not None and None not in num[1:]:
                return out(itertools.islice(lists[0], *num[1:]))
            if name == "repeat" and len(args) == 2 and num[1] is not None:
                return out([args[0]] * num[1])
            if name == "starmap" and len(args) == 2 and (its := self.iterate(st, args[1], node)[1]) is not None:
                parts = [self.iterate(st, i, node)[1] for i in its]
                return None if None in parts else out(self.call(st, args[0], list(x), {}, node) for x in parts)
            if name == "accumulate" and lists[0] and not kwargs:
                r = [lists[0][0]]
                for i in lists[0][1:]:
                    r.append(self.call(st, args[1], [r[-1], i], {}, node) if len(args) > 1 else self.do_binop(st, ast.Add(), r[-1], i, node))
                return out(r)
        return None

    def view_st(self, st, v):
        """buffers an asarray-like view of v may share: arrays share, sequences are copied"""
        s = set()
        if v.data is not None:
            s |= v.data.st
        for f in v.fns:
            if isinstance(f, ExtM):
                s |= self.j.collapse(f.recv).st
        return frozenset(s)

    def deep_st(self, st, v, seen=None):
        """every buffer reachable from v"""
        seen = seen if seen is not None else set()
        s = set()
        if v.data is not None:
            s |= v.data.st
        for _, t in v.tups:
            for i in t:
                s |= self.deep_st(st, i, seen)
        for f in v.fns:
            if isinstance(f, ExtM):
                s |= self.deep_st(st, f.recv, seen)
            elif isinstance(f, BoundV):
                s |= self.deep_st(st, f.recv, seen)
        for oid in v.refs:
            if oid in seen:
                continue
            seen.add(oid)
            o = st.heap.get(oid)
            if o is None:
                continue
            s |= self.deep_st(st, o.elem, seen)
            for k, fv in o.fields.items():
                if k == "#items":
                    for i in fv:
                        s |= self.deep_st(st, i, seen)
                elif isinstance(fv, V):
                    s |= self.deep_st(st, fv, seen)
        return frozenset(s)

    def deepcopy(self, st, v, node):
        d = Data(EMPTY, v.data.ty, v.data.x) if v.data is not None else None
        refs = set()
        for oid in v.refs:
            o = st.heap.get(oid)
            if o is None:
                continue
            no = ("deepcopy", node._nid, oid, self.fids[-1])
            if no not in st.heap:
                st.heap[no] = Obj(o.kind, o.cls, {}, BOT, o.x)
                f = {}
                for k, fv in o.fields.items():
                    f[k] = tuple(self.deepcopy(st, i, node) for i in fv) if k == "#items" else self.deepcopy(st, fv, node)
                st.heap[no] = Obj(o.kind, o.cls, f, self.deepcopy(st, o.elem, node), o.x)
            refs.add(no)
        tups = tuple((n, tuple(self.deepcopy(st, i, node) for i in t)) for n, t in v.tups)
        return V(v.consts, d, tups, frozenset(refs), v.fns, v.unbound)

    def shallow(self, st, v, node):
        d = Data(EMPTY, v.data.ty, v.data.x) if v.data is not None else None
        refs = set()
        for oid in v.refs:
            o = st.heap.get(oid)
            if o is None:
                continue
            no = ("copy", node._nid, oid, self.fids[-1])
            st.heap[no] = Obj(o.kind, o.cls, o.fields, o.elem, o.x)
            refs.add(no)
        return V(v.consts, d, v.tups, frozenset(refs), v.fns, v.unbound)

    def call_builtin(self, st, name, args, kwargs, node, star):
        a0 = args[0] if args else None
        if name in ("len",):
            if a0 is not None:
                items = self.seq_items(st, a0)
                if items is not None:
                    return const(len(items))
                for oid in a0.refs:
                    o = st.heap.get(oid)
                    if o is not None and o.kind == "inst":
                        m = lookup_method(o.cls, "__len__")
                        if m[1] is None:
                            self.d.event(self, st, "noattr", node, cls=o.cls.name, attr="__len__", must=True)
                        else:
                            r = self.call_method(st, oid, m, [], {}, node)
                            if len(a0.refs) == 1 and not (a0.consts or a0.tups or a0.data or a0.fns) and isinstance(r, V) and self.d.concrete:
                                return r
                    elif o is not None and o.kind == "dict" and self.d.concrete and len(a0.refs) == 1 and self.exact_keys(o) is not None:
                        return const(len(self.exact_keys(o)))
                if a0.is_single_const() and isinstance(a0.const(), str):
                    return const(len(a0.const()))
            return data(EMPTY, "num")
        if name in ("int", "float", "complex", "round", "ord", "hash", "id", "abs", "pow", "divmod"):
            if a0 is not None and a0.only_consts() and len(args) == 1 and name in ("int", "float", "abs", "round"):
                try:
                    return self.j.joinall([const({"int": int, "float": float, "abs": abs, "round": round}[name](c[1])) for c in a0.consts])
                except Exception:
                    pass
            if name == "abs" and a0 is not None:
                d = self.j.collapse(a0)
                return data(EMPTY, d.ty)
            if name == "divmod" and self.d.concrete and len(args) == 2:
                return tup([self.do_binop(st, ast.FloorDiv(), args[0], args[1], node), self.do_binop(st, ast.Mod(), args[0], args[1], node)])
            if name == "divmod":
                return tup([data(EMPTY, "num"), data(EMPTY, "num")])
            return data(EMPTY, "num")
        if name in ("str", "repr", "chr", "format", "input", "hex", "bin", "ascii"):
            if name == "str" and a0 is not None and a0.is_single_const():
                return const(str(a0.const()))
            for a in args:
                for oid in a.refs:
                    o = st.heap.get(oid)
                    if o is not None and o.kind == "inst" and name in ("str", "repr", "format"):
                        for mn in ("__str__", "__repr__"):
                            m = lookup_method(o.cls, mn)
                            if m[1] is not None:
                                self.call_method(st, oid, m, [], {}, node)
                                break
            return data(EMPTY, "str")
        if name == "bool" and a0 is not None:
            t = self.truth(st, a0)
            return BOOL if t is None else const(t)
        if name in ("any", "all") and a0 is not None and self.d.concrete:
            items = self.iterate(st, a0, node)[1]
            if items is not None:
                ts = [self.truth(st, i) for i in items]
                if (name == "any") in ts:
                    return const(name == "any")
                return BOOL if None in ts else const(name == "all")
        if name in ("any", "all", "callable", "hasattr", "issubclass"):
            if name == "hasattr" and a0 is not None and len(args) == 2 and args[1].is_single_const():
                res = set()
                for oid in a0.refs:
                    o = st.heap.get(oid)
                    if o is not None and o.kind == "inst":
                        nm = args[1].const()
                        res.add(nm in o.fields or lookup_method(o.cls, nm)[1] is not None)
                if len(res) == 1 and a0.data is None and not a0.fns:
                    return const(res.pop())
            return BOOL
        if name == "isinstance" and len(args) == 2:
            return self.isinstance_(st, a0, args[1])
        if name == "type" and len(args) == 1:
            out = []
            for oid in a0.refs:
                o = st.heap.get(oid)
                out.append(fn(ClsV(o.cls)) if o is not None and o.kind == "inst" and o.cls is not None else fn(ExtV(f"builtins.{o.kind if o else 'object'}")))
            if self.d.concrete and a0.only_consts() and len({c[0] for c in a0.consts}) == 1:
                return fn(ExtV(f"builtins.{next(iter(a0.consts))[0]}"))
            if a0.data is not None or a0.consts or a0.tups or a0.fns:
                out.append(data())
            return self.j.joinall(out)
        if name == "range":
            ne = False
            if len(args) == 1 and a0.is_single_const() and isinstance(a0.const(), int):
                n = a0.const()
                if 0 <= n <= self.d.seq_max:
                    return self.alloc(st, "list", node, fields={"#items": tuple(const(i) for i in range(n))}, elem=data(EMPTY, "num") if n > 3 else self.j.joinall([const(i) for i in range(n)]))
                ne = n > 0
            elif len(args) in (2, 3) and all(a.is_single_const() and isinstance(a.const(), int) for a in args):
                rg = range(*[a.const() for a in args])
                if len(rg) <= self.d.seq_max:
                    its = tuple(const(i) for i in rg)
                    return self.alloc(st, "list", node, fields={"#items": its}, elem=self.j.joinall(its))
                ne = len(rg) > 0
            x = self.d.ext_call(self, st, "builtins.range", args, kwargs, node)
            el = x if isinstance(x, V) else data(EMPTY, "num", x)
            return self.alloc(st, "iter", node, elem=el, fields={"#nonempty": True} if ne else {})
        if name == "enumerate":
            el, items, _ = self.iterate(st, a0, node)
            s0 = args[1] if len(args) > 1 else kwargs.get("start", const(0))
            if items is not None and len(items) <= self.d.seq_max and s0.is_single_const() and isinstance(s0.const(), int):
                its = tuple(tup([const(i), v]) for i, v in enumerate(items, s0.const()))
                return self.alloc(st, "list", node, fields={"#items": its}, elem=self.j.joinall(its))
            return self.alloc(st, "iter", node, elem=tup([data(EMPTY, "num", self.d.ext_call(self, st, "builtins.enumerate", args, kwargs, node)), el if not el.empty() else data()]))
        if name == "zip":
            parts, allitems = [], []
            for a in args:
                el, items, _ = self.iterate(st, a, node)
                parts.append(el if not el.empty() else data())
                allitems.append(items)
            if star:
                d = self.j.collapse(self.j.joinall(parts))
                return self.alloc(st, "iter", node, elem=V(data=Data(d.st, "any")))
            if allitems and all(i is not None for i in allitems):
                n = min(len(i) for i in allitems)
                if n <= max(16, self.d.seq_max):
                    its = tuple(tup([i[k] for i in allitems]) for k in range(n))
                    return self.alloc(st, "list", node, fields={"#items": its}, elem=self.j.joinall(its))
            return self.alloc(st, "iter", node, elem=tup(parts))
        if name in ("list", "tuple", "sorted", "reversed", "set", "iter", "frozenset"):
            kind = {"list": "list", "sorted": "list", "set": "set", "frozenset": "set"}.get(name, "list")
            if a0 is None:
                return tup([]) if name == "tuple" else self.alloc(st, kind, node, fields={"#items": ()})
            el, items, _ = self.iterate(st, a0, node)
            if name == "sorted" and self.d.concrete and items is not None:
                items = self.ordered(st, items, kwargs, node)
                if items is not None:
                    return self.alloc(st, "list", node, fields={"#items": tuple(items)}, elem=el)
            elif "key" in kwargs:
                self.call(st, kwargs["key"], [el if not el.empty() else data()], {}, node)
            if name == "tuple":
                if items is not None:
                    return tup(items)
                d = self.j.collapse(el)
                return V(data=Data(d.st | self.j.collapse(a0).st, "any", self.d.ext_call(self, st, "builtins.tuple", args, kwargs, node)))
            f = {}
            if items is not None:
                if name == "list":
                    f["#items"] = tuple(items)
                elif name == "reversed":
                    f["#items"] = tuple(reversed(items))
            if kind == "set" and self.d.concrete:
                return self.make_set(st, items, node) if items is not None else self.alloc(st, kind, node, elem=el)
            if name == "iter" and self.d.concrete and items is not None:
                f["#items"] = tuple(items)
            return self.alloc(st, kind, node, fields=f, elem=el)
        if name == "dict":
            f = {("k", k): v for k, v in kwargs.items() if k != "**"}
            if a0 is None and "**" not in kwargs and not star:
                f["#exact"] = const(True)
            el = self.j.joinall(f.values()) if f else BOT
            if a0 is not None:
                for oid in a0.refs:
                    o = st.heap.get(oid)
                    if o is not None and o.kind == "dict":
                        f = {**o.fields, **f}
                        el = self.join(el, o.elem)
                    elif o is not None:
                        el = self.join(el, o.elem)
                if a0.data is not None:
                    el = self.join(el, data(a0.data.st, "any"))
            return self.alloc(st, "dict", node, fields=f, elem=el)
        if name in ("map", "filter"):
            its = [self.iterate(st, a, node) for a in args[1:]]
            if self.d.concrete and name == "map" and all(i[1] is not None for i in its):
                rs = tuple(self.call(st, a0, list(xs), {}, node) for xs in zip(*[i[1] for i in its]))
                return self.alloc(st, "list", node, fields={"#items": rs}, elem=self.j.joinall(rs))
            if self.d.concrete and name == "filter" and len(its) == 1 and its[0][1] is not None:
                ts = [self.truth(st, i if a0.is_single_const() else self.call(st, a0, [i], {}, node)) for i in its[0][1]]
                if None not in ts:
                    rs = tuple(i for i, t in zip(its[0][1], ts) if t)
                    return self.alloc(st, "list", node, fields={"#items": rs}, elem=self.j.joinall(rs) if rs else BOT)
            els = [i[0] if not i[0].empty() else data() for i in its]
            r = self.call(st, a0, els, {}, node) if not (a0.is_single_const()) else data()
            return self.alloc(st, "iter", node, elem=r if name == "map" else els[0])
        if name == "next" and self.d.concrete and a0 is not None and len(a0.refs) == 1:
            items = self.seq_items(st, a0)
            if items is not None and (items or len(args) > 1):
                if not items:
                    return args[1]
                (oid,) = a0.refs
                o = st.heap[oid]
                st.heap[oid] = Obj(o.kind, o.cls, {**o.fields, "#items": tuple(items[1:])}, o.elem, o.x)
                return items[0]
        if name in ("min", "max") and self.d.concrete and "key" in kwargs and len(args) == 1:
            items = self.iterate(st, a0, node)[1]
            o = self.ordered(st, items, {"key": kwargs["key"]} | ({"reverse": const(True)} if name == "max" else {}), node) if items else None
            if o:
                return o[0]
        if name in ("min", "max", "sum", "next"):
            if name in ("min", "max") and len(args) >= 2:
                tys = {self.j.collapse(a).ty for a in args}
                ss = set()
                for a in args:
                    ss |= self.j.collapse(a).st
                if tys == {"num"}:
                    return data(EMPTY, "num")
                return data(frozenset(ss), "any")
            if "key" in kwargs and a0 is not None:
                self.call(st, kwargs["key"], [self.iterate(st, a0, node)[0]], {}, node)
            if a0 is not None:
                el = self.iterate(st, a0, node)[0]
                if name == "sum":
                    return data(EMPTY, self.j.collapse(el).ty)
                return el if not el.empty() else data()
            return data()
        if name == "getattr" and len(args) >= 2:
            if args[1].is_single_const():
                r = self.getattr(st, a0, args[1].const(), node)
                return self.join(r, args[2]) if len(args) > 2 else r
            return data()
        if name == "setattr" and len(args) == 3:
            if args[1].is_single_const():
                self.setattr(st, a0, args[1].const(), args[2], node)
            else:
                for oid in a0.refs:
                    self.d.event(self, st, "setattr", node, oid=oid, attr="?", value=args[2])
            return NONE
        if name == "print":
            return NONE
        if name == "slice":
            return data(EMPTY, "num")
        if name == "open":
            return data(EMPTY, "file")
        return data()

    def isinstance_(self, st, v, cls):
        clss = [f.cls for f in cls.fns if isinstance(f, ClsV)]
        exts = [f.path for f in cls.fns if isinstance(f, ExtV)]
        for n, t in cls.tups:
            for e in t:
                clss += [f.cls for f in e.fns if isinstance(f, ClsV)]
                exts += [f.path for f in e.fns if isinstance(f, ExtV)]
        if cls.data is not None:
            return BOOL
        pyt = {e.split(".")[-1] for e in exts}
        res = set()
        for oid in v.refs:
            o = st.heap.get(oid)
            if o is None:
                return BOOL
            if o.kind == "inst":
                res.add(any(self.subclass(o.cls, c) for c in clss))
            else:
                res.add(o.kind in pyt or bool(pyt & ABCS.get(o.kind, EMPTY)))
        for c in v.consts:
            if pyt & NUMPY_SCALARS and c[0] in ("bool", "int", "float", "complex"):
                return BOOL
            res.add(c[0] in pyt or (c[0] == "bool" and "int" in pyt) or bool(pyt & ABCS.get(c[0], EMPTY)))
        for n, t in v.tups:
            res.add("tuple" in pyt or bool(pyt & ABCS["tuple"]))
        for f in v.fns:
            if isinstance(f, ExtM):
                return BOOL
            res.add(False if not pyt & {"Callable", "FunctionType"} else True)
        if v.data is not None:
            if v.data.ty == "str" and pyt and not clss:
                res.add("str" in pyt)
            elif v.data.ty == "arr" and pyt == {"ndarray"}:
                res.add(True)
            elif not exts and clss and v.data.ty in ("num", "str", "arr"):
                res.add(False)
            else:
                return BOOL
        return self.j.joinall([const(r) for r in res]) if res else BOOL

    def str_method(self, st, s, name, args, node):
        if name == "join":
            its = self.iterate(st, args[0], node)[1] if args else None
            return const(s.join(i.const() for i in its)) if its is not None and all(i.is_single_const() and isinstance(i.const(), str) for i in its) else None
        if not all(a.is_single_const() for a in args):
            return None
        try:
            r = getattr(s, name)(*[a.const() for a in args])
        except Exception:
            return None
        if isinstance(r, (list, tuple)):
            its = tuple(const(i) for i in r)
            return tup(its) if isinstance(r, tuple) else self.alloc(st, "list", node, fields={"#items": its}, elem=self.j.joinall(its))
        return const(r)

    def call_extm(self, st, m, args, kwargs, node, star):
        recv, name = m.recv, m.name
        self.d.event(self, st, "methodcall", node, recv=recv, name=name, args=args, kwargs=kwargs)
        if "out" in kwargs:
            self.mutate(st, kwargs["out"], node, f"out= argument of {name}")
        if self.d.concrete and recv.is_single_const() and isinstance(recv.const(), str) and name in STR_FUNCS and not kwargs and not star:
            r = self.str_method(st, recv.const(), name, args, node)
            if r is not None:
                return r
        # lists / dicts / sets on the heap
        outs = []
        handled = False
        for oid in recv.refs:
            o = st.heap.get(oid)
            if o is None:
                continue
            handled = True
            outs.append(self.container_method(st, oid, o, name, args, kwargs, node, len(recv.refs) == 1))
        if handled and recv.data is None:
            return self.j.joinall(outs)
        x = self.d.method(self, st, recv, name, args, kwargs, node)
        if isinstance(x, V):
            return self.j.joinall(outs + [x])
        d = self.j.collapse(recv)
        if recv.only_consts() and recv.is_single_const() and isinstance(recv.const(), str):
            s = recv.const()
            if name in ("endswith", "startswith", "lower", "upper", "strip", "split", "replace", "join", "isalnum") and all(a.is_single_const() for a in args):
                try:
                    r = getattr(s, name)(*[a.const() for a in args])
                    if isinstance(r, (str, bool, int)):
                        return const(r)
                except Exception:
                    pass
        if d.ty == "str" or (recv.only_consts() and all(c[0] == "str" for c in recv.consts)):
            if name in ("split", "splitlines", "rsplit", "partition", "rpartition"):
                if name.endswith("partition"):
                    return tup([data(EMPTY, "str", x)] * 3)
                return self.alloc(st, "list", node, elem=data(EMPTY, "str", x))
            if name in ("endswith", "startswith", "isalnum", "isdigit", "isnumeric", "isalpha", "isidentifier"):
                return BOOL
            if name in ("find", "index", "count", "rfind"):
                return data(EMPTY, "num", x)
            return data(EMPTY, "str", x)
        if name in MUT_METHODS:
            self.mutate(st, V(data=recv.data, fns=recv.fns), node, f".{name}()")
        if name in VIEW_METHODS:
            return self.j.joinall(outs + [data(d.st, "any" if name in ("get", "items", "values", "pop") else "arr", x)])
        if name == "astype":
            cp = kwargs.get("copy")
            if cp is not None and not (cp.is_single_const() and cp.const() is True):
                return data(d.st, "arr", x)
            return data(EMPTY, "arr", x)
        if name == "copy":
            return data(EMPTY, d.ty, x)
        if name in ("tolist",):
            return self.alloc(st, "list", node, elem=data(EMPTY, "any", x))
        if name in ("flatten",):
            return data(EMPTY, "arr", x)
        if name in ("readline", "read", "join", "format", "strip"):
            return data(EMPTY, "str", x)
        if name == "readlines":
            return self.alloc(st, "list", node, elem=data(EMPTY, "str", x))
        return self.j.joinall(outs + [data(EMPTY, "any", x)])

    def ordered(self, st, items, kwargs, node):
        """the items in sorted order, or None when the keys are not constants"""
        rev = kwargs.get("reverse")
        if rev is not None and not rev.is_single_const():
            return None
        key = kwargs.get("key")
        ks = items if key is None or key.is_single_const() else [self.call(st, key, [i], {}, node) for i in items]
        ks = [self.keyof(st, k) for k in ks]
        if None in ks:
            return None
        try:
            o = sorted(range(len(ks)), key=lambda i: ks[i][1], reverse=bool(rev is not None and rev.const()))
        except TypeError:
            return None
        return [items[i] for i in o]

    def exact_list(self, st, o, name, args, kwargs, node):
        """(new items, result) of a list operation on a list whose items are all known, or None"""
        its = o.fields["#items"]
        c = [a.const_or(None) if a.is_single_const() else self.d.key_const(self, st, a) if a.data is not None else None for a in args]
        if name == "extend" and len(args) == 1:
            more = self.iterate(st, args[0], node)[1]
            return None if more is None or len(its) + len(more) > max(32, self.d.seq_max) else (its + tuple(more), NONE)
        if name == "insert" and len(args) == 2 and isinstance(c[0], int):
            r = list(its)
            r.insert(c[0], args[1])
            return tuple(r), NONE
        if name == "pop" and its and (not args or isinstance(c[0], int)):
            i = c[0] if args else -1
            if -len(its) <= i < len(its):
                r = list(its)
                x = r.pop(i)
                return tuple(r), x
        if name == "remove" and len(args) == 1:
            p = self.position(st, its, args[0], "index")
            if p is not None:
                return its[:p.const()] + its[p.const() + 1:], NONE
        if name == "clear":
            return (), NONE
        if name == "reverse":
            return tuple(reversed(its)), NONE
        if name == "sort" and not args:
            r = self.ordered(st, its, kwargs, node)
            return None if r is None else (tuple(r), NONE)
        return None

    def position(self, st, items, v, name):
        ks = [self.keyof(st, i) for i in items]
        k = self.keyof(st, v)
        if k is None or None in ks:
            return None
        ks = [i[1] for i in ks]
        if name == "index" and k[1] not in ks:
            return None
        return const(ks.index(k[1]) if name == "index" else ks.count(k[1]))

    def container_method(self, st, oid, o, name, args, kwargs, node, single):
        if name in MUT_METHODS:
            self.d.event(self, st, "mutobj", node, oid=oid, how=f".{name}()")
        a0 = args[0] if args else None
        f = o.fields
        if self.d.concrete and single and o.kind == "list" and "#items" in f and name in ("extend", "insert", "pop", "remove", "clear", "reverse", "sort"):
            r = self.exact_list(st, o, name, args, kwargs, node)
            if r is not None:
                el = self.j.joinall([o.elem] + list(r[0][len(f["#items"]):]) + (list(args[1:]) if name == "insert" else []))
                st.heap[oid] = Obj(o.kind, o.cls, {**f, "#items": r[0]}, el, o.x)
                return r[1]
        if self.d.concrete and o.kind == "set" and "#items" in f:
            sop = {"add": "or", "update": "or", "discard": "sub", "remove": "sub", "union": "or", "intersection": "and", "difference": "sub", "symmetric_difference": "xor",
                   "intersection_update": "and", "difference_update": "sub"}.get(name)
            if sop and len(args) == 1:
                other = [a0] if name in ("add", "discard", "remove") else self.iterate(st, a0, node)[1]
                its = self.set_op(st, sop, f["#items"], other, node)
                if name in ("union", "intersection", "difference", "symmetric_difference"):
                    if its is not None:
                        return self.make_set(st, its, node)
                elif single and its is not None:
                    st.heap[oid] = Obj(o.kind, o.cls, {**f, "#items": tuple(its)}, self.join(o.elem, self.j.joinall(its)) if its else o.elem, o.x)
                    return NONE
                else:
                    st.heap[oid] = Obj(o.kind, o.cls, {k: v for k, v in f.items() if k != "#items"}, self.join(o.elem, self.iterate(st, a0, node)[0] if name != "add" else a0), o.x)
                    return NONE
        if name == "append" and a0 is not None:
            nf = dict(f)
            if "#items" in nf:
                if len(nf["#items"]) < max(16, self.d.seq_max) and single:
                    nf["#items"] = nf["#items"] + (a0,)
                else:
                    nf.pop("#items")
            st.heap[oid] = Obj(o.kind, o.cls, nf, self.join(o.elem, a0), o.x)
            return NONE
        if name in ("extend", "update", "insert", "add"):
            if name == "insert" and len(args) == 2:
                el = args[1]
            elif name == "add":
                el = a0
            else:
                el = self.iterate(st, a0, node)[0] if a0 is not None else BOT
            nf = {k: v for k, v in f.items() if k not in ("#items", "#exact")}
            if name == "extend" and a0 is not None and "#items" in f:
                r2 = self.seq_items(st, a0)
                if r2 is not None and len(f["#items"]) + len(r2) <= max(32, self.d.seq_max) and single:
                    nf["#items"] = f["#items"] + tuple(r2)
            if name == "update" and a0 is not None:
                for o2 in a0.refs:
                    ob2 = st.heap.get(o2)
                    if ob2 is not None and ob2.kind == "dict":
                        nf.update({k: v for k, v in ob2.fields.items() if k not in ("#items", "#exact")})
                        el = self.join(el, ob2.elem)
            for k, v in kwargs.items():
                nf[("k", k)] = v
                el = self.join(el, v)
            st.heap[oid] = Obj(o.kind, o.cls, nf, self.join(o.elem, el), o.x)
            return NONE
        if self.d.concrete and single and o.kind == "dict" and self.exact_keys(o) is not None and name in ("pop", "setdefault", "clear", "update", "popitem"):
            k = self.keyof(st, a0) if a0 is not None and name in ("pop", "setdefault") else None
            nf, out = dict(f), None
            if k is not None and (k in f or len(args) > 1 or name == "setdefault"):
                out = f[k] if k in f else args[1] if len(args) > 1 else NONE
                if name == "pop":
                    nf.pop(k, None)
                elif k not in f:
                    nf[k] = out
            elif name == "clear":
                nf, out = {"#exact": f["#exact"]}, NONE
            elif name == "update" and len(args) <= 1 and "**" not in kwargs:
                o2 = st.heap.get(next(iter(a0.refs))) if a0 is not None and len(a0.refs) == 1 and a0.data is None else None
                if a0 is None or o2 is not None and o2.kind == "dict" and self.exact_keys(o2) is not None:
                    if a0 is not None:
                        nf.update({q: o2.fields[q] for q in self.exact_keys(o2)})
                    nf.update({("k", q): v for q, v in kwargs.items()})
                    out = NONE
            if out is not None:
                st.heap[oid] = Obj(o.kind, o.cls, nf, self.j.joinall([o.elem] + [v for q, v in nf.items() if isinstance(q, tuple)]), o.x)
                return out
        if name in ("pop", "popleft", "popitem", "remove", "clear", "sort", "reverse"):
            nf = {k: v for k, v in f.items() if k not in ("#items", "#exact")}
            items = f.get("#items")
            el = o.elem
            if name == "pop" and items and not args and single:
                nf["#items"] = items[:-1]
                el = items[-1]
            if o.kind == "dict" and name == "pop" and a0 is not None and a0.is_single_const():
                k = ("k", a0.const())
                if k in nf:
                    el = nf.pop(k)
            st.heap[oid] = Obj(o.kind, o.cls, nf, o.elem, o.x)
            if name == "sort" and "key" in kwargs:
                self.call(st, kwargs["key"], [o.elem if not o.elem.empty() else data()], {}, node)
            return el if name.startswith("pop") and not el.empty() else (data() if name.startswith("pop") else NONE)
        if name == "copy":
            return self.alloc(st, o.kind, node, fields=dict(f), elem=o.elem)
        if name in ("items",):
            ks = [k[1] for k in f if isinstance(k, tuple) and k[0] == "k"]
            ex = self.exact_keys(o) if self.d.concrete else None
            if ex is not None:
                its = tuple(tup([self.keyval(k[1]), f[k]]) for k in ex)
                return self.alloc(st, "list", node, fields={"#items": its}, elem=self.j.joinall(its))
            its = [tup([self.keyval(k), f[("k", k)]]) for k in ks]
            if its and len(its) <= max(16, self.d.seq_max):
                return self.alloc(st, "iter", node, elem=self.j.joinall(its))
            return self.alloc(st, "iter", node, elem=tup([data(), o.elem if not o.elem.empty() else data()]))
        if name in ("values", "keys") and self.d.concrete:
            ex = self.exact_keys(o)
            if ex is not None:
                its = tuple(f[k] if name == "values" else self.keyval(k[1]) for k in ex)
                return self.alloc(st, "list", node, fields={"#items": its}, elem=self.j.joinall(its))
        if name in ("values",):
            return self.alloc(st, "iter", node, elem=o.elem)
        if name in ("keys",):
            ks = [k[1] for k in f if isinstance(k, tuple) and k[0] == "k"]
            return self.alloc(st, "iter", node, elem=self.j.joinall([self.keyval(k) for k in ks]) if ks else data(EMPTY, "any"))
        if name in ("get", "setdefault"):
            k = a0.const_or(None) if a0 is not None else None
            ek = self.keyof(st, a0) if a0 is not None and self.d.concrete and self.exact_keys(o) is not None else None
            if ek is not None:
                return f[ek].without_unbound() if ek in f else args[1] if len(args) > 1 else NONE
            r = f.get(("k", k), o.elem)
            if len(args) > 1:
                r = self.join(r, args[1])
            else:
                r = self.join(r, NONE)
            return r
        if name in ("index", "count") and self.d.concrete and a0 is not None and len(args) == 1 and "#items" in f:
            r = self.position(st, f["#items"], a0, name)
            if r is not None:
                return r
        if name in ("index", "count", "__len__"):
            return data(EMPTY, "num")
        return data(self.deep_st(st, V(refs=frozenset([oid]))), "any")
