"""Domain of small tensors whose entries are normal forms (sa.terms).  An array value is a view (Arr: buffer, shape, index
map) on a buffer in the abstract store, so in-place updates, views and aliases behave as in numpy.  One representative
shape stands for all shapes.  Entries the domain cannot express are None (unknown); an operation it does not know gives
an unknown array, and buffers handed to such operations are forgotten as soon as an unknown array is written."""
import ast
import itertools
import math
import sys
from fractions import Fraction

from . import terms as tm
from .termdom import CONSTS, MATH, TermDomain
from .terms import ONE, T, TooBig, ZERO
from .tenbase import MAXSIZE, NA, Arr, Mismatch, Unknown, bcast, bshape, contract, det, einsum_spec, ew, inverse, matmul, normaxis, size, strides, tmul, transpose, tsum
from .tenlib import Lib
from .values import EMPTY, NONE, ExtV, V, const, data, tup

IGNORE = {"dtype", "order", "copy", "casting", "out", "subok", "like", "device", "optimize"}


class Tree:
    """points of a scipy.spatial.KDTree, fixed when it is made"""
    __slots__ = ("pts",)

    def __init__(self, pts):
        self.pts = pts

    def __eq__(self, o):
        return isinstance(o, Tree) and self.pts == o.pts

    def __hash__(self):
        return hash(self.pts)


class TenDomain(Lib, TermDomain):
    name = "tensors"
    unroll_max = 64
    max_loop = 6
    split_alloc = True
    concrete = 128
    seq_max = 256

    def __init__(self):
        super().__init__(None)
        self.bufs = 0
        self.leaked = set()
        self.decide = None      # hook: (node, op, a, b) -> bool or None for comparisons of symbolic numbers
        self.writes = 0

    def num_const(self, path):
        return data(EMPTY, "num", tm.sym(CONSTS[path], (), True)) if path in CONSTS else None

    # ------------------------------------------------------------ storage
    def join_ts(self, key, a, b):
        if isinstance(key, tuple) and key[0] == "buf":
            if a is None:
                return b
            if b is None:
                return a
            if len(a) != len(b):
                return a
            return tuple(x if x == y else None for x, y in zip(a, b))
        return super().join_ts(key, a, b)

    def join_x(self, a, b):
        return a if a == b else None

    def collapse_x(self, v):
        return v.data.x if v.data is not None and not v.consts and not v.tups and not v.refs else None

    def widen_x(self, x):
        return x

    def facet(self, v):
        """scalar term of a value"""
        x = None
        if v.is_single_const() or v.fns:
            x = super().facet(v)
        elif not (v.consts or v.refs or v.tups) and v.data is not None and isinstance(v.data.x, T):
            x = v.data.x
        return x if isinstance(x, T) else None

    def get(self, eng, st, v, depth=0):
        """NA of a value (array, number, nested sequence); None: unknown"""
        if v is None or depth > 6:
            return None
        t = self.facet(v)
        if t is not None:
            return NA((), (t,))
        if v.data is not None and not (v.consts or v.refs or v.tups or v.fns):
            a = v.data.x
            if isinstance(a, Arr):
                b = st.ts.get(("buf", a.buf))
                return None if b is None else NA(a.shape, [b[i] for i in a.idx])
            return None
        its = eng.seq_items(st, v)
        if its is None:
            its = self.iter_items(st, v)
        if its is not None:
            return self.stack([self.get(eng, st, i, depth + 1) for i in its])
        return None

    def iter_items(self, st, v):
        if len(v.refs) == 1 and v.data is None and not v.tups and not v.consts:
            (oid,) = v.refs
            o = st.heap.get(oid)
            if o is not None and o.kind in ("iter", "list") and "#items" in o.fields:
                return o.fields["#items"]
        return None

    @staticmethod
    def stack(parts):
        if not parts:
            return NA((0,), ())
        if any(p is None for p in parts) or len({p.shape for p in parts}) != 1:
            return None
        if len(parts) * len(parts[0].e) > MAXSIZE:
            return None
        return NA((len(parts),) + parts[0].shape, [x for p in parts for x in p.e])

    def new(self, st, na, ty="arr"):
        """value of a fresh array"""
        if na is None:
            return data(EMPTY, "arr")
        if na.shape == ():
            return self.scalar(na.e[0])
        self.bufs += 1
        st.ts[("buf", self.bufs)] = na.e
        return data(EMPTY, "arr", Arr(self.bufs, na.shape, range(len(na.e))))

    def key_const(self, eng, st, v):
        t = v.data.x
        return t.const() if isinstance(t, tm.T) else None

    def key_value(self, k):
        return const(k) if not isinstance(k, Fraction) else self.scalar(tm.num(k))

    def scalar(self, t):
        if t is None:
            return data(EMPTY, "num")
        c = t.const()
        if c is not None and c.denominator == 1:
            return const(int(c))
        return data(EMPTY, "num", t)

    def view(self, a, shape, idx):
        if shape == ():
            raise Unknown()
        return data(EMPTY, "arr", Arr(a.buf, shape, idx))

    @staticmethod
    def arr(v):
        return v.data.x if v is not None and v.data is not None and isinstance(v.data.x, Arr) and not (v.consts or v.refs or v.tups or v.fns) else None

    def leak(self, vals):
        for v in vals:
            a = self.arr(v)
            if a is not None:
                self.leaked.add(a.buf)

    def write(self, st, a, es):
        """es: entries for a.idx"""
        k = ("buf", a.buf)
        b = st.ts.get(k)
        if b is None:
            return
        self.writes += 1
        b = list(b)
        for i, e in zip(a.idx, es):
            b[i] = e
        st.ts[k] = tuple(b)

    def forget(self, st, bufs=None):
        for k in list(st.ts):
            if isinstance(k, tuple) and k[0] == "buf" and (bufs is None or k[1] in bufs):
                st.ts[k] = (None,) * len(st.ts[k])

    # ------------------------------------------------------------ operators
    def value_of(self, na, st):
        return self.new(st, na)

    def binop(self, eng, st, op, l, r, node):
        a, b = self.get(eng, st, l), self.get(eng, st, r)
        if a is None or b is None:
            self.leak([l, r])
            return None
        if all(v.is_single_const() for v in (l, r)):
            return None
        try:
            if type(op) in self.OPS and bshape(a.shape, b.shape) is None:
                raise Mismatch()
            na = self.op(op, a, b)
        except Mismatch:
            if self.arr(l) is not None or self.arr(r) is not None:
                st.dead = True
            return None
        except (Unknown, TooBig):
            na = None
        if na is None:
            return None
        v = self.new(st, na)
        masks = [x for x in (l, r) if self.arr(x) is not None and self.arr(x).buf in self.masks]
        return self.mask(v) if masks and isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor)) else v

    def op(self, op, a, b):
        n = self.OPS.get(type(op))
        if n is not None:
            return ew(lambda x, y: self.binary(n, x, y), a, b)
        if isinstance(op, ast.MatMult):
            return matmul(a, b)
        if isinstance(op, (ast.Mod, ast.FloorDiv)):
            def f(x, y):
                p, q = x.const(), y.const()
                if p is None or q is None or q == 0:
                    return None
                return tm.num(p % q if isinstance(op, ast.Mod) else p // q)
            return ew(f, a, b)
        if isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor)):
            def g(x, y):
                p, q = x.const(), y.const()
                if p is None or q is None or p.denominator != 1 or q.denominator != 1:
                    return None
                p, q = int(p), int(q)
                return tm.num(p & q if isinstance(op, ast.BitAnd) else p | q if isinstance(op, ast.BitOr) else p ^ q)
            return ew(g, a, b)
        return None

    def unop(self, eng, st, op, v, node):
        a = self.get(eng, st, v)
        if a is None:
            self.leak([v])
            return None
        if isinstance(op, ast.USub):
            return self.new(st, ew(lambda t: tm.scale(t, -1), a))
        if isinstance(op, ast.UAdd):
            return self.new(st, a)
        if isinstance(op, ast.Invert):
            r = self.new(st, ew(lambda t: tm.sub(ONE, t) if t in (ONE, ZERO) else None, a))
            return self.mask(r) if self.arr(v) is not None and self.arr(v).buf in self.masks else r
        return None

    def aug(self, eng, st, old, rhs, op, node):
        """in-place operator on an array; None: not an array of this domain"""
        a = self.arr(old)
        if a is None:
            if old.data is not None and old.data.ty not in ("num", "str") and old.data.x is None:
                self.forget(st, self.leaked)
            return None
        x, y = self.get(eng, st, old), self.get(eng, st, rhs)
        res = None
        if x is not None and y is not None:
            try:
                res = self.op(op, x, y)
                if res is not None:
                    res = NA(a.shape, bcast(res, a.shape)) if bshape(res.shape, a.shape) == a.shape else None
            except (Unknown, TooBig):
                res = None
        else:
            self.leak([rhs])
        self.write(st, a, res.e if res is not None else [None] * len(a.idx))
        return old

    # ------------------------------------------------------------ comparisons
    INFINITE = {tm.fn("inf", ()): math.inf, tm.scale(tm.fn("inf", ()), -1): -math.inf}

    def number(self, t):
        """float of a term without free symbols"""
        if t in self.INFINITE:
            return self.INFINITE[t]
        if t is None or any(self.free(a) for a in t.atoms()):
            return None
        try:
            v = tm.Point(0).val(t)
        except (ValueError, ZeroDivisionError, OverflowError):
            return None
        return v

    def free(self, aid):
        a = tm.ATOMS[aid]
        if a[0] == "sym":
            return a[1] != "pi"
        if a[0] in ("ind", "pw", "exp"):
            return any(self.free(x) for x in a[1].atoms())
        if a[0] == "fn":
            return a[1] not in ("abs", "sqrt", "log") or any(self.free(x) for t in a[2] for x in t.atoms())
        return a[0] != "i"

    def cmp(self, op, x, y, node):
        """ONE / ZERO / None"""
        if x is None or y is None:
            return None
        if x in self.INFINITE or y in self.INFINITE:
            d, v = None, self.INFINITE.get(x, 0.0) - self.INFINITE.get(y, 0.0) if x != y else 0.0
        else:
            d = tm.sub(x, y)
            if d.zero():
                return ONE if isinstance(op, (ast.LtE, ast.GtE, ast.Eq)) else ZERO
            v = self.number(d)
        if v is not None and not (isinstance(v, complex) and abs(v.imag) > 1e-12):
            v = v.real
            if abs(v) < 1e-13 and d is not None and d.const() is None:
                v = 0.0
            r = {ast.Lt: v < 0, ast.LtE: v <= 0, ast.Gt: v > 0, ast.GtE: v >= 0, ast.Eq: v == 0, ast.NotEq: v != 0}.get(type(op))
            return None if r is None else (ONE if r else ZERO)
        if self.decide is not None:
            r = self.decide(node, op, x, y)
            if r is not None:
                return ONE if r else ZERO
        return None

    def compare(self, eng, st, node, left, rights):
        cur, out = left, None
        for op, r in zip(node.ops, rights):
            if isinstance(op, (ast.Is, ast.IsNot, ast.In, ast.NotIn)):
                return None
            if all(v.only_consts() for v in (cur, r)) and len(rights) == 1:
                return None
            a, b = self.get(eng, st, cur), self.get(eng, st, r)
            if a is None or b is None:
                return None
            if a.shape and b.shape and self.arr(cur) is None and self.arr(r) is None:
                # two plain sequences: one truth value
                if not isinstance(op, (ast.Eq, ast.NotEq)) or len(node.ops) > 1:
                    return None
                es = [ZERO] if a.shape != b.shape else [self.cmp(ast.Eq(), x, y, node) for x, y in zip(a.e, b.e)]
                if ZERO in es:
                    return const(isinstance(op, ast.NotEq))
                return None if None in es else const(isinstance(op, ast.Eq))
            t = ew(lambda x, y: self.cmp(op, x, y, node), a, b)
            if t is None:
                return None
            out = t if out is None else ew(tm.mul, out, t)
            cur = r
        if out is None:
            return None
        if out.shape == ():
            return None if out.e[0] is None else const(out.e[0] == ONE)
        return self.mask(self.new(st, out))

    # ------------------------------------------------------------ indexing
    def one_index(self, eng, st, i):
        """None | Ellipsis | int | slice | NA"""
        if i[0] == "slice":
            s = eng.const_slice(i)
            if s is None:
                vals = []
                for p in i[1:]:
                    t = None if p is None else self.facet(p)
                    c = t.const() if t is not None else None
                    if p is None or (p.is_single_const() and p.const() is None):
                        vals.append(None)
                    elif c is not None and c.denominator == 1:
                        vals.append(int(c))
                    else:
                        raise Unknown()
                s = slice(*vals)
            return s
        if i[0] != "expr":
            raise Unknown()
        v = i[1]
        if v.is_single_const():
            c = v.const()
            if c is None or c is Ellipsis or (isinstance(c, int) and not isinstance(c, bool)):
                return c
            if isinstance(c, bool):
                raise Unknown()
        if v.fns and len(v.fns) == 1 and v.data is None:
            (f,) = v.fns
            if isinstance(f, ExtV) and f.path == "numpy.newaxis":
                return None
        na = self.get(eng, st, v)
        if na is None:
            raise Unknown()
        if na.shape == ():
            c = na.e[0].const() if na.e[0] is not None else None
            if c is None or c.denominator != 1:
                raise Unknown()
            return int(c)
        if na.consts() is None or any(not isinstance(c, int) for c in na.consts()):
            raise Unknown()
        return na

    @staticmethod
    def beyond(st, base):
        """an index an array certainly does not have ends the path"""
        if isinstance(base, V) and not (base.tups or base.refs or base.consts or base.fns or base.unbound):
            st.dead = True
        return Unknown()

    def plan(self, eng, st, base, shape, idx):
        """(result shape, positions into the flat base, basic?)"""
        if idx[0] == "tuple":
            parts = [self.one_index(eng, st, i) for i in idx[1]]
        elif idx[0] == "expr" and idx[1].tups and idx[1].data is None and len(idx[1].tups) == 1:
            parts = [self.one_index(eng, st, ("expr", i)) for i in idx[1].tups[0][1]]
        else:
            parts = [self.one_index(eng, st, idx)]
        # boolean masks are recognised by the type of the array (compare results): mark through self.bools
        bools = self.bool_parts(st, idx)
        out = []
        for k, p in enumerate(parts):
            if isinstance(p, NA) and bools[k]:
                ix = [i for i in itertools.product(*map(range, p.shape)) if p.at(*i) == ONE]
                for ax in range(len(p.shape)):
                    out.append(NA((len(ix),), [tm.num(i[ax]) for i in ix]))
            else:
                out.append(p)
        parts = out
        used = sum(1 for p in parts if p is not None and p is not Ellipsis)
        if Ellipsis not in [p for p in parts if not isinstance(p, NA)]:
            parts = parts + [Ellipsis]
        exp = []
        for p in parts:
            if not isinstance(p, NA) and p is Ellipsis:
                exp += [slice(None)] * (len(shape) - used)
            else:
                exp.append(p)
        st_ = strides(shape)
        ax = 0
        dims = []       # ("range", positions offsets) per result axis for basic; fancy collected
        fancy = []
        fpos = None
        offs = 0
        for p in exp:
            if p is None:
                dims.append([0])
                continue
            if ax >= len(shape):
                raise self.beyond(st, base)
            n, s = shape[ax], st_[ax]
            ax += 1
            if isinstance(p, slice):
                dims.append([i * s for i in range(*p.indices(n))])
            elif isinstance(p, int):
                if not -n <= p < n:
                    raise self.beyond(st, base)
                offs += (p % n) * s
                if fancy and False:
                    pass
            else:
                cs = p.consts()
                if any(not -n <= c < n for c in cs):
                    raise Unknown()
                fancy.append((p.shape, [(c % n) * s for c in cs]))
                if fpos is None:
                    fpos = len(dims)
                elif len(dims) != fpos:
                    fpos = -1   # separated advanced indices go first
                dims_mark = True
        if ax != len(shape):
            raise Unknown()
        if not fancy:
            sh = tuple(len(d) for d in dims)
            pos = [offs + sum(c) for c in itertools.product(*dims)]
            return sh, pos, True
        fsh = bshape(*[f[0] for f in fancy])
        if fsh is None:
            raise Unknown()
        cols = [bcast(NA(s, [tm.num(c) for c in cs]), fsh) for s, cs in fancy]
        fo = [sum(int(c.const()) for c in t) for t in zip(*cols)]
        k = 0 if fpos == -1 else fpos
        sh = tuple(len(d) for d in dims[:k]) + fsh + tuple(len(d) for d in dims[k:])
        pos = [offs + sum(c[:k]) + f + sum(c[k:]) if False else None for c in () for f in ()]
        for lead in itertools.product(*dims[:k]):
            for f in fo:
                for rest in itertools.product(*dims[k:]):
                    pos.append(offs + sum(lead) + f + sum(rest))
        return sh, pos, False

    def bool_parts(self, st, idx):
        vs = []
        if idx[0] == "tuple":
            vs = [i[1] if i[0] == "expr" else None for i in idx[1]]
        elif idx[0] == "expr":
            v = idx[1]
            vs = list(v.tups[0][1]) if v.tups and v.data is None and len(v.tups) == 1 else [v]
        else:
            vs = [None]
        out = []
        for v in vs:
            a = self.arr(v) if v is not None else None
            out.append(a is not None and a.buf in self.masks)
        return out

    strict = False      # development: show errors of the vocabulary itself
    masks = frozenset()

    def mask(self, v):
        a = self.arr(v)
        if a is not None:
            self.masks = self.masks | {a.buf}
        return v

    def subscript(self, eng, st, base, idx, node):
        a = self.arr(base)
        if idx[0] == "unpack":
            return None
        if a is None:
            # a number: only new axes can be put on it
            t = self.facet(base)
            if t is None:
                return None
            try:
                parts = [self.one_index(eng, st, i) for i in (idx[1] if idx[0] == "tuple" else [idx])]
            except (Unknown, TooBig):
                return None
            if all(p is None or p is Ellipsis for p in parts):
                return self.new(st, NA((1,) * sum(p is None for p in parts), (t,)))
            return None
        try:
            sh, pos, basic = self.plan(eng, st, base, a.shape, idx)
        except (Unknown, TooBig):
            self.leak([base])
            return data(EMPTY, "any")
        buf = st.ts.get(("buf", a.buf))
        if sh == ():
            return self.scalar(buf[a.idx[pos[0]]] if buf is not None else None)
        if basic:
            return self.view(a, sh, [a.idx[p] for p in pos])
        v = self.new(st, NA(sh, [buf[a.idx[p]] for p in pos]))
        return self.mask(v) if a.buf in self.masks else v

    def items(self, eng, st, v):
        a = self.arr(v)
        if a is None or not a.shape or a.shape[0] > max(self.unroll_max, self.seq_max):
            return None
        n = size(a.shape[1:])
        if a.shape[1:] == ():
            buf = st.ts.get(("buf", a.buf))
            return [self.scalar(buf[i]) for i in a.idx]
        return [self.view(a, a.shape[1:], a.idx[k * n:(k + 1) * n]) for k in range(a.shape[0])]

    def store_sub(self, eng, st, base, idx, val, node, aug):
        a = self.arr(base)
        if a is None:
            if base.data is not None and base.data.x is None and base.data.ty not in ("num", "str"):
                self.forget(st, self.leaked)
            return base.data.x if base.data is not None else None
        try:
            sh, pos, basic = self.plan(eng, st, base, a.shape, idx)
        except (Unknown, TooBig):
            self.write(st, a, [None] * len(a.idx))
            return a
        y = self.get(eng, st, val)
        es = None
        if y is not None and bshape(y.shape, sh) == sh:
            try:
                es = bcast(y, sh)
            except TooBig:
                es = None
        if es is None:
            es = [None] * len(pos)
        self.write(st, Arr(a.buf, (len(pos),), [a.idx[p] for p in pos]), es)
        return a

    # ------------------------------------------------------------ attributes and calls
    def attr(self, eng, st, base, name, node):
        a = self.arr(base)
        if a is None:
            t = self.facet(base)
            if t is not None and name in ("real", "imag", "T"):
                return self.scalar(self.part(name, t)) if name != "T" else base
            return None
        if name in ("T", "mT"):
            n = len(a.shape)
            perm = tuple(reversed(range(n))) if name == "T" else tuple(range(n - 2)) + (n - 1, n - 2)
            return self.permuted(a, perm)
        if name == "shape":
            return tup([const(n) for n in a.shape])
        if name == "ndim":
            return const(len(a.shape))
        if name == "size":
            return const(size(a.shape))
        if name in ("real", "imag"):
            na = self.get(eng, st, base)
            r = ew(lambda t: self.part(name, t), na) if na is not None else None
            return self.new(st, r) if r is not None else data(EMPTY, "arr")
        if name == "flat":
            return data(EMPTY, "arr", Arr(a.buf, (size(a.shape),), a.idx))
        if name == "dtype":
            return data(EMPTY, "any")
        return None

    def permuted(self, a, perm):
        m = transpose(NA(a.shape, a.idx), perm)
        return data(EMPTY, "arr", Arr(a.buf, m.shape, m.e))

    @staticmethod
    def part(name, t):
        c = tm.conj(t)
        if name == "real":
            return tm.scale(tm.add(t, c), Fraction(1, 2))
        return tm.scale(tm.mul(tm.IMAG, tm.sub(t, c)), Fraction(-1, 2))

    METHODS = {"copy", "astype", "reshape", "ravel", "flatten", "transpose", "swapaxes", "conj", "conjugate", "sum", "mean", "dot", "trace",
               "squeeze", "diagonal", "repeat", "max", "min", "all", "any", "prod", "argsort", "argmin", "argmax", "cumsum", "round", "tolist", "item", "nonzero", "take", "view", "std", "var", "ptp", "cumprod", "clip", "searchsorted"}

    def points(self, a):
        """rows of numbers of an array"""
        if a is None or len(a.shape) not in (1, 2):
            return None
        vs = [self.number(t) if t is not None else None for t in a.e]
        if any(v is None or isinstance(v, complex) and v.imag for v in vs):
            return None
        vs = [float(v.real) for v in vs]
        d = a.shape[-1]
        return [tuple(vs[i:i + d]) for i in range(0, len(vs), d)] if d else None

    def tree_query(self, eng, st, tree, args, kwargs):
        """nearest points; an index past the end where there is none within the bound, unknown where two are equally near"""
        names = ("x", "k", "eps", "p", "distance_upper_bound", "workers")
        kw = dict(zip(names, args), **kwargs)
        a = self.get(eng, st, kw["x"]) if "x" in kw else None
        xs = self.points(a)
        if xs is None or "k" in kw and kw["k"].const_or() != 1 or "p" in kw and kw["p"].const_or() != 2:
            return None
        bound = math.inf
        if "distance_upper_bound" in kw:
            b = self.facet(kw["distance_upper_bound"])
            b = self.number(b) if b is not None else kw["distance_upper_bound"].const_or()
            if not isinstance(b, (int, float, Fraction)):
                return None
            bound = float(b)
        ds, js = [], []
        for x in xs:
            dd = sorted((math.dist(x, q), j) for j, q in enumerate(tree.pts))
            if not dd or dd[0][0] >= bound:
                ds.append(None)
                js.append(tm.num(len(tree.pts)))
                continue
            if len(dd) > 1 and dd[1][0] - dd[0][0] < 1e-9 * (1 + dd[0][0]):
                ds.append(tm.num(Fraction(dd[0][0])))
                js.append(None)
                continue
            ds.append(tm.num(Fraction(dd[0][0])))
            js.append(tm.num(dd[0][1]))
        sh = a.shape[:-1]
        return tup([self.new(st, NA(sh, ds)), self.new(st, NA(sh, js))])

    def method(self, eng, st, recv, name, args, kwargs, node):
        a = self.arr(recv)
        if a is None:
            if recv.data is not None and isinstance(recv.data.x, Tree):
                try:
                    return self.tree_query(eng, st, recv.data.x, args, kwargs) if name == "query" else None
                except (TypeError, ValueError, AttributeError):
                    return None
            t = self.facet(recv)
            if t is not None and name in ("conj", "conjugate"):
                return self.scalar(tm.conj(t))
            if t is not None and name in ("copy", "item", "astype", "squeeze", "sum", "mean"):
                return recv
            self.leak([recv] + list(args))
            return None
        if name in ("fill", "sort", "partition", "put", "resize", "itemset"):
            es = None
            if name == "fill" and args:
                t = self.facet(args[0])
                es = [t] * len(a.idx) if t is not None else None
            if name == "sort" and len(a.shape) == 1:
                b = self.get(eng, st, recv)
                cs = b.consts() if b is not None else None
                if cs is not None:
                    es = [tm.num(c) for c in sorted(cs)]
            self.write(st, a, es or [None] * len(a.idx))
            return NONE
        if name == "tolist":
            its = self.items(eng, st, recv)
            if its is None:
                return None
            if len(a.shape) > 1:
                its = [self.method(eng, st, i, "tolist", [], {}, node) for i in its]
            return eng.alloc(st, "list", node, fields={"#items": tuple(its)}, elem=eng.j.joinall(its))
        if name == "item" and not args and size(a.shape) == 1:
            return self.scalar(st.ts[("buf", a.buf)][a.idx[0]])
        if name in self.METHODS:
            if name in ("reshape", "transpose") and args and not (len(args) == 1 and (args[0].tups or args[0].refs or args[0].data is not None)):
                args = [tup(args)]
            if name == "astype":
                whole = self.truncated(self.get(eng, st, recv), args[0] if args else kwargs.get("dtype"))
                if whole is not None:
                    return self.new(st, whole)
            if name in ("copy", "astype", "view"):
                args = []
            return self.ext_call(eng, st, "numpy." + {"conjugate": "conj", "astype": "copy", "view": "asarray", "flatten": "ravel_copy"}.get(name, name), [recv] + list(args), kwargs, node)
        self.leak([recv] + list(args))
        return None

    def ext_call(self, eng, st, path, args, kwargs, node):
        root, leaf = path.split(".")[0], path.split(".")[-1]
        if path == "builtins.range":
            return None
        if leaf in ("KDTree", "cKDTree") and root == "scipy":
            a = self.get(eng, st, args[0]) if args else None
            p = self.points(a) if a is not None and len(a.shape) == 2 else None
            return data(EMPTY, "kdtree", Tree(tuple(p))) if p is not None else None
        r = None
        try:
            tail = path.split(".")[-2] if path.count(".") else ""
            f = None
            if root in MATH:
                if tail == "linalg":
                    f = getattr(self, "l_" + leaf, None)
                elif root == "numpy" and path.count(".") == 2 and leaf in ("at", "reduce", "accumulate", "outer"):
                    u = getattr(self, "u_" + leaf)
                    f = lambda *a: u(a[0], a[1], tail, *a[2:])
                f = f or getattr(self, ("b_" if root == "builtins" else "n_") + leaf, None)
                if f is not None:
                    r = f(eng, st, args, kwargs, node)
                elif root != "builtins":
                    r = self.generic(eng, st, leaf, args, kwargs)
        except (Unknown, TooBig, IndexError, KeyError, ValueError, TypeError, AttributeError, ZeroDivisionError, tm.NoDerivative):
            if self.strict and not isinstance(sys.exc_info()[1], (Unknown, TooBig)):
                raise
            r = None
        if isinstance(r, NA):
            r = self.new(st, r)
        if r is None and root != "builtins":
            self.leak(list(args) + list(kwargs.values()))
        out = kwargs.get("out")
        if out is not None:
            b = self.arr(out)
            if b is None:
                self.forget(st, self.leaked)
            else:
                y = self.get(eng, st, r) if isinstance(r, V) else None
                ok = y is not None and bshape(y.shape, b.shape) == b.shape and "where" not in kwargs
                self.write(st, b, bcast(y, b.shape) if ok else [None] * len(b.idx))
            return out
        if "where" in kwargs:
            return None
        return r

    def generic(self, eng, st, leaf, args, kwargs):
        """elementwise functions"""
        if any(k not in IGNORE for k in kwargs):
            return None
        xs = [self.get(eng, st, a) for a in args]
        if not xs or any(x is None for x in xs):
            return None
        probe = self.elementwise(leaf, [tm.sym("probe", (str(i),), True) for i in range(len(xs))])
        if probe is None and any(t is None or t.const() is None for x in xs for t in x.e):
            return None
        return ew(lambda *ts: self.elementwise(leaf, list(ts)), *xs)

    def A(self, eng, st, args, i=0):
        if i >= len(args):
            raise Unknown()
        na = self.get(eng, st, args[i])
        if na is None:
            raise Unknown()
        return na

    @staticmethod
    def kw(args, kwargs, i, name, default=None):
        v = args[i] if i is not None and i < len(args) else kwargs.get(name)
        if v is None:
            return default
        if v.is_single_const():
            return v.const()
        raise Unknown()

    def ints(self, eng, st, v):
        na = self.get(eng, st, v)
        cs = na.consts() if na is not None else None
        if cs is None or any(not isinstance(c, int) for c in cs):
            raise Unknown()
        return tuple(cs)

    def axis(self, eng, st, args, kwargs, i, name="axis"):
        v = args[i] if i is not None and i < len(args) else kwargs.get(name)
        if v is None or (v.is_single_const() and v.const() is None):
            return None
        return self.ints(eng, st, v)

    # creation
    def shape_arg(self, eng, st, args, kwargs):
        sh = self.ints(eng, st, args[0] if args else kwargs.get("shape"))
        if size(sh) > MAXSIZE:
            raise Unknown()
        return sh

    def n_zeros(self, eng, st, args, kw, node, val=ZERO):
        sh = self.shape_arg(eng, st, args, kw)
        return self.new(st, NA(sh, [val] * size(sh)))

    def n_ones(self, eng, st, args, kw, node):
        return self.n_zeros(eng, st, args, kw, node, ONE)

    def n_empty(self, eng, st, args, kw, node):
        return self.n_zeros(eng, st, args, kw, node, None)

    def n_full(self, eng, st, args, kw, node):
        t = self.A(eng, st, args, 1)
        sh = self.shape_arg(eng, st, args, kw)
        return NA(sh, bcast(t, sh))

    def like(self, eng, st, args, val):
        a = self.A(eng, st, args)
        return NA(a.shape, [val] * len(a.e))

    def n_zeros_like(self, eng, st, args, kw, node):
        return self.like(eng, st, args, ZERO)

    def n_ones_like(self, eng, st, args, kw, node):
        return self.like(eng, st, args, ONE)

    def n_empty_like(self, eng, st, args, kw, node):
        return self.like(eng, st, args, None)

    def n_full_like(self, eng, st, args, kw, node):
        a, t = self.A(eng, st, args), self.A(eng, st, args, 1)
        return NA(a.shape, bcast(t, a.shape))

    def n_eye(self, eng, st, args, kw, node):
        n = self.kw(args, kw, 0, "N")
        m = self.kw(args, kw, 1, "M", n)
        k = self.kw(args, kw, 2, "k", 0)
        m = n if m is None else m
        return NA((n, m), [ONE if j - i == k else ZERO for i in range(n) for j in range(m)])

    def n_identity(self, eng, st, args, kw, node):
        return self.n_eye(eng, st, args[:1], {}, node)

    def n_arange(self, eng, st, args, kw, node):
        cs = [self.ints(eng, st, a)[0] for a in args]
        r = range(*cs)
        if len(r) > MAXSIZE:
            raise Unknown()
        return NA((len(r),), [tm.num(i) for i in r])

    def n_array(self, eng, st, args, kw, node):
        a = self.A(eng, st, args)
        t = args[1] if len(args) > 1 else kw.get("dtype")
        if a is not None and a.shape and self.boolish(eng, st, args[0], t):
            return self.mask(self.new(st, a))
        return self.truncated(a, t) or a

    def boolish(self, eng, st, v, dtype=None, depth=0):
        """an array of truth values, or a sequence of them"""
        if dtype is not None and not (dtype.is_single_const() and dtype.const() is None):
            names = {f.path.split(".")[-1] for f in dtype.fns if isinstance(f, ExtV)} | ({dtype.const()} if dtype.is_single_const() else set())
            return names <= {"bool", "bool_", "?"} and bool(names) and self.boolish(eng, st, v, None, depth)
        a = self.arr(v)
        if a is not None:
            return a.buf in self.masks
        if v.only_consts():
            return bool(v.consts) and all(c[0] == "bool" for c in v.consts)
        its = (eng.seq_items(st, v) or self.iter_items(st, v)) if depth < 4 else None
        return bool(its) and all(self.boolish(eng, st, i, None, depth + 1) for i in its)

    INTS = {"int", "int_", "int64", "int32", "int16", "int8", "intp", "uint", "uint64", "uint32", "intc"}

    def truncated(self, a, dtype):
        """the array a cast to a whole-number type, or None when the cast changes nothing"""
        if a is None or dtype is None:
            return None
        names = {f.path.split(".")[-1] for f in dtype.fns if isinstance(f, ExtV)} | ({dtype.const()} if dtype.is_single_const() else set())
        if not names or any(n not in self.INTS for n in names if n != "i") or any(x is not None and x.const() is None for x in a.e):
            return None
        if all(x is None or x.const().denominator == 1 for x in a.e):
            return None
        return NA(a.shape, [None if x is None else tm.num(int(x.const())) for x in a.e])

    n_copy = n_array

    def same(self, eng, st, args, kw, node):
        a = self.arr(args[0])
        if a is not None:
            t = kw.get("dtype") or (args[1] if len(args) > 1 else None)
            cut = self.truncated(self.get(eng, st, args[0]), t) if t is not None else None
            if cut is not None:
                return cut
            return args[0]
        r = self.A(eng, st, args)
        if r is not None and r.shape and self.boolish(eng, st, args[0]):
            return self.mask(self.new(st, r))
        return r

    n_asarray = n_asanyarray = n_ascontiguousarray = n_asfortranarray = n_real_if_close = n_nan_to_num = same

    def n_atleast_2d(self, eng, st, args, kw, node):
        a = self.A(eng, st, args)
        return args[0] if len(a.shape) >= 2 else NA((1,) * (2 - len(a.shape)) + a.shape, a.e)

    # shape
    def n_shape(self, eng, st, args, kw, node):
        return tup([const(n) for n in self.A(eng, st, args).shape])

    def n_ndim(self, eng, st, args, kw, node):
        return const(len(self.A(eng, st, args).shape))

    def n_size(self, eng, st, args, kw, node):
        a = self.A(eng, st, args)
        return const(a.shape[self.kw(args, kw, 1, "axis")] if len(args) > 1 or "axis" in kw else size(a.shape))

    def b_len(self, eng, st, args, kw, node):
        a = self.arr(args[0]) if args else None
        return const(a.shape[0]) if a is not None else None

    def reshaped(self, eng, st, v, sh, copy=False):
        na = self.get(eng, st, v)
        if na is None:
            raise Unknown()
        sh = list(sh)
        if sh.count(-1) == 1:
            known = size([n for n in sh if n != -1])
            if known == 0 or len(na.e) % known:
                raise Unknown()
            sh[sh.index(-1)] = len(na.e) // known
        if size(sh) != len(na.e):
            raise Unknown()
        a = self.arr(v)
        if a is not None and not copy and a.idx and list(a.idx) == list(range(a.idx[0], a.idx[0] + len(a.idx))) and sh:
            return data(EMPTY, "arr", Arr(a.buf, sh, a.idx))
        return self.new(st, NA(sh, na.e))

    def n_reshape(self, eng, st, args, kw, node):
        if any(k in kw for k in ("order",)):
            raise Unknown()
        sh = args[1] if len(args) > 1 else kw.get("shape", kw.get("newshape"))
        return self.reshaped(eng, st, args[0], self.ints(eng, st, sh))

    def n_ravel(self, eng, st, args, kw, node):
        return self.reshaped(eng, st, args[0], [-1])

    def n_ravel_copy(self, eng, st, args, kw, node):
        return self.reshaped(eng, st, args[0], [-1], True)

    def perm(self, eng, st, v, perm):
        a = self.arr(v)
        if a is not None:
            return self.permuted(a, perm)
        return transpose(self.A(eng, st, [v]), perm)

    def n_transpose(self, eng, st, args, kw, node):
        n = len(self.A(eng, st, args).shape)
        ax = self.axis(eng, st, args, kw, 1, "axes")
        return self.perm(eng, st, args[0], tuple(reversed(range(n))) if ax is None else [normaxis(x, n) for x in ax])

    n_permute_dims = n_transpose

    def n_matrix_transpose(self, eng, st, args, kw, node):
        n = len(self.A(eng, st, args).shape)
        return self.perm(eng, st, args[0], list(range(n - 2)) + [n - 1, n - 2])

    def n_swapaxes(self, eng, st, args, kw, node):
        n = len(self.A(eng, st, args).shape)
        i, j = (normaxis(self.kw(args, kw, k, s), n) for k, s in ((1, "axis1"), (2, "axis2")))
        p = list(range(n))
        p[i], p[j] = p[j], p[i]
        return self.perm(eng, st, args[0], p)

    def n_moveaxis(self, eng, st, args, kw, node):
        n = len(self.A(eng, st, args).shape)
        src = [normaxis(x, n) for x in self.axis(eng, st, args, kw, 1, "source")]
        dst = [normaxis(x, n) for x in self.axis(eng, st, args, kw, 2, "destination")]
        order = [i for i in range(n) if i not in src]
        for d, s in sorted(zip(dst, src)):
            order.insert(d, s)
        return self.perm(eng, st, args[0], order)

    def n_expand_dims(self, eng, st, args, kw, node):
        a = self.A(eng, st, args)
        ax = self.axis(eng, st, args, kw, 1)
        n = len(a.shape) + len(ax)
        ax = sorted(normaxis(x, n) for x in ax)
        sh = list(a.shape)
        for x in ax:
            sh.insert(x, 1)
        return self.reshaped(eng, st, args[0], sh)

    def n_squeeze(self, eng, st, args, kw, node):
        a = self.A(eng, st, args)
        ax = self.axis(eng, st, args, kw, 1)
        ax = range(len(a.shape)) if ax is None else [normaxis(x, len(a.shape)) for x in ax]
        return self.reshaped(eng, st, args[0], [n for i, n in enumerate(a.shape) if not (n == 1 and i in ax)])

    def n_broadcast_to(self, eng, st, args, kw, node):
        a = self.A(eng, st, args)
        sh = self.ints(eng, st, args[1])
        return NA(sh, bcast(a, sh))

    def n_stack(self, eng, st, args, kw, node):
        a = self.A(eng, st, args)
        ax = normaxis(self.kw(args, kw, 1, "axis", 0), len(a.shape))
        order = list(range(1, len(a.shape)))
        order.insert(ax, 0)
        return transpose(a, order)

    def parts(self, eng, st, v):
        its = eng.seq_items(st, v)
        if its is None:
            its = self.iter_items(st, v)
        if its is None and self.arr(v) is not None:
            its = self.items(eng, st, v)
        if its is None:
            raise Unknown()
        return [self.A(eng, st, [i]) for i in its]

    def n_concatenate(self, eng, st, args, kw, node):
        ps = self.parts(eng, st, args[0])
        ax = self.kw(args, kw, 1, "axis", 0)
        if ax is None:
            return NA((sum(len(p.e) for p in ps),), [x for p in ps for x in p.e])
        return self.concat(ps, ax)

    n_concat = n_concatenate

    def concat(self, ps, ax):
        n = len(ps[0].shape)
        if n == 0 or any(len(p.shape) != n for p in ps):
            raise Unknown()
        ax = normaxis(ax, n)
        perm = [ax] + [i for i in range(n) if i != ax]
        qs = [transpose(p, perm) for p in ps]
        if len({q.shape[1:] for q in qs}) != 1:
            raise Unknown()
        r = NA((sum(q.shape[0] for q in qs),) + qs[0].shape[1:], [x for q in qs for x in q.e])
        inv = [perm.index(i) for i in range(n)]
        return transpose(r, inv)

    def n_vstack(self, eng, st, args, kw, node):
        ps = [p if len(p.shape) > 1 else NA((1, len(p.e)), p.e) for p in self.parts(eng, st, args[0])]
        return self.concat(ps, 0)

    def n_hstack(self, eng, st, args, kw, node):
        ps = [p if p.shape else NA((1,), p.e) for p in self.parts(eng, st, args[0])]
        return self.concat(ps, 0 if len(ps[0].shape) == 1 else 1)

    def n_append(self, eng, st, args, kw, node):
        a, b = self.A(eng, st, args), self.A(eng, st, args, 1)
        ax = self.kw(args, kw, 2, "axis")
        if ax is None:
            return NA((len(a.e) + len(b.e),), a.e + b.e)
        return self.concat([a, b], ax)

    def n_block(self, eng, st, args, kw, node):
        its = eng.seq_items(st, args[0])
        if its is None:
            raise Unknown()
        rows = []
        for r in its:
            if eng.seq_items(st, r) is not None:
                rows.append(self.concat(self.parts(eng, st, r), -1))
            else:
                raise Unknown()
        return self.concat(rows, 0)

    def n_repeat(self, eng, st, args, kw, node):
        a = self.A(eng, st, args)
        k = self.ints(eng, st, args[1] if len(args) > 1 else kw.get("repeats"))
        ax = self.kw(args, kw, 2, "axis")
        if ax is None:
            a, ax = NA((len(a.e),), a.e), 0
        ax = normaxis(ax, len(a.shape))
        if len(k) == 1:
            k = list(k) * a.shape[ax]
        return self.take_axis(a, [i for i, n in enumerate(k) for _ in range(n)], ax)

    def n_roll(self, eng, st, args, kw, node):
        a = self.A(eng, st, args)
        s = self.ints(eng, st, args[1] if len(args) > 1 else kw.get("shift"))
        ax = self.axis(eng, st, args, kw, 2)
        if ax is None:
            n = len(a.e)
            return NA(a.shape, [a.e[(i - s[0]) % n] for i in range(n)])
        if len(s) != len(ax):
            s = s * len(ax)
        for k, x in zip(s, ax):
            x = normaxis(x, len(a.shape))
            n = a.shape[x]
            a = self.take_axis(a, [(i - k) % n for i in range(n)], x)
        return a

    @staticmethod
    def take_axis(a, ixs, ax):
        st = strides(a.shape)
        sh = list(a.shape)
        sh[ax] = len(ixs)
        out = []
        for ix in itertools.product(*map(range, sh)):
            out.append(a.e[sum((ixs[i] if k == ax else i) * s for k, (i, s) in enumerate(zip(ix, st)))])
        return NA(sh, out)

    def n_take(self, eng, st, args, kw, node):
        a = self.A(eng, st, args)
        ix = self.ints(eng, st, args[1])
        ax = self.kw(args, kw, 2, "axis")
        if ax is None:
            return NA((len(ix),), [a.e[i] for i in ix])
        ax = normaxis(ax, len(a.shape))
        return self.take_axis(a, [i % a.shape[ax] for i in ix], ax)

    def n_flip(self, eng, st, args, kw, node):
        a = self.A(eng, st, args)
        ax = self.axis(eng, st, args, kw, 1)
        for x in (range(len(a.shape)) if ax is None else ax):
            x = normaxis(x, len(a.shape))
            a = self.take_axis(a, list(reversed(range(a.shape[x]))), x)
        return a

    def n_delete(self, eng, st, args, kw, node):
        a = self.A(eng, st, args)
        ax = self.kw(args, kw, 2, "axis")
        if ax is None:
            a, ax = NA((len(a.e),), a.e), 0
        ax = normaxis(ax, len(a.shape))
        if self.arr(args[1]) is not None and self.arr(args[1]).buf in self.masks:
            raise Unknown()
        ix = {i % a.shape[ax] for i in self.ints(eng, st, args[1])}
        return self.take_axis(a, [i for i in range(a.shape[ax]) if i not in ix], ax)

    def n_diag(self, eng, st, args, kw, node):
        a = self.A(eng, st, args)
        if len(args) > 1 or "k" in kw:
            raise Unknown()
        if len(a.shape) == 1:
            n = a.shape[0]
            return NA((n, n), [a.e[i] if i == j else ZERO for i in range(n) for j in range(n)])
        return self.n_diagonal(eng, st, args, kw, node)

    def n_diagonal(self, eng, st, args, kw, node):
        a = self.A(eng, st, args)
        n = len(a.shape)
        i = normaxis(self.kw(args, kw, 2, "axis1", 0), n)
        j = normaxis(self.kw(args, kw, 3, "axis2", 1), n)
        rest = [k for k in range(n) if k not in (i, j)]
        t = transpose(a, rest + [i, j])
        d = min(t.shape[-2:])
        sh = t.shape[:-2] + (d,)
        return NA(sh, [t.at(*ix[:-1], ix[-1], ix[-1]) for ix in itertools.product(*map(range, sh))])

    def n_trace(self, eng, st, args, kw, node):
        d = self.n_diagonal(eng, st, args[:1] + [const(0)] + list(args[2:]), kw, node)
        return self.reduce_axes(d, (len(d.shape) - 1,), tsum, False)

    def n_outer(self, eng, st, args, kw, node):
        a, b = self.A(eng, st, args), self.A(eng, st, args, 1)
        return NA((len(a.e), len(b.e)), [tmul(x, y) for x in a.e for y in b.e])

    def n_kron(self, eng, st, args, kw, node):
        a, b = self.A(eng, st, args), self.A(eng, st, args, 1)
        n = max(len(a.shape), len(b.shape))
        a = NA((1,) * (n - len(a.shape)) + a.shape, a.e)
        b = NA((1,) * (n - len(b.shape)) + b.shape, b.e)
        sh = tuple(x * y for x, y in zip(a.shape, b.shape))
        if size(sh) > MAXSIZE:
            raise Unknown()
        e = []
        for ix in itertools.product(*map(range, sh)):
            x, y = a.at(*[i // q for i, q in zip(ix, b.shape)]), b.at(*[i % q for i, q in zip(ix, b.shape)])
            e.append(tm.mul(x, y) if x is not None and y is not None else None)
        return NA(sh, e)

    def n_tensordot(self, eng, st, args, kw, node):
        a, b = self.A(eng, st, args), self.A(eng, st, args, 1)
        v = args[2] if len(args) > 2 else kw.get("axes")
        na, nb = len(a.shape), len(b.shape)
        if v is None or (v.is_single_const() and isinstance(v.const(), int)):
            k = 2 if v is None else v.const()
            xa, xb = list(range(na - k, na)), list(range(k))
        else:
            two = eng.seq_items(st, v)
            if two is None or len(two) != 2:
                raise Unknown()
            xa, xb = ([normaxis(x, n) for x in self.ints(eng, st, t)] for t, n in zip(two, (na, nb)))
        ia = [("a", i) for i in range(na)]
        ib = [("b", i) for i in range(nb)]
        for p, q in zip(xa, xb):
            ib[q] = ia[p]
        out = [c for i, c in enumerate(ia) if i not in xa] + [c for i, c in enumerate(ib) if i not in xb]
        return contract(([ia, ib], out), [a, b])

    def n_dot(self, eng, st, args, kw, node):
        a, b = self.A(eng, st, args), self.A(eng, st, args, 1)
        if not a.shape or not b.shape:
            return ew(tm.mul, a, b)
        if len(b.shape) <= 2:
            return matmul(a, b)
        raise Unknown()

    def n_matmul(self, eng, st, args, kw, node):
        return matmul(self.A(eng, st, args), self.A(eng, st, args, 1))

    def n_inner(self, eng, st, args, kw, node):
        a, b = self.A(eng, st, args), self.A(eng, st, args, 1)
        if not a.shape or not b.shape:
            return ew(tm.mul, a, b)
        ia = [("a", i) for i in range(len(a.shape) - 1)] + ["z"]
        ib = [("b", i) for i in range(len(b.shape) - 1)] + ["z"]
        return contract(([ia, ib], ia[:-1] + ib[:-1]), [a, b])

    def n_vdot(self, eng, st, args, kw, node):
        a, b = self.A(eng, st, args), self.A(eng, st, args, 1)
        return NA((), [tsum(tmul(tm.conj(x) if x is not None else None, y) for x, y in zip(a.e, b.e))])

    def n_einsum(self, eng, st, args, kw, node):
        s = args[0].const_or(None)
        if not isinstance(s, str):
            raise Unknown()
        arrs = [self.A(eng, st, args, i) for i in range(1, len(args))]
        return contract(einsum_spec(s, [a.shape for a in arrs]), arrs)

    def n_cross(self, eng, st, args, kw, node):
        a, b = self.A(eng, st, args), self.A(eng, st, args, 1)
        if a.shape != (3,) or b.shape != (3,):
            raise Unknown()
        x, y = a.e, b.e
        return NA((3,), [tm.sub(tm.mul(x[(i + 1) % 3], y[(i + 2) % 3]), tm.mul(x[(i + 2) % 3], y[(i + 1) % 3])) for i in range(3)])

    def n_meshgrid(self, eng, st, args, kw, node):
        xs = [self.A(eng, st, args, i) for i in range(len(args))]
        ij = self.kw([], kw, None, "indexing", "xy")
        if any(len(x.shape) != 1 for x in xs) or ij not in ("ij", "xy"):
            raise Unknown()
        axes = list(range(len(xs)))        # axis of the result along which argument k runs
        if ij == "xy" and len(xs) > 1:
            axes[:2] = [1, 0]
        sh = [len(xs[axes.index(i)].e) for i in range(len(xs))]
        out = [self.new(st, NA(sh, [x.e[ix[axes[k]]] for ix in itertools.product(*map(range, sh))])) for k, x in enumerate(xs)]
        return eng.alloc(st, "list", node, fields={"#items": tuple(out)}, elem=eng.j.joinall(out))

    # reductions
    @staticmethod
    def reduce_axes(a, axes, f, keep):
        n = len(a.shape)
        axes = tuple(range(n)) if axes is None else tuple(normaxis(x, n) for x in axes)
        rest = [i for i in range(n) if i not in axes]
        t = transpose(a, rest + list(axes))
        k = size([a.shape[i] for i in axes])
        out = [f(t.e[i * k:(i + 1) * k]) for i in range(size([a.shape[i] for i in rest]))]
        sh = [(1 if i in axes else a.shape[i]) for i in range(n) if keep or i not in axes]
        return NA(sh, out)

    def red(self, eng, st, args, kw, f, axpos=1):
        if any(k not in IGNORE | {"axis", "keepdims", "initial"} for k in kw) or "initial" in kw:
            raise Unknown()
        return self.reduce_axes(self.A(eng, st, args), self.axis(eng, st, args, kw, axpos), f, bool(self.kw([], kw, None, "keepdims", False)))

    def n_sum(self, eng, st, args, kw, node):
        return self.red(eng, st, args, kw, tsum)

    def n_mean(self, eng, st, args, kw, node):
        return self.red(eng, st, args, kw, lambda xs: None if any(x is None for x in xs) or not xs else tm.scale(tsum(xs), Fraction(1, len(xs))))

    def n_prod(self, eng, st, args, kw, node):
        def f(xs):
            r = ONE
            for x in xs:
                r = tmul(r, x)
            return r
        return self.red(eng, st, args, kw, f)

    def extreme(self, pick):
        def f(xs):
            if any(x is None for x in xs) or not xs:
                return None
            vs = [self.number(x) for x in xs]
            if any(v is None or isinstance(v, complex) for v in vs):
                return None
            return xs[vs.index(pick(vs))]
        return f

    def n_max(self, eng, st, args, kw, node):
        return self.red(eng, st, args, kw, self.extreme(max))

    def n_min(self, eng, st, args, kw, node):
        return self.red(eng, st, args, kw, self.extreme(min))

    n_amax, n_amin = n_max, n_min

    def truths(self, xs, allof):
        vs = [None if x is None else self.number(x) for x in xs]
        if allof:
            return ZERO if any(v == 0 for v in vs) else (ONE if all(v is not None for v in vs) else None)
        return ONE if any(v for v in vs if v is not None) else (ZERO if all(v is not None for v in vs) else None)

    def tv(self, eng, st, r):
        if isinstance(r, NA) and r.shape == () and r.e[0] is not None:
            return const(r.e[0] == ONE)
        if isinstance(r, NA) and r.shape != ():
            return self.mask(self.new(st, r))
        return None

    def n_all(self, eng, st, args, kw, node):
        return self.tv(eng, st, self.red(eng, st, args, kw, lambda xs: self.truths(xs, True)))

    def n_any(self, eng, st, args, kw, node):
        return self.tv(eng, st, self.red(eng, st, args, kw, lambda xs: self.truths(xs, False)))

    def n_count_nonzero(self, eng, st, args, kw, node):
        return self.red(eng, st, args, kw, lambda xs: None if any(x is None or self.number(x) is None for x in xs) else tm.num(sum(1 for x in xs if self.number(x) != 0)))


    def b_sum(self, eng, st, args, kw, node):
        its = self.parts(eng, st, args[0])
        r = self.A(eng, st, args, 1) if len(args) > 1 else NA((), (ZERO,))
        for p in its:
            r = ew(tm.add, r, p)
            if r is None:
                raise Unknown()
        return r

    def b_max(self, eng, st, args, kw, node, pick=max):
        if kw or not args:
            return None
        ps = self.parts(eng, st, args[0]) if len(args) == 1 else [self.A(eng, st, args, i) for i in range(len(args))]
        if any(p.shape != () for p in ps):
            return None
        t = self.extreme(pick)([p.e[0] for p in ps])
        return None if t is None else self.scalar(t)

    def b_min(self, eng, st, args, kw, node):
        return self.b_max(eng, st, args, kw, node, min)

    def b_abs(self, eng, st, args, kw, node):
        if args and not args[0].only_consts():
            return self.n_abs(eng, st, args, kw, node)

    def b_float(self, eng, st, args, kw, node):
        t = self.facet(args[0]) if args else None
        return self.scalar(t) if t is not None and not args[0].only_consts() else None

    b_complex = b_float

    def b_int(self, eng, st, args, kw, node):
        t = self.facet(args[0]) if args else None
        v = self.number(t) if t is not None and not args[0].only_consts() else None
        return const(int(v)) if v is not None and not isinstance(v, complex) else None

    def b_round(self, eng, st, args, kw, node):
        t = self.facet(args[0]) if args else None
        if t is None or args[0].only_consts():
            return None
        dec = self.kw(args, kw, 1, "ndigits")
        v = self.number(t)
        if v is None or isinstance(v, complex) or dec is not None and not isinstance(dec, int):
            return None
        v = t.const() if t.const() is not None else Fraction(v)
        return const(round(v)) if dec is None else self.scalar(tm.num(round(Fraction(v), dec)))

    def b_pow(self, eng, st, args, kw, node):
        return ew(lambda x, y: self.binary("pow", x, y), self.A(eng, st, args), self.A(eng, st, args, 1)) if len(args) == 2 else None

    # order (constants only)
    def sort_keys(self, xs):
        vs = [self.number(x) if x is not None else None for x in xs]
        if any(v is None or isinstance(v, complex) for v in vs):
            raise Unknown()
        return vs

    def along(self, eng, st, args, kw, f, default=(-1,)):
        """f: list of entries -> list of entries, along one axis"""
        a = self.A(eng, st, args)
        ax = self.axis(eng, st, args, kw, 1)
        if ax is None:
            if "axis" in kw or len(args) > 1:
                a = NA((len(a.e),), a.e)
            ax = default
        n = len(a.shape)
        k = normaxis(ax[0], n)
        perm = [i for i in range(n) if i != k] + [k]
        t = transpose(a, perm)
        m = a.shape[k]
        out = [x for i in range(0, len(t.e), m) for x in f(t.e[i:i + m])]
        back = [perm.index(i) for i in range(n)]
        return transpose(NA(t.shape, out), back)

    def n_argsort(self, eng, st, args, kw, node):
        def f(xs):
            vs = self.sort_keys(xs)
            return [tm.num(i) for i in sorted(range(len(vs)), key=lambda i: vs[i])]
        return self.along(eng, st, args, kw, f)

    def n_sort(self, eng, st, args, kw, node):
        def f(xs):
            vs = self.sort_keys(xs)
            return [xs[i] for i in sorted(range(len(vs)), key=lambda i: vs[i])]
        return self.along(eng, st, args, kw, f)

    def n_lexsort(self, eng, st, args, kw, node):
        a = self.A(eng, st, args)
        n = a.shape[1]
        rows = [self.sort_keys([a.at(r, i) for i in range(n)]) for r in range(a.shape[0])]
        return NA((n,), [tm.num(i) for i in sorted(range(n), key=lambda i: [r[i] for r in reversed(rows)])])

    def n_argmin(self, eng, st, args, kw, node, pick=min):
        def f(xs):
            vs = self.sort_keys(xs)
            return tm.num(vs.index(pick(vs)))
        r = self.red(eng, st, args, kw, f)
        return const(int(r.e[0].const())) if r.shape == () else r

    def n_argmax(self, eng, st, args, kw, node):
        return self.n_argmin(eng, st, args, kw, node, max)

    def n_nonzero(self, eng, st, args, kw, node):
        a = self.A(eng, st, args)
        vs = [self.number(x) if x is not None else None for x in a.e]
        if any(v is None for v in vs):
            raise Unknown()
        ix = [i for i, v in zip(itertools.product(*map(range, a.shape)), vs) if v != 0]
        return tup([self.new(st, NA((len(ix),), [tm.num(i[k]) for i in ix])) for k in range(len(a.shape))])

    def n_flatnonzero(self, eng, st, args, kw, node):
        a = self.A(eng, st, args)
        vs = [self.number(x) if x is not None else None for x in a.e]
        if any(v is None for v in vs):
            raise Unknown()
        ix = [i for i, v in enumerate(vs) if v != 0]
        return NA((len(ix),), [tm.num(i) for i in ix])

    def n_where(self, eng, st, args, kw, node):
        if len(args) == 1:
            return self.n_nonzero(eng, st, args, kw, node)
        c, a, b = (self.A(eng, st, args, i) for i in range(3))

        def f(c, a, b):
            if a == b:
                return a
            v = self.number(c)
            return None if v is None else (a if v else b)
        return ew(f, c, a, b)

    def n_isclose(self, eng, st, args, kw, node):
        a, b = self.A(eng, st, args), self.A(eng, st, args, 1)

        def f(x, y):
            v = self.number(tm.sub(x, y))
            return None if v is None else (ONE if abs(v) < 1e-8 else ZERO)
        return self.tv(eng, st, ew(f, a, b))

    def n_allclose(self, eng, st, args, kw, node):
        r = self.n_isclose(eng, st, args, kw, node)
        if r is None:
            return None
        if r.is_single_const():
            return r
        return self.n_all(eng, st, [r], {}, node)

    def n_round(self, eng, st, args, kw, node):
        a = self.A(eng, st, args)
        dec = self.kw(args, kw, 1, "decimals", 0)
        if not isinstance(dec, int):
            raise Unknown()

        def f(t):
            v = self.number(t)
            return None if v is None or isinstance(v, complex) else tm.num(Fraction(round(Fraction(v) * Fraction(10) ** dec), 1) / Fraction(10) ** dec)
        return ew(f, a)

    n_rint = n_around = n_round

    def n_floor(self, eng, st, args, kw, node):
        import math

        def f(t):
            v = self.number(t)
            return None if v is None or isinstance(v, complex) else tm.num(math.floor(v))
        return ew(f, self.A(eng, st, args))

    # complex
    def n_conj(self, eng, st, args, kw, node):
        return ew(tm.conj, self.A(eng, st, args))

    n_conjugate = n_conj

    def n_real(self, eng, st, args, kw, node):
        return ew(lambda t: self.part("real", t), self.A(eng, st, args))

    def n_imag(self, eng, st, args, kw, node):
        return ew(lambda t: self.part("imag", t), self.A(eng, st, args))

    def n_abs(self, eng, st, args, kw, node):
        def f(t):
            c = t.const()
            if c is not None:
                return tm.num(abs(c))
            v = self.number(t)
            if v is not None and not isinstance(v, complex):
                return t if v >= 0 else tm.scale(t, -1)
            return tm.power(tm.mul(t, tm.conj(t)), Fraction(1, 2))
        return ew(f, self.A(eng, st, args))

    n_absolute = n_abs

    # linear algebra
    def mat(self, a):
        if len(a.shape) != 2 or a.shape[0] != a.shape[1] or not a.known():
            raise Unknown()
        n = a.shape[0]
        if n > 4:
            raise Unknown()
        return [list(a.e[i * n:(i + 1) * n]) for i in range(n)]

    def each_matrix(self, a, f):
        """f on every matrix of a stack; f gives a flat list"""
        if len(a.shape) < 2:
            raise Unknown()
        k = a.shape[-1] * a.shape[-2]
        return [f(self.mat(NA(a.shape[-2:], a.e[i:i + k]))) for i in range(0, len(a.e), k)]

    def l_det(self, eng, st, args, kw, node):
        a = self.A(eng, st, args)
        return NA(a.shape[:-2], self.each_matrix(a, det))

    def l_inv(self, eng, st, args, kw, node):
        a = self.A(eng, st, args)
        return NA(a.shape, [x for m in self.each_matrix(a, inverse) for r in m for x in r])

    def l_norm(self, eng, st, args, kw, node):
        if any(k not in ("axis", "keepdims") for k in kw) or len(args) > 1:
            raise Unknown()

        def f(xs):
            if any(x is None for x in xs):
                return None
            return tm.power(tsum(tm.mul(x, tm.conj(x)) for x in xs), Fraction(1, 2))
        return self.red(eng, st, args, kw, f, None)


    def l_matmul(self, eng, st, args, kw, node):
        return self.n_matmul(eng, st, args, kw, node)

    # naming of large terms is not used here
    def on_return(self, eng, st, fnv, result, node, bound=None):
        return result

    def assign_attr(self, eng, st, obj, attr, v, node):
        return v

    def store_name(self, eng, st, name, v, node):
        return v

    def on_call(self, eng, st, fnv, args, kwargs, node):
        return None
