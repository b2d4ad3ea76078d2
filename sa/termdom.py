"""Domain whose facet is a term in normal form (sa.terms): algebraic value numbering.  A facet is a term of one array
element, a Vec (array whose leading axis has known entries) or None (unknown)."""
import ast
from fractions import Fraction

from . import terms as tm
from .engine import Domain
from .terms import ONE, T, TooBig, ZERO
from .values import EMPTY, Data, ExtV, V, const, data


class Vec:
    __slots__ = ("e", "_h")

    def __init__(self, e):
        self.e = tuple(e)
        self._h = None

    def __eq__(self, o):
        return self is o or (isinstance(o, Vec) and self.e == o.e)

    def __hash__(self):
        if self._h is None:
            self._h = hash(("vec", self.e))
        return self._h

    def __repr__(self):
        return "[" + ", ".join(map(str, self.e)) + "]"


CONSTS = {"numpy.pi": "pi", "math.pi": "pi", "numpy.e": "e", "math.e": "e"}
KEEP_METHODS = {"copy", "astype", "reshape", "ravel", "flatten", "squeeze", "view"}
KEEP_FUNCS = {"asarray", "array", "ascontiguousarray", "copy", "reshape", "ravel", "squeeze", "atleast_1d", "float64", "asanyarray",
              "nan_to_num", "real_if_close"}
MATH = {"numpy", "scipy", "math", "builtins"}


def is_scalar(t):
    return isinstance(t, T) and all(tm.scalar_atom(a) for a in t.atoms())


class TermDomain(Domain):
    name = "terms"
    unroll_max = 16
    max_loop = 6
    split_alloc = True

    def __init__(self, var=None):
        self.var = var
        self.lost = 0
        self.clamps = {}     # indicator atom -> its value where the cut is inactive
        self.opaque = {}     # function name -> None: calls of these repository functions stay uninterpreted
        self.last_axis = {}  # input name -> length of its last axis

    # ------------------------------------------------------------ facets
    def join_x(self, a, b):
        return a if a == b else None

    def const_x_join(self, consts):
        return None

    def widen_x(self, x):
        return x

    def collapse_x(self, v):
        return self.facet(v)

    def facet(self, v):
        """T / Vec / None of a value"""
        if v.is_single_const():
            c = v.const()
            if isinstance(c, (bool, int, float, complex)):
                return tm.num(c)
            return None
        if v.consts or v.refs:
            return None
        if v.fns:
            if len(v.fns) == 1 and v.data is None:
                (f,) = v.fns
                if isinstance(f, ExtV) and f.path in CONSTS:
                    return tm.sym(CONSTS[f.path], (), True)
                if isinstance(f, ExtV) and f.path in ("numpy.inf", "math.inf"):
                    return tm.fn("inf", ())
            return None
        if v.tups:
            if v.data is None and len(v.tups) == 1:
                return Vec([self.facet(i) for i in v.tups[0][1]])
            return None
        if v.data is not None and isinstance(v.data.x, (T, Vec)):
            return v.data.x
        return None

    def facet_in(self, eng, st, v):
        """facet; lists on the heap count as vectors"""
        its = eng.seq_items(st, v)
        if its is not None and v.refs:
            return Vec([self.facet_in(eng, st, i) for i in its])
        return self.facet(v)

    def value(self, x, ty="arr"):
        if isinstance(x, T):
            c = x.const()
            if c is not None and is_scalar(x) and ty == "num":
                return const(int(c) if c.denominator == 1 else float(c))
        return data(EMPTY, ty, x)

    def lift(self, f, *xs):
        """elementwise over vectors"""
        if any(x is None for x in xs):
            return None
        n = {len(x.e) for x in xs if isinstance(x, Vec)}
        if len(n) > 1:
            if n == {1, max(n)}:
                n = {max(n)}
            else:
                return None
        try:
            if n:
                (k,) = n
                return Vec([self.lift(f, *[(x.e[i] if len(x.e) == k else x.e[0]) if isinstance(x, Vec) else x for x in xs]) for i in range(k)])
            return f(*xs)
        except TooBig:
            self.lost += 1
            return None

    def indep(self, *ts):
        return self.var is None or not any(tm.depends(t, self.var) for t in ts)

    def only(self, aid):
        return self.var is None or tm.adep(aid, self.var)

    # ------------------------------------------------------------ elementwise functions
    def f_ind(self, t):
        return tm.split([t], lambda ts: tm.ind(ts[0]), self.only if self.var else None) or tm.fn("step", (t,))

    def choose(self, name, a, b):
        """maximum / minimum"""
        if a == b:
            return a
        if self.indep(a, b):
            ca, cb = a.const(), b.const()
            if ca is not None and cb is not None:
                return tm.num(max(ca, cb) if name == "maximum" else min(ca, cb))
            if self.var is not None:
                return tm.fn(name, sorted((a, b), key=repr))

        cut = (a.const() or b.const()) and (a.const() is None or b.const() is None)

        def g(ts):
            x, y = ts
            c = tm.ind(tm.sub(x, y))
            if cut and (x.const() is None) != (y.const() is None):
                self.note_clamp(c, (x.const() is None) == (name == "maximum"))
            if name == "minimum":
                x, y = y, x
            return tm.add(y, tm.mul(c, tm.sub(x, y)))
        r = tm.split([a, b], g, self.only if self.var else None)
        if r is None:
            d = tm.sub(a, b)
            c = tm.of(tm.atom(("ind", d)))
            if cut:
                self.note_clamp(c, (a.const() is None) == (name == "maximum"))
            x, y = (a, b) if name == "maximum" else (b, a)
            r = tm.add(y, tm.mul(c, tm.sub(x, y)))
        return r

    def note_clamp(self, c, val):
        """a cut at a constant level: c has value val where the cut is inactive"""
        for aid in tm.inds(c):
            if c == tm.of(aid):
                self.clamps[aid] = 1 if val else 0
            elif c == tm.sub(ONE, tm.of(aid)):
                self.clamps[aid] = 0 if val else 1

    def f_abs(self, t):
        c = t.const()
        if c is not None:
            return tm.num(abs(c))
        if self.indep(t) and self.var is not None:
            return tm.fn("abs", (t if tm.lead(t) > 0 else tm.scale(t, -1),))

        def g(ts):
            u = ts[0]
            return tm.mul(u, tm.sub(tm.scale(tm.ind(u), 2), ONE)) if not u.zero() else ZERO
        return tm.split([t], g, self.only if self.var else None)

    def f_sign(self, t):
        if self.indep(t) and self.var is not None and t.const() is None:
            return tm.fn("sign", (t,))
        return tm.split([t], lambda ts: tm.sub(tm.scale(tm.ind(ts[0]), 2), ONE) if ts[0].p else ZERO)

    def f_where(self, c, a, b):
        if c == ONE:
            return a
        if c.zero():
            return b
        if a == b:
            return a
        if self.var is not None:
            def g(ts):
                c, a, b = ts
                if c == ONE:
                    return a
                if c.zero():
                    return b
                if self.indep(c, a, b):
                    return tm.fn("where", (c, a, b))
                return tm.add(b, tm.mul(c, tm.sub(a, b)))
            r = tm.split([c, a, b], g, self.only)
            if r is not None and self.small(r):
                return r
        return tm.add(b, tm.mul(c, tm.sub(a, b)))

    @staticmethod
    def small(t):
        return len(t.p) < 4000

    def elementwise(self, name, xs):
        """value of a numpy / scipy / math elementwise function; None: not handled"""
        def one(g, only=True):
            return self.lift(lambda t: tm.split([t], lambda ts: g(ts[0])), xs[0])
        n = len(xs)
        if name in ("abs", "absolute", "fabs") and n == 1:
            return self.lift(self.f_abs, xs[0])
        if name == "sign" and n == 1:
            return self.lift(self.f_sign, xs[0])
        if name in ("maximum", "fmax", "minimum", "fmin") and n == 2:
            return self.lift(lambda a, b: self.choose("maximum" if "max" in name else "minimum", a, b), *xs)
        if name == "clip" and n == 3:
            return self.lift(lambda t, lo, hi: self.choose("minimum", self.choose("maximum", t, lo), hi), *xs)
        if name == "where" and n == 3:
            return self.lift(self.f_where, *xs)
        if name == "sqrt" and n == 1:
            return self.lift(lambda t: tm.power(t, Fraction(1, 2)), xs[0])
        if name == "cbrt" and n == 1:
            return self.lift(lambda t: tm.power(t, Fraction(1, 3)), xs[0])
        if name == "square" and n == 1:
            return self.lift(lambda t: tm.mul(t, t), xs[0])
        if name == "reciprocal" and n == 1:
            return self.lift(tm.inv, xs[0])
        if name in ("power", "pow", "float_power") and n == 2:
            return self.binary("pow", *xs)
        if name in ("add", "subtract", "multiply", "divide", "true_divide") and n == 2:
            return self.binary({"subtract": "sub", "multiply": "mul", "divide": "div", "true_divide": "div"}.get(name, name), *xs)
        if name in ("negative",) and n == 1:
            return self.lift(lambda t: tm.scale(t, -1), xs[0])
        if name == "positive" and n == 1:
            return xs[0]
        if name == "exp" and n == 1:
            return one(tm.exp)
        if name == "expm1" and n == 1:
            return one(lambda t: tm.sub(tm.exp(t), ONE))
        if name == "log" and n == 1:
            return one(tm.log)
        if name == "log1p" and n == 1:
            return one(lambda t: tm.log(tm.add(ONE, t)))
        if name == "logaddexp" and n == 2:
            return self.lift(lambda a, b: tm.log(tm.add(tm.exp(a), tm.exp(b))), *xs)
        if name == "expit" and n == 1:
            return one(tm.expit)
        if name == "log_expit" and n == 1:
            return one(lambda t: tm.scale(tm.log(tm.add(ONE, tm.exp(tm.scale(t, -1)))), -1))
        if name in ("cosh", "sinh", "tanh") and n == 1:
            def h(t):
                p, m = tm.exp(t), tm.exp(tm.scale(t, -1))
                if name == "cosh":
                    return tm.scale(tm.add(p, m), Fraction(1, 2))
                if name == "sinh":
                    return tm.scale(tm.sub(p, m), Fraction(1, 2))
                return tm.mul(tm.sub(p, m), tm.inv(tm.add(p, m)))
            return one(h)
        if name in ("cos", "sin") and n == 1:
            def h(t):
                p, m = tm.exp(tm.mul(tm.IMAG, t)), tm.exp(tm.scale(tm.mul(tm.IMAG, t), -1))
                if name == "cos":
                    return tm.scale(tm.add(p, m), Fraction(1, 2))
                return tm.scale(tm.mul(tm.IMAG, tm.sub(p, m)), Fraction(-1, 2))
            return one(h)
        if name == "spence" and n == 1:
            return one(lambda t: tm.fn("spence", (t,)))
        return None

    def binary(self, op, a, b):
        try:
            if op == "add":
                return self.lift(tm.add, a, b)
            if op == "sub":
                return self.lift(tm.sub, a, b)
            if op == "mul":
                return self.lift(tm.mul, a, b)
            if op == "div":
                return self.lift(lambda x, y: tm.mul(x, tm.inv(y)), a, b)
            if op == "pow":
                def pw(x, y):
                    c = y.const()
                    if c is None or c.denominator > 12 or abs(c) > 12:
                        if x.const() is not None and x.const() == 2 or x == tm.sym("e", (), True):
                            return tm.exp(y) if x.const() is None else tm.exp(tm.mul(y, tm.fn("log", (x,))))
                        return tm.fn("pow", (x, y))
                    return tm.power(x, c)
                return self.lift(pw, a, b)
        except TooBig:
            self.lost += 1
        return None

    OPS = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "div", ast.Pow: "pow"}

    def binop(self, eng, st, op, l, r, node):
        a, b = self.facet_in(eng, st, l), self.facet_in(eng, st, r)
        if a is None or b is None:
            return None
        n = self.OPS.get(type(op))
        if n is not None:
            return self.binary(n, a, b)
        if isinstance(op, ast.BitAnd):
            return self.lift(tm.mul, a, b)
        if isinstance(op, ast.BitOr):
            return self.lift(lambda x, y: tm.sub(tm.add(x, y), tm.mul(x, y)), a, b)
        if isinstance(op, ast.MatMult) and isinstance(a, T) and isinstance(b, T):
            return tm.fn("matmul", (a, b))
        return None

    def fold(self, eng, st, op, l, r, node):
        """constants are kept exact: a float operation becomes a rational term"""
        if not (l.is_single_const() and r.is_single_const()):
            return None
        a, b = l.const(), r.const()
        if not all(isinstance(c, (int, float)) and not isinstance(c, bool) for c in (a, b)):
            return None
        n = self.OPS.get(type(op))
        if n is None or (isinstance(a, int) and isinstance(b, int) and (n in ("add", "sub", "mul") or (n == "pow" and b >= 0))):
            return None
        x = self.binary(n, tm.num(a), tm.num(b))
        return data(EMPTY, "num", x) if x is not None else None

    def unop(self, eng, st, op, v, node):
        a = self.facet(v)
        if a is None:
            return None
        if isinstance(op, ast.USub):
            return self.lift(lambda t: tm.scale(t, -1), a)
        if isinstance(op, ast.UAdd):
            return a
        if isinstance(op, ast.Invert):
            return self.lift(lambda t: tm.sub(ONE, t), a)
        return None

    def compare(self, eng, st, node, left, rights):
        cur, out = left, None
        for op, r in zip(node.ops, rights):
            if all(v.only_consts() for v in (cur, r)):
                return None
            a, b = self.facet(cur), self.facet(r)
            if a is None or b is None:
                return None
            if isinstance(op, (ast.Lt, ast.LtE)):
                t = self.lift(lambda x, y: self.f_ind(tm.sub(y, x)), a, b)
            elif isinstance(op, (ast.Gt, ast.GtE)):
                t = self.lift(lambda x, y: self.f_ind(tm.sub(x, y)), a, b)
            elif isinstance(op, ast.NotEq):
                t = self.lift(lambda x, y: self.neq(tm.sub(x, y)), a, b)
            elif isinstance(op, ast.Eq):
                t = self.lift(lambda x, y: tm.sub(ONE, self.neq(tm.sub(x, y))), a, b)
            else:
                return None
            if t is None:
                return None
            out = t if out is None else self.lift(tm.mul, out, t)
            cur = r
        if out is None:
            return None
        if isinstance(out, T) and out.const() is not None and all(is_scalar(self.facet(v)) for v in [left] + list(rights)):
            return const(bool(out.const()))
        return data(EMPTY, "any", out)

    def neq(self, d):
        """equality is taken as never happening for continuous data"""
        if d.const() is not None:
            return ONE if d.p else ZERO
        return ONE

    # ------------------------------------------------------------ calls
    def uninterp(self, name, xs):
        if any(x is None for x in xs) or any(isinstance(x, Vec) for x in xs):
            return None
        return tm.fn(name, xs)

    def ext_call(self, eng, st, path, args, kwargs, node):
        root, leaf = path.split(".")[0], path.split(".")[-1]
        xs = [self.facet_in(eng, st, a) for a in args]
        if path.startswith("user."):
            return data(EMPTY, "arr", self.lift(lambda *ts: tm.fn(path, ts), *xs)) if xs else None
        if root not in MATH:
            return None
        if "out" in kwargs or "where" in kwargs:
            if "out" in kwargs:
                kw = {k: v for k, v in kwargs.items() if k != "out"}
                r = self.ext_call(eng, st, path, args, kw, node) if "where" not in kw else None
                x = self.facet(r) if isinstance(r, V) else r
                for k in getattr(node, "keywords", ()):
                    if k.arg == "out":
                        eng.update_facet(st, k.value, kwargs["out"], x, node)
                return x
            return None
        if root == "builtins":
            if leaf in ("abs", "max", "min", "pow") and all(x is not None for x in xs) and xs and not all(a.only_consts() for a in args):
                if leaf in ("max", "min"):
                    if len(xs) == 1 and isinstance(xs[0], Vec):
                        xs = list(xs[0].e)
                    if any(x is None for x in xs) or len(xs) < 2:
                        return None
                    r = xs[0]
                    for x in xs[1:]:
                        r = self.elementwise("maximum" if leaf == "max" else "minimum", [r, x])
                    return data(EMPTY, "any", r)
                return data(EMPTY, "any", self.elementwise(leaf, xs))
            if leaf == "float" and len(xs) == 1 and xs[0] is not None and not args[0].only_consts():
                return data(EMPTY, "num", xs[0])
            if leaf == "sum" and args:
                its = eng.iterate(st, args[0], node)[1]
                if its is not None:
                    v = args[1] if len(args) > 1 else const(0)
                    for i in its:
                        v = eng.do_binop(st, ast.Add(), v, i, node)
                    return v
            if leaf == "len" and xs and isinstance(xs[0], Vec):
                return const(len(xs[0].e))
            return None
        if leaf in KEEP_FUNCS and len(args) >= 1 and path.count(".") == 1:
            if leaf in ("array", "asarray") and isinstance(xs[0], (T, Vec)):
                return data(eng.view_st(st, args[0]) if leaf == "asarray" else EMPTY, "arr", xs[0])
            return xs[0]
        if leaf in ("where", "select") and len(args) == 3 and leaf == "where":
            r = self.elementwise("where", xs)
            return self.wrap(r, [a for a in args[1:]])
        if leaf in ("ones_like", "zeros_like"):
            return data(EMPTY, "arr", ONE if leaf == "ones_like" else ZERO)
        if leaf in ("zeros", "ones", "full", "empty"):
            if leaf == "full":
                return data(EMPTY, "arr", xs[1] if len(xs) > 1 and isinstance(xs[1], T) else None)
            n = self.axis_len(args[0]) if args else None
            c = ZERO if leaf == "zeros" else ONE
            if leaf == "empty":
                return None
            return data(EMPTY, "arr", Vec([c] * n) if n is not None and n <= 16 else c)
        if leaf in ("stack", "vstack"):
            ax = kwargs.get("axis") or (args[1] if len(args) > 1 else None)
            if xs and isinstance(xs[0], Vec) and (ax is None or ax.const_or(None) == 0):
                return data(EMPTY, "arr", xs[0])
            return None
        if leaf == "sort" and xs and isinstance(xs[0], Vec) and all(isinstance(e, T) for e in xs[0].e):
            ax = kwargs.get("axis") or (args[1] if len(args) > 1 else None)
            if ax is not None and ax.const_or(None) == 0:
                es = sorted(xs[0].e, key=repr)
                return data(EMPTY, "arr", Vec([tm.fn(f"sort{i}", es) for i in range(len(es))]))
            return None
        if leaf in ("sum", "mean", "prod", "trapezoid", "trapz") and xs:
            return self.reduce(leaf, xs[0], args[1:], kwargs)
        if leaf == "reduce" and path.split(".")[-2] in ("minimum", "maximum", "add", "multiply") and xs and isinstance(xs[0], Vec):
            op = path.split(".")[-2]
            r = xs[0].e[0]
            for e in xs[0].e[1:]:
                r = self.elementwise(op, [r, e]) if r is not None and e is not None else None
            return data(EMPTY, "arr", r)
        if leaf == "moveaxis" and len(args) == 3 and isinstance(xs[0], T) and xs[1] == tm.num(-1) and xs[2] == ZERO:
            n = {self.last_axis.get(tm.ATOMS[a][1]) for a in xs[0].atoms() if tm.ATOMS[a][0] == "sym"}
            if len(n) == 1 and None not in n:
                return data(EMPTY, "arr", Vec([self.push(xs[0], ("at", (("...",), ("i", i)))) for i in range(n.pop())]))
            return None
        if leaf == "einsum" and args and isinstance(args[0].const_or(None), str) and all(isinstance(x, T) for x in xs[1:]):
            spec = args[0].const().replace(" ", "")
            o = spec.split("->")[-1]
            if o[:1] and o[1:] == "..." and "," in spec:
                i, n = [p_.find(o[0]) for p_ in spec.split("->")[0].split(",")], None
                for k, x in enumerate(xs[1:]):
                    if i[k] >= 0:
                        n = self.axis_of(x)
                if n is not None:
                    return data(EMPTY, "arr", Vec([tm.fn(f"einsum {spec} {j}", xs[1:]) for j in range(n)]))
            return tm.fn(f"einsum {spec}", xs[1:])
        if leaf == "roll" and len(args) >= 2 and isinstance(xs[0], T):
            ax = kwargs.get("axis") or (args[2] if len(args) > 2 else None)
            n = args[1].const_or(None)
            a = ax.const_or(None) if ax is not None else None
            if isinstance(n, int) and isinstance(a, int):
                return data(EMPTY, "arr", self.push(xs[0], ("roll", a, n)))
            return None
        if all(x is not None for x in xs) and xs:
            r = self.elementwise(leaf, xs)
            if r is not None:
                return self.wrap(r, args)
            if not kwargs:
                r = self.uninterp(path, xs)
                return data(EMPTY, "any", r) if r is not None else None
        return None

    def wrap(self, r, args):
        return data(EMPTY, "arr", r) if r is not None else None

    def axis_of(self, t):
        """common axis length of the inputs of a matrix term"""
        n = {self.last_axis.get(a) for a in self.inputs(t)}
        n.discard(None)
        return n.pop() if len(n) == 1 else None

    def inputs(self, t):
        out = set()
        for a in t.atoms():
            a = tm.ATOMS[a]
            if a[0] == "sym":
                out.add(a[1])
            elif a[0] == "fn":
                for x in a[2]:
                    out |= self.inputs(x)
            elif a[0] in ("pw", "exp", "ind"):
                out |= self.inputs(a[1])
        return out

    def axis_len(self, v):
        if v.is_single_const() and isinstance(v.const(), int):
            return v.const()
        return None

    def reduce(self, name, x, args, kwargs):
        ax = kwargs.get("axis") or (args[0] if args else None)
        a = ax.const_or("?") if ax is not None else None
        if isinstance(x, Vec) and a == 0:
            if name in ("sum", "mean") and all(e is not None for e in x.e):
                r = x.e[0]
                for e in x.e[1:]:
                    r = self.binary("add", r, e)
                if name == "mean":
                    r = self.binary("div", r, tm.num(len(x.e)))
                return data(EMPTY, "arr", r)
            return None
        if isinstance(x, T) and name in ("sum", "mean") and a != "?":
            try:
                return data(EMPTY, "any", self.linear(f"{name}{'' if a is None else a}", x))
            except TooBig:
                return None
        return None

    def linear(self, name, t):
        return tm.lin(name, t)

    def method(self, eng, st, recv, name, args, kwargs, node):
        x = self.facet_in(eng, st, V(data=recv.data, tups=recv.tups)) if (recv.data is not None or recv.tups) else None
        if x is None:
            return None
        if name in KEEP_METHODS:
            return x
        if name in ("sum", "mean"):
            return self.reduce(name, x, args, kwargs)
        if name in ("conj", "conjugate"):
            return self.lift(lambda t: tm.fn("conj", (t,)), x)
        if name == "tolist":
            return None
        if isinstance(x, T) and not kwargs:
            xs = [self.facet(a) for a in args]
            if all(isinstance(y, T) for y in xs):
                return tm.fn("m." + name, [x] + xs)
        return None

    def attr(self, eng, st, base, name, node):
        x = base.data.x if base.data is not None else None
        if isinstance(x, T) and name in ("T",):
            return tm.fn("T", (x,))
        return None

    def items(self, eng, st, v):
        if v.data is not None and isinstance(v.data.x, Vec) and not v.consts and not v.tups and not v.refs and not v.fns:
            return [self.value(e) for e in v.data.x.e]
        return None

    # ------------------------------------------------------------ indexing
    def push(self, t, op):
        """apply an index / roll operation to every input array in the term"""
        if len(t.p) > 60 or any(tm.ATOMS[a][0] == "lin" for a in t.atoms()):
            return tm.lin(op, t)
        try:
            return tm.rebuild(t, lambda a: None if a[3] else tm.sym(a[1], self.addop(a[2], op), False))
        except TooBig:
            return None

    @staticmethod
    def addop(ops, op):
        ops = list(ops)
        if op[0] == "roll":
            i = len(ops)
            while i > 0 and ops[i - 1][0] == "roll":
                if ops[i - 1][1] == op[1]:
                    n = ops[i - 1][2] + op[2]
                    ops[i - 1:i] = [("roll", op[1], n)] if n else []
                    return tuple(ops)
                if ops[i - 1][1] < op[1]:
                    break
                i -= 1
            ops.insert(i, op)
            return tuple(ops)
        return tuple(ops) + (op,)

    def index_op(self, idx):
        """hashable constant index, or None"""
        def one(i):
            if i[0] == "slice":
                out = []
                for p in i[1:]:
                    if p is None:
                        out.append(None)
                    elif p.is_single_const() and (p.const() is None or isinstance(p.const(), int)):
                        out.append(p.const())
                    else:
                        return None
                if out[2] == 1:
                    out[2] = None
                if out[0] == 0:
                    out[0] = None
                return ("s",) + tuple(out)
            if i[0] == "expr":
                c = i[1].const_or("?") if i[1].is_single_const() else "?"
                if isinstance(c, bool) or c == "?":
                    return None
                if c is Ellipsis:
                    return ("...",)
                if c is None:
                    return ("new",)
                return ("i", c) if isinstance(c, int) else None
            return None
        if idx[0] == "tuple":
            r = [one(i) for i in idx[1]]
            return None if any(x is None for x in r) else tuple(r)
        r = one(idx)
        return None if r is None else (r,)

    def subscript(self, eng, st, base, idx, node):
        x = base.data.x
        if x is None:
            return None
        if idx[0] == "unpack":
            return None
        op = self.index_op(idx)
        if op is None:
            return None
        return self.apply_index(x, op)

    def apply_index(self, x, op):
        if x is None:
            return None
        if isinstance(x, Vec):
            if op and op[0] == ("...",):
                return Vec([self.apply_index(e, op) for e in x.e])
            if not op:
                return x
            h, rest = op[0], op[1:]
            if h[0] == "i":
                if not -len(x.e) <= h[1] < len(x.e):
                    return None
                return self.apply_index(x.e[h[1]], rest) if rest else x.e[h[1]]
            if h[0] == "s":
                es = x.e[slice(*h[1:])]
                return Vec([self.apply_index(e, rest) if rest else e for e in es])
            return None
        # broadcasting axes are irrelevant for an elementwise term
        if all(o in (("new",), ("...",), ("s", None, None, None)) for o in op):
            return x
        op = tuple(o for o in op if o != ("new",))
        while len(op) > 1 and op[-1] == ("s", None, None, None):
            op = op[:-1]
        return self.push(x, ("at", op))

    def let(self, v, n, cond=None):
        """large terms get a name"""
        def w(x):
            if isinstance(x, T) and len(x.p) > n and (cond is None or cond(x)):
                return tm.lin(("let",), x)
            return Vec([w(i) for i in x.e]) if isinstance(x, Vec) else x
        if v.data is not None and v.data.x is not None:
            return V(v.consts, Data(v.data.st, v.data.ty, w(v.data.x)), v.tups, v.refs, v.fns, v.unbound)
        if v.tups and len(v.tups) == 1:
            return V(v.consts, v.data, ((v.tups[0][0], tuple(self.let(i, n, cond) for i in v.tups[0][1])),), v.refs, v.fns, v.unbound)
        return v

    def on_return(self, eng, st, fnv, result, node, bound=None):
        return self.let(result, 200)

    def assign_attr(self, eng, st, obj, attr, v, node):
        return self.define(v) if self.var else v

    def store_name(self, eng, st, name, v, node):
        return self.define(v) if self.var else v

    def define(self, v):
        """terms the variable does not occur in become one atom"""
        def w(x):
            if isinstance(x, T) and len(x.p) > 2 and self.indep(x) and not is_scalar(x):
                return tm.fn("def", (x,))
            return Vec([w(i) for i in x.e]) if isinstance(x, Vec) else x
        if v.data is not None and v.data.x is not None:
            return V(v.consts, Data(v.data.st, v.data.ty, w(v.data.x)), v.tups, v.refs, v.fns, v.unbound)
        if v.tups and len(v.tups) == 1:
            return V(v.consts, v.data, ((v.tups[0][0], tuple(self.define(i) for i in v.tups[0][1])),), v.refs, v.fns, v.unbound)
        return v

    def on_call(self, eng, st, fnv, args, kwargs, node):
        name = getattr(fnv.node, "name", None)
        if name in self.opaque:
            return self.opaque[name](eng, st, fnv, args, kwargs, node)
        return None
