"""Further numpy functions for the tensor domain (mixin of TenDomain): everything here is written on top of the few
primitives of tendom and raises Unknown when an argument is outside of what is modelled."""
import itertools
import math
from fractions import Fraction

from . import terms as tm
from .tenbase import NA, Unknown, bshape, bcast, ew, normaxis, size, tmul, tsum
from .terms import ONE, ZERO
from .values import NONE, const, tup


def quotient(a, b):
    if b.zero():
        raise Unknown()
    return tm.mul(a, tm.inv(b))


class Lib:
    # building
    def n_linspace(self, eng, st, args, kw, node):
        a, b = self.A(eng, st, args), self.A(eng, st, args, 1)
        n = self.kw(args, kw, 2, "num", 50)
        end = self.kw(args, kw, 3, "endpoint", True)
        if "retstep" in kw or not isinstance(n, int) or n < 1 or a.shape != () or b.shape != ():
            raise Unknown()
        d = (n - 1 if end else n) or 1
        return NA((n,), [tm.add(a.e[0], tm.scale(tm.sub(b.e[0], a.e[0]), Fraction(i, d))) for i in range(n)])

    def n_tile(self, eng, st, args, kw, node):
        a = self.A(eng, st, args)
        reps = self.ints(eng, st, args[1] if len(args) > 1 else kw["reps"])
        n = max(len(reps), len(a.shape))
        reps = [1] * (n - len(reps)) + list(reps)
        a = NA((1,) * (n - len(a.shape)) + a.shape, a.e)
        for ax, k in enumerate(reps):
            a = self.take_axis(a, list(range(a.shape[ax])) * k, ax)
        return a

    def n_broadcast_shapes(self, eng, st, args, kw, node):
        sh = ()
        for a in args:
            sh = bshape(sh, tuple(self.ints(eng, st, a)))
            if sh is None:
                raise Unknown()
        return tup([const(n) for n in sh])

    def n_atleast_1d(self, eng, st, args, kw, node):
        if len(args) != 1:
            raise Unknown()
        a = self.A(eng, st, args)
        return args[0] if a.shape else NA((1,), a.e)

    def n_atleast_3d(self, eng, st, args, kw, node):
        a = self.A(eng, st, args)
        n = len(a.shape)
        return args[0] if n >= 3 else NA({0: (1, 1, 1), 1: (1,) + a.shape + (1,), 2: a.shape + (1,)}[n], a.e)

    def n_column_stack(self, eng, st, args, kw, node):
        return self.concat([p if len(p.shape) > 1 else NA((len(p.e), 1), p.e) for p in self.parts(eng, st, args[0])], 1)

    def n_dstack(self, eng, st, args, kw, node):
        def up(p):
            n = len(p.shape)
            return p if n >= 3 else NA({0: (1, 1, 1), 1: (1,) + p.shape + (1,), 2: p.shape + (1,)}[n], p.e)
        return self.concat([up(p) for p in self.parts(eng, st, args[0])], 2)

    n_row_stack = lambda self, *a: self.n_vstack(*a)

    def tri(self, eng, st, args, kw, keep):
        a, k = self.A(eng, st, args), self.kw(args, kw, 1, "k", 0)
        if len(a.shape) < 2 or not isinstance(k, int):
            raise Unknown()
        n, m = a.shape[-2:]
        return NA(a.shape, [x if keep(p // m % n, p % m, k) else ZERO for p, x in enumerate(a.e)])

    def n_triu(self, eng, st, args, kw, node):
        return self.tri(eng, st, args, kw, lambda i, j, k: j - i >= k)

    def n_tril(self, eng, st, args, kw, node):
        return self.tri(eng, st, args, kw, lambda i, j, k: j - i <= k)

    def tri_indices(self, eng, st, args, kw, keep):
        n, k, m = self.kw(args, kw, 0, "n"), self.kw(args, kw, 1, "k", 0), self.kw(args, kw, 2, "m")
        if not isinstance(n, int) or not isinstance(k, int):
            raise Unknown()
        ix = [(i, j) for i in range(n) for j in range(n if m is None else m) if keep(i, j, k)]
        return self.indices(st, ix, 2)

    def indices(self, st, ix, n):
        return tup([self.new(st, NA((len(ix),), [tm.num(i[k]) for i in ix])) for k in range(n)])

    def n_triu_indices(self, eng, st, args, kw, node):
        return self.tri_indices(eng, st, args, kw, lambda i, j, k: j - i >= k)

    def n_tril_indices(self, eng, st, args, kw, node):
        return self.tri_indices(eng, st, args, kw, lambda i, j, k: j - i <= k)

    def n_diag_indices(self, eng, st, args, kw, node):
        n, nd = self.kw(args, kw, 0, "n"), self.kw(args, kw, 1, "ndim", 2)
        return self.indices(st, [(i,) * nd for i in range(n)], nd)

    def n_ix_(self, eng, st, args, kw, node):
        xs = [self.A(eng, st, args, i) for i in range(len(args))]
        if any(len(x.shape) != 1 for x in xs) or any(self.arr(a) is not None and self.arr(a).buf in self.masks for a in args):
            raise Unknown()
        return tup([self.new(st, NA([len(x.e) if j == k else 1 for j in range(len(xs))], x.e)) for k, x in enumerate(xs)])

    def n_indices(self, eng, st, args, kw, node):
        sh = self.ints(eng, st, args[0])
        if kw:
            raise Unknown()
        ix = list(itertools.product(*map(range, sh)))
        return NA([len(sh)] + list(sh), [tm.num(i[k]) for k in range(len(sh)) for i in ix])

    def n_fromiter(self, eng, st, args, kw, node):
        ps = self.parts(eng, st, args[0])
        if any(p.shape != () for p in ps):
            raise Unknown()
        return NA((len(ps),), [p.e[0] for p in ps])

    # reductions and scans
    def n_ptp(self, eng, st, args, kw, node):
        hi, lo = self.extreme(max), self.extreme(min)

        def f(xs):
            a, b = hi(xs), lo(xs)
            return None if a is None or b is None else tm.sub(a, b)
        return self.red(eng, st, args, kw, f)

    def n_var(self, eng, st, args, kw, node):
        kw = dict(kw)
        dd = self.kw([], {"ddof": kw.pop("ddof")}, None, "ddof") if "ddof" in kw else 0

        def f(xs):
            if not xs or any(x is None for x in xs) or len(xs) <= dd:
                return None
            m = tm.scale(tsum(xs), Fraction(1, len(xs)))
            ds = [tm.sub(x, m) for x in xs]
            return tm.scale(tsum(tm.mul(d, tm.conj(d)) for d in ds), Fraction(1, len(xs) - dd))
        return self.red(eng, st, args, kw, f)

    def n_std(self, eng, st, args, kw, node):
        return ew(lambda t: tm.power(t, Fraction(1, 2)), self.n_var(eng, st, args, kw, node))

    def n_average(self, eng, st, args, kw, node):
        w = args[2] if len(args) > 2 else kw.get("weights")
        if w is None or w.is_single_const() and w.const() is None:
            return self.n_mean(eng, st, args[:2], {k: v for k, v in kw.items() if k != "weights"}, node)
        a, w = self.A(eng, st, args), self.A(eng, st, [w])
        ax = self.axis(eng, st, args, kw, 1)
        if ax is not None and w.shape != a.shape:
            if len(ax) != 1 or len(w.shape) != 1:
                raise Unknown()
            k = normaxis(ax[0], len(a.shape))
            w = NA(a.shape, bcast(NA((1,) * k + w.shape + (1,) * (len(a.shape) - 1 - k), w.e), a.shape))
        if w.shape != a.shape:
            raise Unknown()
        num = self.reduce_axes(ew(tm.mul, a, w), ax, tsum, False)
        den = self.reduce_axes(w, ax, tsum, False)
        return ew(quotient, num, den)

    def n_median(self, eng, st, args, kw, node):
        def f(xs):
            vs = self.sort_keys(xs)
            o = sorted(range(len(xs)), key=lambda i: vs[i])
            n = len(o)
            return xs[o[n // 2]] if n % 2 else tm.scale(tm.add(xs[o[n // 2 - 1]], xs[o[n // 2]]), Fraction(1, 2))
        return self.red(eng, st, args, kw, f)

    def scan(self, eng, st, args, kw, f):
        a = self.A(eng, st, args)
        if not ("axis" in kw or len(args) > 1) and len(a.shape) != 1:
            a = NA((len(a.e),), a.e)
            args = [self.new(st, a)]
        return self.along(eng, st, args, kw, f)

    def n_cumsum(self, eng, st, args, kw, node):
        return self.scan(eng, st, args, kw, lambda xs: [tsum(xs[:i + 1]) for i in range(len(xs))])

    def n_cumprod(self, eng, st, args, kw, node):
        def f(xs):
            out, r = [], ONE
            for x in xs:
                r = tmul(r, x)
                out.append(r)
            return out
        return self.scan(eng, st, args, kw, f)

    def n_diff(self, eng, st, args, kw, node):
        n = self.kw(args, kw, 1, "n", 1)
        ax = self.kw(args, kw, 2, "axis", -1)
        if n != 1 or "prepend" in kw or "append" in kw:
            raise Unknown()
        a = self.A(eng, st, args)
        ax = normaxis(ax, len(a.shape))
        m = a.shape[ax]
        return ew(tm.sub, self.take_axis(a, list(range(1, m)), ax), self.take_axis(a, list(range(m - 1)), ax))

    def n_nansum(self, *a):
        return self.n_sum(*a)

    # order and sets (constants only)
    def n_searchsorted(self, eng, st, args, kw, node):
        import bisect
        a, v = self.A(eng, st, args), self.A(eng, st, args, 1)
        side = self.kw(args, kw, 2, "side", "left")
        xs = self.sort_keys(a.e)
        if "sorter" in kw or xs != sorted(xs):
            raise Unknown()
        f = bisect.bisect_left if side == "left" else bisect.bisect_right
        r = NA(v.shape, [tm.num(f(xs, k)) for k in self.sort_keys(v.e)])
        return const(int(r.e[0].const())) if r.shape == () else r

    def n_unique(self, eng, st, args, kw, node):
        a = self.A(eng, st, args)
        if any(k not in ("return_index", "return_inverse", "return_counts", "axis") for k in kw) or len(args) > 1:
            raise Unknown()
        ax = self.kw([], kw, None, "axis")
        if ax is None:
            rows = [(k,) for k in self.sort_keys(a.e)]
            flat = NA((len(a.e),), a.e)
            ax = 0
        else:
            ax = normaxis(ax, len(a.shape))
            if ax != 0 and len(a.shape) > 1:
                raise Unknown()
            m = size(a.shape[1:])
            rows = [tuple(self.sort_keys(a.e[i:i + m])) for i in range(0, len(a.e), m)]
            flat = a
        first = {}
        for i, r in enumerate(rows):
            first.setdefault(r, i)
        keys = sorted(first)
        out = [self.new(st, self.take_axis(flat, [first[k] for k in keys], 0))]
        col = lambda xs: self.new(st, NA((len(xs),), [tm.num(x) for x in xs]))
        if self.kw([], kw, None, "return_index"):
            out.append(col([first[k] for k in keys]))
        if self.kw([], kw, None, "return_inverse"):
            out.append(col([keys.index(r) for r in rows]))
        if self.kw([], kw, None, "return_counts"):
            out.append(col([rows.count(k) for k in keys]))
        return out[0] if len(out) == 1 else tup(out)

    def n_isin(self, eng, st, args, kw, node):
        if kw or len(args) != 2:
            raise Unknown()
        a, b = self.A(eng, st, args), self.A(eng, st, args, 1)
        ks = set(self.sort_keys(b.e))
        return self.tv(eng, st, NA(a.shape, [ONE if k in ks else ZERO for k in self.sort_keys(a.e)]))

    n_in1d = n_isin

    def n_argwhere(self, eng, st, args, kw, node):
        a = self.A(eng, st, args)
        vs = [self.number(x) if x is not None else None for x in a.e]
        if any(v is None for v in vs):
            raise Unknown()
        ix = [i for i, v in zip(itertools.product(*map(range, a.shape)), vs) if v != 0]
        return NA((len(ix), len(a.shape)), [tm.num(k) for i in ix for k in i])

    def n_array_equal(self, eng, st, args, kw, node):
        a, b = self.A(eng, st, args), self.A(eng, st, args, 1)
        if a.shape != b.shape:
            return const(False)
        vs = [self.number(tm.sub(x, y)) if x is not None and y is not None else None for x, y in zip(a.e, b.e)]
        if any(v is not None and v != 0 for v in vs):
            return const(False)
        if any(v is None for v in vs):
            raise Unknown()
        return const(True)

    def finite(self, eng, st, args, val):
        a = self.A(eng, st, args)
        if any(x is None or self.number(x) is None for x in a.e):
            raise Unknown()
        return self.tv(eng, st, NA(a.shape, [val] * len(a.e)))

    def n_isfinite(self, eng, st, args, kw, node):
        return self.finite(eng, st, args, ONE)

    def n_isnan(self, eng, st, args, kw, node):
        return self.finite(eng, st, args, ZERO)

    n_isinf = n_isnan

    # rounding and comparison
    def rounding(self, eng, st, args, f):
        def g(t):
            v = self.number(t)
            return None if v is None or isinstance(v, complex) else tm.num(f(v))
        return ew(g, self.A(eng, st, args))

    def n_ceil(self, eng, st, args, kw, node):
        return self.rounding(eng, st, args, math.ceil)

    def n_trunc(self, eng, st, args, kw, node):
        return self.rounding(eng, st, args, math.trunc)

    n_fix = n_trunc

    def pick2(self, eng, st, args, kw, pick):
        if kw:
            raise Unknown()
        f = self.extreme(pick)
        name = "maximum" if pick is max else "minimum"

        def g(a, b):
            r = a if a == b else f([a, b])
            return self.elementwise(name, [a, b]) if r is None else r
        return ew(g, self.A(eng, st, args), self.A(eng, st, args, 1))

    def n_maximum(self, eng, st, args, kw, node):
        return self.pick2(eng, st, args, kw, max)

    def n_minimum(self, eng, st, args, kw, node):
        return self.pick2(eng, st, args, kw, min)

    n_fmax, n_fmin = n_maximum, n_minimum

    def n_clip(self, eng, st, args, kw, node):
        a = self.A(eng, st, args)
        for k, (name, pick) in enumerate((("a_min", max), ("a_max", min))):
            v = args[k + 1] if len(args) > k + 1 else kw.get(name, kw.get(name[2:]))
            if v is None or v.is_single_const() and v.const() is None:
                continue
            f = self.extreme(pick)
            leaf = "maximum" if pick is max else "minimum"

            def g(x, y, f=f, leaf=leaf):
                r = f([x, y])
                return self.elementwise(leaf, [x, y]) if r is None else r
            a = ew(g, a, self.A(eng, st, [v]))
        return a

    # rearranging
    def n_fliplr(self, eng, st, args, kw, node):
        return self.n_flip(eng, st, [args[0], const(1)], {}, node)

    def n_flipud(self, eng, st, args, kw, node):
        return self.n_flip(eng, st, [args[0], const(0)], {}, node)

    def n_rollaxis(self, eng, st, args, kw, node):
        a = self.A(eng, st, args)
        k, to = normaxis(self.kw(args, kw, 1, "axis"), len(a.shape)), self.kw(args, kw, 2, "start", 0)
        return self.n_moveaxis(eng, st, [args[0], const(k), const(to - 1 if k < to else to)], {}, node)

    def n_split(self, eng, st, args, kw, node):
        a = self.A(eng, st, args)
        ax = normaxis(self.kw(args, kw, 2, "axis", 0), len(a.shape))
        m = a.shape[ax]
        s = self.ints(eng, st, args[1])
        if args[1].is_single_const():
            n = s[0] if isinstance(s, (list, tuple)) else s
            if m % n:
                raise Unknown()
            cuts = [i * (m // n) for i in range(n + 1)]
        else:
            cuts = [0] + list(s) + [m]
        out = [self.new(st, self.take_axis(a, list(range(i, j)), ax)) for i, j in zip(cuts, cuts[1:])]
        return eng.alloc(st, "list", node, fields={"#items": tuple(out)}, elem=eng.j.joinall(out))

    def n_take_along_axis(self, eng, st, args, kw, node):
        a, ix = self.A(eng, st, args), self.A(eng, st, args, 1)
        ax = normaxis(self.kw(args, kw, 2, "axis"), len(a.shape))
        sh = bshape(a.shape[:ax] + (1,) + a.shape[ax + 1:], ix.shape)
        ks = NA(sh, bcast(ix, sh))
        full = sh[:ax] + (a.shape[ax],) + sh[ax + 1:]
        b = NA(full, bcast(a, full))
        out = []
        for p, k in zip(itertools.product(*map(range, sh)), ks.consts() or self.no()):
            out.append(b.at(*p[:ax], k % a.shape[ax], *p[ax + 1:]))
        return NA(sh, out)

    def no(self):
        raise Unknown()

    def n_rot90(self, eng, st, args, kw, node):
        raise Unknown()

    def n_select(self, eng, st, args, kw, node):
        cs, vs = self.parts(eng, st, args[0]), self.parts(eng, st, args[1])
        d = self.A(eng, st, args, 2) if len(args) > 2 else (self.A(eng, st, [kw["default"]]) if "default" in kw else NA((), (ZERO,)))

        def f(*ts):
            n = len(cs)
            for c, v in zip(ts[:n], ts[n:2 * n]):
                b = self.number(c)
                if b is None:
                    return None
                if b:
                    return v
            return ts[-1]
        return ew(f, *cs, *vs, d)

    # writing
    def n_fill_diagonal(self, eng, st, args, kw, node):
        b = self.arr(args[0])
        v = self.A(eng, st, args, 1)
        if b is None or len(b.shape) != 2 or kw:
            raise Unknown()
        n, m = b.shape
        es = list(self.get(eng, st, args[0]).e)
        for i in range(min(n, m)):
            es[i * m + i] = v.e[i % len(v.e)]
        self.write(st, b, es)
        return NONE

    def n_copyto(self, eng, st, args, kw, node):
        b, v = self.arr(args[0]), self.A(eng, st, args, 1)
        if b is None or kw or bshape(v.shape, b.shape) != b.shape:
            raise Unknown()
        self.write(st, b, bcast(v, b.shape))
        return NONE

    def u_at(self, eng, st, name, args, kw, node):
        """np.<ufunc>.at(a, indices, b): unbuffered, repeated indices accumulate"""
        b = self.arr(args[0])
        if b is None:
            raise Unknown()
        sh, pos, _ = self.plan(eng, st, args[0], b.shape, ("expr", args[1]))
        v = bcast(self.A(eng, st, args, 2), sh) if len(args) > 2 else None
        es = list(self.get(eng, st, args[0]).e)
        for k, p in enumerate(pos):
            es[p] = self.uf(name, es[p], v[k] if v is not None else None)
        self.write(st, b, es)
        return NONE

    def uf(self, name, x, y):
        ops = {"add": tm.add, "subtract": tm.sub, "multiply": tm.mul, "divide": quotient, "true_divide": quotient}
        if x is None or y is None:
            return None
        if name in ops:
            return ops[name](x, y)
        if name in ("maximum", "minimum"):
            return self.extreme(max if name == "maximum" else min)([x, y])
        if name in ("logical_and", "logical_or"):
            return self.truths([x, y], name == "logical_and")
        raise Unknown()

    def u_reduce(self, eng, st, name, args, kw, node):
        def f(xs):
            if not xs:
                return {"add": ZERO, "multiply": ONE}.get(name)
            r = xs[0]
            for x in xs[1:]:
                r = self.uf(name, r, x)
            return r
        if not ("axis" in kw or len(args) > 1):
            kw = dict(kw, axis=const(0))
        return self.red(eng, st, args, kw, f)

    def u_accumulate(self, eng, st, name, args, kw, node):
        def f(xs):
            out = list(xs[:1])
            for x in xs[1:]:
                out.append(self.uf(name, out[-1], x))
            return out
        return self.along(eng, st, args, dict(kw) if "axis" in kw or len(args) > 1 else dict(kw, axis=const(0)), f)

    def u_outer(self, eng, st, name, args, kw, node):
        a, b = self.A(eng, st, args), self.A(eng, st, args, 1)
        return NA(a.shape + b.shape, [self.uf(name, x, y) for x in a.e for y in b.e])

    # linear algebra
    def l_solve(self, eng, st, args, kw, node):
        a, b = self.A(eng, st, args), self.A(eng, st, args, 1)
        inv = self.l_inv(eng, st, args[:1], {}, node)
        if len(b.shape) == 1:
            return self.n_matmul(eng, st, [self.new(st, inv), args[1]], {}, node)
        return self.n_matmul(eng, st, [self.new(st, inv), args[1]], {}, node)

    def l_slogdet(self, eng, st, args, kw, node):
        d = self.l_det(eng, st, args, kw, node)
        vs = [self.number(x) for x in d.e]
        if any(v is None or isinstance(v, complex) or v == 0 for v in vs):
            raise Unknown()
        sign = self.new(st, NA(d.shape, [tm.num((v > 0) - (v < 0)) for v in vs]))
        return tup([sign, self.new(st, NA(d.shape, [self.elementwise("log", [tm.num(abs(Fraction(v)))]) for v in vs]))])

    def l_matrix_power(self, eng, st, args, kw, node):
        n = self.kw(args, kw, 1, "n")
        if not isinstance(n, int):
            raise Unknown()
        a = args[0]
        if n < 0:
            a, n = self.new(st, self.l_inv(eng, st, [a], {}, node)), -n
        sh = self.A(eng, st, [a]).shape
        r = self.new(st, NA(sh, [ONE if p // sh[-1] % sh[-2] == p % sh[-1] else ZERO for p in range(size(sh))]))
        for _ in range(n):
            r2 = self.n_matmul(eng, st, [r, a], {}, node)
            r = self.new(st, r2) if isinstance(r2, NA) else r2
        return r

    def l_multi_dot(self, eng, st, args, kw, node):
        its = eng.seq_items(st, args[0])
        if not its:
            raise Unknown()
        r = its[0]
        for i in its[1:]:
            r2 = self.n_matmul(eng, st, [r, i], {}, node)
            r = self.new(st, r2) if isinstance(r2, NA) else r2
        return r
