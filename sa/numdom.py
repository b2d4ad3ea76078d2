"""TenDomain for closed numerical constants: functions of constants are rational approximations (about 17 digits), so
tables built from cosines and roots are compared with a tolerance."""
import math
from fractions import Fraction

from . import terms as tm
from .tendom import NA, TenDomain, Unknown, tsum
from .values import const, tup

def expit(x):
    return 1 / (1 + math.exp(-x)) if x > -700 else 0.0


def spence(z):
    if z < 0:
        raise ValueError
    return tm.spence(z)


FUNCS = {"cos": math.cos, "sin": math.sin, "tan": math.tan, "sqrt": math.sqrt, "exp": math.exp, "log": math.log, "arccos": math.acos,
         "arcsin": math.asin, "arctan": math.atan, "arctan2": math.atan2, "acos": math.acos, "asin": math.asin, "atan": math.atan, "atan2": math.atan2,
         "deg2rad": math.radians, "radians": math.radians, "rad2deg": math.degrees, "degrees": math.degrees, "hypot": math.hypot,
         "sinh": math.sinh, "cosh": math.cosh, "tanh": math.tanh, "log2": math.log2, "log10": math.log10, "log1p": math.log1p, "expm1": math.expm1,
         "cbrt": math.cbrt, "erf": math.erf, "mod": lambda a, b: a % b, "remainder": lambda a, b: a % b, "floor_divide": lambda a, b: a // b,
         "fmod": math.fmod, "expit": expit, "log_expit": lambda x: -math.log1p(math.exp(-abs(x))) + min(x, 0), "logit": lambda p: math.log(p / (1 - p)), "spence": spence, "copysign": math.copysign, "gamma": math.gamma,
         "sign": lambda x: (x > 0) - (x < 0)}
VALUES = {"numpy.pi": math.pi, "math.pi": math.pi, "numpy.e": math.e, "math.e": math.e}


BIG = 2 ** 70


def coarse(c):
    """the nearest fraction with sixty significant bits (absolute for numbers above one)"""
    b = c.denominator.bit_length() - abs(c.numerator).bit_length()
    if b > 900:
        return Fraction(0)
    s = 1 << (60 + max(b, 0))
    return Fraction(round(c * s), s)


def rounded(t):
    """closed factors become rational numbers of bounded size"""
    if t is None or (len(t.p) == 1 and () in t.p and (t.p[()].denominator < BIG or coarse(t.p[()]) == t.p[()])) or not t.p:
        return t
    out = {}
    for m, c in t.p.items():
        free = tuple((a, e) for a, e in m if tm.ATOMS[a][0] == "i" or approx.dom.free(a))
        if len(free) < len(m):
            f = approx.dom.number(tm.T({tuple(x for x in m if x not in free): Fraction(1)}))
            if f is None or isinstance(f, complex) and f.imag:
                free = m
            else:
                c = c * Fraction(f.real if isinstance(f, complex) else f)
        if c.denominator >= BIG:
            c = coarse(c)
        out[free] = out.get(free, 0) + c
    return tm.T({m: c for m, c in out.items() if c})


class NumDomain(TenDomain):
    name = "numbers"
    concrete = 4096
    seq_max = 4096
    unroll_max = 256

    def num_const(self, path):
        return const(VALUES[path]) if path in VALUES else None

    def new(self, st, na, ty="arr"):
        if na is not None:
            na = NA(na.shape, [rounded(t) for t in na.e])
        return super().new(st, na, ty)

    def l_norm(self, eng, st, args, kw, node):
        if any(k not in ("axis", "keepdims") for k in kw) or len(args) > 1:
            raise Unknown()

        def f(xs):
            cs = [x.const() if x is not None else None for x in xs]
            if any(c is None for c in cs):
                return None if any(x is None for x in xs) else tm.power(tsum(tm.mul(x, tm.conj(x)) for x in xs), Fraction(1, 2))
            s = sum(float(c) ** 2 for c in cs)
            r = math.isqrt(int(s)) if s == int(s) and s < 1e15 else 0
            return tm.num(r if r * r == s else Fraction(math.sqrt(s)))
        return self.red(eng, st, args, kw, f, None)

    def l_qr(self, eng, st, args, kw, node):
        """Householder reflections with the signs of LAPACK; square real matrices"""
        if kw or len(args) != 1:
            raise Unknown()
        a = self.A(eng, st, args)
        if len(a.shape) < 2 or a.shape[-1] != a.shape[-2]:
            raise Unknown()
        n = a.shape[-1]
        vs = approx(a)
        if vs is None or any(isinstance(v, complex) and v.imag for v in vs):
            raise Unknown()
        qs, rs = [], []
        for m in range(0, len(vs), n * n):
            r = [[float(vs[m + i * n + j].real) for j in range(n)] for i in range(n)]
            q = [[float(i == j) for j in range(n)] for i in range(n)]
            for k in range(n - 1):
                x = [r[i][k] for i in range(k, n)]
                if all(v == 0 for v in x[1:]):
                    continue
                norm = math.sqrt(sum(v * v for v in x))
                x[0] += math.copysign(norm, x[0])
                t = sum(v * v for v in x)
                for mat, cols in ((r, range(n)), (q, range(n))):
                    for c in cols:
                        d = 2 * sum(x[i] * mat[k + i][c] for i in range(n - k)) / t
                        for i in range(n - k):
                            mat[k + i][c] -= d * x[i]
            qs += [Fraction(q[j][i]) for i in range(n) for j in range(n)]
            rs += [Fraction(r[i][j]) if j >= i else Fraction(0) for i in range(n) for j in range(n)]
        return tup([self.new(st, NA(a.shape, [tm.num(x) for x in e])) for e in (qs, rs)])

    def elementwise(self, leaf, ts):
        f = FUNCS.get(leaf)
        if f is not None:
            cs = [self.number(t) for t in ts]
            if all(c is not None and not (isinstance(c, complex) and c.imag) for c in cs):
                try:
                    return tm.num(Fraction(f(*[c.real for c in cs])).limit_denominator(10 ** 20))
                except (ValueError, OverflowError, ZeroDivisionError):
                    return None
        return super().elementwise(leaf, ts)


def approx(na):
    """entries as python numbers (float or complex); None when not closed"""
    dom = approx.dom
    out = []
    for t in na.e:
        v = dom.number(t) if t is not None else None
        if v is None:
            return None
        out.append(v)
    return out


approx.dom = NumDomain()


def small(t, tol=1e-9):
    """every coefficient of the normal form is negligible (symbols are taken to be of order one)"""
    if t is None:
        return False
    if t.zero():
        return True
    free, dom = {}, approx.dom
    for m, c in t.p.items():
        k = tuple((a, e) for a, e in m if dom.free(a))
        rest = tm.T({tuple((a, e) for a, e in m if not dom.free(a)): c})
        free[k] = free.get(k, 0) + dom.number(rest)
    return all(abs(v) <= tol for v in free.values())
