"""Normal form of elementwise real functions: generalised polynomials with rational coefficients and exponents over atoms.

atoms   ("sym", name, ops, scalar)   an input array (ops: slices / rolls taken of it)
        ("ind", t)                   1 where t > 0, else 0 (idempotent)
        ("pw", t)                    t as a unit, for inverses and roots of sums
        ("exp", t)                   exp(t), t one monomial with coefficient 1
        ("i",)                       imaginary unit
        ("fn", name, args)           any other pure function of terms (known derivative or not)
        ("lin", name, t)             linear reduction (sum / mean over an axis)
Two equal normal forms are equal functions (away from the measure-zero set where an indicator jumps)."""
import cmath
import hashlib
import math
import time
from fractions import Fraction

_ids = {}
ATOMS = []
MAXMONO = 15000
MAXSPLIT = 6
LIMIT = {"until": None, "whole": None}


def allow(seconds):
    """work on one normal form is given up after this long (the obligation stays undecided)"""
    LIMIT["until"] = time.monotonic() + seconds
    if LIMIT["whole"] is not None:
        LIMIT["until"] = min(LIMIT["until"], LIMIT["whole"])


def allow_whole(seconds):
    LIMIT["whole"] = time.monotonic() + seconds


class TooBig(Exception):
    pass


def atom(a):
    i = _ids.get(a)
    if i is None:
        i = _ids[a] = len(ATOMS)
        ATOMS.append(a)
    return i


class T:
    """poly: {monomial: Fraction}, monomial = tuple of (atom id, exponent) sorted by id"""
    __slots__ = ("p", "_h", "_k")

    def __init__(self, p):
        self.p = p
        self._h = None
        self._k = None

    def key(self):
        if self._k is None:
            self._k = frozenset(self.p.items())
        return self._k

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.key())
        return self._h

    def __eq__(self, o):
        return self is o or (isinstance(o, T) and self.p == o.p)

    def __repr__(self):
        return show(self)

    def zero(self):
        return not self.p

    def const(self):
        """Fraction when constant, else None"""
        if not self.p:
            return Fraction(0)
        if len(self.p) == 1 and () in self.p:
            return self.p[()]
        return None

    def atoms(self):
        return {a for m in self.p for a, _ in m}


ZERO = T({})
ONE = T({(): Fraction(1)})


def num(c):
    if isinstance(c, bool):
        c = int(c)
    if isinstance(c, complex):
        return add(num(c.real), mul(num(c.imag), IMAG))
    f = c if isinstance(c, (int, Fraction)) else Fraction(repr(c)) if math.isfinite(c) else None
    if f is None:
        return fn("inf" if c > 0 else "nan", ())
    f = Fraction(f)
    return T({(): f}) if f else ZERO


def of(aid, e=1):
    return T({((aid, Fraction(e)),): Fraction(1)})


def sym(name, ops=(), scalar=False):
    return of(atom(("sym", name, ops, scalar)))


def fn(name, args):
    return of(atom(("fn", name, tuple(args))))


IMAG = of(atom(("i",)))
I_ID = atom(("i",))


def add(a, b, f=1):
    if len(b.p) > len(a.p) and f == 1:
        a, b = b, a
    p = dict(a.p)
    for m, c in b.p.items():
        s = p.get(m, 0) + c * f
        if s:
            p[m] = s
        else:
            p.pop(m, None)
    return T(p)


def sub(a, b):
    return add(a, b, -1)


def scale(a, c):
    return T({m: v * c for m, v in a.p.items()}) if c else ZERO


def mono_mul(m1, m2):
    """(coefficient, monomial, list of terms to expand)"""
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    coef = 1
    expand = []
    for a in list(d):
        e = d[a]
        if e == 0:
            del d[a]
            continue
        k = ATOMS[a][0]
        if k == "ind":
            d[a] = Fraction(1)
        elif k == "i":
            if e.denominator == 1:
                r = int(e) % 4
                if r in (2, 3):
                    coef = -coef
                if r % 2:
                    d[a] = Fraction(1)
                else:
                    del d[a]
        elif k == "pw" and e >= 1:
            n = math.floor(e)
            if e - n:
                d[a] = e - n
            else:
                del d[a]
            expand.append((ATOMS[a][1], n))
        elif k == "pw" and e.denominator == 1 and len(ATOMS[a][1].p) == 1:
            del d[a]
            expand.append((power(ATOMS[a][1], Fraction(-1)), int(-e)))
    return coef, tuple(sorted(d.items())), expand


def mul(a, b):
    if len(a.p) * len(b.p) > 40 * MAXMONO:
        raise TooBig()
    if len(a.p) * len(b.p) > 60 and LIMIT["until"] is not None and time.monotonic() > LIMIT["until"]:
        raise TooBig()
    out = {}
    extra = []
    for m1, c1 in a.p.items():
        for m2, c2 in b.p.items():
            k, m, ex = mono_mul(m1, m2)
            c = c1 * c2 * k
            if ex:
                t = T({m: c})
                for u, n in ex:
                    t = mul(t, ipow(u, n))
                extra.append(t)
            else:
                s = out.get(m, 0) + c
                if s:
                    out[m] = s
                else:
                    out.pop(m, None)
    r = T(out)
    for t in extra:
        r = add(r, t)
    if len(r.p) > MAXMONO:
        raise TooBig()
    return r


def ipow(a, n):
    r = ONE
    while n:
        if n & 1:
            r = mul(r, a)
        n >>= 1
        if n:
            a = mul(a, a)
    return r


def subst_ind(t, aid, val):
    """t with indicator atom aid replaced by 0 / 1"""
    out = {}
    for m, c in t.p.items():
        if any(a == aid for a, _ in m):
            if not val:
                continue
            m = tuple(x for x in m if x[0] != aid)
        s = out.get(m, 0) + c
        if s:
            out[m] = s
        else:
            out.pop(m, None)
    return T(out)


def inds(t):
    return sorted({a for m in t.p for a, _ in m if ATOMS[a][0] == "ind"})


def split(ts, f, only=None):
    """f over the cases of the indicators in the terms ts, recombined; f gets indicator free terms.
    None when there are too many indicators."""
    ii = sorted({a for t in ts for a in inds(t) if only is None or only(a)})
    if len(ii) > MAXSPLIT:
        return None
    return _split(list(ts), f, ii)


def _split(ts, f, ii):
    ii = [i for i in ii if any(any(a == i for a, _ in m) for t in ts for m in t.p)]
    if not ii:
        return f(ts)
    i = ii[0]
    r1 = _split([subst_ind(t, i, 1) for t in ts], f, ii[1:])
    r0 = _split([subst_ind(t, i, 0) for t in ts], f, ii[1:])
    if r1 is None or r0 is None:
        return None
    if r1 == r0:
        return r1
    c = of(i)
    return add(mul(c, r1), mul(sub(ONE, c), r0))


def lead(t):
    """deterministic leading coefficient"""
    m = min(t.p)
    return t.p[m]


def ind(t):
    """[t > 0]; t without indicators"""
    c = t.const()
    if c is not None:
        return ONE if c > 0 else ZERO
    # indicators of positive factors are dropped: exp and roots are positive
    if len(t.p) == 1:
        ((m, co),) = t.p.items()
        m = tuple((a, e) for a, e in m if not positive(a, e))
        t = T({m: co})
        if not m:
            return ONE if co > 0 else ZERO
    else:
        com = content(t)
        com = {a: e for a, e in com.items() if positive(a, e)}
        if com:
            t = mul(t, T({tuple(sorted((a, -e) for a, e in com.items())): Fraction(1)}))
    k = lead(t)
    if k < 0:
        return sub(ONE, of(atom(("ind", scale(t, 1 / k)))))
    return of(atom(("ind", scale(t, 1 / k))))


_pos = {}


def positive(a, e):
    """atom ** e is certainly positive"""
    key = (a, e)
    r = _pos.get(key)
    if r is None:
        _pos[key] = False
        r = _pos[key] = _positive(ATOMS[a], e)
    return r


def _positive(k, e):
    if k[0] == "exp":
        return not complexish(k[1])
    if k[0] == "pw" and not complexish(k[1]) and (e.denominator == 2 or all_positive(k[1])):
        return True
    if e.denominator == 1 and e % 2 == 0:
        return k[0] == "sym" and not k[1].startswith("~") or k[0] == "pw" and not complexish(k[1])
    if k[0] == "fn":
        if k[1] == "maximum":
            return any(all_positive(t) for t in k[2])
        if k[1] == "def":
            return all_positive(k[2][0])
    return k[0] == "sym" and k[1] in POSITIVE_NAMES


def complexish(t):
    """does the imaginary unit or a complex symbol appear anywhere in t"""
    r = _cplx.get(t)
    if r is None:
        r = False
        for a in t.atoms():
            k = ATOMS[a]
            if k[0] == "i" or k[0] == "sym" and k[1].startswith("~"):
                r = True
            elif k[0] in ("pw", "exp", "ind"):
                r = complexish(k[1])
            elif k[0] == "lin":
                r = complexish(k[2])
            elif k[0] == "fn":
                r = any(complexish(x) for x in k[2])
            if r:
                break
        _cplx[t] = r
    return r


_cplx = {}
CONSTANTS = {"pi": math.pi, "e": math.e}
POSITIVE_NAMES = set(CONSTANTS)


def all_positive(t):
    return bool(t.p) and all(c > 0 and all(positive(a, e) for a, e in m) for m, c in t.p.items())


def degree(t, var):
    """{exponent: coefficient} when t is a polynomial in the symbol var, else None"""
    out = {}
    for m, c in t.p.items():
        k = Fraction(0)
        rest = []
        for a, e in m:
            if ATOMS[a][0] == "sym" and ATOMS[a][1] == var:
                k = e
            else:
                if adep(a, var):
                    return None
                rest.append((a, e))
        out[k] = add(out.get(k, ZERO), T({tuple(rest): c}))
    return {k: v for k, v in out.items() if v.p}


def limit_ind(u, var, s):
    """value of [u > 0] for var -> s * infinity, or None"""
    d = degree(u, var)
    if d is None or any(k.denominator != 1 or k < 0 for k in d):
        return None
    k = max(d)
    if k == 0:
        return None
    top = d[k] if s > 0 or k % 2 == 0 else scale(d[k], -1)
    if all_positive(top):
        return 1
    if all_positive(scale(top, -1)):
        return 0
    return None


def limit(t, var, s):
    """t with the indicators that settle for var -> s * infinity replaced"""
    for _ in range(3):
        vals = {}
        for a in inds(t):
            if adep(a, var):
                v = limit_ind(ATOMS[a][1], var, s)
                if v is not None:
                    vals[a] = v
        if not vals:
            break
        for a, v in vals.items():
            t = subst_ind(t, a, v)

    def f(a):
        if ATOMS[a][0] == "lin":
            u = limit(ATOMS[a][2], var, s)
            c = u.const()
            if c is not None and (not isinstance(ATOMS[a][1], str) or "mean" in ATOMS[a][1]):
                return u
            return lin(ATOMS[a][1], u)
        return None
    return map_atoms(t, f)


def has_i(t):
    return any(ATOMS[a][0] == "i" or (ATOMS[a][0] == "sym" and ATOMS[a][1].startswith("~")) for a in t.atoms())


def content(t):
    """common atoms with minimal exponents"""
    com = None
    for m in t.p:
        d = dict(m)
        if com is None:
            com = dict(d)
        else:
            com = {a: min(e, d.get(a, Fraction(0))) for a, e in com.items() if a in d or e < 0}
            for a, e in d.items():
                if a not in com and e < 0:
                    com[a] = e
            com = {a: e for a, e in com.items() if e}
    # atoms missing from a monomial have exponent 0
    out = {}
    for a in set(com or {}):
        e = min(dict(m).get(a, Fraction(0)) for m in t.p)
        if e:
            out[a] = e
    return out


def inv(t):
    return power(t, Fraction(-1))


def power(t, e):
    """t ** e, e Fraction"""
    e = Fraction(e)
    if e.denominator == 1 and e >= 0:
        return ipow(t, int(e))
    if t.zero():
        return ZERO if e > 0 else fn("div0", ())
    ii = inds(t)
    if ii:
        return split([t], lambda ts: power(ts[0], e))
    if len(t.p) == 1:
        ((m, c),) = t.p.items()
        if e.denominator == 1:
            r = T({tuple((a, x * e) for a, x in m): c ** int(e)})
            return mul(ONE, r) if any(ATOMS[a][0] in ("pw", "i") for a, _ in m) else r
        if c > 0 and all(positive(a, x) or ATOMS[a][0] == "pw" for a, x in m):
            root = nth_root(c, e.denominator)
            if root is not None:
                return mul(ONE, T({tuple((a, x * e) for a, x in m): root ** e.numerator}))
    # canonical scale
    c = abs(lead(t))
    if e.denominator == 1:
        com = content(t)
        if com:
            cm = T({tuple(sorted(com.items())): Fraction(1)})
            return mul(power(cm, e), power(mul(t, power(cm, Fraction(-1))), e))
        k = lead(t)
        return scale(of(atom(("pw", scale(t, 1 / k))), e), k ** int(e))
    root = nth_root(c, e.denominator)
    if root is not None:
        return scale(of(atom(("pw", scale(t, 1 / c))), e), root ** e.numerator)
    return of(atom(("pw", t)), e)


def nth_root(c, n):
    if n == 1:
        return c

    def r(x):
        k = round(x ** (1.0 / n))
        for j in (k - 1, k, k + 1):
            if j >= 0 and j ** n == x:
                return j
        return None
    try:
        a, b = r(c.numerator), r(c.denominator)
    except OverflowError:
        return None
    return Fraction(a, b) if a is not None and b else None


def exp(t):
    if inds(t):
        return split([t], lambda ts: exp(ts[0]))
    r = ONE
    half_turn = tuple(sorted((a, Fraction(1)) for q in (IMAG, sym("pi", (), True)) for a, _ in next(iter(q.p))))
    for m, c in t.p.items():
        if m == half_turn:
            # whole quarter turns are exact
            turns = c * 2 // 1
            r = mul(r, (ONE, IMAG, scale(ONE, -1), scale(IMAG, -1))[turns % 4])
            c -= turns / Fraction(2)
        if c:
            r = mul(r, of(atom(("exp", T({m: Fraction(1)}))), c))
    return r


def log(t):
    c = t.const()
    if c == 1:
        return ZERO
    if inds(t):
        return split([t], lambda ts: log(ts[0]))
    if len(t.p) == 1:
        ((m, co),) = t.p.items()
        if co == 1 and len(m) == 1:
            a, e = m[0]
            if ATOMS[a][0] == "pw":
                return scale(fn("log", (ATOMS[a][1],)), e)
            if ATOMS[a][0] == "exp":
                return scale(ATOMS[a][1], e)
    return fn("log", (t,))


def expit(t):
    r = split([t], lambda ts: inv(add(ONE, exp(scale(ts[0], -1)))))
    return r


def lin(name, t):
    """linear reduction over array elements; constants of the array move out"""
    if t.zero():
        return ZERO
    return of(atom(("lin", name, t)))


def map_atoms(t, f, memo=None):
    """rebuild t with every atom replaced by the term f(atom id) (None: keep)"""
    out = ZERO
    memo = {} if memo is None else memo
    for m, c in t.p.items():
        r = T({(): c})
        for a, e in m:
            if a not in memo:
                memo[a] = f(a)
            u = memo[a]
            r = mul(r, of(a, e) if u is None else exp(scale(u[1], e)) if isinstance(u, tuple) else power(u, e))
        out = add(out, r)
    return out


def rebuild(t, leaf, memo=None):
    """replace sym atoms through leaf(atom) everywhere, inside functions as well"""
    memo = {} if memo is None else memo

    def f(aid):
        a = ATOMS[aid]
        if a[0] == "sym":
            return leaf(a)
        if a[0] == "ind":
            return ind(rebuild(a[1], leaf, memo))
        if a[0] == "pw":
            return rebuild(a[1], leaf, memo)
        if a[0] == "exp":
            return ("exp", rebuild(a[1], leaf, memo))
        if a[0] == "fn":
            args = [rebuild(x, leaf, memo) for x in a[2]]
            return log(args[0]) if a[1] == "log" else fn(a[1], args)
        if a[0] == "lin":
            return lin(a[1], rebuild(a[2], leaf, memo))
        return None
    return map_atoms(t, f, memo)


_dep = {}


def depends(t, var):
    """does t contain the symbol named var"""
    return any(adep(a, var) for a in t.atoms())


def adep(aid, var):
    k = (aid, var)
    r = _dep.get(k)
    if r is None:
        a = ATOMS[aid]
        if a[0] == "sym":
            r = a[1] == var
        elif a[0] in ("ind", "pw", "exp"):
            r = depends(a[1], var)
        elif a[0] == "fn":
            r = any(depends(x, var) for x in a[2])
        elif a[0] == "lin":
            r = depends(a[2], var)
        else:
            r = False
        _dep[k] = r
    return r


class NoDerivative(Exception):
    pass


_dmemo = {}


def diff(t, var):
    out = ZERO
    for m, c in t.p.items():
        for i, (a, e) in enumerate(m):
            if not adep(a, var) or ATOMS[a][0] == "ind":
                continue
            da = datom(a, var)
            if da.zero():
                continue
            rest = list(m[:i] + m[i + 1:])
            k = ATOMS[a][0]
            if k == "exp":
                r = T({tuple(m): c * e})
            else:
                if e != 1:
                    rest.append((a, e - 1))
                r = mul(ONE, T({tuple(sorted(rest)): c * e}))
            out = add(out, mul(r, da))
    return out


def datom(aid, var):
    """derivative of the atom (for exp: of its argument)"""
    key = (aid, var)
    if key in _dmemo:
        return _dmemo[key]
    a = ATOMS[aid]
    if a[0] == "sym":
        r = ONE
    elif a[0] == "pw" or a[0] == "exp":
        r = diff(a[1], var)
    elif a[0] == "lin":
        r = lin(a[1], diff(a[2], var))
    elif a[0] == "fn":
        n, args = a[1], a[2]
        if n == "log":
            r = mul(diff(args[0], var), inv(args[0]))
        elif n == "spence":
            r = mul(diff(args[0], var), mul(log(args[0]), inv(sub(ONE, args[0]))))
        else:
            raise NoDerivative(n)
    else:
        raise NoDerivative(a[0])
    _dmemo[key] = r
    return r


def is_zero(t, depth=0):
    """True when t is provably the zero function: clears inverses, merges linear reductions"""
    if t.zero():
        return True
    if depth > 6:
        return False
    if any(ATOMS[a][0] == "lin" and ATOMS[a][1] == ("let",) for a in t.atoms()):
        return is_zero(unlet(t), depth + 1)
    # merge linear reductions: sum of c_i * L(t_i) with common factor
    groups, rest = {}, ZERO
    for m, c in t.p.items():
        ls = [(a, e) for a, e in m if ATOMS[a][0] == "lin"]
        if len(ls) == 1 and ls[0][1] == 1:
            a = ls[0][0]
            k = (ATOMS[a][1],)
            others = tuple(x for x in m if x[0] != a)
            scal = all(scalar_atom(x[0]) for x in others)
            if scal:
                inner = mul(ATOMS[a][2], T({others: c}))
                groups[k] = add(groups.get(k, ZERO), inner)
            else:
                groups[(k, others)] = add(groups.get((k, others), ZERO), scale(ATOMS[a][2], c))
        else:
            rest = add(rest, T({m: c}))
    if groups:
        return is_zero(rest, depth + 1) and all(is_zero(g, depth + 1) for g in groups.values())
    # clear inverses of sums
    for _ in range(12):
        worst = None
        for m in t.p:
            for a, e in m:
                if ATOMS[a][0] == "pw" and e < 0 and e.denominator == 1:
                    if worst is None or e < worst[1]:
                        worst = (a, e)
        if worst is None:
            return t.zero()
        u = ATOMS[worst[0]][1]
        # multiply by pw^n: monomials with that atom cancel first
        n = int(-worst[1])
        out = ZERO
        for m, c in t.p.items():
            d = dict(m)
            e = d.pop(worst[0], Fraction(0))
            k = n + e
            mm = T({tuple(sorted(d.items())): c})
            if k.denominator != 1 or k < 0:
                return False
            out = add(out, mul(mm, ipow(u, int(k))))
        t = out
        if t.zero():
            return True
    return False


def unlet(t):
    return map_atoms(t, lambda a: unlet(ATOMS[a][2]) if ATOMS[a][0] == "lin" and ATOMS[a][1] == ("let",) else None)


def fix_inds(t, vals):
    """indicator atoms set to given values, inside named terms and reductions as well"""
    for a, v in vals.items():
        t = subst_ind(t, a, v)
    return map_atoms(t, lambda a: lin(ATOMS[a][1], fix_inds(ATOMS[a][2], vals)) if ATOMS[a][0] == "lin" else None)


def undef(t):
    """named terms written out everywhere"""
    def f(aid):
        a = ATOMS[aid]
        if a[0] == "fn" and a[1] == "def":
            return undef(a[2][0])
        if a[0] == "lin":
            return undef(a[2]) if a[1] == ("let",) else lin(a[1], undef(a[2]))
        if a[0] == "ind":
            return ind(undef(a[1]))
        if a[0] == "pw":
            return undef(a[1])
        if a[0] == "exp":
            return ("exp", undef(a[1]))
        if a[0] == "fn":
            args = [undef(x) for x in a[2]]
            return log(args[0]) if a[1] == "log" else fn(a[1], args)
        return None
    return map_atoms(t, f)


def scalar_atom(aid):
    a = ATOMS[aid]
    if a[0] == "sym":
        return a[3]
    if a[0] in ("ind", "pw", "exp"):
        return all(scalar_atom(x) for x in a[1].atoms())
    if a[0] == "fn":
        return all(scalar_atom(x) for t in a[2] for x in t.atoms())
    return a[0] == "i" or (a[0] == "lin" and isinstance(a[1], str))


def equal(a, b):
    return is_zero(sub(a, b))


# ------------------------------------------------------------------ evaluation of a term at a sample point (witness search)
class Point:
    def __init__(self, seed, fixed=None, guard=None, shake=0.0):
        self.seed = seed
        self.shake = 1.0 + shake
        self.guard = guard or {}
        self.memo = {}
        self.fixed = fixed or {}

    def rnd(self, *key):
        h = hashlib.sha256(repr((self.seed,) + key).encode()).digest()
        u = int.from_bytes(h[:8], "big") / 2.0 ** 64
        return (2 * u - 1) * (0.3, 1.0, 3.0)[h[9] % 3]

    def val(self, t, site=0):
        s = 0.0
        for m, c in t.p.items():
            r = float(c)
            for a, e in m:
                r *= self.pw(self.aval(a, site), e, a, site)
            s += r
        return s

    def mag(self, t, site=0):
        s = 0.0
        for m, c in t.p.items():
            r = abs(float(c))
            for a, e in m:
                r *= abs(self.pw(self.aval(a, site), e, a, site))
            s += r
        return s

    def pw(self, x, e, aid=None, site=0):
        if e.denominator == 1:
            return x ** int(e)
        if aid is not None and ATOMS[aid][0] == "exp" and isinstance(x, complex):
            return cmath.exp(float(e) * self.val(ATOMS[aid][1], site))
        if isinstance(x, complex):
            return x ** float(e)
        if x < 0:
            raise ValueError
        return x ** float(e)

    def aval(self, aid, site):
        k = (aid, site)
        if k not in self.memo:
            self.memo[k] = self._aval(ATOMS[aid], site)
            if aid in self.guard and self.memo[k] != self.guard[aid]:
                self.memo.pop(k)
                raise ValueError
        return self.memo[k]

    def _aval(self, a, site):
        if a[0] == "sym":
            if a[1] in self.fixed:
                return self.fixed[a[1]]
            if a[1] in CONSTANTS:
                return CONSTANTS[a[1]]
            if a[1].startswith("~"):   # complex
                ops = a[2][:-1] if a[2] and a[2][-1] == "*" else a[2]
                v = complex(self.rnd(a[1], ops, 0 if a[3] else site), self.rnd(a[1], ops, "im", 0 if a[3] else site)) * self.shake
                return v if ops == a[2] else v.conjugate()
            return self.rnd(a[1], a[2], 0 if a[3] else site) * self.shake
        if a[0] == "ind":
            v = self.val(a[1], site)
            return 1.0 if v.real > 0 else 0.0
        if a[0] == "pw":
            return self.val(a[1], site)
        if a[0] == "exp":
            v = self.val(a[1], site)
            return cmath.exp(v) if isinstance(v, complex) else math.exp(v)
        if a[0] == "i":
            return 1j
        if a[0] == "lin":
            if not isinstance(a[1], str):
                return self.val(a[2], (site, a[1]))
            vs = [self.val(a[2], (site, j)) for j in range(3)]
            return sum(vs) / (3.0 if "mean" in a[1] else 1.0)
        n = a[1]
        if n in ("inf", "nan", "div0"):
            raise ValueError
        v = [self.val(t, site) for t in a[2]]
        if n == "log":
            return math.log(v[0])
        if n == "spence":
            return spence(v[0])
        if n == "maximum":
            return max(v)
        if n == "minimum":
            return min(v)
        if n == "abs":
            return abs(v[0])
        if n == "sign":
            return (v[0] > 0) - (v[0] < 0)
        if n == "where":
            return v[1] if v[0] else v[2]
        if n == "def":
            return v[0]
        if n.startswith("sort"):
            return sorted(v)[int(n[4:])]
        return self.rnd("fn", n, tuple(round(x.real, 9) + (0 if not isinstance(x, complex) else 0) for x in v), 0)


def spence(z):
    if z <= 0:
        raise ValueError
    if z > 1.5:
        return -0.5 * math.log(z) ** 2 - spence(1 / z)
    if z < 0.5:
        return math.pi ** 2 / 6 - math.log(z) * math.log(1 - z) - spence(1 - z) if z < 1 else 0.0
    x = 1 - z
    s, p = 0.0, 1.0
    for k in range(1, 80):
        p *= x
        s += p / (k * k)
    return s


def witness(a, b, n=60, fixed=None, guard=None):
    """a sample point where the terms a and b clearly differ, or None"""
    for seed in range(n):
        pt = Point(seed, fixed, guard)
        try:
            va, vb = pt.val(a), pt.val(b)
            m = max(pt.mag(a), pt.mag(b), 1e-3)
        except (ValueError, ZeroDivisionError, OverflowError):
            continue
        if m < 1e9 and abs(va - vb) > 1e-7 * m and abs(va - vb) > 1e-6 * max(abs(va), abs(vb)):
            # the difference has to be stable under rounding of the inputs
            try:
                p2 = Point(seed, fixed, guard, 1e-9)
                wa, wb = p2.val(a), p2.val(b)
            except (ValueError, ZeroDivisionError, OverflowError):
                continue
            if abs((wa - wb) - (va - vb)) < 0.01 * abs(va - vb):
                return pt
    return None


def show(t, limit=6):
    if not t.p:
        return "0"
    out = []
    for m, c in sorted(t.p.items(), key=lambda kv: (len(kv[0]), kv[0]))[:limit]:
        fs = []
        for a, e in m:
            s = show_atom(a)
            fs.append(s if e == 1 else f"{s}^{e}")
        cs = str(c) if c.denominator < 10 ** 6 else f"{float(c):.6g}"
        out.append("*".join(([cs] if c != 1 or not fs else []) + fs))
    if len(t.p) > limit:
        out.append(f"... ({len(t.p)} terms)")
    return " + ".join(out)


def show_atom(aid):
    a = ATOMS[aid]
    if a[0] == "sym":
        return a[1] + "".join(f"@{o}" for o in a[2])
    if a[0] == "ind":
        return f"[{show(a[1], 3)} > 0]"
    if a[0] == "pw":
        return f"({show(a[1], 3)})"
    if a[0] == "i":
        return "i"
    if a[0] == "exp":
        return f"exp({show(a[1], 3)})"
    if a[0] == "lin":
        return f"{a[1]}({show(a[2], 3)})"
    return f"{a[1]}({', '.join(show(x, 3) for x in a[2])})"


# ------------------------------------------------------------------ complex conjugation
def csym(name, ops=()):
    """a complex symbol"""
    return sym("~" + name, ops, True)


def conj(t):
    def f(aid):
        a = ATOMS[aid]
        if a[0] == "i":
            return scale(IMAG, -1)
        if a[0] == "sym":
            if not a[1].startswith("~"):
                return None
            ops = a[2][:-1] if a[2] and a[2][-1] == "*" else a[2] + ("*",)
            return sym(a[1], ops, a[3])
        if a[0] == "pw":
            return conj(a[1])
        if a[0] == "exp":
            return ("exp", conj(a[1]))
        if a[0] == "lin":
            return lin(a[1], conj(a[2]))
        if a[0] == "fn":
            args = [conj(x) for x in a[2]]
            return log(args[0]) if a[1] == "log" else fn(a[1], args)
        return None
    return map_atoms(t, f)
