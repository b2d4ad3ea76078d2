"""Arrays with symbolic entries: views, values and the arithmetic of shapes, contractions and matrices."""
import itertools

from . import terms as tm
from .terms import ONE, TooBig, ZERO
MAXSIZE = 36000


class Arr:
    __slots__ = ("buf", "shape", "idx", "_h")

    def __init__(self, buf, shape, idx):
        self.buf, self.shape, self.idx = buf, tuple(shape), tuple(idx)
        self._h = None

    def __eq__(self, o):
        return self is o or (isinstance(o, Arr) and (self.buf, self.shape, self.idx) == (o.buf, o.shape, o.idx))

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.buf, self.shape, self.idx))
        return self._h

    def __repr__(self):
        return f"Arr{self.buf}{self.shape}"


class NA:
    """shape and flat entries (T, or None when unknown)"""
    __slots__ = ("shape", "e")

    def __init__(self, shape, e):
        self.shape, self.e = tuple(shape), tuple(e)

    def at(self, *ix):
        p = 0
        for i, n in zip(ix, self.shape):
            p = p * n + i
        return self.e[p]

    def known(self):
        return all(x is not None for x in self.e)

    def consts(self):
        """python numbers, or None"""
        out = []
        for x in self.e:
            c = x.const() if x is not None else None
            if c is None:
                return None
            out.append(int(c) if c.denominator == 1 else c)
        return out

    def __repr__(self):
        return f"NA{self.shape}{list(self.e)}"


def size(shape):
    n = 1
    for s in shape:
        n *= s
    return n


def strides(shape):
    st, n = [], 1
    for s in reversed(shape):
        st.append(n)
        n *= s
    return tuple(reversed(st))


def bshape(*shapes):
    n = max(map(len, shapes), default=0)
    out = []
    for k in range(n):
        d = {s[len(s) - n + k] for s in shapes if len(s) - n + k >= 0}
        d.discard(1)
        if len(d) > 1:
            return None
        out.append(d.pop() if d else 1)
    return tuple(out)


def bcast(a, shape):
    if a.shape == shape:
        return a.e
    if size(shape) > MAXSIZE:
        raise TooBig()
    st = strides(a.shape)
    off = len(shape) - len(a.shape)
    st = (0,) * off + tuple(0 if n == 1 else s for n, s in zip(a.shape, st))
    return [a.e[sum(i * s for i, s in zip(ix, st))] for ix in itertools.product(*map(range, shape))]


def ew(f, *arrs):
    sh = bshape(*[a.shape for a in arrs])
    if sh is None or size(sh) > MAXSIZE:
        return None
    cols = [bcast(a, sh) for a in arrs]
    out = []
    for xs in zip(*cols):
        if any(x is None for x in xs):
            # zero times unknown stays unknown: the unknown may be anything
            out.append(None)
            continue
        try:
            out.append(f(*xs))
        except TooBig:
            out.append(None)
    return NA(sh, out)


def normaxis(ax, n):
    if not isinstance(ax, int) or isinstance(ax, bool) or not -n <= ax < n:
        raise Unknown()
    return ax % n


class Unknown(Exception):
    """the operation or its arguments are outside the domain"""


class Mismatch(Unknown):
    """the shapes do not fit: the operation raises an error"""


def transpose(a, perm):
    st = strides(a.shape)
    sh = [a.shape[p] for p in perm]
    s2 = [st[p] for p in perm]
    return NA(sh, [a.e[sum(i * s for i, s in zip(ix, s2))] for ix in itertools.product(*map(range, sh))])


def tsum(xs):
    r = ZERO
    for x in xs:
        if x is None:
            return None
        r = tm.add(r, x)
    return r


def tmul(a, b):
    if a is None or b is None:
        return None
    try:
        return tm.mul(a, b)
    except TooBig:
        return None


def contract(spec, arrs):
    """einsum over explicit index lists: (inputs, output)"""
    ins, out = spec
    dim = {}
    for s, a in zip(ins, arrs):
        if len(s) != len(a.shape):
            raise Unknown()
        for c, n in zip(s, a.shape):
            if dim.get(c, n) != n and 1 not in (dim[c], n):
                raise Unknown()
            if dim.get(c, 1) == 1:
                dim[c] = n
    rest = [c for c in dim if c not in out]
    osh = [dim[c] for c in out]
    if size(osh) * size([dim[c] for c in rest]) > 40 * MAXSIZE:
        raise TooBig()
    es = []
    plan = []
    for s, a in zip(ins, arrs):
        st = strides(a.shape)
        plan.append((a.e, [(c, 0 if n == 1 else x) for c, n, x in zip(s, a.shape, st)]))
    for ox in itertools.product(*map(range, osh)):
        env = dict(zip(out, ox))
        acc = []
        for rx in itertools.product(*[range(dim[c]) for c in rest]):
            env.update(zip(rest, rx))
            r = ONE
            for e, st in plan:
                v = e[sum(env[c] * x for c, x in st)]
                if v is not None and v.zero():
                    r = ZERO
                    break
                r = tmul(r, v)
            acc.append(r)
        es.append(tsum(acc))
    return NA(osh, es)


def einsum_spec(s, shapes):
    s = s.replace(" ", "")
    lhs, _, rhs = s.partition("->")
    ins = lhs.split(",")
    if len(ins) != len(shapes):
        raise Unknown()
    ell = 0
    out_ins = []
    for t, sh in zip(ins, shapes):
        if "..." in t:
            n = len(sh) - (len(t) - 3)
            if n < 0:
                raise Unknown()
            ell = max(ell, n)
            a, b = t.split("...")
            out_ins.append(list(a) + [("e", i) for i in range(-n, 0)] + list(b))
        else:
            out_ins.append(list(t))
    if "->" in s:
        if "..." in rhs:
            a, b = rhs.split("...")
            out = list(a) + [("e", i) for i in range(-ell, 0)] + list(b)
        else:
            out = list(rhs)
    else:
        flat = [c for t in out_ins for c in t if isinstance(c, str)]
        out = [("e", i) for i in range(-ell, 0)] + sorted(c for c in set(flat) if flat.count(c) == 1)
    return out_ins, out


def matmul(a, b):
    if not a.shape or not b.shape:
        raise Unknown()
    A, B = a, b
    if len(A.shape) == 1:
        A = NA((1,) + A.shape, A.e)
    if len(B.shape) == 1:
        B = NA(B.shape + (1,), B.e)
    if A.shape[-1] != B.shape[-2]:
        raise Mismatch()
    na, nb = len(A.shape) - 2, len(B.shape) - 2
    n = max(na, nb)
    lead = [("b", i) for i in range(-n, 0)]
    r = contract(([lead[n - na:] + ["i", "j"], lead[n - nb:] + ["j", "k"]], lead + ["i", "k"]), [A, B])
    sh = list(r.shape)
    if len(b.shape) == 1:
        sh.pop()
    if len(a.shape) == 1:
        del sh[len(sh) - (1 if len(b.shape) == 1 else 2)]
    return NA(sh, r.e)


def det(m):
    n = len(m)
    if n == 1:
        return m[0][0]
    r = ZERO
    for j in range(n):
        if m[0][j].zero():
            continue
        minor = det([row[:j] + row[j + 1:] for row in m[1:]])
        t = tm.mul(m[0][j], minor)
        r = tm.add(r, t, -1 if j % 2 else 1)
    return r


def inverse(m):
    n = len(m)
    d = tm.inv(det(m))
    out = [[None] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            minor = [row[:j] + row[j + 1:] for k, row in enumerate(m) if k != i]
            c = det(minor) if minor else ONE
            out[j][i] = tm.mul(tm.scale(c, -1 if (i + j) % 2 else 1), d)
    return out
