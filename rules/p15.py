"""P15: the numerical rules are exact for what they are made for.  The functions are evaluated by constant propagation on
numbers whose exact result is known in closed form (moments of the Fermi window, a plane through a box, a band with constant
density); the unknown parts (mu, beta, the sampled values) stay symbolic where the result is a polynomial in them."""
import itertools
import math
from fractions import Fraction

from sa import terms as tm
from sa.numdom import NumDomain, approx
from sa.project import lookup_method, where
from sa.tendom import NA
from sa.terms import ONE, ZERO
from sa.values import EMPTY, ExtV, Obj, const, data, fn, ref, tup

from .common import Report
from .pool import run_jobs
from .ten import TRun

MINIMUM = {"obligations": 2}


class StubDomain(NumDomain):
    """functions handed to the code under analysis: stub.<name>(x) is computed by self.stubs[name] on the normal form of x"""
    def __init__(self):
        super().__init__()
        self.stubs = {}

    def ext_call(self, eng, st, path, args, kwargs, node):
        if path.startswith("stub."):
            x = self.get(eng, st, args[0]) if args else None
            r = self.stubs[path[5:]](x) if x is not None else None
            if r is None:
                return data()
            return tup([self.new(st, i) for i in r]) if isinstance(r, list) else self.new(st, r)
        return super().ext_call(eng, st, path, args, kwargs, node)


def power_of(x, k):
    r = ONE
    for _ in range(k):
        r = tm.mul(r, x)
    return r


def eta(s):
    """Dirichlet eta function"""
    if s == 1:
        return math.log(2)
    n = 60          # alternating series with Borwein's weights
    d, acc = [], 0
    for i in range(n + 1):
        acc += Fraction(n * math.factorial(n + i - 1) * 4 ** i, math.factorial(n - i) * math.factorial(2 * i)) if n + i - 1 >= 0 else 0
        d.append(acc)
    return float(-sum(Fraction((-1) ** k) * (d[k] - d[n]) / Fraction(k + 1) ** s for k in range(n)) / d[n])


# name -> (degree, moment of the window the rule is built for)
def window_df(j):
    return 0.0 if j % 2 else (1.0 if j == 0 else 2 * math.factorial(j) * eta(j))


def window_f(j):
    return 0.0 if j % 2 else 2 * math.factorial(j) * eta(j + 1)


RULES = {"gauss_5_df": (9, window_df, 0), "gauss_7_df": (13, window_df, 0), "gauss_4_f": (7, window_f, 1), "gauss_6_f": (11, window_f, 1)}
MU, BETA = tm.sym("mu", (), True), tm.sym("beta", (), True)


def quadrature(project, book):
    if "density_of_states" not in project.modules:
        return
    run = TRun(project, "density_of_states", StubDomain())
    dom = run.dom
    for name, (deg, moment, extra) in RULES.items():
        node = run.mod.funcs.get(name)
        if node is None:
            continue
        book.rep.count("rules")
        for k in range(deg + 1):
            what = f"{name} of the polynomial x^{k}"
            with book.attempt(what):
                st = run.fresh()
                # the integrand gives one column per component
                dom.stubs["p"] = lambda x, k=k: NA(x.shape + (2,), [t for e in x.e for t in (None if e is None else power_of(e, k), None if e is None else tm.scale(power_of(e, k), -3))])
                r = run.value(st, run.function(st, name, [fn(ExtV("stub.p")), data(EMPTY, "num", MU), data(EMPTY, "num", BETA)]))
                if r is None or any(x is None for x in r.e):
                    book.undecide(what, "no normal form")
                    continue
                if r.shape != (2,):
                    book.fail(f"{name}|shape", f"{where(node)}: {what}: an integrand with values of shape (2,) gives a result of shape {r.shape}")
                    continue
                want = ZERO
                size = 1.0
                for j in range(k + 1):
                    c = Fraction(math.comb(k, j) * moment(j))
                    size = max(size, abs(c))
                    want = tm.add(want, tm.mul(tm.scale(power_of(MU, k - j), c), tm.power(BETA, -j - extra)))
                bad = None
                for f, got in ((1, r.e[0]), (-3, r.e[1])):
                    d = tm.sub(got, tm.scale(want, f))
                    bad = bad or next(((m, c) for m, c in d.p.items() if abs(c) > 1e-11 * size), None)
                book.rep.count("obligations")
                book.rep.oblige(bad is None, f"{name}|exact", f"{where(node)}: {what}: {tm.show(r.e[0])[:200]}; the exact integral against its window is {tm.show(want)[:200]}"
                                if bad else "")
                if bad is None:
                    book.rep.count("proven")


# ------------------------------------------------------------------ piecewise linear functions under the Fermi window
def hats(x, es, beta):
    """integral of every hat function of the grid against -f'(e-x); f the Fermi function of inverse temperature beta"""
    def f(e):
        return 0.5 * (1 - math.tanh(beta * (e - x) / 2))

    def F(e):           # antiderivative of f
        t = beta * (e - x)
        return -(math.log1p(math.exp(-abs(t))) + max(-t, 0)) / beta

    out = [0.0] * len(es)
    for i in range(len(es) - 1):
        a, b = es[i], es[i + 1]
        # integral (y)(-f') = -[y f] + integral y' f
        m = (F(b) - F(a)) / (b - a)
        out[i] += f(a) - m
        out[i + 1] += -f(b) + m
    return out, f(es[0]), f(es[-1])


def convolution(project, book):
    if "density_of_states" not in project.modules:
        return
    run = TRun(project, "density_of_states", StubDomain())
    node = run.mod.funcs.get("convolve_df")
    if node is None:
        return
    dom = run.dom
    es = [-1.0, 0.25, 0.75, 2.0]
    ys = NA((2, 4), [tm.sym(f"y{i}{j}", (), True) for i in range(2) for j in range(4)])
    grid = NA((4,), [tm.num(Fraction(e)) for e in es])
    for beta, x, mode, point in itertools.product((3.0, 40.0), (-0.5, 0.5, 3.0), ("flat", None), (None, (1.5, 7.0))):
        what = f"convolve_df at x={x}, beta={beta}, extrapolation={mode!r}, extrapolation_point={point}"
        with book.attempt(what):
            st = run.fresh()
            pt = const(None) if point is None else tup([const(point[0]), const(point[1])])
            r = run.value(st, run.function(st, "convolve_df", [const(x), run.arr(st, grid), run.arr(st, ys), const(beta)],
                                           {"extrapolation": const(mode), "extrapolation_point": pt}))
            if r is None or any(t is None for t in r.e):
                book.undecide(what, "no normal form")
                continue
            w, f0, f1 = hats(x, es, beta)
            shift = 0.0
            if mode == "flat":
                if point is None:
                    w[0] += 1 - f0
                    w[3] += f1
                else:       # N = 0 on the left, a constant number of states right of the given energy
                    shift = hats(x, [point[0], 9], beta)[1] * point[1]
            want = [tm.add(tm.num(Fraction(shift)), tm.add(tm.add(tm.scale(ys.at(i, 0), Fraction(w[0])), tm.scale(ys.at(i, 1), Fraction(w[1]))),
                                                          tm.add(tm.scale(ys.at(i, 2), Fraction(w[2])), tm.scale(ys.at(i, 3), Fraction(w[3]))))) for i in range(2)]
            close(book, "convolve_df|exact", what, node, r, NA((2,), want), 1e-9)


def close(book, key, what, node, got, want, tol, rel=False):
    if got is None or any(t is None for t in got.e):
        return book.undecide(what, "no normal form")
    if got.shape != want.shape:
        return book.fail(key, f"{where(node)}: {what}: shape {got.shape} instead of {want.shape}")
    bad = und = None
    for a, b in zip(got.e, want.e):
        d = tm.sub(a, b)
        s = 1
        if rel:
            s = max(1e-300, max((abs(float(c)) for c in b.p.values()), default=1))
        for m, c in d.p.items():
            if any(tm.ATOMS[i][0] != "sym" for i, _ in m):
                v = book_number(d)
                if v is None:
                    und = "not a number"
                elif abs(v) > tol * s:
                    bad = bad or (a, b)
                break
            if abs(c) > tol * s:
                bad = bad or (a, b)
    if und and not bad:
        return book.undecide(what, und)
    book.rep.count("obligations")
    book.rep.oblige(bad is None, key, f"{where(node)}: {what}: {show(bad[0])}, exactly it is {show(bad[1])}" if bad else "")
    if bad is None:
        book.rep.count("proven")


def show(t):
    v = book_number(t)
    return repr(v) if v is not None else tm.show(t)[:200]


def book_number(t):
    return approx.dom.number(t)


# ------------------------------------------------------------------ cells cut by a plane
LATTICE = ((Fraction(2), Fraction(1, 2), Fraction(0)), (Fraction(0), Fraction(1), Fraction(1, 4)), (Fraction(1, 2), Fraction(0), Fraction(3, 2)))
START = (Fraction(-1, 2), Fraction(-1, 4), Fraction(0))
STEPS = (Fraction(1, 4), Fraction(1, 3), Fraction(1, 5))
SLOPES = [(Fraction(1), Fraction(-1, 2), Fraction(1, 3)), (Fraction(-2, 5), Fraction(-9, 10), Fraction(3, 4)), (Fraction(1, 5), Fraction(4, 5), Fraction(3, 10)),
          (Fraction(1, 4), Fraction(-1, 5), Fraction(-7, 10))]
# along the axes, where the methods replace zeros by small numbers
FLAT = [(Fraction(0), Fraction(0), Fraction(1, 2)), (Fraction(-1, 3), Fraction(0), Fraction(0)), (Fraction(0), Fraction(3, 5), Fraction(-1, 2))]
TINY = Fraction(1, 10 ** 12)


def inv3(m):
    d = sum(m[0][i] * (m[1][(i + 1) % 3] * m[2][(i + 2) % 3] - m[1][(i + 2) % 3] * m[2][(i + 1) % 3]) for i in range(3))
    return [[(m[(j + 1) % 3][(i + 1) % 3] * m[(j + 2) % 3][(i + 2) % 3] - m[(j + 1) % 3][(i + 2) % 3] * m[(j + 2) % 3][(i + 1) % 3]) / d for j in range(3)] for i in range(3)], d


def vecmat(v, m):
    return [sum(v[i] * m[i][j] for i in range(len(v))) for j in range(len(m[0]))]


def box_cut(h, g):
    """(volume, derivative by h, moments of the cut) of {x in [0,1]^3 : g x < h}; the moments are the derivative of the first moments"""
    flip = [x < 0 for x in g]
    h = h - sum(x for x in g if x < 0)
    g = [abs(x) for x in g]
    v = d = 0
    mom = [0, 0, 0]
    p = g[0] * g[1] * g[2]
    for c in itertools.product((0, 1), repeat=3):
        s = (-1) ** sum(c)
        t = h - sum(a * b for a, b in zip(c, g))
        if t <= 0:
            continue
        v += s * t ** 3 / (6 * p)
        d += s * t ** 2 / (2 * p)
        for i in range(3):
            mom[i] += s * t ** 2 / (2 * p) * (c[i] + t / (3 * g[i]))
    mom = [d - m if f else m for m, f in zip(mom, flip)]
    return v, d, mom


def ball_cut(a0, g):
    """fraction of the ball of volume 1 with a0 + g x > 0, and its derivative by a0"""
    n = math.sqrt(sum(float(x) ** 2 for x in g))
    r = (3 / (4 * math.pi)) ** (1 / 3)
    d = max(-1.0, min(1.0, float(a0) / (n * r)))
    return (1 + d) ** 2 * (2 - d) / 4, 0.75 * (1 - d * d) / (r * n)


def grid(n):
    return [tuple(s + d * i for s, d, i in zip(START, STEPS, ix)) for ix in itertools.product(*map(range, n))]


def num_na(shape, xs):
    return NA(shape, [tm.num(Fraction(x)) for x in xs])


def cells(project, book, what_cls):
    if "smearing" not in project.modules:
        return
    run = TRun(project, "smearing", StubDomain())
    name, grads, wrap = what_cls
    if name not in run.mod.classes:
        return
    cls = run.cls(name)
    n = (3, 5, 3) if name == "ExtraCubesSmearing" else (3, 2, 3)
    inv, det = inv3(LATTICE)
    B = [[inv[j][i] for j in range(3)] for i in range(3)]
    pts = grid(n)
    pos = num_na(n + (3,), [x for c in pts for x in vecmat(c, inv)])
    A = num_na((3, 3), [x for r in LATTICE for x in r])
    Bna = num_na((3, 3), [x for r in B for x in r])
    f = lookup_method(cls, "volume")[1] or cls.node
    for slope in SLOPES + FLAT:
        tol = 1e-6 if slope in SLOPES else 5e-3
        # f(c) = 1/8 + slope/step * c along every axis of the grid of crystal coordinates
        val = [Fraction(1, 8) + sum(s * (x - x0) / d for s, x, x0, d in zip(slope, c, START, STEPS)) for c in pts]
        tag = f"{name}({'gradients given' if grads else 'no gradients'}, wrap={wrap}) on a function of slopes {tuple(map(str, slope))} per cell"
        with book.attempt(tag):
            st = run.fresh()
            values = run.arr(st, num_na(n, val))
            kw = {"wrap": const(wrap)}
            params = [a.arg for a in lookup_method(cls, "__init__")[1].args.args]
            gc = [s / d for s, d in zip(slope, STEPS)]
            gk = [sum(LATTICE[i][j] * gc[j] for j in range(3)) for i in range(3)]     # gradient by k for crystal = k A
            kw.update({"values": values})
            if "positions" in params:
                kw["positions"] = run.arr(st, pos)
            if "A" in params:
                kw["A"] = run.arr(st, A)
            if "B" in params:
                kw["B"] = run.arr(st, Bna)
            if grads:
                kw["grads"] = run.arr(st, num_na(n + (3,), gk * len(pts)))
            o = run.new(st, cls, [], kw)
            keep = n if grads else tuple(x - 1 for x in n)
            coarse = 1
            if name == "ExtraCubesSmearing":
                keep, coarse = tuple((x - 1) // 2 for x in n), 2
            for level in (Fraction(-3, 10), Fraction(1, 7), Fraction(5, 9), Fraction(11, 10), Fraction(9, 4)):
                exact = []
                for ix in itertools.product(*map(range, keep)):
                    v0 = val[(ix[0] * coarse * n[1] + ix[1] * coarse) * n[2] + ix[2] * coarse]
                    if name == "SphereSmearing":
                        if grads:
                            vol = float(1 / abs(det)) / len(pts)
                            exact.append(ball_cut(level - v0, [float(g) * vol ** (1 / 3) for g in gk]))
                        else:
                            exact.append(ball_cut(level - v0 - sum(slope) / 2, slope))
                    else:
                        g = [(s or TINY) * coarse for s in slope]
                        exact.append(box_cut(level - v0 + (sum(g) / 2 if grads else 0), g)[:2])
                want = [num_na(keep, [e[i] for e in exact]) for i in range(2)]
                for m in ("volume", "dvolume", "volume_dvolume"):
                    r = run.method(st, o, m, [data(EMPTY, "num", tm.num(level))])
                    parts = run.eng.seq_items(st, r) if m == "volume_dvolume" and r is not None and r.tups else [r]
                    if parts is None or len(parts) != (2 if m == "volume_dvolume" else 1):
                        book.undecide(f"{tag}: {m}", "not followed")
                        continue
                    for part, w in zip(parts, {"volume": want[:1], "dvolume": want[1:], "volume_dvolume": want}[m]):
                        got = run.value(st, part)
                        if got is not None and wrap and not grads:
                            got = run.dom.take_axis(run.dom.take_axis(run.dom.take_axis(got, range(keep[0]), 0), range(keep[1]), 1), range(keep[2]), 2)
                        close(book, f"{name}.{m}|exact", f"{tag}: {m}({level}) is the exact part of a cell below the level", f, got, w, tol)
                if lookup_method(cls, "samples")[0] is cls and not (wrap and not grads) and slope in SLOPES:
                    samples(run, st, o, cls, book, tag, level, slope, val, n, keep, grads, gk, name)


def samples(run, st, o, cls, book, tag, level, slope, val, n, keep, grads, gk, name):
    """samples of the level surface: centre, gradient and area (in k space) of the cut through every cell"""
    node = cls.funcs["samples"]
    inv, det = inv3(LATTICE)
    fine = n if grads else tuple(x - 1 for x in n)
    want = []
    for ix in itertools.product(*map(range, fine)):
        v0 = val[(ix[0] * n[1] + ix[1]) * n[2] + ix[2]]
        v, d, mom = box_cut(level - v0 + (sum(slope) / 2 if grads else 0), slope)
        gn = math.sqrt(sum(float(s) ** 2 for s in slope))
        if float(d) * gn <= 1e-4:        # the area in units of the cell decides what is kept
            continue
        c = [START[k] + STEPS[k] * (ix[k] + mom[k] / d - (Fraction(1, 2) if grads else 0)) for k in range(3)]
        cell = float(STEPS[0] * STEPS[1] * STEPS[2] / abs(det))
        want.append((vecmat(c, inv), float(d) * cell * math.sqrt(sum(float(g) ** 2 for g in gk))))
    what = f"{tag}: samples({level})"
    r = run.method(st, o, "samples", [data(EMPTY, "num", tm.num(level))])
    parts = run.eng.seq_items(st, r) if r is not None and r.tups else None
    if parts is None or len(parts) != 3:
        return book.undecide(what, "not followed")
    x, g, w = (run.value(st, p) for p in parts)
    close(book, f"{name}.samples|positions", what + " lie at the centres of the cuts", node, x, num_na((len(want), 3), [c for p, _ in want for c in p]), 1e-6)
    close(book, f"{name}.samples|gradients", what + ": gradients by k", node, g, num_na((len(want), 3), gk * len(want)), 1e-6)
    close(book, f"{name}.samples|areas", what + ": areas of the cuts in k space", node, w, num_na((len(want),), [a for _, a in want]), 1e-6)


CELLS = [("CubesSmearing", False, False), ("CubesSmearing", False, True), ("CubesSmearing", True, True), ("ExtraCubesSmearing", False, False),
         ("TetraSmearing", False, False), ("TetraSmearing", False, True), ("SphereSmearing", False, False), ("SphereSmearing", False, True), ("SphereSmearing", True, True)]


# ------------------------------------------------------------------ thermal integrals over bands with known density
K_B = 8.61733326214518e-5


class Band:
    """share of a band below an energy: ((e - lo) / width)^p"""
    def __init__(self, lo, hi, p=1):
        self.lo, self.hi, self.p = Fraction(lo), Fraction(hi), p

    def count(self, e):
        x = min(max((e - self.lo) / (self.hi - self.lo), 0), 1)
        return x ** self.p

    def density(self, e):
        if not self.lo < e < self.hi:
            return Fraction(0)
        return self.p * ((e - self.lo) / (self.hi - self.lo)) ** (self.p - 1) / (self.hi - self.lo)


class Tent:
    """a band whose density grows linearly up to a peak and falls to zero behind it"""
    def __init__(self, lo, top, hi):
        self.lo, self.top, self.hi = Fraction(lo), Fraction(top), Fraction(hi)
        self.peak = 2 / (self.hi - self.lo)

    def density(self, e):
        if not self.lo < e < self.hi:
            return Fraction(0)
        return self.peak * ((e - self.lo) / (self.top - self.lo) if e < self.top else (self.hi - e) / (self.hi - self.top))

    def count(self, e):
        e = min(max(e, self.lo), self.hi)
        d = self.density(e)
        return d * (e - self.lo) / 2 if e < self.top else 1 - d * (self.hi - e) / 2


def dos(run, st, bands):
    cls = run.cls("DensityOfStates")

    def stub(i, name):
        def f(x):
            v = run.dom.number(x.e[0]) if x.shape == () and x.e[0] is not None else None
            if v is None:
                return None
            return num_na((1, 1, 1), [getattr(bands[i], name)(Fraction(v))])
        return f
    for i in range(len(bands)):
        c, d = stub(i, "count"), stub(i, "density")
        run.dom.stubs[f"c{i}.volume"], run.dom.stubs[f"c{i}.dvolume"] = c, d
        run.dom.stubs[f"c{i}.volume_dvolume"] = lambda x, c=c, d=d: None if c(x) is None else [c(x), d(x)]
    ranges = lst(run, st, [tup([const(float(b.lo)), const(float(b.hi))]) for b in bands])
    cells = lst(run, st, [fn(ExtV(f"stub.c{i}")) for i in range(len(bands))])
    return run.inst(st, cls, bands_range=ranges, smearing=cells)


def lst(run, st, items):
    run.oids += 1
    oid = ("list", f"rule{run.oids}", None, None)
    st.heap[oid] = Obj("list", None, {"#items": tuple(items)}, run.eng.j.joinall(items))
    return ref(oid)


def quad(f, a, b, n=4000):
    h = (b - a) / n
    return h / 3 * sum((1 if i in (0, n) else 4 if i % 2 else 2) * f(a + i * h) for i in range(n + 1))


def fermi(x):
    return 1 / (1 + math.exp(x)) if x < 700 else 0.0


def filled(bands, mu, kT):
    """number of electrons (one per band and state) at a temperature, and the energy they carry"""
    n = u = 0.0
    for b in bands:
        n += quad(lambda e: float(b.density(Fraction(e))) * fermi((e - mu) / kT), float(b.lo) + 1e-12, float(b.hi) - 1e-12)
        u += quad(lambda e: e * float(b.density(Fraction(e))) * fermi((e - mu) / kT), float(b.lo) + 1e-12, float(b.hi) - 1e-12)
    return n, u


def potential(bands, n, kT):
    a, b = -5.0, 5.0
    for _ in range(60):
        m = (a + b) / 2
        a, b = (m, b) if filled(bands, m, kT)[0] < n else (a, m)
    return (a + b) / 2


TWO = [Band(Fraction(-1), Fraction(1, 2)), Band(Fraction(-1, 4), Fraction(1))]


def thermal(project, book, kind):
    if "density_of_states" not in project.modules:
        return
    run = TRun(project, "density_of_states", StubDomain())
    if "DensityOfStates" not in run.mod.classes:
        return
    cls = run.cls("DensityOfStates")

    def ask(name, what, args, kw, want, tol, bands, key=None):
        f = lookup_method(cls, name)[1]
        if f is None:
            return
        if not {a for a in kw} <= {a.arg for a in f.args.args + f.args.kwonlyargs}:
            return
        with book.attempt(what):
            st = run.fresh()
            r = run.value(st, run.method(st, dos(run, st, bands), name, [data(EMPTY, "num", tm.num(Fraction(a))) if not isinstance(a, list) else run.arr(st, num_na((len(a),), a)) for a in args], {k: const(v) for k, v in kw.items()}))
            w = num_na((), [want]) if not isinstance(want, list) else num_na((len(want),), want)
            close(book, f"DensityOfStates.{name}|{key or 'exact'}", what, f, r, w, tol)
    at = "bands of constant density on [-1, 1/2] and [-1/4, 1]"
    if kind == "fermi":
        # below both kinks: only band 1, in the overlap: both
        for n, e in ((Fraction(1, 5), Fraction(-7, 10)), (Fraction(14, 15), Fraction(3, 20) - Fraction(1, 22)), (Fraction(19, 10), Fraction(7, 8))):
            if n == Fraction(14, 15):
                # (e + 1) / 1.5 + (e + 1/4) / 1.25 = n
                e = (n - Fraction(2, 3) - Fraction(1, 5)) / (Fraction(2, 3) + Fraction(4, 5))
            ask("fermi_energy", f"the Fermi energy of {float(n):.3f} electrons in {at}", [n], {}, e, 1e-7, TWO)
        gap = [Band(-1, 0), Band(1, 2)]
        ask("fermi_energy", "the Fermi energy of one electron with a gap from 0 to 1 is the middle of the gap", [1.0], {}, Fraction(1, 2), 1e-9, gap, "gap")
        ask("bandgap", "the gap of one electron between bands [-1, 0] and [1, 2]", [1.0], {}, 1, 1e-9, gap)
        ask("bandgap", "the gap of half an electron", [0.5], {}, 0, 1e-9, gap)
        for n in (0.0, 2.0):
            ask("fermi_energy", f"the Fermi energy of {n} electrons in two bands is the edge of the bands", [n], {}, -1 if n == 0 else 2, 1e-9, gap, "edge")
    elif kind == "energy":
        mu = Fraction(1, 10)
        rho = sum(1 / (b.hi - b.lo) for b in TWO)
        u0 = sum((mu * mu - b.lo ** 2) / 2 / (b.hi - b.lo) for b in TWO)
        for spin in (2, 1):
            ask("energy", f"energy at T=0, mu={float(mu)}, spin_factor={spin} of {at}", [mu, 0.0], {"N": 8, "spin_factor": spin}, spin * u0, 1e-9, TWO, "zero")
            for T in (40.0, 90.0):
                u = float(u0) + float(rho) * math.pi ** 2 / 6 * (K_B * T) ** 2
                ask("energy", f"energy at T={T}, mu={float(mu)}, spin_factor={spin} of {at}", [mu, T], {"N": 24, "spin_factor": spin}, spin * u, 1e-9, TWO, "thermal")
        cubic = [Band(Fraction(-1), Fraction(1), 3), Band(Fraction(0), Fraction(3), 2)]
        # int e dN up to mu, N = x^3 with e = 2 x - 1 and x^2 with e = 3 x
        x, y = (mu + 1) / 2, mu / 3
        ask("energy", f"energy at T=0, mu={float(mu)} of bands with cubic and quadratic states curves", [mu, 0.0], {"N": 6}, 2 * (2 * Fraction(3, 4) * x ** 4 - x ** 3 + 2 * y ** 3), 1e-9, cubic, "zero")
        u0 = sum((b.hi + b.lo) / 2 for b in TWO)
        ask("energy", f"energy of full {at} at T=0", [1.5, 0.0], {"N": 8}, 2 * u0, 1e-9, TWO, "zero")
    elif kind == "heat":
        n = Fraction(14, 15)
        rho = sum(1 / (b.hi - b.lo) for b in TWO)
        for T, spin in ((40.0, 2), (40.0, 1), (80.0, 2)):
            c = math.pi ** 2 / 3 * K_B ** 2 * T * float(rho) * spin
            ask("heat_capacity", f"heat capacity at T={T}, spin_factor={spin} of {at}", [n, T], {"N": 24, "spin_factor": spin}, c, 1e-3 * c, TWO)
        ask("heat_capacity", f"heat capacity at T=0 of {at}", [n, 0.0], {}, 0, 1e-12, TWO)
        # a density that grows linearly: the chemical potential moves with the temperature
        one = [Tent(0, Fraction(9, 10), 1)]
        T = 50.0
        kT = K_B * T
        d = 1e-2 * T
        us = []
        for t in (T - d, T + d):
            m = potential(one, 0.25, K_B * t)
            us.append(filled(one, m, K_B * t)[1])
        c = 2 * (us[1] - us[0]) / (2 * d)
        ask("heat_capacity", f"heat capacity at T={T} of a band with linear density on [0, 1]", [0.25, T], {"N": 40}, c, 3e-2 * c, one, "linear")
    elif kind == "mu":
        one = [Band(0, 1)]
        for n, kTs in ((Fraction(3, 10), (0.0005, 0.004, 0.03, 0.09)), (Fraction(2, 3), (0.08, 0.0007, 0.02)), (Fraction(1, 10), (0.02, 0.03, 0.05, 0.2)), (Fraction(7, 10), (0.0, 0.04, 0.3)), (Fraction(3, 10), (0.25,))):
            want = [potential(one, float(n), k) if k else float(n) for k in kTs]
            ask("chemical_potential", f"chemical potential of {float(n)} electrons at kT={kTs} in a band of constant density on [0, 1]", [n, [k / K_B for k in kTs]], {"N": 30}, want, 2e-5, one)


def thermal_jobs(project):
    return [lambda b, k=k: thermal(project, b, k) for k in ("heat", "mu", "energy", "fermi")]


def check(project, tier):
    rep = Report()
    jobs = [(lambda b, c=c: cells(project, b, c)) for c in CELLS] + [lambda b: quadrature(project, b), lambda b: convolution(project, b)] + thermal_jobs(project)
    und = run_jobs(rep, jobs)
    rep.assumptions = ["cells, levels and temperatures are representatives; the quadrature rules are decided for every mu and beta",
                       f"undecided obligations: {und[:20]}"]
    rep.explanation = "constant propagation of the tables and cuts, compared with closed forms; polynomials in mu and beta as normal forms"
    return rep
