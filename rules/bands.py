"""P23: eigenvalues and eigenvectors are opaque (equal matrices have equal ones); bands, gradients and Hessians that are returned
are compared with the formulas of perturbation theory, fit errors with their definition.  Nothing is executed."""
import itertools
import math
from fractions import Fraction

from sa import terms as tm
from sa.project import lookup_method, where
from sa.tendom import NA
from sa.terms import ONE, T, ZERO
from sa.values import EMPTY, const, data, tup

from .algebra import job_list, total
from .fit import FitDomain
from .p06 import NB, DIM, build, neighbors
from .ten import TRun, indices

HALF = Fraction(1, 2)


class BandDomain(FitDomain):
    sure_raises = True

    def __init__(self):
        super().__init__()
        self.decide = self.generic_case

    def on_call(self, eng, st, f, args, kw, node):
        return None

    def second(self, eng, st, args, kw):
        b = args[1] if len(args) > 1 else kw.get("b")
        if b is None or (b.is_single_const() and b.const() is None):
            return None
        return self.get(eng, st, b)

    def decompose(self, st, a, s):
        if s is None:
            return self.pair(st, a, lambda ix: ())
        n = a.shape[-1]
        lead = len(s.shape) - 2
        one = [tm.num(int(i == j)) for i in range(n) for j in range(n)]

        def at(ix):
            e = [s.at(*ix[len(ix) - lead:], i, j) for i in range(n) for j in range(n)]
            return () if e == one else e
        return self.pair(st, a, at)

    def l_eigh(self, eng, st, args, kw, node):
        a = self.A(eng, st, args)
        b = self.second(eng, st, args, kw)
        vals, vecs = self.decompose(st, a, b)
        only = kw.get("eigvals_only")
        if only is not None and only.is_single_const() and only.const() is True:
            return self.new(st, vals)
        return tup([self.new(st, x) for x in (vals, vecs)])

    def l_eigvalsh(self, eng, st, args, kw, node):
        return self.decompose(st, self.A(eng, st, args), self.second(eng, st, args, kw))[0]

    def n_linear_sum_assignment(self, eng, st, args, kw, node):
        """the cheapest assignment of a table of numbers"""
        a = self.A(eng, st, args)
        v = [self.number(x) for x in a.e]
        n, m = a.shape
        if any(x is None or isinstance(x, complex) for x in v) or max(n, m) > 6 or (kw and "maximize" not in kw):
            return None
        if kw:
            v = [-x for x in v]
        if n <= m:
            best = min(itertools.permutations(range(m), n), key=lambda p: sum(v[i * m + j] for i, j in enumerate(p)))
            rows, cols = range(n), best
        else:
            best = min(itertools.permutations(range(n), m), key=lambda p: sum(v[i * m + j] for j, i in enumerate(p)))
            rows, cols = zip(*sorted((i, j) for j, i in enumerate(best))) if m else ((), ())
        return tup([self.new(st, NA((len(x),), [tm.num(int(i)) for i in x])) for x in (rows, cols)])


def exactly(t, top=True):
    """without the guards against division by zero (1e-40)"""
    big = max((abs(c) for c in t.p.values()), default=0)
    keep = t if top else T({m: c for m, c in t.p.items() if abs(c) * 10**30 > big})
    if not any(tm.ATOMS[a][0] == "pw" for m in keep.p for a, _ in m):
        return keep

    def f(a):
        d = tm.ATOMS[a]
        if d[0] != "pw" or not isinstance(d[1], T):
            return None
        u = exactly(d[1], False)
        return None if u == d[1] else u
    return tm.map_atoms(keep, f)


def clean(na):
    return NA(na.shape, [exactly(x) if isinstance(x, T) else x for x in na.e]) if na is not None else None


def re(x):
    return tm.scale(tm.add(x, tm.conj(x)), HALF)


def sandwich(V, m):
    """V^+ m V"""
    n = len(V)
    return [[total(tm.mul(tm.conj(V[a][i]), tm.mul(m[a][b], V[b][j])) for a in range(n) for b in range(n)) for j in range(n)] for i in range(n)]


def formulas(E, V, dH, ddH, dS=None, ddS=None):
    """gradients[p][i] and Hessians[p][q][i] (None without ddH)"""
    n, dim = len(V), len(dH)
    M = [sandwich(V, m) for m in dH]
    N = [sandwich(V, m) for m in dS] if dS else None
    G = [[[tm.sub(M[p][i][j], tm.mul(E[j], N[p][i][j])) if N else M[p][i][j] for j in range(n)] for i in range(n)] for p in range(dim)]
    grads = [[re(G[p][i][i]) for i in range(n)] for p in range(dim)]
    if ddH is None:
        return grads, None
    hess = [[[None] * n for _ in range(dim)] for _ in range(dim)]
    for p, q in itertools.product(range(dim), repeat=2):
        M2 = sandwich(V, ddH[p][q])
        N2 = sandwich(V, ddS[p][q]) if ddS else None
        for i in range(n):
            h = re(tm.sub(M2[i][i], tm.mul(E[i], N2[i][i])) if N2 else M2[i][i])
            if N:
                h = tm.sub(h, tm.add(tm.mul(grads[p][i], re(N[q][i][i])), tm.mul(grads[q][i], re(N[p][i][i]))))
            for j in range(n):
                if j != i:
                    w = tm.mul(tm.conj(G[p][j][i]), G[q][j][i])
                    h = tm.add(h, tm.mul(tm.scale(re(w), 2), tm.power(tm.sub(E[i], E[j]), Fraction(-1))))
            hess[p][q][i] = h
    return grads, hess


def cut(na, lead, *tail):
    """nested lists of an array at the leading index"""
    shape = na.shape[len(lead):]
    if not shape:
        return na.at(*lead)
    return [cut(na, tuple(lead) + (i,)) for i in range(shape[0])]


def expected(dom, st, H, S, dH, ddH, dS, ddS):
    """arrays (bands, gradients, Hessians) for arrays with leading k axes"""
    vals, vecs = dom.decompose(st, H, S)
    lead = H.shape[:-2]
    n, dim = H.shape[-1], dH.shape[-3] if dH is not None else 0
    g, h = [], []
    for ix in indices(lead):
        if dH is None:
            break
        a, b = formulas(cut(vals, ix), cut(vecs, ix), cut(dH, ix), cut(ddH, ix) if ddH is not None else None,
                        cut(dS, ix) if dS is not None else None, cut(ddS, ix) if ddS is not None else None)
        g += [x for r in a for x in r]
        if b is not None:
            h += [x for p in b for r in p for x in r]
    return [vals, NA((*lead, dim, n), g) if dH is not None else None, NA((*lead, dim, dim, n), h) if ddH is not None else None]


def compare_all(book, run, st, key, what, at, got, want):
    died = list(run.died)
    its = run.eng.seq_items(st, got) if got is not None else None
    if its is None and len(want) == 1:
        its = [got]
    if its is None or len(its) < len(want):
        if died:
            f = died[-1]
            return book.fail(key, f"{where(f) if f is not None else at}: {what}: ends with an error")
        if its is not None:
            return book.fail(key, f"{at}: {what}: {len(its)} results instead of {len(want)}")
        return book.undecide(what, "no result")
    for name, x, w in zip(("bands", "gradients", "Hessians"), its, want):
        v = run.value(st, x) if x is not None else None
        book.same(run.dom, f"{key}|{name}", f"{what}: {name}", at, clean(v) if v is not None and v.known() else None, w)


# ------------------------------------------------------------------ functions of linalg.py
def free(run, st, name, lead, *mid, n=3):
    """Hermitian matrices with free entries"""
    shape = tuple(lead) + mid
    e = []
    for ix in indices(shape):
        e += TRun.hermitian(name + "".join(map(str, ix)), n).e
    return NA(shape + (n, n), e)


def library(project, book, name, lead, n, dim, case=""):
    mod = project.modules.get("linalg")
    fn = mod.funcs.get(name) if mod is not None else None
    if fn is None:
        return
    dom = BandDomain()
    run = TRun(project, "linalg", dom)
    st = run.fresh()
    H = free(run, st, "h", lead, n=n)
    S = free(run, st, "s", lead, n=n) if name.startswith("g") else None
    dH = free(run, st, "d", lead, dim, n=n) if "grad" in name else None
    dS = free(run, st, "t", lead, dim, n=n) if name == "geigh_grad" else None
    if case:
        # special overlaps: the unit matrix everywhere, at the first or last point only, or one that doesn't change
        one = [tm.num(int(i == j)) for i in range(n) for j in range(n)]
        parts = [list(S.e[i:i + n * n]) for i in range(0, len(S.e), n * n)]
        where_one = {"unit": range(len(parts)), "first": [0], "last": [len(parts) - 1]}.get(case.split()[0], [])
        S = NA(S.shape, [x for i, q in enumerate(parts) for x in (one if i in where_one else q)])
        if dS is not None and "constant" in case:
            dS = NA(dS.shape, [ZERO] * len(dS.e))
    ddH = None
    if "hess" in name:
        ddH = free(run, st, "e", lead, dim, dim, n=n)
        ddH = NA(ddH.shape, [ddH.at(*ix[:-4], *sorted(ix[-4:-2]), *ix[-2:]) for ix in indices(ddH.shape)])
    args = [x for x in (H, S, dH, dS, ddH) if x is not None]
    got = run.function(st, name, [run.arr(st, x) for x in args])
    want = expected(dom, st, H, S, dH, ddH, dS, None)
    if name in ("geigh",):
        want = list(dom.decompose(st, H, S))
    elif name == "geigvalsh":
        want = want[:1]
    want = [w for w in want if w is not None]
    if name == "geigh":
        its = run.eng.seq_items(st, got) if got is not None else None
        for label, x, w in zip(("eigenvalues", "eigenvectors"), its or (None, None), want):
            v = run.value(st, x) if x is not None else None
            book.same(dom, f"{name}|{label}", f"{name}, leading axes {lead}{case and ', ' + case}: {label}", f"{where(fn)}", v if v is not None and v.known() else None, w)
        return
    compare_all(book, run, st, name, f"{name}, leading axes {lead}{case and ', ' + case}", where(fn), got, want)


# ------------------------------------------------------------------ models
MODELS = [("bandstructure", "BandStructureModel", (False, False, True)), ("bandstructure", "BandStructureModel", (True, True, False)), ("tight_binding", "TightBindingModel", False),
          ("tight_binding", "TightBindingModel", True), ("tight_binding_asym", "AsymTightBindingModel", False), ("tight_binding_asym", "AsymTightBindingModel", True)]


def model(project, book, mod, cls, opt, name, nk):
    if mod not in project.modules or cls not in project.modules[mod].classes:
        return
    m = lookup_method(project.modules[mod].classes[cls], name)[1]
    if m is None:
        return
    dom = BandDomain()
    run, st, obj, _ = build(project, mod, opt, 2, dom)
    series = None
    if mod == "tight_binding_asym":
        series = [obj]
        if opt:
            bonds = neighbors(3)  # another bond than the one of the Hamiltonian
            H = run.arr(st, NA((2, DIM), bonds.e[:DIM] + bonds.e[2 * DIM:]))
            s = NA((2, NB, NB), [ONE, ZERO, ZERO, tm.num(2)] + [x for x in TRun.cplx("O", NB, NB).e])
            series.append(run.new(st, run.cls("HermitianFourierSeries"), [H, run.arr(st, s)]))
        obj = run.new(st, run.cls(cls), list(series))
    ks = run.arr(st, NA((nk, 2), [tm.sym(x, (), True) for x in "klmn"[:2 * nk]]))

    def matrices(o, f):
        v = run.value(st, run.method(st, o, f, [ks])) if o is not None else None
        return v if v is not None and v.known() else None
    base = series[0] if series else obj
    over = series[1] if series and len(series) > 1 else None
    order = {"bands": 0, "__call__": 0, "bands_grad": 1, "bands_grad_hess": 2}[name]
    h = [matrices(base, f) if i <= order else None for i, f in enumerate(("f", "df", "ddf"))]
    s = [matrices(over, f) if i <= order else None for i, f in enumerate(("f", "df", "ddf"))]
    what = f"{cls}({opt}).{name}, {nk} k-points"
    if any(x is None for x in h[:order + 1]) or over is not None and any(x is None for x in s[:order + 1]):
        return book.undecide(what, "no Hamiltonian")
    want = [w for w in expected(dom, st, h[0], s[0], h[1], h[2], s[1], s[2]) if w is not None]
    run.died.clear()
    got = run.method(st, obj, name, [ks])
    compare_all(book, run, st, f"{cls}.{name}" + ("|overlap" if over is not None else ""), what, where(m), got, want)


def p23_jobs(project):
    jobs, job = job_list()
    for name in ("geigh", "geigvalsh", "geigh_grad", "eigh_grad", "eigh_grad_hess"):
        job(library, project, name, (2,), 2, 2)
        if name != "eigh_grad_hess":
            job(library, project, name, (1,), 3, 1)
    for case in ("unit overlap", "first overlap is the unit matrix", "last overlap is the unit matrix"):
        for name in ("geigh", "geigvalsh", "geigh_grad"):
            job(library, project, name, (3,), 2, 2, case)
    for case in ("constant overlap", "unit overlap, constant", "first overlap is the unit matrix, constant"):
        job(library, project, "geigh_grad", (2,), 2, 2, case)
    job(library, project, "eigh_grad", (), 2, 2)
    job(library, project, "eigh_grad", (1, 2), 2, 1)
    job(library, project, "geigh", (), 2, 0)
    job(library, project, "geigvalsh", (), 2, 0)
    job(library, project, "eigh_grad_hess", (1,), 3, 2)
    job(library, project, "eigh_grad_hess", (1, 2), 2, 1)
    for mod, cls, opt in MODELS:
        for name in ("bands", "__call__", "bands_grad", "bands_grad_hess"):
            job(model, project, mod, cls, opt, name, 1 if name == "bands_grad_hess" else 2)
    return jobs


# ------------------------------------------------------------------ fit errors
def squared(book, dom, key, what, at, v, want):
    """a loss and the square it has to have"""
    if v is None or not v.known() or v.shape != () or not isinstance(v.e[0], T):
        return book.undecide(what, "no normal form")
    try:
        x = tm.Point(0).val(v.e[0])
    except (ValueError, ZeroDivisionError, OverflowError):
        x = 0
    if not isinstance(x, complex) and x < 0:
        return book.fail(key, f"{at}: {what}: negative ({x!r})")
    book.same(dom, key, f"{what}: the square", at, NA((), [tm.mul(v.e[0], v.e[0])]), NA((), [want]))


F = Fraction
REF = [[F(-2), F(1, 2), F(3)], [F(-3, 2), F(1, 4), F(5, 2)], [F(-1), F(9, 8), F(15, 4)]]
WIDE = [[F(-5), F(-9, 4), F(3, 4), F(16, 5), F(6)], [F(-9, 2), F(-7, 4), F(1, 5), F(13, 5), F(13, 2)], [F(-4), F(-6, 5), F(4, 3), F(7, 2), F(7)]]
CLOSE = [[F(-11, 5), F(2, 3), F(31, 10)], [F(-13, 8), F(1, 9), F(12, 5)], [F(-5, 4), F(1), F(18, 5)]]


LAST = [[F(-9) + i, F(-8) + F(i, 3), *(x + F(1, 7) * (j - 1) for j, x in enumerate(r))] for i, r in enumerate(REF)]


def table(rows):
    return NA((len(rows), len(rows[0])), [tm.num(x) for r in rows for x in r])


def offsets(bands, ref):
    """all pairs of tables of the same width"""
    n, m = len(bands[0]), len(ref[0])
    w = min(n, m)
    for i in range(abs(n - m) + 1):
        yield ([r[i:i + w] for r in bands], ref) if n > m else (bands, [r[i:i + w] for r in ref])


def assignment(ref, bands):
    """cheapest pairs (reference index, band index)"""
    n, m = len(ref), len(bands)

    def cost(ps, f):
        return sum(f(ref[i] - bands[j]) for i, j in ps)
    return lambda f: min(([(i, j) for i, j in enumerate(p)] for p in itertools.permutations(range(m), n)) if n <= m else
                         ([(i, j) for j, i in enumerate(p)] for p in itertools.permutations(range(n), m)), key=lambda ps: cost(ps, f))


def square(x):
    return x * x


def errors(project, book, name, bands, ref, options, label):
    mod = project.modules.get("loss")
    fn = mod.funcs.get(name) if mod is not None else None
    if fn is None:
        return
    dom = BandDomain()
    run = TRun(project, "loss", dom)
    st = run.fresh()
    nk, nb, nr = len(bands), len(bands[0]), len(ref[0])
    what = f"{name}, {nb} bands and {nr} reference bands, {label}"
    args, kw = [run.arr(st, table(bands)), run.arr(st, table(ref))], {}
    if name in ("model_error", "model_loss"):
        weights, offset = options
        args += [run.arr(st, NA((nr,), [tm.num(w) for w in weights])), const(offset)]
        diff = [[bands[i][offset + j] - ref[i][j] for j in range(nr)] for i in range(nk)]
        want = [tm.num(sum((diff[i][j] * weights[j])**2 for i in range(nk) for j in range(nr)) / nk)]
        if name == "model_error":
            want.append(NA((nr,), [tm.num(max(abs(diff[i][j]) for i in range(nk))) for j in range(nr)]))
    elif name == "model_windowed_loss":
        low, high, skip = options
        args += [data(EMPTY, "num", tm.num(low)), data(EMPTY, "num", tm.num(high))]
        kw["allow_skipped_bands"] = const(skip)
        if skip:
            cost = 0
            for b, r in zip(bands, ref):
                r = [x for x in r if low <= x <= high]
                cost += sum(square(r[i] - b[j]) for i, j in assignment(r, b)(square))
        else:
            cost = min(sum(square(x - y) for p, q in zip(b, r) for x, y in zip(p, q) if low <= y <= high) for b, r in offsets(bands, ref))
        want = [tm.num(F(cost) / nk)]
    else:
        count, skip = options
        kw.update(N=const(count), allow_skipped_bands=const(skip))
        flat, full = [x for r in bands for x in r], [x for r in ref for x in r]
        low, high = max(min(flat), min(full)), min(max(flat), max(full))
        centres = [low + (high - low) * i / (count - 1) for i in range(count)]
        if skip:
            pairs = [(r[i], abs(r[i] - b[j])) for b, r in zip(bands, ref) for i, j in assignment(r, b)(abs)]
        else:
            b, r = min(offsets(bands, ref), key=lambda t: sum(square(x - y) for p, q in zip(*t) for x, y in zip(p, q)))
            pairs = [(y, abs(x - y)) for p, q in zip(b, r) for x, y in zip(p, q)]
        h = centres[1] - centres[0]
        want = [NA((count,), [tm.num(c) for c in centres]), NA((count,), [tm.num(max([e for y, e in pairs if abs(y - c) <= h / 2], default=0)) for c in centres])]
    got = run.function(st, name, args, kw)
    if len(want) == 1:
        v = run.value(st, got) if got is not None else None
        if v is None and run.died:
            return book.fail(name, f"{where(run.died[-1] or fn)}: {what}: ends with an error")
        squared(book, dom, name, what, where(fn), v, want[0])
    else:
        its = run.eng.seq_items(st, got) if got is not None else None
        if its is None and run.died:
            return book.fail(name, f"{where(run.died[-1] or fn)}: {what}: ends with an error")
        for x, w in zip(its or [None] * len(want), want):
            v = run.value(st, x) if x is not None else None
            if isinstance(w, T):
                squared(book, dom, name, what, where(fn), v, w)
            else:
                book.same(dom, name, what, where(fn), v if v is not None and v.known() else None, w)


def symbolic_loss(project, book, name):
    mod = project.modules.get("loss")
    fn = mod.funcs.get(name) if mod is not None else None
    if fn is None:
        return
    dom = BandDomain()
    run = TRun(project, "loss", dom)
    st = run.fresh()
    b, r, w = TRun.real("b", 2, 3), TRun.real("r", 2, 2), TRun.real("w", 2)
    got = run.function(st, name, [run.arr(st, x) for x in (b, r, w)] + [const(1)])
    its = [got] if name == "model_loss" else run.eng.seq_items(st, got) if got is not None else None
    s = total(tm.power(tm.mul(w.at(j), tm.sub(b.at(i, j + 1), r.at(i, j))), Fraction(2)) for i in range(2) for j in range(2))
    v = run.value(st, its[0]) if its else None
    squared(book, dom, name, f"{name}: the weighted standard deviation of free bands", where(fn), v, tm.scale(s, HALF))


# ------------------------------------------------------------------ free electrons
def free_electrons(project, book, name, limit, flat):
    mod = project.modules.get("bulk_properties")
    cls = mod.classes.get("FreeElectrons") if mod is not None else None
    m = lookup_method(cls, name)[1] if cls is not None else None
    if m is None:
        return
    dom = BandDomain()
    run = TRun(project, "bulk_properties", dom)
    st = run.fresh()
    dim = 2 if flat else 3
    G = [g[:dim] for g in ((0, 0, 0), (1, 0, 0), (0, -1, 0), (1, 1, 0))]
    ks = [[F(1, 5), F(1, 7), F(2, 9)][:dim], [F(7, 9), F(-2, 7), F(1, 3)][:dim]]
    obj = run.new(st, cls, [run.arr(st, table(G))], {"limit_count": const(limit)} if limit else {})
    what = f"FreeElectrons.{name}, {dim} dimensions, limit {limit}"
    got = run.method(st, obj, name, [run.arr(st, table(ks))])
    unit = tm.mul(tm.num(F("3.80998211")), tm.power(tm.scale(tm.sym("pi", (), True), 2), Fraction(2)))
    E, g, h = [], [], []
    n = limit or len(G)
    for k in ks:
        waves = sorted([[x - y for x, y in zip(k, q)] for q in G], key=lambda d: sum(x * x for x in d))[:n]
        E += [tm.mul(unit, tm.num(sum(x * x for x in d))) for d in waves]
        g += [tm.mul(unit, tm.num(2 * d[p])) for p in range(dim) for d in waves]
        h += [tm.scale(unit, 2) if p == q else ZERO for p in range(dim) for q in range(dim) for _ in waves]
    nk = len(ks)
    want = [NA((nk, n), E), NA((nk, dim, n), g), NA((nk, dim, dim, n), h)][:{"__call__": 1, "bands_grad": 2}.get(name, 3)]
    compare_all(book, run, st, f"FreeElectrons.{name}", what, where(m), got, want)


def loss_jobs(project):
    jobs, job = job_list()
    for name in ("model_error", "model_loss"):
        job(symbolic_loss, project, name)
        job(errors, project, name, WIDE, REF, ([F(1), F(1, 2), F(3)], 1), "offset 1")
        job(errors, project, name, WIDE, REF, ([F(2), F(1), F(1, 3)], 2), "offset 2")
        job(errors, project, name, CLOSE, REF, ([F(1), F(1), F(2)], 0), "offset 0")
    for b, r in ((WIDE, REF), (REF, WIDE), (CLOSE, REF), (LAST, REF), (REF, LAST)):
        for skip in (False, True):
            for window in ((F(-10), F(10)), (F(-8, 5), F(14, 5)), (F(1, 4), F(3))):
                job(errors, project, "model_windowed_loss", b, r, (*window, skip), f"window {float(window[0])} to {float(window[1])}, bands {'may' if skip else 'may not'} be skipped")
            job(errors, project, "model_error_hist", b, r, (7, skip), f"bands {'may' if skip else 'may not'} be skipped")
            job(errors, project, "model_error_hist", b, r, (4, skip), f"bands {'may' if skip else 'may not'} be skipped, 4 bins")
    for name in ("__call__", "bands_grad", "bands_grad_hess"):
        for limit in (None, 2):
            job(free_electrons, project, name, limit, False)
        job(free_electrons, project, name, 3, True)
    return jobs
