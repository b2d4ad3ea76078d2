"""P07 / P05 (normalisation).  normalize() and permute() are called on models whose coefficient matrices are symbolic; the
eigenvectors numpy would return are a free unitary matrix.  The model also carries the matrix units as coefficient matrices, so
the map L applied to a coefficient matrix can be read off entry by entry: it has to be M -> X^+ M X for one X (L is Hermitian
and of rank one), unitary where there is no overlap matrix, and every other coefficient matrix has to be mapped by the same L."""
import itertools
from fractions import Fraction

from sa import terms as tm
from sa.project import lookup_method, where
from sa.tendom import NA, TenDomain
from sa.terms import IMAG, ONE, T, TooBig, ZERO
from sa.values import EMPTY, NONE, const, data, tup

from .common import Report
from .p06 import DIM, Book
from .ten import TRun, dagger, indices

MINIMUM = {"basis_changes": 1}
NB = 2
HALF = Fraction(1, 2)


def unitary(tag):
    """a general unitary 2x2 matrix up to column phases (which the code may choose)"""
    th, ph = (tm.sym(f"{n}{tag}", (), True) for n in ("theta", "phi"))
    e = tm.exp(tm.mul(IMAG, th))
    f = tm.conj(e)
    c = tm.scale(tm.add(e, f), HALF)
    s = tm.scale(tm.mul(tm.sub(f, e), IMAG), HALF)
    u = tm.exp(tm.mul(IMAG, ph))
    return [c, tm.scale(tm.mul(s, u), -1), tm.mul(s, tm.conj(u)), c]


def mm(a, b, n=NB):
    return [tm.add(tm.mul(a[i * n], b[j]), tm.mul(a[i * n + 1], b[n + j])) for i in range(n) for j in range(n)]


def dag(a, n=NB):
    return [tm.conj(a[j * n + i]) for i in range(n) for j in range(n)]


class EighDomain(TenDomain):
    """the eigenvectors are a free matrix (unitary when asked for)"""

    def __init__(self, exact, swap=False):
        super().__init__()
        self.exact = exact
        self.swap = swap            # the eigenvectors of a diagonal matrix whose entries are not in ascending order
        self.calls = []
        self.answers = {}
        self.decide = self.generic_case

    def generic_case(self, node, op, a, b):
        """the case analysed: no entry is negligible (the other cases only drop entries below rounding)"""
        for seed in range(3):
            try:
                v = tm.Point(seed).val(tm.sub(a, b))
            except (ValueError, ZeroDivisionError, OverflowError):
                continue
            if isinstance(v, complex):
                if abs(v.imag) > 1e-9:
                    return None
                v = v.real
            return {"Gt": v > 0, "GtE": v > 0, "NotEq": True, "Lt": v < 0, "LtE": v < 0, "Eq": False}.get(type(op).__name__)
        return None

    def l_eigh(self, eng, st, args, kw, node):
        a = self.A(eng, st, args)
        *batch, n, m = a.shape
        if n != NB or m != NB:
            return None
        vals, vecs = [], []
        for ix in indices(tuple(batch)):
            key = tuple(a.at(*ix, i, j) for i in range(n) for j in range(n))
            if self.exact and key not in self.answers and all(not key[i * n + j].p for i in range(n) for j in range(n) if i != j):
                # already diagonal (with entries in ascending order)
                self.answers[key] = ([key[i * n + i] for i in range(n)], [ONE if i == j else ZERO for i in range(n) for j in range(n)])
            if key not in self.answers:
                k = len(self.answers)
                self.answers[key] = ([tm.sym(f"la{k}{i}", (), True) for i in range(n)],
                                     [ZERO, *TRun.cplx(f"ev{k}", 2).e, ZERO] if self.swap else unitary(k) if self.exact else list(TRun.cplx(f"ev{k}", n, n).e))
            la, ev = self.answers[key]
            vals += la
            vecs += ev
        return tup([self.new(st, NA((*batch, n), vals)), self.new(st, NA((*batch, n, n), vecs))])


UNITS = [[ONE, ZERO, ZERO, ZERO], [ZERO, ZERO, ZERO, ONE], [ZERO, ONE, ONE, ZERO], [ZERO, tm.scale(IMAG, -1), IMAG, ZERO]]


def read_map(cols):
    """L[c][d][a][b] from the images of the four Hermitian units"""
    e00, e11, sx, sy = cols
    out = {}
    for c, d in itertools.product(range(NB), repeat=2):
        x, y = sx[c * NB + d], sy[c * NB + d]
        out[c, d, 0, 0], out[c, d, 1, 1] = e00[c * NB + d], e11[c * NB + d]
        out[c, d, 0, 1] = tm.scale(tm.add(x, tm.mul(IMAG, y)), HALF)
        out[c, d, 1, 0] = tm.scale(tm.sub(x, tm.mul(IMAG, y)), HALF)
    return out


def image(L, m):
    return [tm_sum(tm.mul(L[c, d, a, b], m[a * NB + b]) for a in range(NB) for b in range(NB)) for c in range(NB) for d in range(NB)]


def tm_sum(xs):
    r = ZERO
    for x in xs:
        r = tm.add(r, x)
    return r


def congruence(book, dom, key, what, at, L, unit):
    R2 = list(itertools.product(range(NB), repeat=2))
    want = NA((NB,) * 4, [tm.conj(L[d, c, b, a]) for c, d in R2 for a, b in R2])
    got = NA((NB,) * 4, [L[c, d, a, b] for c, d in R2 for a, b in R2])
    book.same(dom, key, f"{what}: the row side is the conjugate of the column side", at, got, want)
    l, r = [], []
    for (c, d), (a, b), (c2, d2), (a2, b2) in itertools.product(R2, R2, R2, R2):
        if (c, a) < (c2, a2) and (d, b) < (d2, b2):
            l.append(tm.mul(L[c, d, a, b], L[c2, d2, a2, b2]))
            r.append(tm.mul(L[c, d2, a, b2], L[c2, d, a2, b]))
    book.same(dom, key, f"{what}: rows and columns are changed by one matrix each", at, NA((len(l),), l), NA((len(r),), r))
    if unit:
        one = [ONE, ZERO, ZERO, ONE]
        book.same(dom, key, f"{what}: the change of basis is unitary", at, NA((4,), image(L, one)), NA((4,), one))


def mats(na):
    return [list(na.e[k * NB * NB:(k + 1) * NB * NB]) for k in range(na.shape[0])]


def stackm(ms):
    return NA((len(ms), NB, NB), [x for m in ms for x in m])


def model(run, st, inv, exp, ms):
    """BandStructureModel with the coefficient matrices ms"""
    p = run.p
    sy = p.modules["symmetry"].classes["Symmetry"]
    eye = run.arr(st, NA((1, DIM, DIM), [tm.num(int(i == j)) for i in range(DIM) for j in range(DIM)]))
    sym = run.inst(st, sy, S=eye, inversion=const(inv), projective=const(False))
    n = len(ms) if exp or inv else (len(ms) + 1) // 2
    r = TRun.real("r", n, DIM)
    nb = run.arr(st, NA(r.shape, [ZERO] * DIM + list(r.e[DIM:])))
    obj = run.static(st, run.cls("BandStructureModel"), "init_tight_binding", [sym, nb, const(NB)], {"exp": const(exp)})
    run.set_attr(st, obj, "params", run.arr(st, stackm(ms)))
    return obj


def band_structure(project, rep, book, book5):
    cls = project.modules["bandstructure"].classes["BandStructureModel"]
    U = unitary(0)
    for inv, exp in itertools.product((False, True), repeat=2):
        tag = f"BandStructureModel(inversion={inv}, exp={exp}).normalize"
        dom = EighDomain(True)
        run = TRun(project, "bandstructure", dom)
        st = run.fresh()
        free = exp and not inv
        la = [tm.sym(f"lambda{i}", (), True) for i in range(NB)]
        P0 = mm(mm(U, [la[0], ZERO, ZERO, la[1]]), dag(U))
        dom.answers[tuple(P0)] = (la, U)
        M = list((TRun.cplx("M", NB, NB) if free else TRun.hermitian("M", NB)).e)
        P1 = mm(mm(U, M), dag(U))              # any matrix, written in the eigenbasis
        extra = [] if exp or inv else [list(TRun.hermitian("Q", NB).e), list(TRun.hermitian("R", NB).e)]
        extra = extra[:1] if (2 + 4 + len(extra)) % 2 == 0 and extra else extra
        ms = [P0, P1] + UNITS + extra
        obj = model(run, st, inv, exp, ms)
        run.method(st, obj, "normalize")
        got = run.value(st, run.get_attr(st, obj, "params"))
        at = where(lookup_method(cls, "normalize")[1])
        settle(rep, book, dom, "BandStructureModel.normalize", tag, at, ms, got, True)
    # the zeroth matrix comes out Hermitian whatever it was
    for inv, exp in itertools.product((False, True), repeat=2):
        dom = EighDomain(True)
        run = TRun(project, "bandstructure", dom)
        st = run.fresh()
        ms = [list(TRun.cplx("P0", NB, NB).e), mm(mm(U, list(TRun.cplx("M", NB, NB).e)), dag(U)), UNITS[0]]
        obj = model(run, st, inv, exp, ms)
        run.method(st, obj, "normalize")
        got = run.value(st, run.get_attr(st, obj, "params"))
        at = where(lookup_method(cls, "normalize")[1])
        zeroth(book5, dom, "BandStructureModel.normalize:zeroth", f"BandStructureModel(inversion={inv}, exp={exp}): normalize leaves the zeroth matrix Hermitian", at, got)


def zeroth(book, dom, key, what, at, got):
    if got is None or len(got.shape) != 3:
        return book.undecide(what, "not evaluated")
    m = NA((NB, NB), got.e[:NB * NB])
    book.same(dom, key, what, at, m, dagger(m) if m.known() else None)


def settle(rep, book, dom, key, tag, at, ms, got, unit, others=()):
    """ms -> got; the units sit at 2..5"""
    if got is None or not got.known() or got.shape[0] != len(ms):
        return book.undecide(tag, "not evaluated")
    rep.count("basis_changes")
    new = mats(got)
    try:
        tm.allow(60)
        L = read_map(new[2:6])
    except (TooBig, RecursionError):
        return book.undecide(tag, "too big")
    congruence(book, dom, key + ":congruence", tag, at, L, unit)
    for i, (a, b) in enumerate(zip(ms, new)):
        if not 2 <= i < 6:
            book.same(dom, key + ":same", f"{tag}: matrix {i} is changed like the others", at, NA((NB * NB,), b), NA((NB * NB,), image(L, a)))
    for what, a, b in others:
        book.same(dom, key + ":same", f"{tag}: {what} is changed like the others", at, b and NA((NB * NB,), b), NA((NB * NB,), image(L, a)))


def series(run, st, name, ms):
    r = TRun.real(name, len(ms), DIM)
    nb = run.arr(st, NA(r.shape, [ZERO] * DIM + list(r.e[DIM:])))
    return run.new(st, run.cls("HermitianFourierSeries"), [nb, run.arr(st, stackm(ms))])


def asym(project, rep, book, book5):
    cls = project.modules["tight_binding_asym"].classes["AsymTightBindingModel"]
    at = where(lookup_method(cls, "normalize")[1])
    for overlap, swap in ((False, False), (True, False), (True, True)):
        dom = EighDomain(False, swap)
        run = TRun(project, "tight_binding_asym", dom)
        st = run.fresh()
        ms = [list(TRun.hermitian("P0", NB).e), list(TRun.cplx("P1", NB, NB).e)] + UNITS
        ss = [list(TRun.hermitian("S0", NB).e), list(TRun.cplx("S1", NB, NB).e)] if overlap else [[ONE, ZERO, ZERO, ONE]]
        H = series(run, st, "r", ms)
        obj = run.new(st, cls, [H] + ([series(run, st, "q", ss)] if overlap else []))
        run.method(st, obj, "normalize")
        h, s = (run.value(st, run.get_attr(st, run.get_attr(st, obj, f), "H_r")) for f in "HS")
        tag = f"AsymTightBindingModel({'with' if overlap else 'without'} overlap).normalize" + (" when the eigenvectors are unit vectors in another order" if swap else "")
        so = mats(s) if s is not None and s.known() and s.shape[0] == len(ss) else [None] * len(ss)
        settle(rep, book, dom, "AsymTightBindingModel.normalize", tag, at, ms, h, False, [(f"overlap matrix {i}", a, b) for i, (a, b) in enumerate(zip(ss, so))])
    dom = EighDomain(False)
    run = TRun(project, "tight_binding_asym", dom)
    st = run.fresh()
    H = series(run, st, "r", [list(TRun.cplx("P0", NB, NB).e), list(TRun.cplx("P1", NB, NB).e)])
    S = series(run, st, "q", [list(TRun.cplx("S0", NB, NB).e)])
    obj = run.new(st, cls, [H, S])
    run.method(st, obj, "normalize")
    for f in "HS":
        got = run.value(st, run.get_attr(st, run.get_attr(st, obj, f), "H_r"))
        zeroth(book5, dom, "AsymTightBindingModel.normalize:zeroth", f"AsymTightBindingModel: normalize leaves the zeroth matrix of {f} Hermitian", at, got)


ORDER = (2, 0, 1)


def permuted(ms, n=3):
    return [[m[ORDER[i] * n + ORDER[j]] for i in range(n) for j in range(n)] for m in ms]


def permutations(project, rep, book):
    for mod, name in (("bandstructure", "BandStructureModel"), ("tight_binding_asym", "AsymTightBindingModel"), ("tight_binding", "TightBindingModel")):
        cls = project.modules[mod].classes.get(name) if mod in project.modules else None
        f = lookup_method(cls, "permute")[1] if cls is not None else None
        if f is None:
            continue
        with book.attempt(f"{name}.permute"):
            permutation(project, rep, book, mod, name, cls, f)


def permutation(project, rep, book, mod, name, cls, f, n=3):
    if True:
        run = TRun(project, mod)
        st = run.fresh()
        ms = [list(TRun.hermitian("P0", n).e)] + [list(TRun.cplx(f"P{i}", n, n).e) for i in (1, 2)]
        A = NA((3, n, n), [x for m in ms for x in m])
        order = run.arr(st, NA((n,), [tm.num(i) for i in ORDER]))
        if mod == "tight_binding_asym":
            S = NA((3, n, n), [x for i in range(3) for x in TRun.cplx(f"S{i}", n, n).e])
            r = TRun.real("r", 3, DIM)
            nb = NA(r.shape, [ZERO] * DIM + list(r.e[DIM:]))
            h, s = (run.new(st, run.cls("HermitianFourierSeries"), [run.arr(st, nb), run.arr(st, x)]) for x in (A, S))
            obj = run.new(st, cls, [h, s])
            get = {"H": lambda: run.value(st, run.get_attr(st, run.get_attr(st, obj, "H"), "H_r")), "S": lambda: run.value(st, run.get_attr(st, run.get_attr(st, obj, "S"), "H_r"))}
            src = {"H": A, "S": S}
        else:
            obj = run.inst(st, cls, params=run.arr(st, A), symmetrizer=NONE)
            get, src = {"H": lambda: run.value(st, run.get_attr(st, obj, "params"))}, {"H": A}
        run.method(st, obj, "permute", [order])
        rep.count("basis_changes")
        for k in src:
            old = [list(src[k].e[i * n * n:(i + 1) * n * n]) for i in range(3)]
            want = NA((3, n, n), [x for m in permuted(old) for x in m])
            book.same(run.dom, f"{name}.permute", f"{name}.permute: rows and columns of every matrix of {k} are permuted alike", where(f), get[k](), want)


def p07(project, rep, book, b5=None):
    b5 = b5 or Book(Report())
    for mod, f in (("bandstructure", band_structure), ("tight_binding_asym", asym)):
        if mod in project.modules:
            with book.attempt(f"{mod}: normalize"):
                f(project, rep, book, b5)
    permutations(project, rep, book)


def check(project, tier):
    rep = Report()
    book = Book(rep)
    tm.allow_whole(600)
    p07(project, rep, book)
    rep.assumptions = ["real arithmetic; two bands (three for permute), free symbolic matrices; numpy.linalg.eigh returns a free unitary matrix (free invertible where the model has an overlap)",
                       "the case analysed is the one where no tested entry is negligible (models whose entries are below the rounding thresholds of normalize are not covered)",
                       f"undecided obligations: {book.undecided[:20]}"]
    rep.explanation = "algebraic value numbering of small symbolic tensors: the linear map applied to each coefficient matrix is read off the normal forms"
    return rep
