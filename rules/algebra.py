"""P22 and P23.  P22: models with free coefficients are added, shifted, scaled, transformed, trimmed, extended and folded into
supercells; the Hamiltonian (and overlap) of the result at a symbolic k is compared with the one the operation stands for.
P23: the linear algebra is opaque (equal matrices, equal eigenvalues and vectors), H, S and their k-derivatives are free symbols;
the bands, gradients and Hessians that are returned are compared with the formulas of perturbation theory, and fit errors with their
definition on representative tables.  Nothing is executed."""
import ast
import itertools
from fractions import Fraction

from sa import terms as tm
from sa.project import lookup_method, where
from sa.tendom import NA
from sa.terms import IMAG, ONE, T, ZERO
from sa.values import EMPTY, NONE, FnV, const, data, tup

from .files import C2, FLAVOURS, NEIGHBORS, FileDomain, Files, flavour_name, phase
from .p07 import EighDomain
from .ten import TRun, indices

K2 = [tm.sym(x, (), True) for x in "kl"]


def job_list():
    jobs = []

    def job(f, *args):
        def run(book):
            with book.attempt(f"{f.__name__} {[a for a in args if isinstance(a, (str, int, tuple))][:4]}"):
                f(*args[:1], book, *args[1:])
        jobs.append(run)
    return jobs, job


def total(xs):
    r = ZERO
    for x in xs:
        r = tm.add(r, x)
    return r


def mat(x):
    """last two axes of an array (one k-point) as lists"""
    n = x.shape[-1]
    lead = (0,) * (len(x.shape) - 2)
    return [[x.at(*lead, i, j) for j in range(n)] for i in range(n)]


def as_na(m):
    return NA((1, len(m), len(m[0])), [x for r in m for x in r])


def blocks(a, b):
    n, m = len(a), len(b)
    return [[a[i][j] if i < n and j < n else b[i - n][j - n] if i >= n and j >= n else ZERO for j in range(n + m)] for i in range(n + m)]


def mul(a, b):
    return [[total(tm.mul(a[i][k], b[k][j]) for k in range(len(b))) for j in range(len(b[0]))] for i in range(len(a))]


def plus(a, b, c=ONE):
    return [[tm.add(x, tm.mul(c, y)) for x, y in zip(r, s)] for r, s in zip(a, b)]


def fourier(nbs, h):
    """H_0 + sum of H_R e^(2 pi i k R) + adjoint; h: list of matrices of terms"""
    n = len(h[0])
    e = [[h[0][i][j] for j in range(n)] for i in range(n)]
    for r, m in list(zip(nbs, h))[1:]:
        p = phase(r)
        for i in range(n):
            for j in range(n):
                e[i][j] = tm.add(e[i][j], tm.add(tm.mul(m[i][j], p), tm.conj(tm.mul(m[j][i], p))))
    return e


class Models(Files):
    """models in two dimensions"""

    def at(self, obj, k=None):
        """matrix of a model or series at one k-point"""
        ks = self.run.arr(self.st, NA((1, 2), list(k or K2)))
        v = self.run.value(self.st, self.run.method(self.st, obj, "f", [ks]))
        return mat(v) if v is not None and v.known() and len(v.shape) == 3 else None

    def pair(self, model, k=None):
        """H and S (None when the model has none)"""
        if self.kind(model) == "AsymTightBindingModel":
            return [self.at(self.run.get_attr(self.st, model, w), k) for w in "HS"]
        return [self.at(model, k), None]

    def kind(self, v):
        oid = next(iter(v.refs)) if v is not None and len(v.refs) == 1 and v.data is None else None
        return self.st.heap[oid].cls.name if oid in self.st.heap and self.st.heap[oid].kind == "inst" else None

    def make(self, cls, opt, name="h"):
        return self.asym_model(opt, 2, name) if cls == "AsymTightBindingModel" else self.band_model(opt, None, 2, name)

    def series(self, name, rows=None, mats=None, size=2):
        rows = rows or NEIGHBORS[2]
        na = self.coefficients(name, len(rows), False, size) if mats is None else NA((len(rows), size, size), [x for m in mats for r in m for x in r])
        return self.run.new(self.st, self.p.modules["tight_binding_asym"].classes["HermitianFourierSeries"], [self.nb(rows), self.run.arr(self.st, na)])

    def free_overlap(self):
        s = self.coefficients("s", 3)
        return s


def same_pair(book, files, key, what, at, model, want):
    died = files.doomed()
    if files.kind(model) is None:
        if died:
            f = died[-1]
            return book.fail(key, f"{where(f) if f is not None else at}: {what}: ends with an error")
        return book.undecide(what, "no model")
    for w, a, b in zip(("Hamiltonian", "overlap"), files.pair(model), want):
        if b is not None:
            book.same(files.dom, key, f"{what}: the {w} at every k", at, as_na(a) if a is not None else None, as_na(b))


KINDS = [("BandStructureModel", f) for f in FLAVOURS] + [("AsymTightBindingModel", False), ("AsymTightBindingModel", True)]
MODULE = {"BandStructureModel": "bandstructure", "AsymTightBindingModel": "tight_binding_asym", "HermitianFourierSeries": "tight_binding_asym"}


def label(cls, opt):
    return f"{cls} ({flavour_name(opt) if isinstance(opt, tuple) else 'overlap' if opt else 'no overlap'})"


def member(project, cls, name):
    c = project.modules[MODULE[cls]].classes[cls] if MODULE[cls] in project.modules else None
    return lookup_method(c, name)[1] if c is not None else None


def add_models(project, book, cls, opt):
    m = member(project, cls, "__add__")
    if m is None:
        return
    files = Models(project, MODULE[cls])
    a, b = files.make(cls, opt), files.make(cls, opt, "g")
    pa, pb = files.pair(a), files.pair(b)
    files.doomed()
    got = files.run.method(files.st, a, "__add__", [b])
    same_pair(book, files, f"{cls}.__add__|sum", f"the sum of two models, {label(cls, opt)}", where(m), got, [blocks(x, y) if x and y else None for x, y in zip(pa, pb)])
    for w, p, q in (("first", a, pa), ("second", b, pb)):
        same_pair(book, files, f"{cls}.__add__|operand", f"the {w} operand after the sum, {label(cls, opt)}", where(m), p, q)


def shift_model(project, book, cls, opt):
    m = member(project, cls, "__add__")
    if m is None:
        return
    files = Models(project, MODULE[cls])
    a = files.make(cls, opt)
    h, s = files.pair(a)
    files.doomed()
    c = tm.num(3)
    got = files.run.method(files.st, a, "__add__", [const(3)])
    one = [[ONE, ZERO], [ZERO, ONE]]
    key = f"{cls}.__add__|{'shift of a model with overlap' if opt is True else 'shift'}"
    same_pair(book, files, key, f"a model plus a number, {label(cls, opt)}, shifts every band by it", where(m), got, [plus(h, s or one, c), s])


def shift_overlap(project, book, rows):
    """the overlap has neighbors that the Hamiltonian does not have, or has the other way around"""
    cls = "AsymTightBindingModel"
    m = member(project, cls, "__add__")
    if m is None:
        return
    files = Models(project, MODULE[cls])
    a = files.run.new(files.st, project.modules[MODULE[cls]].classes[cls], [files.series("h"), files.series("s", rows)])
    h, s = files.pair(a)
    files.doomed()
    got = files.run.method(files.st, a, "__add__", [const(-2)])
    same_pair(book, files, f"{cls}.__add__|shift of a model with overlap", f"a model plus a number, overlap with the neighbors {rows}, shifts every band by it", where(m), got, [plus(h, s, tm.num(-2)), s])


def scale_model(project, book, cls, opt):
    m = member(project, cls, "__mul__")
    if m is None:
        return
    files = Models(project, MODULE[cls])
    a = files.make(cls, opt)
    h, s = files.pair(a)
    files.doomed()
    c = tm.num(Fraction(-3, 4))
    got = files.run.method(files.st, a, "__mul__", [data(EMPTY, "num", c)])
    same_pair(book, files, f"{cls}.__mul__", f"a model times a number, {label(cls, opt)}, scales every band", where(m), got, [[[tm.mul(c, x) for x in r] for r in h], s])


def transform_model(project, book, cls, opt):
    m = member(project, cls, "transform")
    if m is None:
        return
    files = Models(project, MODULE[cls])
    a = files.make(cls, opt)
    A = TRun.real("A", 2, 2)
    back = [total(tm.mul(A.at(j, i), K2[j]) for j in range(2)) for i in range(2)]
    want = files.pair(a, back)
    files.doomed()
    files.run.method(files.st, a, "transform", [files.run.arr(files.st, A)])
    same_pair(book, files, f"{cls}.transform", f"a model with transformed neighbors, {label(cls, opt)}: the matrix at k is the one at A^T k before", where(m), a, want)


def permute_model(project, book, cls, opt):
    m = member(project, cls, "permute")
    if m is None:
        return
    files = Models(project, MODULE[cls])
    a = files.make(cls, opt)
    want = [[[x[i][j] for j in (1, 0)] for i in (1, 0)] if x else None for x in files.pair(a)]
    files.doomed()
    files.run.method(files.st, a, "permute", [files.run.eng.d.lst([const(1), const(0)]) if hasattr(files.run.eng.d, "lst") else files.run.arr(files.st, NA((2,), [ONE, ZERO]))])
    same_pair(book, files, f"{cls}.permute", f"a permuted basis, {label(cls, opt)}", where(m), a, want)


def copy_model(project, book, cls, opt):
    m = member(project, cls, "copy")
    if m is None:
        return
    files = Models(project, MODULE[cls])
    a = files.make(cls, opt)
    want = files.pair(a)
    files.doomed()
    same_pair(book, files, f"{cls}.copy", f"a copy, {label(cls, opt)}", where(m), files.run.method(files.st, a, "copy"), want)


def coefficients(project, book, flavour, mats):
    """set_params_complex sets the Fourier coefficients, params_complex gives them back"""
    cls = "BandStructureModel"
    m, g = member(project, cls, "set_params_complex"), member(project, cls, "params_complex")
    if m is None or g is None:
        return
    dim = 3
    files = Models(project, "bandstructure")
    model = files.band_model(flavour, mats, dim)
    n = len(NEIGHBORS[dim])
    h = files.coefficients("h", n, flavour[2])
    died = files.doomed()
    what = f"{cls} ({flavour_name(flavour)}{', a rotation' if mats else ''})"
    if mats is None and not died:
        v = files.hamiltonian(model, dim)
        want = fourier(NEIGHBORS[dim], [[[h.at(i, a, b) for b in range(2)] for a in range(2)] for i in range(n)])
        book.same(files.dom, f"{cls}.set_params_complex", f"{what}: the Hamiltonian is the Fourier series of the given matrices", where(m), v if v is not None and v.known() else None, as_na(want))
    got = files.run.value(files.st, files.run.method(files.st, model, "params_complex"))
    book.same(files.dom, f"{cls}.params_complex", f"{what}: the Fourier coefficients that were set are given back", where(g), got if got is not None and got.known() else None, h)


# ------------------------------------------------------------------ neighbors of a series
LIST = [(0, 0), (2, 1), (1, 0), (0, -1), (3, 0)]


def trim(project, book, name, arg, kept, small=()):
    """limit_neighbors, limit_neighbor_count, cleanup_neighbors: `kept` neighbors stay with their matrices"""
    cls = "HermitianFourierSeries"
    m = member(project, cls, name)
    if m is None:
        return
    files = Models(project, "tight_binding_asym")
    mats = []
    for i in range(len(LIST)):
        s = Fraction(1, 10**6) if i in small else ONE
        if name == "cleanup_neighbors":
            rows = [[Fraction(i + 2, 3), Fraction(-1 - i, 5)], [Fraction(2 * i - 7, 9), Fraction(i + 1, 7)]]
            if i == 0:
                rows[1][0] = rows[0][1]
            mats.append([[tm.num(x * (s if i in small else 1)) for x in r] for r in rows])
        else:
            w = TRun.hermitian("h0", 2) if i == 0 else TRun.cplx(f"h{i}", 2, 2)
            mats.append([[w.at(a, b) for b in range(2)] for a in range(2)])
    s = files.series("h", LIST, mats)
    files.doomed()
    got = files.run.method(files.st, s, name, [data(EMPTY, "num", tm.num(arg)) if not isinstance(arg, int) else const(arg)])
    died = files.doomed()
    what, key = f"{cls}.{name}({float(arg)})", f"{cls}.{name}"
    if died:
        return book.fail(key, f"{where(died[-1])}: {what}: ends with an error")
    v = files.at(s)
    want = fourier([LIST[0]] + [LIST[i] for i in kept if i], [mats[0]] + [mats[i] for i in kept if i])
    book.same(files.dom, key, f"{what}: exactly the neighbors {[LIST[i] for i in kept]} stay, each with its matrix", where(m), as_na(v) if v is not None else None, as_na(want))
    c = files.run.value(files.st, got)
    if c is not None and c.shape == ():
        book.same(files.dom, key + "|count", f"{what}: the number of removed neighbors is returned", where(m), NA((1,), list(c.e)), NA((1,), [tm.num(len(LIST) - len(kept))]))


def extend(project, book, new):
    cls = "HermitianFourierSeries"
    m = member(project, cls, "add_neighbors")
    if m is None:
        return
    files = Models(project, "tight_binding_asym")
    s = files.series("h")
    want = files.at(s)
    files.doomed()
    files.run.method(files.st, s, "add_neighbors", [files.nb(new)])
    died = files.doomed()
    what, key = f"{cls}.add_neighbors({new})", f"{cls}.add_neighbors"
    dup = [r for r in new if r in NEIGHBORS[2]]
    if dup and len(new) > 1:
        return book.rep.oblige(bool(died), key + "|duplicates", f"{where(m)}: {what}: a neighbor that is there already is not refused") if died or files.at(s) else book.undecide(what, "no series")
    if died:
        return book.fail(key, f"{where(died[-1])}: {what}: ends with an error")
    v = files.at(s)
    book.same(files.dom, key, f"{what}: new neighbors have no coefficients, the series is unchanged", where(m), as_na(v) if v is not None else None, as_na(want))
    nb, hr = (files.run.value(files.st, files.run.get_attr(files.st, s, a)) for a in ("neighbors", "H_r"))
    rows = NEIGHBORS[2] + ([] if dup else list(new))
    book.same(files.dom, key + "|list", f"{what}: the new neighbors are in the list", where(m), nb, NA((len(rows), 2), [tm.num(x) for r in rows for x in r]))
    if hr is not None and hr.shape[0] != len(rows):
        book.fail(key + "|list", f"{where(m)}: {what}: {hr.shape[0]} matrices for {len(rows)} neighbors")


def series_sum(project, book, name):
    cls = "HermitianFourierSeries"
    m = member(project, cls, name)
    if m is None:
        return
    files = Models(project, "tight_binding_asym")
    a, b = files.series("h"), files.series("g", size=1)
    x, y = files.at(a), files.at(b)
    files.doomed()
    got = files.run.method(files.st, a, name, [b])
    died = files.doomed()
    if died:
        return book.fail(f"{cls}.{name}", f"{where(died[-1])}: {cls}.{name}: ends with an error")
    v = files.at(got) if files.kind(got) else None
    book.same(files.dom, f"{cls}.{name}", f"{cls}.{name} of series of different sizes: the matrices are put on the diagonal", where(m), as_na(v) if v is not None else None, as_na(blocks(x, y)))


# ------------------------------------------------------------------ supercells
NEAR = [(0, 0), (1, 0), (0, 1), (1, 1), (1, -1)]
CELLS = [("two cells in a row", [[1, 0], [0, 1]], [[2, 0], [0, 1]]), ("two cells in the other direction", [[1, 0], [0, 1]], [[1, 0], [0, 2]]),
         ("a diagonal cell", [[1, 0], [0, 1]], [[1, -1], [1, 1]]), ("a cell of other lengths", [[2, 0], [0, 3]], [[4, 0], [0, 3]]),
         ("a skewed cell", [[1, 1], [0, 1]], [[2, 1], [0, 1]]), ("a turned cell", [[1, 0], [0, 1]], [[0, -2], [1, 0]]),
         ("a left-handed cell", [[1, 0], [0, 1]], [[0, 1], [2, 0]])]


def supercell(project, book, cls, case, A, B, overlap=False):
    """the traces of the powers of the Hamiltonian are those of the k-points that fold onto one"""
    m = member(project, cls, "supercell")
    if m is None:
        return
    files = Models(project, MODULE[cls])
    cart = [tuple(sum(A[i][j] * r[j] for j in range(2)) for i in range(2)) for r in NEAR]
    mats = []
    for i in range(len(NEAR)):
        w = TRun.hermitian("h0", 2) if i == 0 else TRun.cplx(f"h{i}", 2, 2)
        mats.append(w)
    free = {0: (0, 1, 2, 3), 1: (0, 1, 2), 2: (1, 3), 3: (0,), 4: (2,)}      # the other entries vanish
    ms = [[[w.at(a, b) if 2 * a + b in free[i] else ZERO for b in range(2)] for a in range(2)] for i, w in enumerate(mats)]
    na = NA((len(NEAR), 2, 2), [x for q in ms for r in q for x in r])
    if cls == "BandStructureModel":
        model = files.run.static(files.st, project.modules["bandstructure"].classes[cls], "init_tight_binding", [files.sym([[[1, 0], [0, 1]]]), files.nb(cart), const(2)], {"exp": const(True)})
        files.run.method(files.st, model, "set_params_complex", [files.run.arr(files.st, na)])
    else:
        parts = [files.series("h", cart, ms)]
        if overlap:
            parts.append(files.series("s", [cart[0], cart[1]], [[[ONE, ZERO], [ZERO, ONE]], [[tm.sym("s0", (), True), ZERO], [ZERO, ZERO]]]))
        model = files.run.new(files.st, project.modules["tight_binding_asym"].classes[cls], parts)
    what, key = f"{cls}.supercell, {case}" + (", overlap" if overlap else ""), f"{cls}.supercell" + ("|overlap" if overlap else "")
    if files.doomed():
        return book.undecide(what, "the model")
    # k-points that fold onto k: k + g with g in the reciprocal lattice of B, modulo that of A
    det = B[0][0] * B[1][1] - B[0][1] * B[1][0]
    inv = [[Fraction(B[1][1], det), Fraction(-B[0][1], det)], [Fraction(-B[1][0], det), Fraction(B[0][0], det)]]
    gs = {}
    for n in itertools.product(range(4), repeat=2):
        g = [sum(inv[j][i] * n[j] for j in range(2)) for i in range(2)]
        f = tuple(sum(A[i][j] * g[i] for i in range(2)) % 1 for j in range(2))
        gs.setdefault(f, g)
    w = "S" if overlap else "H"
    olds = [files.pair(model, [tm.add(k, tm.num(x)) for k, x in zip(K2, g)])[1 if overlap else 0] for g in gs.values()]
    new = files.run.method(files.st, model, "supercell", [files.run.arr(files.st, NA((2, 2), [tm.num(x) for r in c for x in r])) for c in (A, B)])
    died = files.doomed()
    if died:
        return book.fail(key, f"{where(died[-1]) if died[-1] is not None else where(m)}: {what}: ends with an error")
    if files.kind(new) is None:
        return book.undecide(what, "no model")
    got = files.pair(new)[1 if overlap else 0]
    if got is None or None in olds:
        return book.undecide(what, "no Hamiltonian")
    if len(got) != 2 * len(gs):
        return book.fail(key, f"{where(m)}: {what}: {len(got)} bands instead of {2 * len(gs)}")
    p, q = got, olds
    for power in (1, 2, 3):
        a, b = total(p[i][i] for i in range(len(p))), total(x[i][i] for x in q for i in range(2))
        book.same(files.dom, key, f"{what}: the bands are those of the {len(gs)} k-points that fold onto one (trace of the power {power} of the {'overlap' if overlap else 'Hamiltonian'})", where(m), NA((1,), [a]), NA((1,), [b]))
        if power < 3:
            p, q = mul(p, got), [mul(x, y) for x, y in zip(q, olds)]


def p22_jobs(project):
    jobs, job = job_list()
    for cls, opt in KINDS:
        for f in (add_models, shift_model, scale_model, transform_model, permute_model, copy_model):
            job(f, project, cls, opt)
    for rows in ([(0, 0), (-1, 0)], [(0, 0), (5, 2), (0, 1)]):
        job(shift_overlap, project, rows)
    for fl in FLAVOURS:
        job(coefficients, project, fl, None)
        job(coefficients, project, fl, C2)
    length = Fraction(1)
    for arg, kept in ((Fraction(1), (0, 2, 3)), (Fraction(0), (0,)), (Fraction(5, 2), (0, 1, 2, 3)), (Fraction(7), (0, 1, 2, 3, 4))):
        job(trim, project, "limit_neighbors", arg, kept)
    for arg, kept in ((1, (0,)), (3, (0, 2, 3)), (4, (0, 2, 3, 1)), (9, (0, 2, 3, 1, 4))):
        job(trim, project, "limit_neighbor_count", arg, kept)
    for small, kept in (((), (0, 1, 2, 3, 4)), ((2,), (0, 1, 3, 4)), ((1, 3), (0, 2, 4)), ((0, 4), (0, 1, 2, 3))):
        job(trim, project, "cleanup_neighbors", Fraction(1, 1000), kept, small)
    job(trim, project, "cleanup_neighbors", Fraction(3, 2), (0, 2, 3, 4))
    for new in ([(2, 2)], [(0, 1), (5, 5)], [(1, 0)], [(3, 3), (1, 0)]):
        job(extend, project, new)
    for name in ("__add__", "direct_sum"):
        job(series_sum, project, name)
    for cls in ("BandStructureModel", "AsymTightBindingModel"):
        for case in CELLS:
            job(supercell, project, cls, *case)
    job(supercell, project, "AsymTightBindingModel", *CELLS[0], True)
    return jobs
