"""P06: the coefficient functions of every model variant, called on symbolic k points, give normal forms; the returned gradient
and Hessian have to be the first and second derivative of the returned function.  P05: the evaluated matrices have to be
equal to their own conjugate transpose.  Nothing is executed."""
import itertools
from contextlib import contextmanager

from sa import terms as tm
from sa.project import lookup_method, where
from sa.tendom import NA
from sa.terms import T, TooBig
from sa.values import const

from .common import Report
from .p17 import compare
from .ten import TRun, dagger, indices

MINIMUM = {"models": 1}
NK, DIM, NB = 2, 2, 2


class Book:
    def __init__(self, rep):
        self.rep = rep
        self.undecided = []

    def undecide(self, what, why):
        if TRun.died:
            f = TRun.died[-1]
            return self.fail(f"{f._qual if f is not None else what}|raises", f"{where(f) + ': ' if f is not None else ''}{what}: raises an error on every path")
        self.rep.count("obligations")
        self.rep.count("undecided")
        self.undecided.append(f"{what}: {why}")

    @contextmanager
    def attempt(self, what):
        """code the analysis cannot follow is no violation"""
        TRun.died = []
        try:
            yield
        except (KeyError, IndexError, AttributeError, TypeError, ValueError, AssertionError, TooBig, tm.NoDerivative, RecursionError) as e:
            self.undecide(what, f"not followed ({type(e).__name__}: {e})")

    def fail(self, key, text):
        self.rep.count("obligations")
        self.rep.oblige(False, key, text)

    def same(self, dom, key, what, at, got, want):
        """all entries of two arrays are equal"""
        rep = self.rep
        if got is None or want is None:
            return self.undecide(what, "no normal form")
        if got.shape != want.shape:
            return self.fail(key, f"{at}: {what}: shape {got.shape} instead of {want.shape}")
        rep.count("obligations")
        und = None
        for ix, a, b in zip(indices(got.shape), got.e, want.e):
            if not isinstance(a, T) or not isinstance(b, T):
                und = und or f"entry {ix} has no normal form"
                continue
            rep.count("entries")
            r = "proven" if a == b else compare(dom, a, b)
            if r == "undecided":
                und = und or f"entry {ix}: forms not matched, no differing point"
            elif r != "proven":
                pt = r[1]
                rep.oblige(False, key, f"{at}: {what}: entry {ix}: {tm.show(a)[:160]}  differs from  {tm.show(b)[:160]} (e.g. {pt.val(a)!r} against {pt.val(b)!r})")
                return
        if und:
            rep.count("undecided")
            self.undecided.append(f"{what}: {und}")
            return
        rep.obligations += 1
        rep.discharged += 1
        rep.count("proven")
        if len(rep.samples) < 6:
            i = max(range(len(want.e)), key=lambda j: len(want.e[j].p), default=None)
            rep.samples.append({"rule": what, "entries": len(want.e), "normal form": tm.show(want.e[i])[:300] if i is not None else ""})


def ksym(ix):
    return "k" + "".join(map(str, ix))


def gradient(f, batch, dim, lead):
    """f: NA of shape batch + tail; result: batch + lead-axes... + (dim,) + tail with d/dk after the batch and existing k axes.
    lead: number of k-derivative axes f already has"""
    nb = len(batch)
    head = f.shape[:nb + lead]
    tail = f.shape[nb + lead:]
    out = []
    for h in indices(head):
        for d in range(dim):
            for t in indices(tail):
                x = f.at(*h, *t)
                try:
                    out.append(None if x is None else tm.diff(x, ksym(h[:nb] + (d,))))
                except (TooBig, tm.NoDerivative, RecursionError):
                    out.append(None)
    return NA(head + (dim,) + tail, out)


SHAPES = (((), DIM), ((NK,), DIM), ((1, NK), DIM))


def kpoints(batch, dim):
    return NA(batch + (dim,), [tm.sym(ksym(ix), (), True) for ix in indices(batch + (dim,))])


def models(project):
    """(tag, builder) pairs; a builder gives (run, state, object, coefficient count or None)"""
    out = []
    if "bandstructure" in project.modules:
        for inv, cos, exp in itertools.product((False, True), repeat=3):
            out.append((f"BandStructureModel(inversion={inv}, cos_reduced={cos}, exp={exp})", "bandstructure", (inv, cos, exp)))
    if "tight_binding_asym" in project.modules:
        out.append(("HermitianFourierSeries", "tight_binding_asym", None))
    if "tight_binding" in project.modules:
        for inv in (False, True):
            out.append((f"TightBindingModel(inversion={inv})", "tight_binding", inv))
    return out


def neighbors(n=3, dim=DIM):
    r = TRun.real("r", n, dim)
    return NA(r.shape, [tm.ZERO] * dim + list(r.e[dim:]))


def build(project, mod, opt, nr=3, dom=None):
    run = TRun(project, mod, dom)
    st = run.fresh()
    d = run.dom
    nb = run.arr(st, neighbors(nr))
    sy = project.modules["symmetry"].classes.get("Symmetry") if "symmetry" in project.modules else None
    S = TRun.real("s", 2, DIM, DIM)
    eye = [tm.num(int(i == j)) for i in range(DIM) for j in range(DIM)]
    S = run.arr(st, NA(S.shape, eye + list(S.e[DIM * DIM:])))
    if mod == "bandstructure":
        inv, cos, exp = opt
        sym = run.inst(st, sy, S=S, inversion=const(inv), projective=const(False))
        obj = run.static(st, run.cls("BandStructureModel"), "init_tight_binding", [sym, nb, const(NB)], {"cos_reduced": const(cos), "exp": const(exp)})
        par = run.get_attr(st, obj, "params")
        n = run.value(st, par)
        n = n.shape[0] if n is not None else 0
        P = NA((n, NB, NB), list(TRun.hermitian("P0", NB).e) + [x for i in range(1, n) for x in TRun.cplx(f"P{i}", NB, NB).e])
        run.set_attr(st, obj, "params", run.arr(st, P))
        return run, st, obj, n
    if mod == "tight_binding_asym":
        H = NA((nr, NB, NB), list(TRun.hermitian("P0", NB).e) + [x for i in range(1, nr) for x in TRun.cplx(f"P{i}", NB, NB).e])
        obj = run.new(st, run.cls("HermitianFourierSeries"), [nb, run.arr(st, H)])
        return run, st, obj, nr
    n = nr if opt else 2 * nr - 1
    P = NA((n, NB, NB), [x for i in range(n) for x in TRun.hermitian(f"P{i}", NB).e])
    sym = run.inst(st, sy, S=S, inversion=const(opt), projective=const(False))
    ur = project.modules["unitary_representations"].classes["UnitaryRepresentation"]
    rep = run.inst(st, ur, sym=sym, inv_split=const(1))
    obj = run.inst(st, run.cls("TightBindingModel"), neighbors=nb, params=run.arr(st, P), unitary_repr=rep, sym=sym)
    return run, st, obj, n


def evaluate(run, st, obj, name, batch, i=None):
    k = run.arr(st, kpoints(batch, DIM))
    r = run.method(st, obj, name, [k] + ([const(i)] if i is not None else []))
    its = run.eng.seq_items(st, r) if r is not None else None
    if i is not None and its is not None and len(its) == 2:
        return [run.value(st, v) for v in its]
    return [run.value(st, r)]


def each_model(project, rep, book, f):
    for tag, mod, opt in models(project):
        with book.attempt(tag):
            run, st, obj, n = build(project, mod, opt)
            if not n:
                book.undecide(tag, "not constructed")
                continue
            f(project, rep, book, tag, mod, run, st, obj, n)


def derivatives(project, rep, book, tag, mod, run, st, obj, n):
    if True:
        rep.count("models")
        cls = run.cls(tag.split("(")[0])
        at = {m: where(lookup_method(cls, m)[1]) if lookup_method(cls, m)[1] else where(cls.node) for m in ("f", "df", "ddf", "f_i", "df_i", "ddf_i")}
        for batch, dim in SHAPES:
            for i in range(n):
                f, df, ddf = (evaluate(run, st, obj, m, batch, i) for m in ("f_i", "df_i", "ddf_i"))
                if not len(f) == len(df) == len(ddf):
                    book.undecide(f"{tag}: coefficient {i}", "parts")
                    continue
                rep.count("coefficient_functions", len(f))
                for part, (a, b, c) in enumerate(zip(f, df, ddf)):
                    w = f"{tag}: coefficient {i}" + (" (odd part)" if part else "") + f", k of shape {batch + (dim,)}"
                    book.same(run.dom, f"{tag.split('(')[0]}:df_i", f"{w}: the gradient is the derivative of the function", at["df_i"], b, a and gradient(a, batch, dim, 0))
                    book.same(run.dom, f"{tag.split('(')[0]}:ddf_i", f"{w}: the Hessian is the derivative of the gradient", at["ddf_i"], c, b and gradient(b, batch, dim, 1))
            run.died.clear()
            f, df, ddf = (evaluate(run, st, obj, m, batch)[0] for m in ("f", "df", "ddf"))
            if run.died:
                book.fail(f"{tag.split('(')[0]}:evaluation", f"{where(run.died[-1]) if run.died[-1] is not None else at['f']}: {tag}: k of shape {batch + (dim,)}: the evaluation ends with an error")
                continue
            w = f"{tag}: k of shape {batch + (dim,)}"
            k = tag.split("(")[0]
            book.same(run.dom, f"{k}:df", f"{w}: df is the derivative of f", at["df"], df, f and gradient(f, batch, dim, 0))
            book.same(run.dom, f"{k}:ddf", f"{w}: ddf is the derivative of df", at["ddf"], ddf, df and gradient(df, batch, dim, 1))


def check(project, tier):
    rep = Report()
    book = Book(rep)
    tm.allow_whole(600)
    each_model(project, rep, book, derivatives)
    rep.assumptions = ["real arithmetic; k and the neighbour positions are free real symbols, the coefficient matrices free complex symbols; two k points, two dimensions, two bands, three neighbours, two symmetry elements",
                       f"undecided obligations: {book.undecided[:20]}"]
    rep.explanation = "algebraic value numbering of small symbolic tensors: functions, gradients and Hessians as polynomials in exponentials, derivative taken on the normal form"
    return rep
