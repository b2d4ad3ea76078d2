"""P08 and P09.  The fit methods are followed path by path on small models whose coefficient matrices are symbolic: every
outcome of the convergence tests and an interruption before every statement of the loop are taken in turn, the results of the
linear algebra are opaque (but equal for equal arguments), and the normalisation gives fresh coefficients.  What is compared are
the coefficients and the log at the end with those of the last normalisation and the error of exactly those coefficients (P08),
and the coefficients after every step with the constraints that were asked for (P09)."""
import ast
import itertools
from fractions import Fraction

from sa import terms as tm
from sa.project import lookup_method, where
from sa.tendom import NA
from sa.terms import IMAG, ONE, T, TooBig, ZERO
from sa.values import EMPTY, NONE, FnV, V, const, data, fn, tup, ExtV

from .p06 import Book
from .p07 import EighDomain, NB
from .pool import run_jobs
from .ten import TRun, indices

FITS = [("bandstructure", "BandStructureModel", "optimize"), ("bandstructure", "BandStructureModel", "optimize_cg"),
        ("tight_binding_asym", "AsymTightBindingModel", "optimize"), ("tight_binding_asym", "AsymTightBindingModel", "optimize_cg"),
        ("tight_binding", "TightBindingModel", "optimize")]
STEPS = 2
LIMIT = "limit"


class FitDomain(EighDomain):
    """linear algebra is opaque, undecided conditions follow self.script (and are recorded)"""
    sure_raises = True

    def __init__(self):
        super().__init__(False)
        self.script, self.taken = (), []
        self.known_results = {}
        self.at_step = None
        self.normalised = []
        self.renew = None
        self.decide = self.by_script

    # ---------------------------------------------------------------- decisions
    def next(self):
        k = len(self.taken)
        r = self.script[k] if k < len(self.script) else False
        self.taken.append(r)
        return r

    def by_script(self, node, op, a, b):
        for x in (a, b):
            if any(tm.ATOMS[i][0] == "sym" and tm.ATOMS[i][1].startswith(LIMIT) for i in x.atoms()):
                return self.next()
        for x, y, up in ((a, b, ("Gt", "GtE")), (b, a, ("Lt", "LtE"))):          # an entry that is not zero is not negligible
            c = y.const()
            if c is not None and not isinstance(c, complex) and 0 < abs(c) < Fraction(1, 10**6) and x.const() is None:
                kind = type(op).__name__
                if kind in ("Gt", "GtE", "Lt", "LtE"):
                    return kind in up
        return self.generic_case(node, op, a, b)

    # ---------------------------------------------------------------- linear algebra
    def answer(self, name, key, shape, real=False):
        k = (name, key)
        if k not in self.known_results:
            n = len(self.known_results)
            self.known_results[k] = (TRun.real if real else TRun.cplx)(f"{name}{n}x", *shape)
        return self.known_results[k]

    def pair(self, st, ms, key):
        """eigenvalues and vectors of the matrices ms (one per leading index)"""
        *batch, n, _ = ms.shape
        vals, vecs = [], []
        for ix in indices(tuple(batch)):
            k = ("m",) + tuple(ms.at(*ix, i, j) for i in range(n) for j in range(n)) + tuple(key(ix))
            vals += self.answer("la", k, (n,), True).e
            vecs += self.answer("ev", k, (n, n)).e
        return NA((*batch, n), vals), NA((*batch, n, n), vecs)

    def l_eigh(self, eng, st, args, kw, node):
        a = self.A(eng, st, args)
        if self.at_step is not None:
            self.at_step(st)
        return tup([self.new(st, x) for x in self.pair(st, a, lambda ix: ())])

    def l_eigvalsh(self, eng, st, args, kw, node):
        return self.pair(st, self.A(eng, st, args), lambda ix: ())[0]

    def l_pinv(self, eng, st, args, kw, node):
        a = self.A(eng, st, args)
        *b, n, m = a.shape
        return self.answer("pinv", tuple(a.e), (*b, m, n))

    def l_cholesky(self, eng, st, args, kw, node):
        a = self.A(eng, st, args)
        return self.answer("chol", tuple(a.e), a.shape)

    def largest(self, pick, name):
        exact = self.extreme(pick)

        def f(xs):
            r = exact(xs)
            return r if r is not None or any(x is None for x in xs) else self.answer(name, frozenset(xs), (), True).e[0]
        return f

    def n_max(self, eng, st, args, kw, node):
        return self.red(eng, st, args, kw, self.largest(max, "max"))

    def n_min(self, eng, st, args, kw, node):
        return self.red(eng, st, args, kw, self.largest(min, "min"))

    n_amax, n_amin = n_max, n_min

    def on_call(self, eng, st, f, args, kw, node):
        if isinstance(f, FnV) and isinstance(f.node, ast.FunctionDef):
            name = f.node.name
            if name in ("geigh", "geigvalsh") and len(args) == 2 and not kw:
                h, s = (self.get(eng, st, x) for x in args)
                if h is not None and s is not None and h.shape[-2:] == s.shape[-2:]:
                    if self.at_step is not None and name == "geigh":
                        self.at_step(st)
                    lead = len(h.shape) - 2

                    def at(ix):
                        ix = ix[len(ix) - (len(s.shape) - 2):]
                        return (s.at(*ix, i, j) for i in range(NB) for j in range(NB))
                    if lead >= len(s.shape) - 2:
                        vals, vecs = self.pair(st, h, at)
                        return self.new(st, vals) if name == "geigvalsh" else tup([self.new(st, vals), self.new(st, vecs)])
            if name == "conjugate_gradient_solve":
                a = args[1] if len(args) > 1 else kw.get("b")
                b = self.get(eng, st, a) if a is not None else None
                if b is not None:
                    return self.new(st, self.answer("cg", tuple(b.e), b.shape))
            if name == "normalize" and self.renew is not None:
                self.renew(st)
                return NONE
        return super().on_call(eng, st, f, args, kw, node)

    def ext_call(self, eng, st, path, args, kwargs, node):
        if path == "stub.mean":            # the symmetriser of these models: a linear projection
            x = self.get(eng, st, args[0])
            return self.new(st, mirrored(x)) if x is not None else data()
        return super().ext_call(eng, st, path, args, kwargs, node)


def mirrored(x):
    """exchanges the orbitals and takes the mean; keeps Hermitian matrices Hermitian"""
    h = Fraction(1, 2)
    return NA(x.shape, [tm.scale(tm.add(x.at(*ix), x.at(*ix[:-2], NB - 1 - ix[-2], NB - 1 - ix[-1])), h) for ix in indices(x.shape)])


class Fit:
    """one model and one set of options"""

    def __init__(self, project, mod, cls, method, opts):
        self.p, self.mod, self.cls, self.method, self.opts = project, mod, cls, method, opts
        self.fit = lookup_method(project.modules[mod].classes[cls], method)[1]
        self.overlap = cls == "AsymTightBindingModel"

    # ---------------------------------------------------------------- the model
    def new_params(self, which, hermitian=False):
        """fresh coefficient matrices; entries that are to be kept are zero"""
        self.count += 1
        ms = [TRun.hermitian(f"{which}{self.count}a", NB)]
        for i in range(1, self.terms):
            ms.append(TRun.hermitian(f"{which}{self.count}{'abc'[i]}", NB) if hermitian else TRun.cplx(f"{which}{self.count}{'abc'[i]}", NB, NB))
        na = NA((self.terms, NB, NB), [x for m in ms for x in m.e])
        if self.opts.get("symmetrizer"):
            na = mirrored(na)
        if self.opts.get("keep_zeros"):
            na = NA(na.shape, [ZERO if ix in self.zeros[which] else na.at(*ix) for ix in indices(na.shape)])
        return na

    def build(self):
        self.dom = FitDomain()
        self.run = run = TRun(self.p, self.mod, self.dom)
        run.limit = 120
        self.st = st = run.fresh()
        self.count, self.terms = 0, 3
        self.zeros = {w: {(1, 0, 1), (1, 1, 0), (2, 0, 0), (2, 1, 1)} for w in "PH"}
        self.zeros["S"] = {(0, 0, 1), (0, 1, 0), (1, 0, 0), (1, 1, 0), (2, 1, 1)}
        nb = run.arr(st, NA((3, 2), [tm.num(x) for x in (0, 0, 1, 0, 0, 1)]))
        if self.cls == "BandStructureModel":
            sy = self.p.modules["symmetry"].classes["Symmetry"]
            eye = run.arr(st, NA((1, 2, 2), [ONE, ZERO, ZERO, ONE]))
            sym = run.inst(st, sy, S=eye, inversion=const(False), projective=const(False))
            self.obj = run.static(st, run.cls(self.cls), "init_tight_binding", [sym, nb, const(NB)], {"exp": const(True)})
            self.homes = [(self.obj, "params", "P")]
            if self.opts.get("symmetrizer"):
                run.set_attr(st, self.obj, "symmetrizer", fn(ExtV("stub.mean")))
        elif self.overlap:
            series = run.cls("HermitianFourierSeries")
            parts = []
            for which in "HS":
                parts.append(run.new(st, series, [nb, run.arr(st, self.new_params(which))]))
            self.obj = run.new(st, run.cls(self.cls), parts)
            self.homes = [(run.get_attr(st, self.obj, w), "H_r", w) for w in "HS"]
        else:
            sy = self.p.modules["symmetry"].classes["Symmetry"]
            eye = run.arr(st, NA((1, 2, 2), [ONE, ZERO, ZERO, ONE]))
            sym = run.inst(st, sy, S=eye, inversion=const(True), projective=const(False))
            rep = run.inst(st, self.p.modules["unitary_representations"].classes["UnitaryRepresentation"], sym=sym, inv_split=const(1),
                           U=run.arr(st, NA((1, NB, NB), [ONE, ZERO, ZERO, ONE])))
            self.obj = run.inst(st, run.cls(self.cls), neighbors=nb, params=run.arr(st, NA((3, NB, NB), [ZERO] * 12)), unitary_repr=rep, sym=sym,
                                symmetrizer=fn(ExtV("stub.mean")))
            self.homes = [(self.obj, "params", "P")]
            self.opts["symmetrizer"] = True
        self.put(st)

    def put(self, st):
        for obj, attr, which in self.homes:
            self.run.set_attr(st, obj, attr, self.run.arr(st, self.new_params(which, self.cls == "TightBindingModel")))

    def params(self, st):
        return [self.dom.get(self.run.eng, st, self.run.eng.getattr(st, obj, attr, self.fit)) for obj, attr, _ in self.homes]

    def renew(self, st):
        self.before.append(self.params(st))
        self.put(st)
        self.after.append(self.params(st))

    # ---------------------------------------------------------------- one path
    def follow(self, script, stop=None):
        """runs the fit; stop: (statement number of the guarded block) at which the keyboard interrupts"""
        self.build()
        run, st, dom, o = self.run, self.st, self.dom, self.opts
        self.before, self.after, self.steps = [], [], []
        self.start = self.params(st)
        n = o.get("k", 2)
        K = [(0, 0), (Fraction(1, 4), Fraction(1, 2)), (Fraction(1, 2), 0), (0, Fraction(1, 4))][:n]
        self.k = run.arr(st, NA((n, 2), [tm.num(x) for r in K for x in r]))
        self.bands = o.get("bands", NB)
        self.ref = run.arr(st, TRun.real("ref", n, self.bands))
        w = o.get("weights", "array")
        self.w = const(1.0) if w == "one" else run.arr(st, TRun.real("w", self.bands))
        self.offset = const(o.get("offset", 0))
        kw = {k: const(v) for k, v in o.items() if k in ("batch_div", "train_k0", "regularization", "learning_rate", "use_pinv", "keep_zeros", "train_S", "precond", "use_lstsq_stepsize")}
        self.log = None
        names = [a.arg for a in self.fit.args.args[1:]]
        if "log" in names:
            if o.get("log", "given") == "given":
                self.log = run.new(st, self.p.modules["logger"].classes["OptimisationLogger"], [], {"print_loss": const(False), "verbose": const(False)})
                kw["log"] = self.log
            else:
                kw["log"] = const(o["log"])
        for name in ("convergence_threshold", "loss_threshold"):
            if name in names:
                kw[name] = data(EMPTY, "num", tm.sym(LIMIT + name[0], (), True))
        args = [self.k]
        if self.method == "optimize":
            args.append(const(1.0))
        elif self.cls == "BandStructureModel":
            args.append(const(1.0))
        args += [self.ref, self.w, self.offset, const(o.get("iterations", STEPS))]
        if self.cls == "TightBindingModel":
            kw = {k: v for k, v in kw.items() if k in names}
        dom.script, dom.taken, dom.renew = script, [], self.renew
        dom.at_step = lambda s: self.steps.append(self.params(s))
        eng = run.eng
        self.unbound, self.marks, self.interrupted, self.handlers, self.guesses, self.last = None, [], None, [], 0, None
        plain_stmt, plain_event, plain_truth = type(eng).exec_stmt.__get__(eng), dom.event, type(eng).truth.__get__(eng)

        def stmt(s, z):
            if z is not None and eng.ctx and eng.ctx[-1].node is self.fit:
                self.last = z
            if eng.exc_acc and eng.ctx and self.own(eng.ctx[-1].node) and not isinstance(s, (ast.FunctionDef, ast.Pass)):
                self.marks.append(s)
                if stop is not None and len(self.marks) - 1 == stop:
                    self.interrupted = s
                    return eng.dies(z)
            return plain_stmt(s, z)

        def event(e, z, kind, node, **info):
            if kind == "unbound" and info.get("must") and self.unbound is None:
                self.unbound = (node, info["name"])
            if kind == "handler":
                self.handlers.append(node)
            return plain_event(e, z, kind, node, **info)

        def truth(z, v):
            r = plain_truth(z, v)
            if r is not None:
                return r
            self.guesses += 1
            return dom.next()
        eng.exec_stmt, dom.event, eng.truth = stmt, event, truth
        try:
            self.result = run.method(st, self.obj, self.method, args, kw)
        finally:
            del eng.exec_stmt, eng.truth
            del dom.event
        self.raised, self.died = bool(TRun.died), TRun.died
        TRun.died = []
        dom.at_step = dom.renew = None
        self.end = self.params(st)
        return tuple(dom.taken)

    def own(self, node):
        """the fit itself and methods of the model it uses for its steps"""
        return node is self.fit or getattr(node, "name", "") not in ("error", "loss", "normalize", "f", "f_i", "bands", "__call__", "") and \
            any(node is f for c in self.p.modules[self.mod].classes.values() if c.name == self.cls for f in c.node.body)

    def paths(self, most=40):
        todo, done = [()], 0
        while todo and done < most:
            script = todo.pop()
            taken = self.follow(script)
            done += 1
            yield taken
            for k in range(len(script), len(taken)):
                if not taken[k]:
                    todo.append(taken[:k] + (True,))

    def say(self):
        return f"{self.cls}.{self.method}({', '.join(f'{k}={v}' for k, v in sorted(self.opts.items()))})"


# ------------------------------------------------------------------ P08
def ends_well(fit, book, path):
    """the state a path leaves behind"""
    key, at = f"{fit.cls}.{fit.method}", where(fit.fit)
    what = f"{fit.say()}, {path}"
    dom, run, st = fit.dom, fit.run, fit.st
    if fit.unbound is not None:
        n, name = fit.unbound
        return book.fail(key + "|unbound", f"{where(n)}: {what}: {name} is read before it is assigned")
    if fit.interrupted is not None:
        caught = [h for h in fit.handlers if h.type is None or any(getattr(x, "id", getattr(x, "attr", "")) in ("KeyboardInterrupt", "BaseException") for x in ast.walk(h.type))]
        if not caught:
            return book.fail(key + "|interrupt", f"{where(fit.interrupted)}: {what}: the interruption leaves the fit without normalisation and log entry")
        if len(caught) < len(fit.handlers):
            return book.undecide(what, "several handlers")
    if fit.raised:
        f = fit.died[-1]
        if fit.guesses and not (fit.interrupted is not None):
            return book.undecide(what, "ends with an error on a path with undecided conditions")
        return book.fail(key + "|raises", f"{where(f) if f is not None else at}: {what}: ends with an error")
    if not fit.after:
        return book.fail(key + "|normalised", f"{at}: {what}: the model is never normalised")
    for k, (got, want) in enumerate(zip(fit.end, fit.after[-1])):
        book.same(dom, key + "|normalised", f"{what}: the model is normalised after its last change", at, got if got is not None and got.known() else None, want)
    if "log" not in [a.arg for a in fit.fit.args.args]:
        return
    r = fit.result
    if fit.log is not None:
        if r is None or r.refs != fit.log.refs or r.data is not None or r.consts:
            if r is not None and r.data is None and not r.unbound and fit.log.refs.isdisjoint(r.refs):
                return book.fail(key + "|log", f"{at}: {what}: returns something else than the logger")
            return book.undecide(what, "result")
    elif r is None or len(r.refs) != 1 or r.data is not None or r.consts:
        if r is not None and r.data is None and not r.refs:
            return book.fail(key + "|log", f"{at}: {what}: returns no logger")
        return book.undecide(what, "result")
    log = st.heap[next(iter(r.refs))]

    def items(name):
        v = log.fields.get(name)
        o = st.heap.get(next(iter(v.refs))) if v is not None and len(v.refs) == 1 else None
        return None if o is None else o.fields.get("#items")
    loss, stream = items("loss"), items("stream")
    w = fit.w if fit.w.data is not None or fit.w.refs else run.arr(st, NA((fit.bands,), [ONE] * fit.bands))
    want = run.method(st, fit.obj, "error", [fit.k, fit.ref, w, fit.offset])
    TRun.died = []
    want = [run.value(st, x) for x in (next(iter(want.tups))[1] if len(want.tups) == 1 else ())]
    if loss is None or stream is None or len(want) != 2:
        book.undecide(what, "log")
    elif not loss:
        book.fail(key + "|last", f"{at}: {what}: nothing is logged")
    else:
        book.same(dom, key + "|last", f"{what}: the last logged loss is the loss of the returned model", at, run.value(st, loss[-1]), want[0])
        last = stream[-1]
        if len(last.tups) == 1 and last.data is None:
            _, parts = next(iter(last.tups))
            book.same(dom, key + "|last", f"{what}: the last log entry has the band errors of the returned model", at, run.value(st, parts[-1]), want[1])
        elif not last.tups and last.data is None:
            book.fail(key + "|last", f"{at}: {what}: the last log entry is no loss")
    a = log.fields.get("aborted")
    if a is not None and a.only_consts() and a.is_single_const():
        book.rep.count("obligations")
        book.rep.oblige(bool(a.const()) == (fit.interrupted is not None), key + "|aborted", f"{at}: {what}: the log {'does not record' if fit.interrupted is not None else 'records'} an interruption")
    else:
        book.undecide(what, "log.aborted")


BASE = {"optimize": ({}, {"batch_div": 2, "k": 4, "use_pinv": False}, {"iterations": 0}, {"log": True, "use_pinv": False}, {"log": False, "weights": "one"}, {"bands": 1, "offset": 1}),
        "optimize_cg": ({}, {"iterations": 0}, {"log": True, "precond": False}, {"log": False, "weights": "one"}, {"bands": 1, "offset": 1})}
MORE = {("BandStructureModel", "optimize"): ({"symmetrizer": True}, {"regularization": 0.5}), ("BandStructureModel", "optimize_cg"): ({"symmetrizer": True},),
        ("AsymTightBindingModel", "optimize"): ({"train_S": True},), ("AsymTightBindingModel", "optimize_cg"): ()}
PIECES = 4


def settings(cls, method):
    if cls == "TightBindingModel":
        return ({}, {"iterations": 0}, {"batch_div": 2, "k": 4}, {"weights": "one"}, {"bands": 1, "offset": 1})
    return BASE[method] + MORE[cls, method]


def p08_jobs(project):
    jobs = []
    for mod, cls, method in FITS:
        c = project.modules.get(mod) and project.modules[mod].classes.get(cls)
        if c is None or lookup_method(c, method)[1] is None:
            continue
        for k, o in enumerate(settings(cls, method)):
            def ends(book, mod=mod, cls=cls, method=method, o=o):
                with book.attempt(f"{cls}.{method} {o}"):
                    fit = Fit(project, mod, cls, method, dict(o))
                    for taken in fit.paths(12):
                        book.rep.count("paths")
                        ends_well(fit, book, f"convergence tests {''.join('ny'[int(x)] for x in taken) or 'none'}")
            jobs.append(ends)
            if k > 1 and "batch_div" not in o and "symmetrizer" not in o:
                continue
            for piece in range(PIECES):
                def stops(book, mod=mod, cls=cls, method=method, o=o, piece=piece):
                    with book.attempt(f"{cls}.{method} {o} interrupted"):
                        fit = Fit(project, mod, cls, method, dict(o))
                        fit.follow(())
                        n = len(fit.marks)
                        step = max(1, n // 80)
                        for stop in range(piece * step, n, PIECES * step):
                            fit.follow((), stop)
                            if fit.interrupted is None:
                                continue
                            book.rep.count("paths")
                            ends_well(fit, book, f"interrupted before line {getattr(fit.interrupted, 'lineno', 0)}")
                jobs.append(stops)
    return jobs


# ------------------------------------------------------------------ P09
def constrained(fit, book, path):
    key, at, o = f"{fit.cls}.{fit.method}", where(fit.fit), fit.opts
    what = f"{fit.say()}, {path}"
    if fit.raised or not fit.after:
        return book.undecide(what, "does not end")
    if not fit.steps:
        return
    start = fit.steps[0]
    for name, seen in [("a step", fit.steps[1:]), ("the last step", fit.before[-1:])]:
        for k, parts in enumerate(seen):
            for i, (got, first) in enumerate(zip(parts, start)):
                if got is None or not got.known() or got.shape != first.shape:
                    book.undecide(what, "coefficients")
                    continue
                part = f"{'HS'[i]} " if fit.overlap else ""
                if o.get("keep_zeros"):
                    zs = [got.at(*ix) for ix in indices(got.shape) if first.at(*ix).zero()]
                    book.same(fit.dom, key + "|zeros", f"{what}: {name} keeps the zero entries of {part}", at, NA((len(zs),), zs), NA((len(zs),), [ZERO] * len(zs)))
                if o.get("symmetrizer"):
                    book.same(fit.dom, key + "|symmetrizer", f"{what}: {name} stays symmetric", at, got, mirrored(got))
                if o.get("train_k0") is False or fit.overlap and i == 1 and not o.get("train_S"):
                    n = NB * NB if not fit.overlap else len(got.e)
                    book.same(fit.dom, key + "|fixed", f"{what}: {name} does not change {part or 'the constant term'}", at, NA((n,), got.e[:n]), NA((n,), first.e[:n]))


def refuses(fit, book):
    """requests that cannot be met are refused before the model changes"""
    key, at = f"{fit.cls}.{fit.method}", where(fit.fit)
    fit.follow(())
    what = fit.say()
    if fit.raised:
        if fit.guesses:
            return book.undecide(what, "undecided conditions")
        if fit.after:
            return book.fail(key + "|validated", f"{at}: {what}: the model is changed before the request is refused")
        now = fit.params(fit.last) if fit.last is not None else []
        for got, want in zip(now, fit.start):
            book.same(fit.dom, key + "|validated", f"{what}: the model is unchanged when the request is refused", at, got, want)
    elif fit.guesses:
        book.undecide(what, "undecided conditions")
    else:
        book.fail(key + "|validated", f"{at}: {what}: a request for bands the model does not have is accepted")


def wishes(cls, method):
    both = [{"use_pinv": p, **b} for p in (True, False) for b in ({}, {"batch_div": 2, "k": 4})] if method == "optimize" and cls != "TightBindingModel" else [{}]
    out = []
    for b in both:
        if cls == "BandStructureModel":
            out += [{"keep_zeros": True, **b}, {"symmetrizer": True, **b}, {"symmetrizer": True, "keep_zeros": True, **b}]
            if method == "optimize":
                out += [{"train_k0": False, **b}, {"train_k0": False, "symmetrizer": True, "regularization": 0.5, **b}]
            else:
                out += [{"keep_zeros": True, "precond": False}]
        elif cls == "AsymTightBindingModel":
            out += [{"keep_zeros": True, **b}, {**b}] + ([{"keep_zeros": True, "train_S": True, **b}] + [{"use_lstsq_stepsize": True, "iterations": 1, **x} for x in ({}, {"keep_zeros": True}) if b == {"use_pinv": True}] if method == "optimize" else [{"keep_zeros": True, "precond": False}])
        else:
            out += [{}, {"train_k0": False}, {"train_k0": False, "batch_div": 2, "k": 4}]
    return out


def p09_jobs(project):
    jobs = []
    for mod, cls, method in FITS:
        c = project.modules.get(mod) and project.modules[mod].classes.get(cls)
        if c is None or lookup_method(c, method)[1] is None:
            continue
        for o in wishes(cls, method):
            def keeps(book, mod=mod, cls=cls, method=method, o=o):
                with book.attempt(f"{cls}.{method} {o}"):
                    fit = Fit(project, mod, cls, method, dict(o))
                    for taken in fit.paths(2 if o.get("use_lstsq_stepsize") else 8):
                        book.rep.count("paths")
                        constrained(fit, book, f"convergence tests {''.join('ny'[int(x)] for x in taken) or 'none'}")
            jobs.append(keeps)
        for o in ({"offset": -1}, {"offset": 1}, {"bands": 1, "offset": 2}, {"bands": 1, "offset": -1}, {"bands": 3}):
            def checked(book, mod=mod, cls=cls, method=method, o=o):
                with book.attempt(f"{cls}.{method} {o}"):
                    refuses(Fit(project, mod, cls, method, dict(o)), book)
            jobs.append(checked)
    return jobs
