"""Every count function and every density function is brought into the normal form of sa.terms (an abstract interpretation
whose values are piecewise rational-exponential functions of the inputs); the density must be, as a normal form, the
derivative of the count.  Nothing is executed; a difference of normal forms is reported only together with a point of the
input space at which the two forms take different values."""
import itertools

from sa import terms as tm
from sa.driver import Driver
from sa.engine import FrameCtx
from sa.project import lookup_method, where
from sa.terms import ONE, T, TooBig, ZERO
from sa.termdom import TermDomain, Vec
from sa.values import BOT, EMPTY, NONE, ExtV, FnV, Obj, V, const, data, fn, ref, tup

from .common import Report

MINIMUM = {"obligations": 20}
VAR = "energy"


class CountDomain(TermDomain):
    def __init__(self, var):
        super().__init__(var)
        self.last_axis = {"grads": 3, "A": 3, "B": 3}
        self.raised = self.building = False
        self.made = 0

    def event(self, eng, st, kind, node, **info):
        if kind == "noreturn":
            self.raised = True

    def ext_call(self, eng, st, path, args, kwargs, node):
        if path.startswith("cells."):
            # an abstract smearing object: count V_i(e), density D_i(e)
            cell, _, m = path.rpartition(".")
            xs = [self.facet(a) for a in args]
            if len(xs) == 1 and isinstance(xs[0], T):
                v, d = (data(EMPTY, "arr", tm.fn(cell + n, xs)) for n in (".volume", ".dvolume"))
                return {"volume": v, "dvolume": d, "volume_dvolume": tup([v, d])}.get(m, data())
            return data()
        r = super().ext_call(eng, st, path, args, kwargs, node)
        if self.building and path in ("builtins.len", "numpy.linalg.det", "numpy.prod", "math.prod", "numpy.size") and self.known(r) is None:
            # a number that cannot depend on the energy: named after the evaluation that made it
            self.made += 1
            return data(EMPTY, "num", tm.sym(f"number{self.made}", (), True))
        return r

    def known(self, r):
        return self.facet(r) if isinstance(r, V) else r

    def indep(self, *ts):
        return super().indep(*ts)


class Run:
    def __init__(self, project, mod, var=VAR):
        self.p = project
        self.dom = CountDomain(var)
        self.drv = Driver(project, self.dom)
        self.eng = self.drv.eng
        self.mod = mod

    def start(self, clean=True):
        tm.allow(60)
        eng = self.eng
        eng.fids = [("mod", self.mod.name)]
        eng.ctx = [FrameCtx(None)]
        eng.callstack, eng.exc_acc, eng.entry, eng.itertag = [], [], None, []
        if clean:
            self.dom.clamps = {}
        self.dom.raised = False

    def new(self, st, cls, kw):
        self.start()
        self.dom.building = True
        r = self.eng.instantiate(st, cls, [], kw, cls.node)
        self.dom.building = False
        return None if self.dom.raised else r

    def method(self, st, obj, name, args, kw=None):
        self.start(False)
        f = self.eng.getattr(st, obj, name, self.mod_node())
        r = self.eng.call(st, f, args, kw or {}, self.mod_node())
        return None if self.dom.raised else r

    def function(self, st, name, args, kw=None):
        node = self.mod.funcs.get(name)
        if node is None:
            return None
        self.start(False)
        r = self.eng.call_fn(st, FnV(node, ("mod", self.mod.name)), args, kw or {}, node)
        return None if self.dom.raised else r

    def mod_node(self):
        return next(iter(self.mod.classes.values())).node if self.mod.classes else next(iter(self.mod.funcs.values()))


def sym(name, scalar=False, ty="arr"):
    return data(EMPTY, ty, tm.sym(name, (), scalar))


def compare(dom, a, b):
    """'proven' | ('differs', point) | 'undecided'"""
    w = tm.witness(a, b, 12, guard=dom.clamps)
    if w is not None:
        return ("differs", w)
    try:
        tm.allow(60)
        x, y = tm.fix_inds(a, dom.clamps), tm.fix_inds(b, dom.clamps)
        if tm.equal(x, y):
            return "proven"
        x, y = tm.undef(x), tm.undef(y)
        if tm.equal(x, y):
            return "proven"
    except (TooBig, tm.NoDerivative, RecursionError):
        pass
    w = tm.witness(a, b, guard=dom.clamps)
    return ("differs", w) if w is not None else "undecided"


class Book:
    def __init__(self, rep):
        self.rep = rep
        self.undecided = []

    def settle(self, dom, key, what, at, get_a, get_b, others=()):
        """one obligation: two normal forms are equal (or the first equals one of the others)"""
        self.rep.count("obligations")
        try:
            tm.allow(60)
            a, b = get_a(), get_b()
        except (TooBig, tm.NoDerivative, RecursionError):
            a = b = None
        if not isinstance(a, T) or not isinstance(b, T):
            self.undecided.append(f"{what}: no normal form")
            self.rep.count("undecided")
            return
        r = compare(dom, a, b)
        for o in others:
            if r != "proven":
                q = compare(dom, a, o)
                r = q if isinstance(q, str) else r
        if r == "proven":
            self.rep.obligations += 1
            self.rep.discharged += 1
            self.rep.count("proven")
            if len(self.rep.samples) < 6:
                self.rep.samples.append({"rule": what, "normal form": tm.show(b)[:300]})
        elif r == "undecided":
            self.undecided.append(f"{what}: forms not matched, no differing point")
            self.rep.count("undecided")
        else:
            pt = r[1]
            va, vb = pt.val(a), pt.val(b)
            self.rep.oblige(False, key, f"{at}: {what}: {tm.show(a)[:200]}  differs from  {tm.show(b)[:200]} (e.g. {va!r} against {vb!r})")

    def fail(self, key, text):
        self.rep.count("obligations")
        self.rep.oblige(False, key, text)


def comp(v, dom, i):
    x = dom.facet(v) if v is not None else None
    return x.e[i] if isinstance(x, Vec) and len(x.e) > i else None


def configs(node):
    """constructor argument combinations"""
    a = node.args
    ps = a.args[1:]
    ds = [None] * (len(ps) - len(a.defaults)) + list(a.defaults)
    out = []
    for p, d in zip(ps, ds):
        n = p.arg
        dv = getattr(d, "value", "?") if d is not None else "?"
        if n == "wrap" or isinstance(dv, bool):
            opts = [const(True), const(False)]
        elif d is not None and dv is None:
            opts = [NONE, sym(n)]
        else:
            opts = [sym(n, n in ("A", "B"))]
        out.append([(n, o) for o in opts])
    return [dict(c) for c in itertools.product(*out)]


def smearing(project, rep, book):
    mod = project.modules.get("smearing")
    if mod is None:
        return
    run = Run(project, mod)
    dom = run.dom
    e = sym(VAR, True, "num")
    for cls in mod.classes.values():
        if not {"volume", "dvolume"} <= set(cls.funcs) or not any(b.name == "SmearingMethod" for b in cls.bases):
            continue
        init = lookup_method(cls, "__init__")[1]
        if init is None:
            continue
        rep.count("smearing_methods")
        for kw in configs(init):
            st = run.drv.fresh()
            obj = run.new(st, cls, kw)
            if obj is None:
                continue
            tag = cls.name + "(" + ", ".join(f"{k}={'given' if v.data is not None else v.const()}" for k, v in kw.items() if v.only_consts() or k == "grads") + ")"
            rep.count("configurations")
            vol, dvol, both = (run.method(st, obj, m, [e]) for m in ("volume", "dvolume", "volume_dvolume"))
            V, D = dom.facet(vol) if vol else None, dom.facet(dvol) if dvol else None
            V2, D2 = comp(both, dom, 0), comp(both, dom, 1)
            at = where(cls.funcs["dvolume"])
            k = f"{cls.name}"
            book.settle(dom, k + ":pair", f"{tag}: dvolume is the derivative of volume", at, lambda: tm.diff(V, VAR) if isinstance(V, T) else None, lambda: D)
            book.settle(dom, k + ":combined-count", f"{tag}: volume_dvolume returns the count of volume", at, lambda: V2, lambda: V)
            book.settle(dom, k + ":combined-density", f"{tag}: volume_dvolume returns the density of dvolume", at, lambda: D2, lambda: D)
            for s, val in ((-1, ZERO), (1, ONE)):
                lim = dom_limit(V, s)
                if lim is None and isinstance(V, T):
                    far_out(dom, book, f"{k}:limit{s}", tag, at, V, s, float(val.const()))
                    continue
                book.settle(dom, f"{k}:limit{s}", f"{tag}: a cell is {'empty far below' if s < 0 else 'full far above'} its values", at, lambda: lim, lambda: val)
            jump(dom, book, k, tag, at, V)


def dom_limit(V, s):
    if not isinstance(V, T):
        return None
    try:
        lim = tm.limit(V, VAR, s)
    except (TooBig, RecursionError):
        return None
    if not tm.depends(lim, VAR):
        return lim
    # not settled symbolically: take the form itself far out
    return None


def far_out(dom, book, key, tag, at, V, s, want):
    """no symbolic limit: the form is looked at far out"""
    bad = 0
    for seed in range(8):
        try:
            vs = [tm.Point(seed, {VAR: s * x}).val(V) for x in (1e4, 1e5, 1e6)]
        except (ValueError, ZeroDivisionError, OverflowError):
            continue
        if min(abs(v - want) for v in vs) < 0.01:
            return
        bad += 1
    if bad > 2:
        book.fail(key, f"{at}: {tag}: a cell holds {vs} states at energies {s}e4, {s}e5, {s}e6, not {want}")


def jump(dom, book, key, tag, at, V):
    """the count has no jump where a case distinction switches"""
    if not isinstance(V, T):
        return
    seen = set()

    def visit(t):
        for a in t.atoms():
            k = tm.ATOMS[a]
            if k[0] == "ind" and tm.adep(a, VAR):
                seen.add((a, t))
            elif k[0] == "lin":
                visit(k[2])
    visit(V)
    eid = next(iter(tm.sym(VAR, (), True).atoms()))
    for aid, t in sorted(seen, key=lambda p: p[0]):
        book.rep.count("switches")
        u = tm.ATOMS[aid][1]
        bad = None
        for seed in range(24):
            vals = []
            try:
                def at_energy(x, term):
                    return tm.Point(seed, {VAR: x}).val(term)
                u0, u1 = at_energy(0.0, u), at_energy(1.0, u)
                if u0 == u1:
                    continue
                root = -u0 / (u1 - u0)
                if abs(at_energy(root, u)) > 1e-9 * (abs(u0) + abs(u1)) or abs(root) > 50:
                    continue
                d = 1e-9 * max(1.0, abs(root))
                vals = [at_energy(root - d, t), at_energy(root + d, t), at_energy(root - 3 * d, t), at_energy(root + 3 * d, t)]
            except (ValueError, ZeroDivisionError, OverflowError):
                continue
            step, slope = abs(vals[1] - vals[0]), abs(vals[3] - vals[1]) + abs(vals[0] - vals[2])
            if step > 1e-3 and step > 50 * slope:
                bad = (root, vals)
                break
        if bad:
            book.fail(key + ":jump", f"{at}: {tag}: the count jumps from {bad[1][0]!r} to {bad[1][1]!r} where {tm.show(u, 3)} changes sign, the density has no such peak")
            return


def convolution(project, rep, book):
    mod = project.modules.get("density_of_states")
    if mod is None or not {"convolve_df", "convolve_ddf"} <= set(mod.funcs):
        return
    run = Run(project, mod)
    dom = run.dom
    st = run.drv.fresh()
    x, beta = sym(VAR, True, "num"), sym("beta", True, "num")
    e, n = sym("energy_smpl"), sym("states")
    pt = tup([sym("e_right", True, "num"), sym("n_right", True, "num")])
    for ext, p in itertools.product((const("flat"), NONE), (NONE, pt)):
        args = [x, e, n, beta]
        kw = {"extrapolation": ext, "extrapolation_point": p}
        s, ds = run.function(st, "convolve_df", args, kw), run.function(st, "convolve_ddf", args, kw)
        S, D = dom.facet(s) if s else None, dom.facet(ds) if ds else None
        tag = f"extrapolation={ext.const()!r}, extrapolation_point={'None' if p is NONE else 'given'}"
        at = where(mod.funcs["convolve_ddf"])
        rep.count("configurations")
        book.settle(dom, f"convolve_ddf:{'point' if p is not NONE else 'ends'}:{ext.const()}", f"convolve_ddf({tag}) is the derivative of convolve_df", at,
                    lambda: tm.diff(S, VAR) if isinstance(S, T) else None, lambda: D)


def antiderivative(project, rep, book):
    mod = project.modules.get("density_of_states")
    if mod is None or "int_poly" not in mod.funcs:
        return
    for which in (0, 1):
        run = Run(project, mod)
        dom = run.dom
        st = run.drv.fresh()
        x = sym(VAR, True, "num")
        o = sym("x_other", True, "num")
        a, b, c = (sym(n, True, "num") for n in ("pa", "pb", "pc"))
        r = run.function(st, "int_poly", [o, x, a, b, c] if which else [x, o, a, b, c])
        F = dom.facet(r) if r else None
        t = tm.sym(VAR, (), True)
        A, B, C = (tm.sym(n, (), True) for n in ("pa", "pb", "pc"))
        poly = tm.add(tm.add(tm.mul(A, tm.mul(t, t)), tm.mul(B, t)), C)
        ep = tm.exp(t)
        w = tm.mul(ep, tm.power(tm.add(ONE, ep), -2))       # -df/de of the Fermi function
        want = tm.scale(tm.mul(poly, w), 1 if which else -1)
        at = where(mod.funcs["int_poly"])
        rep.count("configurations")
        book.settle(dom, f"int_poly:{'upper' if which else 'lower'}", f"int_poly: derivative with respect to the {'upper' if which else 'lower'} end is the integrand",
                    at, lambda: tm.diff(F, VAR) if isinstance(F, T) else None, lambda: want)


# order types of an energy against three bands [0,2], [1,3], [5,6]: each code path of the band loop is taken
BANDS = ((0.0, 2.0), (1.0, 3.0), (5.0, 6.0))
LEVELS = (-1.0, 0.0, 0.5, 1.0, 1.5, 2.0, 2.5, 3.0, 4.0, 5.0, 5.5, 6.0, 7.0)


def totals(project, rep, book):
    mod = project.modules.get("density_of_states")
    cls = mod.classes.get("DensityOfStates") if mod is not None else None
    if cls is None:
        return
    run = Run(project, mod, None)
    dom = run.dom
    for level in LEVELS:
        st = run.drv.fresh()

        def lst(name, items):
            oid = ("list", name, None, None)
            st.heap[oid] = Obj("list", None, {"#items": tuple(items)}, run.eng.j.joinall(items))
            return ref(oid)
        oid = ("inst", "dos", cls.name, None)
        st.heap[oid] = Obj("inst", cls, {
            "bands_range": lst("ranges", [tup([const(a), const(b)]) for a, b in BANDS]),
            "smearing": lst("cells", [fn(ExtV(f"cells.c{i}")) for i in range(len(BANDS))])}, BOT)
        obj = ref(oid)
        e = const(level)
        E = tm.num(level)
        cnts, denss = [ZERO], [ZERO]
        inside = []
        for i, (lo, hi) in enumerate(BANDS):
            vol, dvol = (tm.lin("mean", tm.fn(f"cells.c{i}.{n}", (E,))) for n in ("volume", "dvolume"))
            edge = level in (lo, hi)     # on the edge of a band its cells may be asked or not
            c, d = [ONE if level >= hi else ZERO], [ZERO]
            if lo < level < hi:
                inside.append(i)
                c, d = [vol], [dvol]
            elif edge:
                c, d = c + [vol], d + [dvol]
            cnts = [tm.add(a, b) for a in cnts for b in c]
            denss = [tm.add(a, b) for a in denss for b in d]

        def total(name, i=None):
            if lookup_method(cls, name)[1] is None:
                return None
            r = run.method(st, obj, name, [e])
            if r is None:
                return None
            return dom.facet(r) if i is None else comp(r, dom, i)
        rep.count("configurations")
        what = f"energy inside bands {inside} of {list(BANDS)}, level {level}"
        for name, i, want in (("states_below", None, cnts), ("density", None, denss), ("states_density", 0, cnts), ("states_density", 1, denss)):
            if lookup_method(cls, name)[1] is not None:
                book.settle(dom, f"DensityOfStates.{name}{'' if i is None else '.' + str(i)}",
                            f"{name}{'' if i is None else f'[{i}]'} adds the cells of every cut band and one state of every full band ({what})",
                            where(cls.funcs[name]), lambda: total(name, i), lambda: want[0], want[1:])


def check(project, tier):
    rep = Report()
    book = Book(rep)
    tm.allow_whole(400)
    for part in (convolution, antiderivative, totals, smearing):
        part(project, rep, book)
    rep.assumptions = ["points where a case distinction switches are ignored for the derivative; jumps of the count there are searched for at sample points only",
                       "cuts at a constant level (minimum(1, .), maximum(-1, .)) are round-off guards: the pair is compared where they do not act",
                       f"undecided obligations: {book.undecided[:20]}"]
    rep.explanation = "algebraic value numbering: counts and densities as piecewise rational-exponential normal forms, derivative taken on the form"
    return rep
