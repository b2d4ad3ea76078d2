"""P10 and P20.  Model files are followed from the writer to the reader: text is a constant string in which numbers and printed
arrays are markers, JSON data is the tree of the values that were handed to json.dump.  The Hamiltonian of the model that is read
back is compared, as a normal form, with the one that was saved; requests that are to be refused are followed to their exception."""
import ast
import os
import re
from fractions import Fraction

from sa import terms as tm
from sa.project import lookup_method, where
from sa.tendom import NA
from sa.terms import ONE, T, ZERO
from sa.values import EMPTY, NONE, ExtV, V, const, data, fn, tup

from .p06 import Book
from .p07 import EighDomain
from .ten import TRun, indices

MARK = re.compile("\u27e8(\\d+)\u27e9")
LOSSLESS = {"unique"}


class Handle:
    def __init__(self, name, mode):
        self.name, self.mode, self.pos = name, mode, 0


class FileDomain(EighDomain):
    sure_raises = True

    def __init__(self):
        super().__init__(False)
        self.decide = self.generic_case
        self.disk, self.handles, self.opened, self.kept, self.count = {}, [], [], [], 0
        self.options, self.lossy, self.blurred = {}, [], None

    # ---------------------------------------------------------------- markers
    def keep(self, v):
        self.kept.append(v)
        return f"\u27e8{len(self.kept) - 1}\u27e9"

    def marked(self, s):
        m = MARK.fullmatch(s.strip())
        return self.kept[int(m.group(1))] if m else None

    def generic_case(self, node, op, a, b):
        for x, y, up in ((a, b, ("Gt", "GtE")), (b, a, ("Lt", "LtE"))):
            c = y.const()
            if c is not None and not isinstance(c, complex) and 0 < abs(c) < Fraction(1, 10**6) and x.const() is None:
                kind = type(op).__name__
                if kind in ("Gt", "GtE", "Lt", "LtE"):
                    return kind in up
        return super().generic_case(node, op, a, b)

    # ---------------------------------------------------------------- files
    def open_file(self, args, kw):
        name = args[0].const() if args and args[0].is_single_const() else None
        m = args[1] if len(args) > 1 else kw.get("mode")
        mode = "r" if m is None else m.const() if m.is_single_const() else None
        if not isinstance(name, str) or not isinstance(mode, str):
            self.blurred = "the name or mode of a file"
            name, mode = str(name), str(mode)
        self.opened.append((name, mode))
        if "w" in mode or "x" in mode:
            self.disk[name] = {"text": "", "tree": None}
        self.handles.append(Handle(name, mode))
        return fn(ExtV(f"stub.file{len(self.handles) - 1}"))

    def handle(self, v):
        for f in (v.fns or ()) if v is not None and len(v.fns or ()) == 1 else ():
            m = isinstance(f, ExtV) and re.fullmatch(r"stub\.file(\d+)", f.path)
            if m:
                return self.handles[int(m.group(1))]
        return None

    def text(self, h):
        return self.disk[h.name]["text"] if h.name in self.disk else None

    def lines(self, h):
        t = self.text(h)
        if t is None:
            return None
        out = t[h.pos:].splitlines(keepends=True)
        h.pos = len(t)
        return out

    def ext_call(self, eng, st, path, args, kw, node):
        m = re.fullmatch(r"stub\.file(\d+)\.(\w+)", path)
        if m:
            return self.file_method(eng, st, self.handles[int(m.group(1))], m.group(2), args, node)
        if path in ("os.path.splitext", "os.path.basename", "os.path.dirname", "os.path.split", "os.fspath") and len(args) == 1 and args[0].is_single_const() and isinstance(args[0].const(), str):
            r = args[0].const() if path == "os.fspath" else getattr(os.path, path.split(".")[-1])(args[0].const())
            return tup([const(x) for x in r]) if isinstance(r, tuple) else const(r)
        if path in ("numpy.set_printoptions", "numpy.printoptions"):
            for k, v in kw.items():
                self.options[k] = v.const() if v.is_single_const() else "?"
            return NONE
        if path in ("json.dump", "json.dumps"):
            tree = self.tree(eng, st, args[0])
            if path == "json.dumps":
                return const(self.keep(tree))
            h = self.handle(args[1] if len(args) > 1 else kw.get("fp"))
            if h is None or h.name not in self.disk:
                self.blurred = "json.dump"
            else:
                self.disk[h.name]["tree"] = tree
            return NONE
        if path in ("json.load", "json.loads"):
            h = self.handle(args[0])
            if path == "json.loads":
                tree = self.marked(args[0].const()) if args[0].is_single_const() and isinstance(args[0].const(), str) else None
            elif h is not None and h.name in self.disk:
                tree = self.disk[h.name]["tree"] or self.marked(self.disk[h.name]["text"])
            else:
                tree = None
            if tree is None:
                self.blurred = "json.load"
                return data()
            return self.value_of(eng, st, tree, node)
        return super().ext_call(eng, st, path, args, kw, node)

    def file_method(self, eng, st, h, name, args, node):
        if name == "write" and args:
            if h.name in self.disk and args[0].is_single_const() and isinstance(args[0].const(), str):
                self.disk[h.name]["text"] += args[0].const()
            else:
                self.blurred = "file.write"
            return NONE
        if name in ("readline", "read", "readlines"):
            t = self.text(h)
            if t is None:
                self.blurred = "file." + name
                return data(EMPTY, "str")
            if name == "read":
                r, h.pos = t[h.pos:], len(t)
                return const(r)
            if name == "readline":
                end = t.find("\n", h.pos)
                end = len(t) if end < 0 else end + 1
                r, h.pos = t[h.pos:end], end
                return const(r)
            return self.listed(eng, st, tuple(const(x) for x in self.lines(h)), node)
        if name in ("close", "flush", "__enter__", "__exit__"):
            return NONE
        self.blurred = "file." + name
        return data()

    # ---------------------------------------------------------------- JSON trees
    def tree(self, eng, st, v):
        if v.is_single_const():
            return ("c", v.const())
        if len(v.refs) == 1 and v.data is None and not v.consts and not v.tups:
            o = st.heap.get(next(iter(v.refs)))
            if o is not None and o.kind == "list" and o.fields.get("#items") is not None:
                return ("l", [self.tree(eng, st, x) for x in o.fields["#items"]])
            if o is not None and o.kind == "dict" and eng.exact_keys(o) is not None:
                return ("d", [(k, self.tree(eng, st, o.fields[k])) for k in eng.exact_keys(o)])
        if len(v.tups) == 1 and v.data is None and not v.refs and not v.consts:
            return ("l", [self.tree(eng, st, x) for x in next(iter(v.tups))[1]])
        na = self.get(eng, st, v)
        if na is not None and na.shape == () and na.known():
            return ("n", na.e[0])
        raise ValueError("json data that is no tree of numbers" if na is None else "json data that is an array")

    def value_of(self, eng, st, tree, node):
        kind, x = tree
        if kind == "c":
            return const(x)
        if kind == "n":
            return data(EMPTY, "num", x)
        if kind == "l":
            return self.listed(eng, st, tuple(self.value_of(eng, st, y, node) for y in x), node)
        f = {"#exact": const(True)}
        for k, y in x:
            f[k] = self.value_of(eng, st, y, node)
        self.count += 1
        return eng.alloc(st, "dict", node, fields=f, elem=eng.j.joinall([v for k, v in f.items() if k != "#exact"]), tag=("file", self.count))

    def listed(self, eng, st, its, node):
        self.count += 1
        return eng.alloc(st, "list", node, fields={"#items": its}, elem=eng.j.joinall(its), tag=("file", self.count))

    # ---------------------------------------------------------------- builtins
    def builtin(self, eng, plain, st, name, args, kw, node, star):
        a0 = args[0] if args else None
        if name == "open" and args:
            return self.open_file(args, kw)
        if name in ("repr", "str") and len(args) == 1 and not (a0.is_single_const() and (name == "str" or not isinstance(a0.const(), str))):
            na = self.get(eng, st, a0)
            if a0.is_single_const():
                return const(repr(a0.const()))
            if na is not None and na.shape and a0.data is not None:
                o = self.options
                if "?" in (o.get("floatmode"), o.get("threshold")):
                    self.blurred = "print options"
                elif o.get("floatmode", "maxprec") != "unique" and not (o.get("floatmode", "maxprec") in ("fixed", "maxprec") and (o.get("precision") or 8) >= 17):
                    self.lossy.append((node, "numbers are printed with fewer digits than they have"))
                elif not o.get("threshold", 1000) >= 100000:
                    self.lossy.append((node, "large arrays are printed abbreviated"))
                if name == "str":
                    self.lossy.append((node, "str() of an array has no commas"))
            return const(self.keep(a0))
        if name == "repr" and a0 is not None and a0.is_single_const():
            return const(repr(a0.const()))
        if name in ("float", "int") and a0 is not None and a0.is_single_const() and isinstance(a0.const(), str):
            v = self.marked(a0.const())
            if v is not None:
                return v
            try:
                return const(int(a0.const())) if name == "int" else data(EMPTY, "num", tm.num(Fraction(a0.const().strip())))
            except ValueError:
                eng.doomed = True
                return data()
        if name == "eval" and a0 is not None and a0.is_single_const() and isinstance(a0.const(), str):
            text = MARK.sub(lambda m: f"kept_{m.group(1)}_", a0.const()).strip()
            try:
                e = ast.parse(text, mode="eval").body
            except SyntaxError:
                self.lossy.append((node, "the text that was written is no expression"))
                return data()
            for x in ast.walk(e):
                for k in ("_loc", "_mod", "_qual", "_nid"):
                    if hasattr(node, k):
                        setattr(x, k, getattr(node, k))
            return eng.eval(e, st)
        return plain(st, name, args, kw, node, star)

    def attach(self, eng):
        plain, plain_name, plain_iter = eng.call_builtin, eng.e_Name, eng.iterate
        eng.call_builtin = lambda st, name, args, kw, node, star: self.builtin(eng, plain, st, name, args, kw, node, star)

        def name(e, st):
            m = re.fullmatch(r"kept_(\d+)_", e.id)
            return self.kept[int(m.group(1))] if m else plain_name(e, st)

        def iterate(st, v, node):
            h = self.handle(v)
            ls = self.lines(h) if h is not None else None
            if ls is None:
                return plain_iter(st, v, node)
            its = [const(x) for x in ls]
            return eng.j.joinall(its), its, bool(its)
        plain_truth = eng.truth

        def truth(st, v):
            r = plain_truth(st, v)
            if r is None and self.blurred is None:
                self.blurred = "a condition"
            return r
        eng.e_Name, eng.iterate, eng.truth = name, iterate, truth


class Files:
    """one disk and one run of the analysis"""

    def __init__(self, project, mod):
        self.p, self.mod = project, mod
        self.dom = FileDomain()
        self.run = TRun(project, mod, self.dom)
        self.run.limit = 120
        self.dom.attach(self.run.eng)
        self.st = self.run.fresh()

    def sym(self, mats, inversion=False):
        rows = NA((len(mats), len(mats[0]), len(mats[0])), [tm.num(x) for m in mats for r in m for x in r])
        return self.run.new(self.st, self.p.modules["symmetry"].classes["Symmetry"], [self.run.arr(self.st, rows)], {"inversion": const(inversion)})

    def nb(self, rows):
        return self.run.arr(self.st, NA((len(rows), len(rows[0])), [tm.num(x) for r in rows for x in r]))

    def coefficients(self, name, n, hermitian=False, size=2):
        ms = [TRun.hermitian(name + "a", size)] + [(TRun.hermitian(f"{name}{"abcdefg"[i]}", size) if hermitian else TRun.cplx(f"{name}{"abcdefg"[i]}", size, size)) for i in range(1, n)]
        return NA((n, size, size), [x for m in ms for x in m.e])

    def hamiltonian(self, model, dim=3, k="klm"):
        k = k[:dim]
        ks = self.run.arr(self.st, NA((1, len(k)), [tm.sym(x, (), True) for x in k]))
        return self.run.value(self.st, self.run.method(self.st, model, "f", [ks]))

    def band_model(self, flavour, mats=None, dim=3, name="h", order=None):
        """BandStructureModel with free coefficients"""
        exp, reduced, inversion = flavour
        eye = [[int(i == j) for j in range(dim)] for i in range(dim)]
        cls = self.p.modules["bandstructure"].classes["BandStructureModel"]
        nb = self.nb([(NEIGHBORS[dim] + EXTRA[dim])[i] for i in order or range(len(NEIGHBORS[dim]))])
        m = self.run.static(self.st, cls, "init_tight_binding", [self.sym(mats or [eye], inversion), nb, const(2)], {"exp": const(exp), "cos_reduced": const(reduced)})
        self.run.method(self.st, m, "set_params_complex", [self.run.arr(self.st, self.coefficients(name, len(order or NEIGHBORS[dim]), inversion))])
        return m

    def asym_model(self, overlap, dim=3, name="h", order=None):
        mod = self.p.modules["tight_binding_asym"]
        series = mod.classes["HermitianFourierSeries"]
        parts = [self.run.new(self.st, series, [self.nb([(NEIGHBORS[dim] + EXTRA[dim])[i] for i in order or range(len(NEIGHBORS[dim]))]), self.run.arr(self.st, self.coefficients(name, len(order or NEIGHBORS[dim])))])]
        if overlap:
            parts.append(self.run.new(self.st, series, [self.nb([(NEIGHBORS[dim] + EXTRA[dim])[i] for i in order or range(len(NEIGHBORS[dim]))]), self.run.arr(self.st, self.coefficients("s" if name == "h" else name + "s", len(order or NEIGHBORS[dim])))]))
        return self.run.new(self.st, mod.classes["AsymTightBindingModel"], parts)

    def matrices(self, model, dim=3):
        """Hamiltonian (and overlap) of a model at a symbolic k"""
        st = self.st
        oid = next(iter(model.refs)) if len(model.refs) == 1 and model.data is None else None
        cls = st.heap[oid].cls.name if oid in st.heap and st.heap[oid].kind == "inst" else None
        if cls == "AsymTightBindingModel":
            return [self.hamiltonian(self.run.get_attr(st, model, w), dim) for w in "HS"]
        return [self.hamiltonian(model, dim)] if cls else None

    def doomed(self):
        d, TRun.died = TRun.died, []
        return d


NEIGHBORS = {3: [(0, 0, 0), (1, 0, 0), (0, Fraction(-3, 2), Fraction(1, 2))], 2: [(0, 0), (1, 0), (1, -1)]}
EXTRA = {3: [(1, 1, 1)], 2: [(2, 1)]}
UNSORTED = {3: (0, 3, 1, 2), 2: (0, 3, 1, 2)}
FLAVOURS = [(True, False, False), (True, True, False), (False, False, False), (False, True, False), (False, False, True), (False, True, True), (True, False, True)]
C2 = [[[1, 0, 0], [0, 1, 0], [0, 0, 1]], [[0, 1, 0], [1, 0, 0], [0, 0, -1]]]


def flavour_name(f):
    return ", ".join(n if x else f"no {n}" for n, x in zip(("exp", "cos_reduced", "inversion"), f))


def saver(project, cls):
    for mod in ("bandstructure", "tight_binding_asym"):
        c = project.modules[mod].classes.get(cls) if mod in project.modules else None
        if c is not None:
            return mod, c, [lookup_method(c, m)[1] for m in ("save", "load")]
    return None, None, [None, None]


def same_model(book, files, key, what, at, got, want, dim=3):
    """the loaded model has the matrices `want` (H and, when the class has one, the overlap)"""
    ms = files.matrices(got, dim) if got is not None else None
    if ms is None:
        return book.undecide(what, "no model")
    if len(ms) > len(want):
        want = want + [NA((1, 2, 2), [ONE, ZERO, ZERO, ONE])]
    for w, a, b in zip(("Hamiltonian", "overlap"), ms, want):
        if a is not None and not a.known():
            a = None
        book.same(files.dom, key, f"{what}: the {w} of the loaded model", at, a, b if b is not None and b.known() else None)


def followed(book, files, what, died, at, key):
    """False when the call certainly raises or left the analysis"""
    if files.dom.blurred:
        book.undecide(what, f"{files.dom.blurred} is not followed")
        return False
    if died:
        f = died[-1]
        book.fail(key, f"{where(f) if f is not None else at}: {what}: ends with an error")
        return False
    for node, why in files.dom.lossy[:1]:
        book.fail(key, f"{where(node)}: {what}: {why}")
        return False
    return True


def round_trip(project, book, cls, name, build, dim, label, key):
    mod, c, (save, load) = saver(project, cls)
    if save is None or load is None:
        return
    files = Files(project, mod)
    model = build(files)
    files.doomed()
    want = files.matrices(model, dim)
    what = f"{cls}, {label}, saved as {name}"
    files.doomed()
    files.run.method(files.st, model, "save", [const(name)])
    if not followed(book, files, what, files.doomed(), where(save), key + "|save"):
        return
    got = files.run.static(files.st, c, "load", [const(name)])
    if not followed(book, files, what, files.doomed(), where(load), key + "|load"):
        return
    same_model(book, files, key, what, where(load), got, want, dim)


# ------------------------------------------------------------------ wannier90 files
def wannier(kind, points, size, degeneracies, per_line):
    """text of a wannier90 file, and the terms of H(R)"""
    kept, text, h = [], "written on a day\n", {}

    def mark(t):
        kept.append(data(EMPTY, "num", t))
        return f"\u27e8{len(kept) - 1}\u27e9"
    if kind == "tb":
        text += "1.0 0.0 0.0\n0.0 1.0 0.0\n0.0 0.0 1.0\n"
    text += f"  {size}\n  {len(points)}\n"
    for i in range(0, len(points), per_line):
        text += "    " + "    ".join(map(str, degeneracies[i:i + per_line])) + "\n"
    if kind == "tb":
        text += "\n"
    for p in points:
        neg = tuple(-x for x in p)
        for i in range(size):
            for j in range(size):
                if neg in h and (i, j) in h[neg] and (p != neg or i != j):
                    continue
                tag = "R" + "".join(str(x + 5) for x in p) + f"{i}{j}"
                h.setdefault(p, {})[i, j] = (tm.sym(tag + "r", (), True), tm.sym(tag + "i", (), True) if p != neg or i != j else ZERO)
        for i in range(size):
            for j in range(size):
                if (i, j) not in h.setdefault(p, {}):
                    re_, im = h[neg][j, i]
                    h[p][i, j] = (re_, tm.scale(im, -1))
        if p == neg:
            for i in range(size):
                for j in range(i):
                    re_, im = h[p][j, i]
                    h[p][i, j] = (re_, tm.scale(im, -1))
    for p in points:
        if kind == "tb":
            text += "\n" + "".join(f"{x:5}" for x in p) + "\n"
        for j in range(size):
            for i in range(size):
                re_, im = h[p][i, j]
                pos = "" if kind == "tb" else "".join(f"{x:5}" for x in p)
                text += f"{pos}{i + 1:5}{j + 1:5}  {mark(re_)}  {mark(im)}\n"
    if kind == "tb":
        for p in points:
            text += "\n" + "".join(f"{x:5}" for x in p) + "\n"
            for j in range(size):
                for i in range(size):
                    text += f"{i + 1:5}{j + 1:5}" + "  0.0" * 6 + "\n"
    return text, kept, h


def phase(p):
    """exp(2 pi i k.R)"""
    x = ZERO
    for c, n in zip("klm", p):
        x = tm.add(x, tm.scale(tm.sym(c, (), True), n))
    return tm.exp(tm.mul(tm.mul(tm.IMAG, tm.scale(tm.sym("pi", (), True), 2)), x))


def wannier_sum(h, size, degeneracies):
    e = [ZERO] * (size * size)
    for (p, m), d in zip(h.items(), degeneracies):
        for (i, j), (re_, im) in m.items():
            e[i * size + j] = tm.add(e[i * size + j], tm.scale(tm.mul(tm.add(re_, tm.mul(tm.IMAG, im)), phase(p)), Fraction(1, d)))
    return NA((1, size, size), e)


WANNIER = {"one line": ([(-1, 0, 0), (0, -1, 0), (0, 0, 0), (0, 1, 0), (1, 0, 0)], 2, [1, 1, 1, 1, 1], 15),
           "degeneracies": ([(-1, 0, 0), (0, -1, -1), (0, 0, 0), (0, 1, 1), (1, 0, 0)], 2, [2, 3, 1, 3, 2], 15),
           "seventeen vectors": ([(x, 0, 0) for x in range(-8, 9)], 1, [2] + [1] * 15 + [2], 15),
           "two lines": ([(x, 0, 0) for x in range(-3, 4)] + [(0, y, 1) for y in (-1, 1)] + [(0, y, -1) for y in (-1, 1)], 1, [2, 1, 1, 1, 1, 1, 2, 4, 4, 4, 4], 6)}


def read_wannier(project, book, cls, kind, case):
    mod, c, (_, load) = saver(project, cls)
    if load is None:
        return
    files = Files(project, mod)
    text, kept, h = wannier(kind, *WANNIER[case])
    name = f"silicon_{kind}.dat"
    files.dom.kept, files.dom.disk[name] = kept, {"text": text, "tree": None}
    files.doomed()
    got = files.run.static(files.st, c, "load", [const(name)])
    what, key = f"{cls}, a wannier90 {kind} file ({case})", f"{cls}|wannier90{kind}|{'degeneracies' if max(WANNIER[case][2]) > 1 else 'matrices'}"
    if followed(book, files, what, files.doomed(), where(load), key):
        size = WANNIER[case][1]
        ms = files.matrices(got)
        if ms is None:
            return book.undecide(what, "no model")
        a = ms[0] if ms[0] is not None and ms[0].known() else None
        book.same(files.dom, key, f"{what}: the Hamiltonian is the sum over R of H(R) / degeneracy(R)", where(load), a, wannier_sum(h, size, WANNIER[case][2]))


def p20_jobs(project):
    jobs = []

    def job(f, *args):
        def run(book):
            with book.attempt(f"{f.__name__} {args[:3]}"):
                f(project, book, *args)
        jobs.append(run)
    for fl in FLAVOURS:
        for mats, dim, label in ((None, 3, "no symmetry"), (C2, 3, "a rotation")) + (((None, 2, "two dimensions"),) if not fl[2] else ()):
            for name in ("model.repr", "model.json"):
                if mats and name.endswith("json"):
                    continue
                job(round_trip, "BandStructureModel", name, lambda f, fl=fl, mats=mats, dim=dim: f.band_model(fl, mats, dim), dim, f"{label}, {flavour_name(fl)}", f"BandStructureModel|{name[6:]}|{'symmetric' if mats else dim}")
    for name in ("model.repr", "model.json"):
        for fl in FLAVOURS[:4]:
            job(round_trip, "BandStructureModel", name, lambda f, fl=fl: f.band_model(fl, None, 3, order=UNSORTED[3]), 3, f"long neighbors first, {flavour_name(fl)}", f"BandStructureModel|{name[6:]}|order")
    job(round_trip, "AsymTightBindingModel", "model.json", lambda f: f.asym_model(False, 3, order=UNSORTED[3]), 3, "long neighbors first", "AsymTightBindingModel|json|order")
    for overlap in (False, True):
        for dim in (3, 2):
            job(round_trip, "AsymTightBindingModel", "model.json", lambda f, overlap=overlap, dim=dim: f.asym_model(overlap, dim), dim, "overlap" if overlap else "no overlap", f"AsymTightBindingModel|json|{'overlap' if overlap else dim}")
    for cls in ("BandStructureModel", "AsymTightBindingModel"):
        for kind in ("hr", "tb"):
            for case in WANNIER:
                job(read_wannier, cls, kind, case)
    return jobs


# ------------------------------------------------------------------ P10
KINDS = {"python": "text", "json": "json", "wannier90": "text", "wannier90hr": "text", "wannier90tb": "text"}
JUNK = ["m.txt", "m", "m.json.bak", "m.yaml", "json", "m.repr~", "mdat"]


def words(fn_node):
    """format names the method mentions"""
    return {n.value for n in ast.walk(fn_node) if isinstance(n, ast.Constant) and isinstance(n.value, str) and re.fullmatch(r"[A-Za-z0-9_]{2,16}", n.value)}


def wants(names, extension):
    return next((f for e, f in names if extension.endswith(e)), None)


def small(cls):
    return (lambda f: f.band_model(FLAVOURS[0])) if cls == "BandStructureModel" else (lambda f: f.asym_model(False))


def writes(project, book, cls, name, fmt):
    """one request to save: written in the right format, or refused before a file is opened"""
    mod, c, (save, _) = saver(project, cls)
    if save is None:
        return
    files = Files(project, mod)
    model = small(cls)(files)
    files.doomed()
    kw = {} if fmt is None else {"format": const(fmt)}
    files.run.method(files.st, model, "save", [const(name)], kw)
    died, dom = files.doomed(), files.dom
    key, what, at = f"{cls}.save", f"{cls}.save({name!r}, format={fmt!r})", where(save)
    known = fmt if fmt is not None else wants([(".repr", "python"), (".json", "json"), (".dat", "wannier90")], name)
    if dom.blurred:
        return book.undecide(what, dom.blurred)
    must = known == "json" or known == "python" and cls == "BandStructureModel"
    if died:
        f = died[-1]
        at = where(f) if f is not None else at
        if dom.opened:
            return book.fail(key + "|touched", f"{at}: {what}: {dom.opened[0][0]!r} is opened before the request is refused")
        if must:
            return book.fail(key + "|refused", f"{at}: {what}: a supported format is refused")
        return book.rep.oblige(True, key, what)
    if not dom.opened:
        return book.fail(key + "|nothing", f"{at}: {what}: returns without writing a file")
    if known not in KINDS:
        return book.fail(key + "|unknown", f"{at}: {what}: a format that does not exist is not refused")
    if [n for n, _ in dom.opened] != [name]:
        return book.fail(key + "|file", f"{at}: {what}: writes {', '.join(n for n, _ in dom.opened)}")
    d = dom.disk.get(name)
    if d is None or not (d["text"] or d["tree"]):
        return book.fail(key + "|nothing", f"{at}: {what}: nothing is written")
    kind = "json" if d["tree"] or MARK.fullmatch(d["text"].strip()) and isinstance(dom.marked(d["text"]), tuple) else "text"
    book.rep.count("obligations")
    book.rep.oblige(kind == KINDS[known], key + "|format", f"{at}: {what}: the format {known!r} is written as {kind}")
    if kind == "json":
        layout(book, files, what, key, save, d["tree"] or dom.marked(d["text"]))


def plain(tree):
    """a JSON tree as Python data (terms stay terms)"""
    kind, x = tree
    return {k[1] if isinstance(k, tuple) else k: plain(v) for k, v in x} if kind == "d" else [plain(y) for y in x] if kind == "l" else x


def term(x):
    return x if isinstance(x, T) else tm.num(Fraction(x)) if isinstance(x, (int, float)) and not isinstance(x, bool) else None


def layout(book, files, what, key, save, tree):
    """the documented exchange format: band_count, params [{v, dim, data [[re, im], ...]}, ...], neighbors"""
    d, at = plain(tree), where(save)
    if not isinstance(d, dict) or not {"band_count", "params", "neighbors"} <= set(d):
        return book.fail(key + "|layout", f"{at}: {what}: the fields band_count, params and neighbors are expected, {sorted(map(str, d)) if isinstance(d, dict) else 'a list'} is written")
    want = files.coefficients("h", 3)
    got = []
    for p in d["params"]:
        if not isinstance(p, dict) or not {"v", "dim", "data"} <= set(p):
            return book.fail(key + "|layout", f"{at}: {what}: a matrix is expected as v, dim, data")
        dims = [term(x) for x in p["dim"]]
        if dims != [tm.num(2)] * 2 or term(p["v"]) != ONE:
            return book.fail(key + "|layout", f"{at}: {what}: v and dim do not describe a matrix of the model")
        for x in p["data"]:
            pair = [term(y) for y in x] if isinstance(x, list) else []
            if len(pair) != 2 or None in pair:
                return book.fail(key + "|layout", f"{at}: {what}: an entry is expected as [real part, imaginary part]")
            if not all(y.is_real() if hasattr(y, "is_real") else True for y in pair):
                return book.undecide(what, "entries")
            got.append(tm.add(pair[0], tm.mul(tm.IMAG, pair[1])))
    nb = [term(x) for r in d["neighbors"] for x in r]
    book.same(files.dom, key + "|layout", f"{what}: the number of bands is written", at, NA((1,), [term(d["band_count"])]), NA((1,), [tm.num(2)]))
    book.same(files.dom, key + "|layout", f"{what}: the matrices are written row by row in the order of the neighbors", at, NA((len(got),), got), NA((len(want.e),), want.e))
    book.same(files.dom, key + "|layout", f"{what}: the neighbors are written in their order", at, NA((len(nb),), nb), NA((9,), [tm.num(x) for r in NEIGHBORS[3] for x in r]))


def document(files, order, real):
    """JSON tree of a file in the documented layout, and H(k)"""
    h = files.coefficients("h", 3)
    if real:
        h = NA(h.shape, [tm.sym("r" + "".join(map(str, (ix[0],) + tuple(sorted(ix[1:])))), (), True) for ix in indices(h.shape)])
    ps = []
    for i in order:
        entries = [h.at(i, a, b) for a in range(2) for b in range(2)]
        half = Fraction(1, 2)
        parts = [(tm.scale(tm.add(x, tm.conj(x)), half), tm.scale(tm.mul(tm.IMAG, tm.add(tm.conj(x), tm.scale(x, -1))), half)) for x in entries]
        cells = [("n", x) for x in entries] if real else [("l", [("n", x), ("n", y)]) for x, y in parts]
        ps.append(("d", [(("k", "v"), ("c", 1)), (("k", "dim"), ("l", [("c", 2), ("c", 2)])), (("k", "data"), ("l", cells))]))
    nb = ("l", [("l", [("c", float(x)) for x in NEIGHBORS[3][i]]) for i in order])
    tree = ("d", [(("k", "band_count"), ("c", 2)), (("k", "params"), ("l", ps)), (("k", "neighbors"), nb)])
    e = [ZERO] * 4
    for n, r in enumerate(NEIGHBORS[3]):
        for a in range(2):
            for b in range(2):
                x = tm.mul(h.at(n, a, b), phase(r))
                if n:
                    x = tm.add(x, tm.conj(tm.mul(h.at(n, b, a), phase(r))))
                e[2 * a + b] = tm.add(e[2 * a + b], x)
    return tree, NA((1, 2, 2), e)


def reads(project, book, cls, name, fmt, order=(0, 1, 2), real=False):
    """one request to load: the file is read in the right format, or refused before a file is opened"""
    mod, c, (_, load) = saver(project, cls)
    if load is None:
        return
    files = Files(project, mod)
    dom = files.dom
    known = fmt if fmt is not None else wants([(".repr", "python"), (".json", "json"), ("tb.dat", "wannier90tb"), ("hr.dat", "wannier90hr")], name)
    want = None
    if known == "json":
        tree, want = document(files, order, real)
        dom.disk[name] = {"text": "", "tree": tree}
    elif known == "python":
        h = files.coefficients("h", 3)
        want = document(files, order, False)[1]
        parts = [files.run.arr(files.st, h), files.nb(NEIGHBORS[3]), files.run.arr(files.st, NA((1, 3, 3), [tm.num(int(i == j)) for i in range(3) for j in range(3)]))]
        dom.disk[name] = {"text": ",\\\n".join(dom.keep(x) for x in parts) + ",\\\nFalse\n", "tree": None}
    elif known in ("wannier90hr", "wannier90tb"):
        text, kept, h = wannier(known[-2:], *WANNIER["one line"])
        dom.kept, dom.disk[name] = kept, {"text": text, "tree": None}
        want = wannier_sum(h, 2, WANNIER["one line"][2])
    files.doomed()
    kw = {} if fmt is None else {"format": const(fmt)}
    got = files.run.static(files.st, c, "load", [const(name)], kw)
    died = files.doomed()
    key, what, at = f"{cls}.load", f"{cls}.load({name!r}, format={fmt!r})" + (f", neighbors in the order {order}" if order != (0, 1, 2) else "") + (", real entries" if real else ""), where(load)
    if dom.blurred:
        return book.undecide(what, dom.blurred)
    if want is None:
        if dom.opened:
            return book.fail(key + "|touched", f"{at}: {what}: {dom.opened[0][0]!r} is opened for a format that does not exist")
        book.rep.count("obligations")
        return book.rep.oblige(bool(died), key + "|unknown", f"{at}: {what}: a format that does not exist is not refused")
    if died and not dom.opened:
        return book.fail(key + "|refused", f"{at}: {what}: a supported format is refused")
    if not followed(book, files, what, died, at, key + "|read"):
        return
    if [n for n, _ in dom.opened] != [name] or any(m.strip("bt") != "r" for _, m in dom.opened):
        return book.fail(key + "|file", f"{at}: {what}: opens {dom.opened}")
    same_model(book, files, key + "|read", what, at, got, [want])


def unfit(project, book, case, name):
    """models that cannot be saved are refused before the file is opened"""
    mod, c, (save, _) = saver(project, "BandStructureModel")
    if save is None:
        return
    files = Files(project, mod)
    model = files.band_model(FLAVOURS[0])
    for a in {"neighbors": ("neighbors",), "neither": ("neighbors", "sym"), "symmetry": ("sym",)}[case]:
        files.run.set_attr(files.st, model, a, NONE)
    files.doomed()
    files.run.method(files.st, model, "save", [const(name)])
    died = files.doomed()
    what, at = f"BandStructureModel.save({name!r}) of a model without {'a symmetry' if case == 'symmetry' else 'neighbors'}", where(save)
    if files.dom.blurred:
        return book.undecide(what, files.dom.blurred)
    if died and files.dom.opened:
        f = died[-1]
        return book.fail("BandStructureModel.save|touched", f"{where(f) if f is not None else at}: {what}: the file is opened before the request is refused")
    if not died and case != "symmetry":
        return book.fail("BandStructureModel.save|unfit", f"{at}: {what}: is not refused")
    book.rep.count("obligations")
    book.rep.oblige(True, "BandStructureModel.save", what)


def p10_jobs(project):
    jobs = []

    def job(f, *args):
        def run(book):
            with book.attempt(f"{f.__name__} {args}"):
                f(project, book, *args)
        jobs.append(run)
    for cls in ("BandStructureModel", "AsymTightBindingModel"):
        _, _, ms = saver(project, cls)
        for m, f in zip(ms, (writes, reads)):
            if m is None:
                continue
            formats = sorted(words(m) & set(KINDS) | {"python", "json", "wannier90", "wannier90hr", "wannier90tb", "xyz", "JSON", ""})
            for name in ["m.repr", "m.json", "m_hr.dat", "m_tb.dat", "m.dat"] + JUNK:
                if f is writes or name != "m.dat":
                    job(f, cls, name, None)
            for fmt in formats:
                for name in ("m.txt", "m.json", "m.repr", "m_hr.dat"):
                    job(f, cls, name, fmt)
        for order in ((1, 0, 2), (2, 1, 0)):
            job(reads, cls, "m.json", None, order)
        job(reads, cls, "m.json", None, (0, 1, 2), True)
        job(reads, cls, "m.json", None, (2, 0, 1), True)
    for case in ("neighbors", "neither", "symmetry"):
        for name in ("m.json", "m.repr", "m.dat"):
            job(unfit, case, name)
    return jobs
