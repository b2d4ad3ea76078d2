"""P14: predefined point groups, generated groups and matrix representations.  The constructors are evaluated by constant
propagation (sa.numdom: tables, cosines and roots folded to numbers, loops with decided conditions followed turn by turn), the
representation algebra with symbolic matrices on small groups.  Compared with the group axioms, the order and the elements the
name implies, and the homomorphism property.  Nothing is executed."""
import itertools
import math
from fractions import Fraction

from sa import terms as tm
from sa.numdom import NumDomain, approx, small
from sa.project import lookup_method, where
from sa.tendom import NA
from sa.values import const, tup

from .common import Report
from .p06 import Book
from .pool import fork_map
from .ten import TRun, indices

TRun_ = TRun


class TRun(TRun_):
    limit = 400


MINIMUM = {"groups": 1}
TOL = 1e-7


# ------------------------------------------------------------------ plain matrices (oracle side)
def mm(a, b):
    return tuple(tuple(sum(x * y for x, y in zip(r, c)) for c in zip(*b)) for r in a)


def tr(a):
    return tuple(zip(*a))


def neg(a):
    return tuple(tuple(-x for x in r) for r in a)


def eye(n):
    return tuple(tuple(1 if i == j else 0 for j in range(n)) for i in range(n))


def near(a, b, tol=TOL):
    return len(a) == len(b) and all(abs(x - y) <= tol for r, q in zip(a, b) for x, y in zip(r, q))


def find(a, gs):
    return next((i for i, g in enumerate(gs) if near(a, g)), None)


def same_set(a, b):
    return len(a) == len(b) and all(find(x, b) is not None for x in a) and all(find(x, a) is not None for x in b)


def det(m):
    if len(m) == 1:
        return m[0][0]
    return sum((-1) ** j * m[0][j] * det([r[:j] + r[j + 1:] for r in m[1:]]) for j in range(len(m)))


def inverse(m):
    n, d = len(m), det(m)
    if n == 1:
        return ((1 / d,),)
    return tuple(tuple((-1) ** (i + j) * det([r[:i] + r[i + 1:] for k, r in enumerate(m) if k != j]) / d for j in range(n)) for i in range(n))


def closure(gens, cap=300):
    n = len(gens[0])
    out = [eye(n)]
    todo = list(out)
    while todo:
        a = todo.pop()
        for g in gens:
            b = mm(a, g)
            if find(b, out) is None:
                out.append(b)
                todo.append(b)
                if len(out) > cap:
                    return None
    return out


def show(m):
    return "[" + ", ".join("[" + ", ".join(f"{x:.4g}" for x in r) + "]" for r in m) + "]"


def rot(n, k, dim):
    c, s = math.cos(2 * math.pi * k / n), math.sin(2 * math.pi * k / n)
    m = ((c, s), (-s, c))
    return m if dim == 2 else tuple(r + (0,) for r in m) + ((0, 0, 1),)


def signed_perms(n):
    out = []
    for p in itertools.permutations(range(n)):
        for s in itertools.product((1, -1), repeat=n):
            out.append(tuple(tuple(s[i] if j == p[i] else 0 for j in range(n)) for i in range(n)))
    return out


def diag(*xs):
    return tuple(tuple(x if i == j else 0 for j in range(len(xs))) for i, x in enumerate(xs))


def both(gs, inv=True):
    if not inv:
        return list(gs)
    out = list(gs)
    for g in gs:
        if find(neg(g), out) is None:
            out.append(neg(g))
    return out


def proper(gs):
    return [g for g in gs if det(g) > 0]


# ------------------------------------------------------------------ what the names imply
def groups():
    """(constructor, arguments, elements or None, order)"""
    out = []
    B = (False, True)
    for d in (1, 2, 3):
        out.append(("none", [d], [eye(d)]))
        out.append(("inv", [d], both([eye(d)])))
    out.append(("none", [], [eye(3)]))
    out.append(("inv", [], both([eye(3)])))
    for i in B:
        out.append(("o1", [i], both([eye(1)], i)))
        for n in (1, 2, 3, 4, 6):
            out.append(("cyclic", [n, i], both([rot(n, k, 3) for k in range(n)], i)))
            out.append(("dihedral", [n, i], both([mm(rot(n, k, 3), m) for k in range(n) for m in (eye(3), diag(-1, 1, 1))], i)))
        cube = signed_perms(3)
        out.append(("cubic", [i], both(proper(cube), i)))
        out.append(("perm3", [i], both([g for g in cube if all(x >= 0 for r in g for x in r)], i)))
        out.append(("even_perm3", [i], both(closure([((0, 0, 1), (0, -1, 0), (1, 0, 0)), ((-1, 0, 0), (0, 0, 1), (0, 1, 0))]), i)))
        out.append(("mirror3", [i], both([diag(a, b, a * b) for a in (1, -1) for b in (1, -1)], i)))
        for d in (2, 3):
            out.append(("mirror_x", [i, d], both([eye(d), diag(-1, *[1] * (d - 1))], i)))
            out.append(("mirror_xy", [i, d], both([eye(d), diag(-1, -1, *[1] * (d - 2))], i)))
    for n in (1, 2, 3, 4, 6):
        out.append(("o2", [n], [rot(n, k, 2) for k in range(n)]))
    out.append(("square", [], signed_perms(2)))
    even = [g for g in signed_perms(3) if det(g) > 0 and abs(sum(g[i][i] for i in range(3))) != 1 or near(g, eye(3))]
    even = [g for g in signed_perms(3) if det(g) > 0 and _even(g)]
    out.append(("tetrahedral", [False], even))
    out.append(("tetrahedral", [True], proper(signed_perms(3))))
    out.append(("icosahedral", [False], 60))
    out.append(("icosahedral", [True], 120))
    return out


def _even(g):
    """the permutation of the axes is cyclic"""
    p = [next(j for j, x in enumerate(r) if x) for r in g]
    return p in ([0, 1, 2], [1, 2, 0], [2, 0, 1])


class Sym:
    """a Symmetry object read from the store"""
    def __init__(self, run, st, obj):
        na = run.value(st, run.get_attr(st, obj, "S"))
        self.S = mats(na)
        inv = run.get_attr(st, obj, "inversion")
        self.inv = bool(inv.const()) if inv.is_single_const() else None
        p = run.get_attr(st, obj, "projective")
        self.proj = bool(p.const()) if p.is_single_const() else None

    def ok(self):
        return self.S is not None and self.inv is not None

    def ops(self):
        return self.S + [neg(s) for s in self.S] if self.inv else list(self.S)


def mats(na):
    if na is None or len(na.shape) != 3:
        return None
    v = approx(na)
    if v is None or any(isinstance(x, complex) and abs(x.imag) > TOL for x in v):
        return None
    v = [x.real for x in v]
    n, a, b = na.shape
    return [tuple(tuple(v[k * a * b + i * b + j] for j in range(b)) for i in range(a)) for k in range(n)]


def genuine(s):
    """None or what is wrong with the list of matrices as a group"""
    n = len(s.S[0])
    if find(eye(n), s.S) != 0:
        return "the first element is not the identity"
    ops = s.ops()
    for i, a in enumerate(ops):
        j = find(a, ops)
        if j != i:
            return f"elements {j} and {i} are the same matrix {show(a)}"
    for a in ops:
        if find(tr(a), ops) is None and find(inverse(a), ops) is None:
            return f"the inverse of {show(a)} is missing"
    for a in s.S:
        for b in s.S:
            if find(mm(a, b), ops) is None:
                return f"the product of {show(a)} and {show(b)} is missing"
    return None


def sym_checks(book, key, what, at, s, want, orth=True):
    rep = book.rep
    if s is None or not s.ok():
        return book.undecide(what, "elements not followed")
    bad = genuine(s)
    if bad is None and orth:
        for a in s.S:
            if not near(mm(a, tr(a)), eye(len(a))):
                bad = f"{show(a)} is not orthogonal"
    ops = s.ops()
    if bad is None and isinstance(want, int) and len(ops) != want:
        bad = f"{len(ops)} elements instead of {want}"
    if bad is None and isinstance(want, list) and not same_set(ops, want):
        x = next((g for g in ops if find(g, want) is None), None)
        y = next((g for g in want if find(g, ops) is None), None)
        bad = (f"{len(ops)} elements instead of {len(want)}" if len(ops) != len(want) else "the elements are not those of the group") + \
            (f"; {show(x)} does not belong to it" if x else "") + (f"; {show(y)} is missing" if y else "")
    rep.count("obligations")
    rep.oblige(bad is None, key, f"{at}: {what}: {bad}")
    if bad is None:
        rep.count("proven")
        if len(rep.samples) < 6:
            rep.samples.append({"rule": what, "elements": len(ops), "first": show(ops[-1])})


def run_groups(project, book, part):
    for name, args, want in part:
        run = TRun(project, "symmetry", NumDomain())
        if "Symmetry" not in run.mod.classes:
            continue
        cls = run.cls("Symmetry")
        f = lookup_method(cls, name)[1]
        if f is None:
            continue
        what = f"Symmetry.{name}({', '.join(map(str, args))})"
        book.rep.count("groups")
        with book.attempt(what):
            st = run.fresh()
            obj = run.static(st, cls, name, [const(a) for a in args])
            s = Sym(run, st, obj)
            sym_checks(book, f"Symmetry.{name}", what, where(f), s, want)
            if name == "icosahedral" and s.ok():
                t = sorted(round(sum(m[i][i] for i in range(3)), 5) for m in s.S)
                phi = (1 + 5 ** .5) / 2
                exp = sorted([3.0] + [-1.0] * 15 + [0.0] * 20 + [round(phi, 5)] * 12 + [round(1 - phi, 5)] * 12)
                z = find(rot(5, 1, 3), s.S)
                book.rep.count("obligations")
                book.rep.oblige(all(abs(a - b) < 1e-4 for a, b in zip(t, exp)) and z is not None, "Symmetry.icosahedral",
                                f"{where(f)}: {what}: the rotation angles are not those of the icosahedral group with a five-fold axis along z")


# ------------------------------------------------------------------ operations on groups
def arrs(ms):
    return NA((len(ms), len(ms[0]), len(ms[0][0])), [tm.num(x) for m in ms for r in m for x in r])


HEX = [((0, -1), (1, -1)), ((0, 1), (1, 0))]      # lattice coordinates: not orthogonal
SKEW = ((1, .5), (0, 2))
SKEW3 = ((1, .5, 0), (0, 2, .25), (1, 0, 1))


def operations(project, book):
    run = TRun(project, "symmetry", NumDomain())
    if "Symmetry" not in run.mod.classes:
        return
    cls = run.cls("Symmetry")

    def meth(name):
        return lookup_method(cls, name)[1]

    def make(st, ms, inv=False, proj=False):
        return run.new(st, cls, [run.arr(st, arrs(ms)), const(inv), const(proj)])
    d3h = closure(HEX)
    d2 = [eye(3), diag(1, -1, -1), diag(-1, -1, 1), diag(-1, 1, -1)]
    c4 = closure([rot(4, 1, 2)])
    cases = [("hexagonal lattice", d3h, False, SKEW), ("V4", d2, False, SKEW3), ("V4 with inversion", d2, True, SKEW3), ("C4 in the plane", c4, False, SKEW)]
    cases.append(("C6 in the plane in its lattice basis", [s for s in d3h if det(s) > 0], False, ((1, Fraction(-1, 2)), (0, Fraction(math.sqrt(3) / 2)))))
    cases.append(("V4 on a face-centred lattice", d2, False, tuple(tuple(Fraction(int(i != j), 2) for j in range(3)) for i in range(3))))
    # a two-fold screw axis modulo lattice translations is no finite matrix group; a pure point group written projectively is
    proj = [tuple(r + (0,) for r in m) + ((0, 0, 0, 1),) for m in d2]
    cases.append(("projective V4", proj, False, SKEW3))
    cases.append(("projective C4 in the plane", [tuple(r + (0,) for r in m) + ((0, 0, 1),) for m in c4], False, SKEW))

    def unary(name, want, args=lambda st, b: [], needs_b=False):
        f = meth(name)
        if f is None:
            return
        for tag, ms, inv, b in cases:
            what = f"Symmetry.{name} of the group {tag}"
            with book.attempt(what):
                st = run.fresh()
                p = "projective" in tag
                o = make(st, ms, inv, p)
                s = Sym(run, st, run.method(st, o, name, args(st, b)))
                w = want(ms, b)
                if w is None:
                    continue
                sym_checks(book, f"Symmetry.{name}", what, where(f), s, both(w, inv), orth=False)
                if s.ok() and s.proj is not None and name != "ignore_translation":
                    book.rep.count("obligations")
                    book.rep.oblige(s.proj == p, f"Symmetry.{name}", f"{where(f)}: {what}: the result is {'' if s.proj else 'not '}marked projective, the group was {'' if p else 'not '}")
    unary("copy", lambda ms, b: ms)
    unary("transpose", lambda ms, b: [tr(m) for m in ms])
    unary("dual", lambda ms, b: [tr(inverse(m)) for m in ms])

    def conj(ms, b):
        if len(ms[0]) > len(b):
            b = tuple(r + (0,) for r in b) + ((0,) * len(b) + (1,),)
        return [mm(mm(b, m), inverse(b)) for m in ms]
    unary("transform", conj, lambda st, b: [run.arr(st, NA((len(b), len(b)), [tm.num(x) for r in b for x in r]))], True)
    unary("ignore_translation", lambda ms, b: [tuple(r[:len(b)] for r in m[:len(b)]) for m in ms])

    # constructor: -1 is split off or made explicit, never counted twice
    f = meth("__init__")
    for tag, ms, inv in [("C4 in the plane", c4, True), ("C4 in the plane", c4, False), ("identity in the plane", [eye(2)], True), ("O_h", both(d2), False), ("O_h", both(d2), True),
                         ("V4", d2, True), ("mirrors of a rectangle", [eye(2), diag(-1, 1)], True)]:
        what = f"Symmetry({tag}, inversion={inv})"
        with book.attempt(what):
            st = run.fresh()
            o = make(st, ms, inv)
            s = Sym(run, st, o)
            sym_checks(book, "Symmetry.__init__", what, where(f), s, both(ms, inv))
            g = meth("get_symmetry_operations")
            if g is not None:
                got = mats(run.value(st, run.method(st, o, "get_symmetry_operations")))
                if got is None:
                    book.undecide(what + ".get_symmetry_operations()", "not followed")
                else:
                    book.rep.count("obligations")
                    book.rep.oblige(same_set(got, both(ms, inv)), "Symmetry.get_symmetry_operations", f"{where(g)}: {what}.get_symmetry_operations(): not the elements of the group")
            g = meth("__len__")
            n = run.method(st, o, "__len__") if g is not None else None
            if n is not None and n.is_single_const():
                book.rep.count("obligations")
                book.rep.oblige(n.const() == len(both(ms, inv)), "Symmetry.__len__", f"{where(g)}: len({what}) is {n.const()} for a group of {len(both(ms, inv))} elements")
    # generated groups
    gens = [("quarter turn", [rot(4, 1, 2)], False), ("hexagonal lattice", HEX, False), ("repeated generators", [rot(4, 1, 2), eye(2), rot(4, 1, 2)], False), ("identity", [eye(3)], True),
            ("two half turns", [diag(1, -1, -1), diag(-1, -1, 1)], True), ("three-fold axis", [((0, 1, 0), (0, 0, 1), (1, 0, 0)), ((0, 1, 0), (0, 0, 1), (1, 0, 0))], False),
            ("seven-fold rotation", [rot(7, 3, 2)], False), ("thirty-fold rotation", [rot(30, 7, 2)], False), ("quarter turn with -1", [rot(4, 1, 2)], True)]
    f = meth("from_generator")
    if f is not None:
        for tag, ms, inv in gens:
            what = f"Symmetry.from_generator({tag}, {inv})"
            with book.attempt(what):
                st = run.fresh()
                s = Sym(run, st, run.static(st, cls, "from_generator", [run.arr(st, arrs(ms)), const(inv)]))
                sym_checks(book, "Symmetry.from_generator", what, where(f), s, both(closure(list(ms)), inv), orth=False)
    f = meth("__mul__")
    if f is not None:
        for (ta, a, ia), (tb, b, ib) in [(("C2(z)", [eye(3), diag(-1, -1, 1)], False), ("C2(x)", [eye(3), diag(1, -1, -1)], False)), (("C3", closure([((0, 1, 0), (0, 0, 1), (1, 0, 0))]), False), ("V4", d2, True)),
                                         (("V4", d2, True), ("identity", [eye(3)], False))]:
            what = f"Symmetry {ta} * {tb}"
            with book.attempt(what):
                st = run.fresh()
                s = Sym(run, st, run.method(st, make(st, a, ia), "__mul__", [make(st, b, ib)]))
                sym_checks(book, "Symmetry.__mul__", what, where(f), s, both(closure(a + b), ia or ib))
    # decisions about groups
    c2z, c2x = [eye(3), diag(-1, -1, 1)], [eye(3), diag(1, -1, -1)]
    turn = rot(120, 1, 3)
    c2t = [eye(3), mm(mm(turn, diag(1, -1, -1)), tr(turn))]       # about an axis three degrees away from x
    facts = [("__eq__", c2x, False, c2t, False, False), ("__contains__", d2, False, c2t, False, False), ("__eq__", d2, False, [d2[0], d2[3], d2[1], d2[2]], False, True), ("__eq__", d2, False, d2, True, False), ("__eq__", c2z, False, c2x, False, False), ("__eq__", c2z, False, d2, False, False),
             ("__contains__", d2, False, c2x, False, True), ("__contains__", c2x, False, d2, False, False), ("__contains__", c2x, False, c2z, False, False), ("__contains__", d2, False, c2x, True, False),
             ("__contains__", d2, True, c2x, True, True), ("check", d2, True, None, None, True), ("check", d2[:3], False, None, None, False)]
    for name, a, ia, b, ib, want in facts:
        f = meth(name)
        if f is None:
            continue
        what = f"Symmetry.{name}: {len(a)} elements{' with inversion' if ia else ''}" + (f" and {len(b)} elements{' with inversion' if ib else ''}" if b else "")
        with book.attempt(what):
            st = run.fresh()
            r = run.method(st, make(st, a, ia), name, [make(st, b, ib)] if b else [])
            if r is None or not r.is_single_const():
                book.undecide(what, "not followed")
            else:
                book.rep.count("obligations")
                book.rep.oblige(bool(r.const()) == want, f"Symmetry.{name}", f"{where(f)}: {what}: the answer is {r.const()} instead of {want}")
    f = meth("subgroup")
    if f is not None and meth("remove_translation") is not None:
        # the point operations of a group with a glide (translations folded into a finite matrix group is impossible: pure point part only)
        what = "Symmetry.remove_translation of projective V4"
        with book.attempt(what):
            st = run.fresh()
            s = Sym(run, st, run.method(st, make(st, proj, False, True), "remove_translation"))
            sym_checks(book, "Symmetry.remove_translation", what, where(meth("remove_translation")), s, [tuple(r[:3] for r in m[:3]) for m in proj])


# ------------------------------------------------------------------ representations
class Rep:
    def __init__(self, run, st, obj):
        self.sym = Sym(run, st, run.get_attr(st, obj, "sym"))
        self.na = run.value(st, run.get_attr(st, obj, "U"))
        k = run.get_attr(st, obj, "inv_split")
        self.k = k.const() if k.is_single_const() else None
        self.n = self.na.shape[-1] if self.na is not None and len(self.na.shape) == 3 else None

    def ok(self):
        return self.sym.ok() and self.na is not None and self.n is not None and self.k is not None and self.na.known()

    def mats(self):
        return mats(self.na)


def rep_checks(book, key, what, at, r, inversion=None, element=None):
    """element(s): the matrix the name implies for a group element, or None"""
    rep = book.rep
    if not r.ok() or r.mats() is None:
        return book.undecide(what, "matrices not followed")
    S, U = r.sym.S, r.mats()
    bad = genuine(r.sym)
    if bad is None and len(S) != len(U):
        bad = f"{len(U)} matrices for {len(S)} group elements"
    if bad is None and not near(U[0], eye(r.n)):
        bad = "the identity is not represented by the unit matrix"
    if bad is None:
        for a, u in zip(S, U):
            if not near(mm(u, tr(u)), eye(r.n)):
                bad = f"the matrix {show(u)} of {show(a)} is not unitary"
                break
    if bad is None:
        for (a, u), (b, v) in itertools.product(zip(S, U), repeat=2):
            i = find(mm(a, b), S)
            if i is None or not near(mm(u, v), U[i]):
                bad = f"the matrices of {show(a)} and {show(b)} multiply to {show(mm(u, v))}" + (f", their product is represented by {show(U[i])}" if i is not None else "")
                break
    if bad is None and not (isinstance(r.k, int) and 0 <= r.k <= r.n):
        bad = f"{r.k} of {r.n} basis functions are even"
    if bad is None and inversion is not None and r.sym.inv and r.k != (r.n if inversion > 0 else 0):
        bad = f"{r.k} of {r.n} basis functions are even under inversion"
    if bad is None and r.sym.inv:
        for u in U:
            if any(abs(u[i][j]) > TOL for i in range(r.n) for j in range(r.n) if (i < r.k) != (j < r.k)):
                bad = "inversion does not commute with the other operations"
    if bad is None and element is not None:
        for s, u in zip(S, U):
            w = element(s)
            if w is not None and not near(w, u):
                bad = f"{show(s)} is represented by {show(u)} instead of {show(w)}"
                break
    rep.count("obligations")
    rep.oblige(bad is None, key, f"{at}: {what}: {bad}")
    if bad is None:
        rep.count("proven")


def order4(s):
    """odd elements of the rotation group of the cube: quarter turns and half turns about face diagonals"""
    p = [next(j for j, x in enumerate(r) if abs(x) > .5) for r in s]
    return not (p in ([0, 1, 2], [1, 2, 0], [2, 0, 1]))


def representations(project, book, part):
    run = TRun(project, "unitary_representations", NumDomain())
    if "UnitaryRepresentation" not in run.mod.classes:
        return
    cls = run.cls("UnitaryRepresentation")
    for name, args, inversion, element in part:
        f = lookup_method(cls, name)[1]
        if f is None:
            continue
        what = f"UnitaryRepresentation.{name}({', '.join(map(str, args))})"
        book.rep.count("representations")
        with book.attempt(what):
            st = run.fresh()
            obj = run.static(st, cls, name, [const(a) for a in args])
            r = Rep(run, st, obj)
            rep_checks(book, f"UnitaryRepresentation.{name}", what, where(f), r, inversion, element)
            if r.ok():
                want = 24
                book.rep.count("obligations")
                inv = args[-1] if len(args) > 1 and name == "d3" or len(args) == 3 else True
                book.rep.oblige(len(r.sym.S) == want and r.sym.inv == inv, f"UnitaryRepresentation.{name}", f"{where(f)}: {what}: {len(r.sym.S)} rotations, inversion={r.sym.inv} instead of the cubic group")


def predefined():
    sign = lambda s: tuple(tuple(-x for x in r) for r in s) if order4(s) else s
    r3 = math.sqrt(3) / 2

    def d3(s):
        """z^2 and x^2-y^2 under the axis permutation of s: only the quarter turns the table starts from are named here"""
        for g, u in ((((0, 1, 0), (-1, 0, 0), (0, 0, 1)), ((1, 0), (0, -1))), (((0, 0, -1), (0, 1, 0), (1, 0, 0)), ((-.5, r3), (r3, .5))), (((1, 0, 0), (0, 0, 1), (0, -1, 0)), ((-.5, -r3), (-r3, .5)))):
            if near(g, s):
                return u
        return None
    out = [("o3", [], -1, lambda s: s), ("so3", [], 1, lambda s: s), ("o3ri", [], -1, sign), ("o3r", [], 1, sign)]
    for neg_ in (False, True):
        for inv in (False, True):
            out.append(("d3", [neg_, inv], -1 if neg_ else 1, d3))
            for x in (False, True):
                out.append(("one_dim", [x, neg_, inv], -1 if neg_ else 1, lambda s, x=x: ((-1 if x and order4(s) else 1,),)))
    return out


# ------------------------------------------------------------------ sums, products, reordering (symbolic matrices)
V4 = [eye(3), diag(1, -1, -1), diag(-1, -1, 1), diag(-1, 1, -1)]


def make_rep(run, st, ms, inv, u, k):
    symc = run.p.modules["symmetry"].classes["Symmetry"]
    s = run.new(st, symc, [run.arr(st, arrs(ms)), const(inv)])
    cls = run.cls("UnitaryRepresentation")
    r = run.new(st, cls, [s, const(u.shape[-1])])
    run.set_attr(st, r, "U", run.arr(st, u))
    run.set_attr(st, r, "inv_split", const(k))
    return r


def u_of(na, i):
    n = na.shape[-1]
    return [[na.at(i, a, b) for b in range(n)] for a in range(n)]


def eqm(a, b):
    """True / False / None"""
    if len(a) != len(b):
        return False
    res = True
    for r, q in zip(a, b):
        for x, y in zip(r, q):
            if x is None or y is None:
                res = None
            elif not small(tm.sub(x, y)):
                return False
    return res


def inv_diag(k, n):
    return [1 if i < k else -1 for i in range(n)]


def algebra(project, book):
    run = TRun(project, "unitary_representations", NumDomain())
    if "UnitaryRepresentation" not in run.mod.classes or "symmetry" not in project.modules:
        return
    cls = run.cls("UnitaryRepresentation")
    order = [0, 2, 3, 1]
    perm = [V4[i] for i in order]

    def arranged(got, k, parts_u, parts_k, what, key, at):
        """some reordering of the basis, the same for all group elements and for inversion, turns the expected matrices into the result"""
        n = got.shape[-1]
        for sig in itertools.permutations(range(n)):
            if any(parts_k[sig[i]] != inv_diag(k, n)[i] for i in range(n)):
                continue
            rs = []
            for g, w in enumerate(parts_u):
                m = u_of(got, g)
                rs.append(eqm(m, [[w[sig[i]][sig[j]] for j in range(n)] for i in range(n)]))
                if rs[-1] is False:
                    break
            if all(r is True for r in rs):
                book.rep.count("obligations")
                book.rep.count("proven")
                book.rep.oblige(True, key, "")
                return
            if all(r is not False for r in rs):
                return book.undecide(what, "matrices not followed")
        book.fail(key, f"{at}: {what}: no single ordering of the basis gives both the matrices of all group elements and the inversion signs ({k} even of {n})")

    def syms(st, na, nb, ka, kb):
        a = TRun.real("a", 4, na, na)
        b = TRun.real("b", 4, nb, nb)
        ra = make_rep(run, st, V4, True, a, ka)
        rb = make_rep(run, st, perm, True, b, kb)
        return a, b, ra, rb
    for name, kind in (("__add__", "sum"), ("__mul__", "product")):
        f = lookup_method(cls, name)[1]
        if f is None:
            continue
        for na, nb, ka, kb in [(2, 1, 0, 1), (2, 1, 0, 0), (2, 1, 2, 0), (2, 1, 2, 1), (2, 1, 1, 0), (2, 1, 1, 1), (1, 2, 0, 1), (1, 2, 1, 1), (2, 2, 0, 2)] + ([(1, 1, 0, 1)] if kind == "product" else []):
            if kind == "product" and na * nb > 4:
                continue
            what = f"{kind} of representations of dimension {na} ({ka} even) and {nb} ({kb} even), elements listed in different orders"
            with book.attempt(what):
                st = run.fresh()
                a, b, ra, rb = syms(st, na, nb, ka, kb)
                r = run.method(st, ra, name, [rb])
                R = Rep(run, st, r)
                if not R.ok():
                    book.undecide(what, "matrices not followed")
                    continue
                n = na + nb if kind == "sum" else na * nb
                if R.n != n or R.na.shape[0] != 4:
                    book.fail(f"UnitaryRepresentation.{name}", f"{where(f)}: {what}: dimension {R.n} for {R.na.shape[0]} elements instead of {n} for 4")
                    continue
                us = []
                for g in R.sym.S:
                    ia, ib = find(g, V4), find(g, perm)
                    ua, ub = u_of(a, ia), u_of(b, ib)
                    if kind == "sum":
                        us.append([[ua[i][j] if i < na and j < na else ub[i - na][j - na] if i >= na and j >= na else tm.ZERO for j in range(n)] for i in range(n)])
                    else:
                        us.append([[tm.mul(ua[i // nb][j // nb], ub[i % nb][j % nb]) for j in range(n)] for i in range(n)])
                da, db = inv_diag(ka, na), inv_diag(kb, nb)
                ds = da + db if kind == "sum" else [x * y for x in da for y in db]
                arranged(R.na, R.k, us, ds, what, f"UnitaryRepresentation.{name}", where(f))
    f = lookup_method(cls, "__mul__")[1]
    for n, k in ((2, 0), (2, 2), (2, 1)):
        what = f"two copies of a representation of dimension {n} ({k} even)"
        with book.attempt(what):
            st = run.fresh()
            a = TRun.real("a", 4, n, n)
            ra = make_rep(run, st, V4, True, a, k)
            R = Rep(run, st, run.method(st, ra, "__mul__", [const(2)]))
            if not R.ok():
                book.undecide(what, "matrices not followed")
                continue
            us = [[[u_of(a, g)[i // 2][j // 2] if i % 2 == j % 2 else tm.ZERO for j in range(2 * n)] for i in range(2 * n)] for g in range(4)]
            arranged(R.na, R.k, us, [x for x in inv_diag(k, n) for _ in range(2)], what, "UnitaryRepresentation.__mul__", where(f))
    f = lookup_method(cls, "match_sym")[1]
    if f is not None:
        what = "match_sym to the same group listed in another order"
        with book.attempt(what):
            st = run.fresh()
            b = TRun.real("b", 4, 2, 2)
            rb = make_rep(run, st, perm, True, b, 1)
            symc = project.modules["symmetry"].classes["Symmetry"]
            s = run.new(st, symc, [run.arr(st, arrs(V4)), const(True)])
            run.method(st, rb, "match_sym", [s])
            R = Rep(run, st, rb)
            if not R.ok():
                book.undecide(what, "not followed")
            else:
                bad = None
                for i, g in enumerate(R.sym.S):
                    if not near(g, V4[i]):
                        bad = f"element {i} is {show(g)}"
                    elif eqm(u_of(R.na, i), u_of(b, find(g, perm))) is False:
                        bad = f"element {i} ({show(g)}) got the matrix of another element"
                book.rep.count("obligations")
                book.rep.oblige(bad is None, "UnitaryRepresentation.match_sym", f"{where(f)}: {what}: {bad}")
    f = lookup_method(cls, "permute")[1]
    if f is not None:
        what = "permute"
        with book.attempt(what):
            st = run.fresh()
            a = TRun.real("a", 4, 4, 4)
            ra = make_rep(run, st, V4, True, a, 2)
            o = [1, 0, 2, 3]
            run.method(st, ra, "permute", [tup([const(i) for i in o])] if False else [run.arr(st, NA((4,), [tm.num(i) for i in o]))])
            R = Rep(run, st, ra)
            if R.ok():
                arranged(R.na, R.k, [u_of(a, g) for g in range(4)], inv_diag(2, 4), what, "UnitaryRepresentation.permute", where(f))
            else:
                book.undecide(what, "not followed")
    f = lookup_method(cls, "copy")[1]
    if f is not None:
        what = "copy of a representation"
        with book.attempt(what):
            st = run.fresh()
            a = TRun.real("a", 4, 2, 2)
            R = Rep(run, st, run.method(st, make_rep(run, st, V4, True, a, 1), "copy"))
            if R.ok():
                good = R.k == 1 and R.n == 2 and R.sym.inv and all(near(x, y) for x, y in zip(R.sym.S, V4)) and all(eqm(u_of(R.na, g), u_of(a, g)) is not False for g in range(4))
                book.rep.count("obligations")
                book.rep.oblige(good, "UnitaryRepresentation.copy", f"{where(f)}: {what}: not the same representation")
            else:
                book.undecide(what, "not followed")
    f = lookup_method(cls, "check")[1]
    if f is not None:
        s2 = [eye(2), diag(-1, 1)]
        for tag, us, inv, k, want in [("a representation", [eye(2), diag(1, -1)], True, 1, True), ("matrices that do not multiply like the group", [eye(2), ((0, 1), (-1, 0))], False, 2, False),
                                      ("inversion not commuting", [eye(2), ((0, 1), (1, 0))], True, 1, False)]:
            what = f"UnitaryRepresentation.check on {tag}"
            ms = [eye(3), diag(-1, -1, 1)]
            with book.attempt(what):
                st = run.fresh()
                r = run.method(st, make_rep(run, st, ms, inv, arrs(us), k), "check")
                if r is None or not r.is_single_const():
                    book.undecide(what, "not followed")
                else:
                    book.rep.count("obligations")
                    book.rep.oblige(bool(r.const()) == want, "UnitaryRepresentation.check", f"{where(f)}: {what}: the answer is {r.const()}")


# ------------------------------------------------------------------ orbitals
def orbitals(project, book):
    if "hamiltonian_symmetry" not in project.modules:
        return
    run = TRun(project, "hamiltonian_symmetry", NumDomain())
    if "HamiltonianSymmetry" not in run.mod.classes:
        return
    cls = run.cls("HamiltonianSymmetry")
    symc = project.modules["symmetry"].classes["Symmetry"]
    cube = proper(signed_perms(3))
    hexag = closure([rot(3, 1, 3), diag(1, -1, -1)])
    mirrors = closure([diag(-1, 1, 1), diag(1, -1, 1)])
    axial = lambda s: tuple(tuple(x / det(s) for x in r) for r in s)

    def harmonic_t(s):    # yz, xz, xy under a signed permutation of the axes
        pairs = [(1, 2), (0, 2), (0, 1)]
        return tuple(tuple(s[a][c] * s[b][d] + s[b][c] * s[a][d] for c, d in pairs) for a, b in pairs)

    def harmonic_e(s):    # 2z^2 - x^2 - y^2 and x^2 - y^2, normalised, under a signed permutation of the axes
        fs = [(-6 ** -.5, -6 ** -.5, 2 * 6 ** -.5), (.5 ** .5, -.5 ** .5, 0)]
        return tuple(tuple(sum(f[i] * s[i][j] ** 2 * g[j] for i in range(3) for j in range(3)) for g in fs) for f in fs)
    cases = []
    for gname, g, inv in (("O", cube, False), ("O_h", cube, True), ("V4", V4, True), ("D3", hexag, False), ("C2v", mirrors, False)):
        cases.append(("append_s", gname, g, inv, [lambda s: ((1,),)], [1]))
        cases.append(("append_p", gname, g, inv, [lambda s: s], [-1]))
        if gname not in ("D3", "O", "O_h"):
            cases.append(("append_d3", gname, g, inv, [harmonic_t], [1]))
    for gname, g, inv in (("O", cube, False), ("O_h", cube, True)):
        cases.append(("append_d2", gname, g, inv, [harmonic_e], [1]))
        cases.append(("append_d3", gname, g, inv, [None], [1]))
        for nm in ("append_diamond_s", "append_diamond_p", "append_diamond_d3"):
            cases.append((nm, gname, g, inv, None, None))
    for name, gname, g, inv, elements, parity in cases:
        f = lookup_method(cls, name)[1]
        if f is None:
            continue
        what = f"HamiltonianSymmetry.{name} for the group {gname}"
        with book.attempt(what):
            st = run.fresh()
            s = run.new(st, symc, [run.arr(st, arrs(g)), const(inv)])
            h = run.new(st, cls, [s])
            run.method(st, h, name, [tup([const(0.25), const(0.25), const(0.5)]), const("X")])
            items = run.eng.seq_items(st, run.get_attr(st, h, "U"))
            if not items:
                book.undecide(what, "no representation followed")
                continue
            for i, u in enumerate(items):
                r = Rep(run, st, u)
                rep_checks(book, f"HamiltonianSymmetry.{name}", what + (f" (part {i + 1})" if len(items) > 1 else ""), where(f), r,
                           parity[i] if parity else None, elements[i] if elements else None)
                if name == "append_d3" and gname in ("O", "O_h") and r.ok() and r.mats() is not None and r.n == 3:
                    us = list(zip(r.sym.S, r.mats()))
                    if not all(near(u, harmonic_t(s)) for s, u in us):
                        ax = all(near(u, axial(s)) for s, u in us)
                        bad = next(s for s, u in us if not near(u, harmonic_t(s)))
                        book.rep.add(f"HamiltonianSymmetry.append_d3{'|axial' if ax else ''}", f"{where(f)}: {what}: under {show(bad)} yz, xz, xy become {show(harmonic_t(bad))}, not {show(dict(us)[bad])}")
                if r.ok():
                    hs = Sym(run, st, run.get_attr(st, h, "sym"))
                    book.rep.count("obligations")
                    book.rep.oblige(hs.ok() and len(hs.S) == len(r.sym.S) and all(near(x, y) for x, y in zip(hs.S, r.sym.S)), f"HamiltonianSymmetry.{name}",
                                    f"{where(f)}: {what}: the matrices are listed in another order than the group elements")


def check(project, tier):
    rep = Report()
    gs = groups()
    slow = [g for g in gs if g[0] == "icosahedral"]
    rest = [g for g in gs if g[0] != "icosahedral"]
    rs = predefined()
    tasks = [("g", [g]) for g in slow] + [("o", None), ("a", None), ("h", None)] + [("r", rs[i::2]) for i in range(2)] + [("g", rest[i::3]) for i in range(3)]

    def work(w, n):
        out = []
        for kind, part in tasks[w::n]:
            r = Report()
            book = Book(r)
            tm.allow_whole(500)
            if kind == "g":
                run_groups(project, book, part)
            elif kind == "o":
                operations(project, book)
            elif kind == "a":
                algebra(project, book)
            elif kind == "h":
                orbitals(project, book)
            else:
                representations(project, book, part)
            out.append((r, book.undecided))
        return out
    und = []
    for res in fork_map(work):
        for r, u in res:
            rep.absorb(r)
            und += u
    rep.assumptions = ["constants are folded in about 17 digits and compared with a tolerance of 1e-7; group parameters 1, 2, 3, 4, 6",
                       f"undecided obligations: {und[:20]}"]
    rep.explanation = "constant propagation of the constructors and tables; group axioms and homomorphism decided on the folded matrices; algebra of representations on symbolic matrices"
    return rep
