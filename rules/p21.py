"""P21: symmetrisation, orbits and the data that belongs to them.  The symmetrisers, the orbit generation and the reduction are
evaluated with concrete group elements and positions and symbolic matrices (sa.numdom), and compared with the group mean, the
orbits and the transformation law computed here from the group elements alone.  Nothing is executed."""
import cmath
import itertools
import math
from fractions import Fraction

from sa import terms as tm
from sa.numdom import NumDomain, approx, small
from sa.project import lookup_method, where
from sa.tendom import NA
from sa.terms import ZERO
from sa.values import const, tup

from .common import Report
from .p14 import Rep, arrs, both, closure, det, diag, eye, inverse, mm, near, neg, proper, rot, signed_perms, tr
from .pool import run_jobs
from .ten import TRun as TRun_, indices

MINIMUM = {"obligations": 1}
V4 = [eye(3), diag(1, -1, -1), diag(-1, 1, -1), diag(-1, -1, 1)]
O = proper(signed_perms(3))
C4 = [tuple(tuple(round(x) for x in r) for r in rot(4, k, 3)) for k in range(4)]
D3 = closure([rot(3, 1, 3), diag(1, -1, -1)])
HEXL = closure([((0, -1), (1, 1))])       # six rotations in lattice coordinates
T3 = closure([((0, 1, 0), (0, 0, 1), (1, 0, 0))])


class TRun(TRun_):
    limit = 300


# ------------------------------------------------------------------ plain side
def mv(m, v):
    return tuple(sum(a * b for a, b in zip(r, v)) for r in m)


def vadd(*vs):
    return tuple(sum(x) for x in zip(*vs))


def vneg(v):
    return tuple(-x for x in v)


def lookup(points, r, err=1e-4):
    """(index, mirrored) of r or -r in a list of points"""
    for mirror, q in ((False, r), (True, vneg(r))):
        for j, p in enumerate(points):
            if math.dist(p, q) < err:
                return j, mirror
    return None, None


def lin(ts):
    """sum of (factor, term)"""
    r = ZERO
    for c, t in ts:
        if c:
            r = tm.add(r, tm.mul(num(c), t))
    return r


def num(c):
    if isinstance(c, complex):
        return tm.add(tm.num(Fraction(c.real)), tm.mul(tm.IMAG, tm.num(Fraction(c.imag)))) if c.imag else tm.num(Fraction(c.real))
    return tm.num(Fraction(c))


def sandwich(u, h, v):
    """u^+ h v for number matrices u, v and a matrix of terms h"""
    n, m = len(u), len(v)
    return [[lin([(u[a][i].conjugate() * v[b][j], h[a][b]) for a in range(n) for b in range(m)]) for j in range(m)] for i in range(n)]


def madd(ms, f=1):
    n, m = len(ms[0]), len(ms[0][0])
    return [[tm.mul(num(f), sum_t([x[i][j] for x in ms])) for j in range(m)] for i in range(n)]


def sum_t(ts):
    r = ZERO
    for t in ts:
        r = tm.add(r, t)
    return r


def dag(h):
    return [[tm.conj(h[j][i]) for j in range(len(h))] for i in range(len(h[0]))]


def direct(*ms):
    n = sum(len(m) for m in ms)
    out = [[0] * n for _ in range(n)]
    o = 0
    for m in ms:
        for i, r in enumerate(m):
            for j, x in enumerate(r):
                out[o + i][o + j] = x
        o += len(m)
    return tuple(map(tuple, out))


def arr_mats(ms):
    return NA((len(ms), len(ms[0]), len(ms[0][0])), [num(x) for m in ms for r in m for x in r])


def pts(ps):
    return NA((len(ps), len(ps[0])), [tm.num(Fraction(x)) for p in ps for x in p])


def term_arr(ms):
    return NA((len(ms), len(ms[0]), len(ms[0][0])), [x for m in ms for r in m for x in r])


def result(run, st, r, book, key, what, f):
    """both parts of a result; a call that ends with an exception for certain is a violation"""
    if run.eng.noret:
        book.rep.count("obligations")
        book.rep.oblige(False, key, f"{where(f)}: {what} ends with an exception: {str(run.eng.noret)[:150]}")
        return None
    its = run.eng.seq_items(st, r)
    if its is None or len(its) != 2:
        book.undecide(what, "result not followed")
        return None
    return its


def agree(book, key, what, node, got, want, tol=1e-7):
    book.rep.count("obligations")
    if got is None:
        book.undecide(what, "result not followed")
        return
    if got.shape != want.shape:
        book.rep.oblige(False, key, f"{where(node)}: {what}: shape {got.shape} instead of {want.shape}")
        return
    unknown = [i for i, x in enumerate(got.e) if x is None]
    bad = next((i for i, (x, y) in enumerate(zip(got.e, want.e)) if x is not None and not small(tm.sub(x, y), tol)), None)
    if bad is None and unknown:
        book.undecide(what, "entries not followed")
        return
    ix = list(indices(want.shape))
    book.rep.oblige(bad is None, key, f"{where(node)}: {what}" + (f": entry {ix[bad]} is {str(got.e[bad])[:110]}, not {str(want.e[bad])[:110]}" if bad is not None else ""))


# ------------------------------------------------------------------ representations
def rep_cases():
    """(name, group elements, matrices, number of even functions, inversion, neighbours)"""
    out = []
    p = [[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1]]
    out.append(("p orbitals under O_h", O, O, 0, True, p))
    out.append(("p orbitals under O_h, with diagonal neighbours", O, O, 0, True, p[1:] + [[1, 1, 0], [1, -1, 0], [1, 0, 1], [1, 0, -1], [0, 1, 1], [0, 1, -1]]))
    out.append(("s and p orbitals under V4", V4, [direct(((1,),), s) for s in V4], 1, True, p[:1] + [[1, 1, 0], [1, -1, 0], [0, 0, 1]]))
    out.append(("s, d and p orbitals under C4 with inversion", C4, [direct(((1,),), ((-1 if i % 2 else 1,),), tuple(r[:2] for r in s[:2])) for i, s in enumerate(C4)], 2, True, [[0, 0, 0], [1, 2, 0], [-2, 1, 0], [0, 0, 1]]))
    out.append(("complex orbitals under C4 without inversion", C4, [((1, 0), (0, [1, 1j, -1, -1j][i])) for i in range(4)], 2, False,
                [[0, 0, 0], [1, 2, 0], [-2, 1, 0], [-1, -2, 0], [2, -1, 0]]))
    out.append(("planar p orbitals under C4 without inversion or origin", C4, [tuple(r[:2] for r in s[:2]) for s in C4], 0, False, [[1, 2, 0], [-2, 1, 0], [-1, -2, 0], [2, -1, 0]]))
    out.append(("planar p orbitals under D3 with inversion", D3, [tuple(r[:2] for r in s[:2]) for s in D3], 0, True, [[0, 0, 0], [1, 0, 0], [-.5, 3 ** .5 / 2, 0], [-.5, -3 ** .5 / 2, 0]]))
    out.append(("s and p orbitals under cyclic permutations, one neighbour mirrored", T3, [direct(((1,),), s) for s in T3], 1, True, [[0, 0, 0], [1, 2, 3], [-3, -1, -2], [2, 3, 1]]))
    out.append(("s and p orbitals under inversion alone", [eye(3)], [eye(4)], 1, True, [[0, 0, 0], [1, 2, 3], [0, 1, 0]]))
    out.append(("two orbitals without symmetry", [eye(3)], [eye(2)], 1, False, [[0, 0, 0], [1, 2, 3]]))
    out.append(("p orbitals under cyclic permutations", T3, T3, 0, True, [[0, 0, 0], [1, 2, 3], [3, 1, 2], [2, 3, 1]]))
    return out


def make_rep(run, st, S, inv, us, k):
    symc = run.p.modules["symmetry"].classes["Symmetry"]
    s = run.new(st, symc, [run.arr(st, arrs(S)), const(inv)])
    r = run.new(st, run.p.modules["unitary_representations"].classes["UnitaryRepresentation"], [s, const(len(us[0]))])
    run.set_attr(st, r, "U", run.arr(st, arr_mats(us)))
    run.set_attr(st, r, "inv_split", const(k))
    return r


def parity(h, k):
    return [[x if (i < k) == (j < k) else tm.scale(x, -1) for j, x in enumerate(r)] for i, r in enumerate(h)]


def rep_mean(S, us, k, inv, nb, H):
    """group mean of U^+ H(S r) U; H(-r) is the matrix with the sign of the mixed blocks changed"""
    out = []
    for r in nb:
        ms = []
        for s, u in zip(S, us):
            j, mirror = lookup(nb, mv(s, r))
            h = H[j]
            if inv and not any(r):
                h = [[x if (a < k) == (b < k) else ZERO for b, x in enumerate(row)] for a, row in enumerate(h)]
            elif mirror:
                h = parity(h, k)
            ms.append(sandwich(u, h, u))
        out.append(madd(ms, Fraction(1, len(S))))
    return out


def reps(project, book, case):
    if "unitary_representations" not in project.modules or "symmetry" not in project.modules:
        return
    run = TRun(project, "unitary_representations", NumDomain())
    if "UnitaryRepresentation" not in run.mod.classes:
        return
    cls = run.cls("UnitaryRepresentation")
    name, S, us, k, inv, nb = case
    n, d = len(nb), len(us[0])
    for kind in ("symmetrize", "symmetrizer"):
        f = lookup_method(cls, kind)[1]
        if f is None:
            continue
        what = f"UnitaryRepresentation.{kind} of {name}"
        with book.attempt(what):
            st = run.fresh()
            o = make_rep(run, st, S, inv, us, k)
            fun = run.method(st, o, kind, [run.arr(st, pts(nb))]) if kind == "symmetrizer" else None
            if fun is not None and run.eng.noret:
                result(run, st, fun, book, f"UnitaryRepresentation.{kind}", what, f)
                continue
            for tag in ("g", "h"):
                H = TRun.cplx(tag, n, d, d)
                hs = [[[H.at(i, a, b) for b in range(d)] for a in range(d)] for i in range(n)]
                want = rep_mean(S, us, k, inv, nb, hs)
                if fun is not None:
                    r = run.call(st, fun, [run.arr(st, H)])
                else:
                    r = run.method(st, o, kind, [run.arr(st, H), run.arr(st, pts(nb))])
                if run.eng.noret:
                    book.rep.count("obligations")
                    book.rep.oblige(False, f"UnitaryRepresentation.{kind}", f"{where(f)}: {what} ends with an exception: {str(run.eng.noret)[:150]}")
                    break
                agree(book, f"UnitaryRepresentation.{kind}", what, f, run.value(st, r), term_arr(want))
                if kind == "symmetrize":
                    break


# ------------------------------------------------------------------ orbitals with positions
def orb_cases():
    """(name, group, inversion, [(matrices, parity, position)], neighbours)"""
    out = []
    half27 = [p for p in itertools.product((-1, 0, 1), repeat=3) if next((x for x in p if x), 1) > 0]
    half27.sort(key=lambda p: sum(x * x for x in p))
    half27 = [list(p) for p in half27]
    sp = lambda S: ([((1,),) for _ in S], 1)
    pp = lambda S: (list(S), -1)
    h = [.5, .5, .5]
    out.append(("s at the corner and p in the centre under V4", V4, True, [(*sp(V4), [0, 0, 0]), (*pp(V4), h)], half27))
    out.append(("p at the corner under O_h", O, True, [(*pp(O), [0, 0, 0])], half27))
    out.append(("s at the centre, s and p at the corner under C4 without inversion", C4, False, [(*sp(C4), h), (*sp(C4), [0, 0, 0]), (*pp(C4), [0, 0, 0])],
                [list(p) for p in half27 if p[2] == 0] + [[0, 0, 1], [-1, 0, 1], [0, -1, 1], [-1, -1, 1]]))
    out.append(("p orbitals in the centre and s at the corner under cyclic permutations", T3, True, [(*pp(T3), h), (*sp(T3), [0, 0, 0])], half27[:10]))
    # an orbital at a generic distance: some of its bonds have no image among the neighbours
    out.append(("s and planar p under D3, not all bonds closed", D3, False, [(*sp(D3), [0, 0, 0]), ([tuple(r[:2] for r in s[:2]) for s in D3], -1, [0, 0, .5])],
                [[0, 0, 0], [0, 0, 1], [1, 0, 0], [-.5, 3 ** .5 / 2, 0], [-.5, -3 ** .5 / 2, 0]]))
    return out


def orb_mean(S, inv, orbs, nb, H):
    """H(-r) = H(r)^+; per pair of orbitals with the bond d = r + r2 - r1 the mean of U1^+ H(S d) U2, nothing where a bond has no image"""
    dims = [len(o[0][0]) for o in orbs]
    start = [sum(dims[:i]) for i in range(len(dims))]
    n = sum(dims)
    H = [madd([h, dag(h)], Fraction(1, 2)) if not any(r) else h for r, h in zip(nb, H)]

    def block(hs, r, a, b):
        j, mirror = lookup(nb, r)
        if j is None:
            return None
        h = dag(hs[j]) if mirror else hs[j]
        return [[h[start[a] + x][start[b] + y] for y in range(dims[b])] for x in range(dims[a])]

    def build(f):
        out = []
        for r in nb:
            m = [[ZERO] * n for _ in range(n)]
            for a, oa in enumerate(orbs):
                for b, ob in enumerate(orbs):
                    q = f(r, a, oa, b, ob)
                    if q is not None:
                        for x in range(dims[a]):
                            for y in range(dims[b]):
                                m[start[a] + x][start[b] + y] = q[x][y]
            out.append(m)
        return out
    if inv:
        def step(r, a, oa, b, ob):
            d = vadd(r, ob[2], vneg(oa[2]))
            q = block(H, vadd(vneg(d), oa[2], vneg(ob[2])), a, b)
            return None if q is None else madd([block(H, r, a, b), madd([q], oa[1] * ob[1])], Fraction(1, 2))
        H2 = build(step)
    else:
        H2 = H

    def turn(r, a, oa, b, ob):
        d = vadd(r, ob[2], vneg(oa[2]))
        ms = []
        for s, u1, u2 in zip(S, oa[0], ob[0]):
            q = block(H2, vadd(mv(s, d), oa[2], vneg(ob[2])), a, b)
            if q is None:
                return None
            ms.append(sandwich(u1, q, u2))
        return madd(ms, Fraction(1, len(S)))
    return build(turn)


def make_orb(run, st, S, inv, orbs):
    symc = run.p.modules["symmetry"].classes["Symmetry"]
    s = run.new(st, symc, [run.arr(st, arrs(S)), const(inv)])
    h = run.new(st, run.cls("HamiltonianSymmetry"), [s])
    for us, par, pos in orbs:
        u = make_rep(run, st, S, inv, us, len(us[0]) if par > 0 else 0)
        run.method(st, h, "append", [u, run.arr(st, NA((len(pos),), [tm.num(Fraction(x)) for x in pos])), const("X")])
    return h


def orbs(project, book, case):
    need = ("hamiltonian_symmetry", "unitary_representations", "symmetry")
    if any(m not in project.modules for m in need):
        return
    run = TRun(project, "hamiltonian_symmetry", NumDomain())
    if "HamiltonianSymmetry" not in run.mod.classes:
        return
    cls = run.cls("HamiltonianSymmetry")
    name, S, inv, os, nb = case
    n, d = len(nb), sum(len(o[0][0]) for o in os)
    for kind in ("symmetrize", "symmetrizer"):
        f = lookup_method(cls, kind)[1]
        if f is None:
            continue
        what = f"HamiltonianSymmetry.{kind} of {name}"
        with book.attempt(what):
            st = run.fresh()
            o = make_orb(run, st, S, inv, os)
            fun = run.method(st, o, kind, [run.arr(st, pts(nb))]) if kind == "symmetrizer" else None
            for tag in ("g", "h"):
                H = TRun.cplx(tag, n, d, d)
                hs = [[[H.at(i, a, b) for b in range(d)] for a in range(d)] for i in range(n)]
                want = orb_mean(S, inv, os, nb, hs)
                r = run.call(st, fun, [run.arr(st, H)]) if fun is not None else run.method(st, o, kind, [run.arr(st, H), run.arr(st, pts(nb))])
                agree(book, f"HamiltonianSymmetry.{kind}", what, f, run.value(st, r), term_arr(want))
                if fun is None:
                    break


K0 = (Fraction(1, 8), Fraction(3, 16), Fraction(-5, 16))


def turned(u1, h, u2):
    """u1 h u2^+"""
    return sandwich(tuple(tuple(x.conjugate() for x in r) for r in zip(*u1)), h, tuple(tuple(x.conjugate() for x in r) for r in zip(*u2)))


def images(project, book, case):
    """matrices at the images of a k-point"""
    name, S, inv, os, nb = case
    need = ("hamiltonian_symmetry", "unitary_representations", "symmetry")
    if any(m not in project.modules for m in need):
        return
    run = TRun(project, "hamiltonian_symmetry", NumDomain())
    cls = run.mod.classes.get("HamiltonianSymmetry")
    if cls is None:
        return
    dims = [len(o[0][0]) for o in os]
    start = [sum(dims[:i]) for i in range(len(dims))]
    d = sum(dims)
    H = TRun.hermitian("h", d)

    def law(g, v):
        q = mv(tr(inverse(S[g])), K0)
        q = vneg(q) if v else q
        dk = tuple(float(a - b) for a, b in zip(K0, q))
        m = [[ZERO] * d for _ in range(d)]
        for a, oa in enumerate(os):
            for b, ob in enumerate(os):
                blk = [[H.at(start[a] + x, start[b] + y) for y in range(dims[b])] for x in range(dims[a])]
                ph = cmath.exp(2j * math.pi * sum(x * (y - z) for x, y, z in zip(dk, ob[2], oa[2]))) * (oa[1] * ob[1] if v else 1)
                blk = turned(oa[0][g], blk, ob[0][g])
                for x in range(dims[a]):
                    for y in range(dims[b]):
                        m[start[a] + x][start[b] + y] = tm.mul(num(ph), blk[x][y])
        return q, m
    f = lookup_method(cls, "apply")[1]
    if f is not None:
        for g in sorted({0, 1, len(S) // 2, len(S) - 1}):
            for v in (False, True) if inv else (False,):
                what = f"HamiltonianSymmetry.apply of element {g}{' with inversion' if v else ''}: {name}"
                with book.attempt(what):
                    st = run.fresh()
                    r = run.method(st, make_orb(run, st, S, inv, os), "apply", [run.arr(st, NA((3,), [tm.num(x) for x in K0])), run.arr(st, H), const(g)], {"inversion": const(v)})
                    agree(book, "HamiltonianSymmetry.apply", what, f, run.value(st, r), NA((d, d), [x for row in law(g, v)[1] for x in row]))
    f = lookup_method(cls, "realize_symmetric")[1]
    if f is not None and len(S) < 10:
        what = f"HamiltonianSymmetry.realize_symmetric: {name}"
        with book.attempt(what):
            st = run.fresh()
            r = run.method(st, make_orb(run, st, S, inv, os), "realize_symmetric", [run.arr(st, pts([K0])), run.arr(st, NA((1, d, d), H.e))])
            its = run.eng.seq_items(st, r)
            laws = [law(g, v) for g in range(len(S)) for v in ((False, True) if inv else (False,))]
            at_images(run, st, book, f, what, "HamiltonianSymmetry.realize_symmetric", its, laws, d)


def at_images(run, st, book, f, what, key, its, laws, d):
    got = rows(run.value(st, its[0])) if its is not None and len(its) > 1 else None
    if got is None:
        book.undecide(what, "result not followed")
        return
    bad = same_points(got, [tuple(map(float, q)) for q, _ in laws])
    book.rep.count("obligations")
    book.rep.oblige(bad is None, key + "|points", f"{where(f)}: {what}: {bad}")
    if bad is None:
        ms = [next(m for q, m in laws if math.dist(q, p) < 1e-6) for p in got]
        agree(book, key + "|data", what, f, run.value(st, its[1]), term_arr(ms))


def rep_images(project, book, case):
    run = TRun(project, "unitary_representations", NumDomain())
    cls = run.mod.classes.get("UnitaryRepresentation")
    f = lookup_method(cls, "realize_symmetric_matrices")[1] if cls is not None else None
    name, S, us, k, inv, nb = case
    if f is None or any(isinstance(x, complex) for u in us for r in u for x in r) or not all(near(mm(s, tr(s)), eye(3)) for s in S):
        return
    d = len(us[0])
    H = TRun.cplx("h", d, d)
    h = [[H.at(a, b) for b in range(d)] for a in range(d)]
    for inverse_ in (False, True):
        what = f"realize_symmetric_matrices{' with the inverse' if inverse_ else ''}: {name}"
        with book.attempt(what):
            st = run.fresh()
            r = run.method(st, make_rep(run, st, S, inv, us, k), "realize_symmetric_matrices", [run.arr(st, pts([K0])), run.arr(st, NA((1, d, d), H.e))], {"inverse": const(inverse_)})
            laws = []
            for s, u in zip(S, us):
                m = sandwich(u, h, u) if inverse_ else turned(u, h, u)
                laws += [(mv(s, K0), m)] + ([(vneg(mv(s, K0)), parity(m, k))] if inv else [])
            at_images(run, st, book, f, what, "UnitaryRepresentation.realize_symmetric_matrices", run.eng.seq_items(st, r), laws, d)


def invariants(project, book, case):
    """symmetrize2: the mean over the operations that leave a point in place"""
    run = TRun(project, "unitary_representations", NumDomain())
    cls = run.mod.classes.get("UnitaryRepresentation")
    f = lookup_method(cls, "symmetrize2")[1] if cls is not None else None
    name, S, us, k, inv, nb = case
    if f is None:
        return
    d = len(us[0])
    ps = [(0, 0, 0), (0, 0, 1), (1, 0, 0), (1, 1, 0), (.5, .25, .125)]
    what = f"symmetrize2: {name}"
    with book.attempt(what):
        st = run.fresh()
        H = TRun.cplx("h", len(ps), d, d)
        want = []
        for i, p in enumerate(ps):
            h = [[H.at(i, a, b) for b in range(d)] for a in range(d)]
            ms = []
            for s, u in zip(S, us):
                if math.dist(mv(s, p), p) < 1e-9:
                    ms.append(turned(u, h, u))
                if inv and math.dist(mv(s, p), vneg(p)) < 1e-9:
                    ms.append(parity(turned(u, h, u), k))
            want.append(madd(ms, Fraction(1, len(ms))))
        r = run.method(st, make_rep(run, st, S, inv, us, k), "symmetrize2", [run.arr(st, pts(ps)), run.arr(st, H)])
        agree(book, "UnitaryRepresentation.symmetrize2", what, f, run.value(st, r), term_arr(want))


# ------------------------------------------------------------------ tensors
def tensors(project, book):
    run = TRun(project, "symmetry", NumDomain())
    if "Symmetry" not in run.mod.classes:
        return
    cls = run.cls("Symmetry")
    f = lookup_method(cls, "symmetrize")[1]
    if f is None:
        return
    groups = [("O", O, False), ("O_h", O, True), ("V4", V4, False), ("V4 with inversion", V4, True), ("C4", C4, False), ("six rotations in lattice coordinates", HEXL, False),
              ("the same with inversion", HEXL, True), ("S4", [mm(s, diag(1, 1, -1 if i % 2 else 1)) for i, s in enumerate(C4)], False)]
    for gname, S, inv in groups:
        full = both(S, inv)
        n = len(S[0])
        for rank in ((1, 1), (0, 1), (1, 0), (2, 0), (0, 2), (0, 3), (1, 2)):
            k = sum(rank)
            if k == 3 and len(full) * n ** 6 > 20000:
                continue
            for pseudo in (False, True):
                if pseudo and rank not in ((1, 1), (0, 1), (0, 3)):
                    continue
                what = f"symmetrize of a{' pseudo' if pseudo else ''} tensor of rank {rank} under {gname}"
                with book.attempt(what):
                    T = TRun.cplx("t", *[n] * k) if rank == (1, 1) else TRun.real("t", *[n] * k)
                    want = []
                    for ix in indices((n,) * k):
                        parts = []
                        for s in full:
                            si = inverse(s)
                            sg = (1 if det(s) > 0 else -1) if pseudo else 1
                            for jx in indices((n,) * k):
                                c = sg
                                for p, (i, j) in enumerate(zip(ix, jx)):
                                    c = c * (si[i][j] if p < rank[0] else s[j][i])
                                    if not c:
                                        break
                                if c:
                                    parts.append((Fraction(c) / len(full), T.at(*jx)))
                        want.append(lin(parts))
                    st = run.fresh()
                    s = run.new(st, cls, [run.arr(st, arrs(S)), const(inv)])
                    r = run.method(st, s, "symmetrize", [run.arr(st, T)], {"rank": tup([const(rank[0]), const(rank[1])]), "pseudo_tensor": const(pseudo)})
                    agree(book, "Symmetry.symmetrize", what, f, run.value(st, r), NA((n,) * k, want))


# ------------------------------------------------------------------ orbits
def orbit(full, k):
    out = []
    for s in full:
        q = mv(s, k)
        if all(math.dist(q, x) > 1e-9 for x in out):
            out.append(q)
    return out


def folded(k):
    return tuple(((x + .5 + 1e-9) % 1.0) - .5 - 1e-9 for x in k)


def rows(na):
    v = approx(na) if na is not None and na.known() else None
    if v is None or len(na.shape) != 2:
        return None
    d = na.shape[1]
    return [tuple(float(x.real) for x in v[i:i + d]) for i in range(0, len(v), d)]


def same_points(got, want, tol=1e-6):
    """None, or what is wrong with a list that should hold every wanted point once"""
    left = list(want)
    for g in got:
        j = next((i for i, w in enumerate(left) if math.dist(g, w) < tol), None)
        if j is None:
            twice = any(math.dist(g, w) < tol for w in want)
            return f"{tuple(round(x, 4) for x in g)} " + ("occurs twice" if twice else "is not an image of a given point")
        del left[j]
    return f"the image {tuple(round(x, 4) for x in left[0])} is missing" if left else None


L6 = [tuple(r + (0,) for r in s) + ((0, 0, 1),) for s in HEXL]
KS = [("L6 (six rotations in lattice coordinates)", L6, False), ("O_h", O, True), ("O", O, False), ("V4 with inversion", V4, True), ("C4 without inversion", C4, False), ("D3 with inversion", D3, True)]


def orbit_jobs(project, book, group):
    run = TRun(project, "symmetry", NumDomain())
    if "Symmetry" not in run.mod.classes:
        return
    cls = run.cls("Symmetry")
    gname, S, inv = group
    full = both(S, inv)

    def sym(st):
        return run.new(st, cls, [run.arr(st, arrs(S)), const(inv)])

    def has(name):
        return lookup_method(cls, name)[1]

    def verdict(key, what, f, bad):
        book.rep.count("obligations")
        book.rep.oblige(bad is None, key, f"{where(f)}: {what}: {bad}")
    ks = [(0, 0, 0), (.25, 0, 0), (.25, .25, 0), (.125, .25, .375), (0, 0, .125)]
    if gname.startswith("O"):
        ks = ks[:4]
    red = []
    for k in ks:
        if not any(math.dist(q, x) < 1e-9 for x in red for q in orbit(full, k)):
            red.append(k)
    data = TRun.real("y", len(red), 2)
    f = has("realize_symmetric")
    for unit in (False, True):
        for edge in (False, True) if unit else (False,):
            src = red if not edge else red[:2] + [(.5, .25, 0), (.5, .5, .5)] + ([(0, 0, .5)] if not gname.startswith("O") and gname[:2] not in ("D3", "L6") else [])
            if edge and gname.startswith("D3"):
                continue        # not a symmetry of the cubic cell
            want = {}
            for i, k in enumerate(src):
                for q in orbit(full, k):
                    q = folded(q) if unit else q
                    if all(math.dist(q, x) > 1e-7 for x in want):
                        want[q] = i
            names = [n for n in ("realize_symmetric", "realize_symmetric_data") if has(n)]
            for name in names:
                for coll in (False, True):
                    f = has(name)
                    opt = {"realize_symmetric": "collect_bad_duplicates", "realize_symmetric_data": "average_bad_duplicates"}[name]
                    if coll and opt not in {a.arg for a in f.args.args + f.args.kwonlyargs}:
                        continue
                    what = f"{name} of {len(src)} points under {gname}{', folded into the cell' if unit else ''}{', ' + opt if coll else ''}"
                    with book.attempt(what):
                        st = run.fresh()
                        dat = TRun.real("y", len(src), 2)
                        a = [run.arr(st, pts(src))] + ([run.arr(st, dat)] if name.endswith("data") else [])
                        r = run.method(st, sym(st), name, a, dict({"unit_cell": const(unit)}, **({opt: const(True)} if coll else {})))
                        its = result(run, st, r, book, f"Symmetry.{name}", what, f)
                        if its is None:
                            continue
                        got = rows(run.value(st, its[0]))
                        if got is None:
                            book.undecide(what, "points not followed")
                            continue
                        verdict(f"Symmetry.{name}|points", what, f, same_points(got, list(want)))
                        src_of = [next((i for q, i in want.items() if math.dist(g, q) < 1e-6), None) for g in got]
                        if None in src_of:
                            continue
                        if name.endswith("data"):
                            w = NA((len(got), 2), [dat.at(i, c) for i in src_of for c in range(2)])
                            agree(book, f"Symmetry.{name}|data", what + ": data of every point", f, run.value(st, its[1]), w)
                        else:
                            w = NA((len(got), 1) if coll else (len(got),), [tm.num(i) for i in src_of])
                            agree(book, f"Symmetry.{name}|order", what + ": source of every point", f, run.value(st, its[1]), w)
                        keys = [tuple(round(x, 3) for x in g) for g in got]
                        # the last axis sorted last: fastest axis is the first one
                        srt = sorted(keys, key=lambda q: q[::-1])
                        verdict(f"Symmetry.{name}|sorted", what + ": order of the points", f, None if keys == srt else "the points are not sorted by their components")
    # points that are images of each other: every point once, with all its sources, and the mean of their data
    src = list(red)
    for k in red[1:3]:
        src += [q for q in orbit(full, k) if math.dist(q, k) > 1e-9][:1]
    sources = {}
    for i, k in enumerate(src):
        for q in orbit(full, k):
            sources.setdefault(next((x for x in sources if math.dist(x, q) < 1e-7), q), []).append(i)
    for name, opt in (("realize_symmetric", "collect_bad_duplicates"), ("realize_symmetric_data", "average_bad_duplicates")):
        f = has(name)
        if f is None or opt not in {a.arg for a in f.args.args + f.args.kwonlyargs} or len(src) == len(red):
            continue
        what = f"{name} of {len(src)} points with equivalent ones under {gname}, {opt}"
        with book.attempt(what):
            st = run.fresh()
            dat = TRun.real("y", len(src), 2)
            r = run.method(st, sym(st), name, [run.arr(st, pts(src))] + ([run.arr(st, dat)] if name.endswith("data") else []), {opt: const(True)})
            its = result(run, st, r, book, f"Symmetry.{name}", what, f)
            got = rows(run.value(st, its[0])) if its is not None else None
            if got is None:
                book.undecide(what, "points not followed")
                continue
            bad = same_points(got, list(sources))
            verdict(f"Symmetry.{name}|points", what, f, bad)
            if bad is not None:
                continue
            src_of = [next(i for q, i in sources.items() if math.dist(g, q) < 1e-6) for g in got]
            if name.endswith("data"):
                w = NA((len(got), 2), [lin([(Fraction(1, len(i)), dat.at(j, c)) for j in i]) for i in src_of for c in range(2)])
                agree(book, f"Symmetry.{name}|mean", what + ": mean of the data of equivalent points", f, run.value(st, its[1]), w)
            else:
                lists = run.eng.seq_items(st, its[1])
                vals = [run.value(st, x) for x in lists] if lists is not None else [None]
                if any(v is None or not v.known() for v in vals) or len(vals) != len(got):
                    book.undecide(what, "sources not followed")
                    continue
                bad = next((f"the point {tuple(round(x, 4) for x in g)} has the sources {[int(x.const()) for x in v.e]} instead of {i}"
                            for g, v, i in zip(got, vals, src_of) if sorted(x.const() for x in v.e) != i), None)
                verdict(f"Symmetry.{name}|sources", what, f, bad)
    f = has("reduce_symmetric_data")
    if f is not None and gname[:2] != "L6":
        lattices = [("orbits of five points", [q for k in red for q in orbit(full, k)], red)]
        # many shells of close radius
        close = [(.3, .01, 0), (.29, .02, .05), (.3, .02, .03), (.31, 0, .02), (.297, .03, .04)]
        lattices.append(("orbits of points of almost equal length", [q for k in (close if len(full) < 20 else close[:3]) for q in orbit(full, k)], close if len(full) < 20 else close[:3]))
        equal = [(.5, 0, 0), (.3, .4, 0)]
        lattices.append(("orbits of points of equal length", [q for k in equal for q in orbit(full, k)][:30], equal))
        for lname, ps, reps_ in lattices:
            ids = [next(i for i, k in enumerate(reps_) if any(math.dist(p, q) < 1e-9 for q in orbit(full, k))) for p in ps]
            what = f"reduce_symmetric_data of {lname} under {gname}"
            with book.attempt(what):
                st = run.fresh()
                dat = NA((len(ps), 1), [tm.num(Fraction(i + 1, 3)) for i in ids])
                r = run.method(st, sym(st), "reduce_symmetric_data", [run.arr(st, pts(ps)), run.arr(st, dat)])
                its = result(run, st, r, book, "Symmetry.reduce_symmetric_data", what, f)
                got = rows(run.value(st, its[0])) if its is not None else None
                val = run.value(st, its[1]) if got is not None else None
                if got is None or val is None or not val.known():
                    book.undecide(what, "result not followed")
                    continue
                cl = [next((i for i, k in enumerate(reps_) if any(math.dist(p, q) < 1e-6 for q in orbit(full, k))), None) for p in got]
                bad = None
                if None in cl:
                    bad = "a point that was not given"
                elif len(set(cl)) < len(cl):
                    i = next(i for i in cl if cl.count(i) > 1)
                    bad = f"{cl.count(i)} points of the orbit of {reps_[i]} are left"
                elif len(set(cl)) < len(reps_):
                    bad = f"no point of the orbit of {reps_[next(i for i in range(len(reps_)) if i not in cl)]} is left"
                verdict("Symmetry.reduce_symmetric_data|points", what, f, bad)
                if bad is None:
                    agree(book, "Symmetry.reduce_symmetric_data|data", what + ": data of every point", f, val, NA((len(got), 1), [tm.num(Fraction(i + 1, 3)) for i in cl]))
        ps = orbit(full, (.3, .01, .02))
        for other in ((2, 0), (Fraction(1, 2), 0), (0, 1)):
            for checked in (True, False):
                what = f"reduce_symmetric_data(checked={checked}) of data {tuple(map(float, other))} at the image of a point with data (1, 0) under {gname}"
                if len(ps) < 2:
                    continue
                with book.attempt(what):
                    st = run.fresh()
                    dat = NA((len(ps), 2), [tm.num(x) for i in range(len(ps)) for x in (other if i == len(ps) - 1 else (1, 0))])
                    r = run.method(st, sym(st), "reduce_symmetric_data", [run.arr(st, pts(ps)), run.arr(st, dat)], {"checked": const(checked)})
                    ended = bool(run.eng.noret)
                    its = None if ended else run.eng.seq_items(st, r)
                    if not ended and (its is None or rows(run.value(st, its[0])) is None):
                        book.undecide(what, "result not followed")
                        continue
                    verdict("Symmetry.reduce_symmetric_data|checked", what, f, None if ended == checked else "ends with an exception" if ended else "asymmetric data is not refused")
    f = has("complete_neighbors")
    if f is not None:
        what = f"complete_neighbors under {gname}"
        src = [(0, 0, 0), (1, 0, 0), (1, 1, 0)] if gname.startswith("O") else [(0, 0, 0), (1, 0, 0), (0, 1, 2)] if gname[:2] not in ("D3", "L6") else [(0, 0, 0), (2, 1, 0), (0, 1, 2)] if gname[:2] == "L6" else [(0, 0, 0), (1, 0, 0), (0, 0, 1)]
        tfull = both([tr(s) for s in S], True)
        with book.attempt(what):
            st = run.fresh()
            r = run.method(st, sym(st), "complete_neighbors", [run.arr(st, pts(src))], {"return_order": const(True)})
            its = result(run, st, r, book, "Symmetry.complete_neighbors", what, f)
            got = rows(run.value(st, its[0])) if its is not None else None
            if got is None:
                book.undecide(what, "result not followed")
            else:
                want = []
                for k in src:
                    for q in orbit(both([tr(s) for s in S], inv), k):
                        if next((x for x in q if abs(x) > 1e-9), 1) > 0 and all(math.dist(q, w) > 1e-9 for w in want):
                            want.append(q)
                bad = same_points(got, want)
                if bad is None and any(math.hypot(*got[i]) > math.hypot(*got[i + 1]) + 1e-9 for i in range(len(got) - 1)):
                    bad = "not sorted by distance"
                if bad is None and any(got[0]):
                    bad = "the origin is not the first neighbour"
                verdict("Symmetry.complete_neighbors|points", what, f, bad)
                if bad is None:
                    w = [next(i for i, k in enumerate(src) if any(math.dist(g, q) < 1e-6 for q in orbit(tfull, k))) for g in got]
                    agree(book, "Symmetry.complete_neighbors|order", what + ": source of every neighbour", f, run.value(st, its[1]), NA((len(w),), [tm.num(i) for i in w]))
    kk = [(0, 0, 0), (.25, 0, 0), (.5, .5, 0), (.125, .25, .375), (.5, .25, .125), (.5, .5, .5)]
    if gname.startswith("D3"):
        kk = [(0, 0, 0), (.25, 0, 0), (0, 0, .125), (.125, .25, .375)]
    for name in ("k_weight", "r_class_size"):
        f = has(name)
        if f is None or name == "k_weight" and gname.startswith("D3"):
            continue
        what = f"{name} under {gname}"
        with book.attempt(what):
            st = run.fresh()
            r = run.value(st, run.method(st, sym(st), name, [run.arr(st, pts(kk))]))
            w = []
            for k in kk:
                if name == "r_class_size":
                    w.append(tm.num(len(orbit(full, k))))
                else:
                    # operations that leave the point in place up to a lattice vector
                    w.append(tm.num(Fraction(1, sum(1 for s in [t for g in S for t in ([g, neg(g)] if inv else [g])] if all(abs(a - b - round(a - b)) < 1e-9 for a, b in zip(mv(s, k), k))))))
            agree(book, f"Symmetry.{name}", what, f, r, NA((len(kk),), w))
    f = has("find_classes")
    if f is not None:
        ps = [q for k in ((.25, 0, 0), (0, .125, .25)) for q in orbit(full, k)][:14] + [(.3, .1, .2)]
        what = f"find_classes under {gname}"
        with book.attempt(what):
            st = run.fresh()
            r = run.method(st, sym(st), "find_classes", [run.arr(st, pts(ps))])
            cl = classes(run, st, r)
            if cl is None:
                book.undecide(what, "result not followed")
            else:
                want = {}
                for i, p in enumerate(ps):
                    if not any(i in c for c in want.values()):
                        want[i] = frozenset(j for j, q in enumerate(ps) if any(math.dist(q, x) < 1e-9 for x in orbit(full, p)))
                bad = None if cl == want else f"the classes are { {k: sorted(v) for k, v in cl.items()} }, not { {k: sorted(v) for k, v in want.items()} }"
                verdict("Symmetry.find_classes", what, f, bad)
    f = has("check_neighbors")
    if f is not None:
        good = [q for k in ((0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 0, 1)) for q in orbit(both([tr(s) for s in full]), k)]
        good = [q for i, q in enumerate(good) if next((x for x in q if abs(x) > 1e-9), 1) > 0 and all(math.dist(q, w) > 1e-9 for w in good[:i])]
        for tag, ps, ok in (("a complete list", good, True), ("a list with one neighbour missing", good[:2] + good[3:] if len(good) > 3 else None, False)):
            if ps is None or not ok and gname.startswith("V4"):
                continue
            what = f"check_neighbors of {tag} under {gname}"
            with book.attempt(what):
                st = run.fresh()
                run.eng.noret = False
                run.method(st, sym(st), "check_neighbors", [run.arr(st, pts(ps))])
                died = bool(run.eng.noret)
                verdict("Symmetry.check_neighbors", what, f, None if died != ok else ("ends with an exception" if died else "is accepted"))


def classes(run, st, v):
    """dict of sets of numbers"""
    if v is None or len(v.refs) != 1:
        return None
    o = st.heap.get(next(iter(v.refs)))
    if o is None or o.kind != "dict":
        return None
    out = {}
    for k, x in o.fields.items():
        if k == "#exact":
            continue
        its = run.eng.seq_items(st, x)
        if its is None and len(x.refs) == 1:
            q = st.heap.get(next(iter(x.refs)))
            its = q.fields.get("#items") if q is not None else None
        if its is None or any(not i.is_single_const() for i in its):
            return None
        kk = k[1] if isinstance(k, tuple) else k
        out[kk] = frozenset(i.const() for i in its)
    return out


def check(project, tier):
    rep = Report()
    jobs = [(lambda b, c=c: reps(project, b, c)) for c in rep_cases()] + [(lambda b, c=c: orbs(project, b, c)) for c in orb_cases()]
    jobs += [(lambda b, c=c, f=f: f(project, b, c)) for c in rep_cases() for f in (rep_images, invariants)] + [(lambda b, c=c: images(project, b, c)) for c in orb_cases()]
    jobs += [(lambda b, g=g: orbit_jobs(project, b, g)) for g in KS] + [lambda b: tensors(project, b)]
    und = run_jobs(rep, jobs)
    rep.assumptions = ["group elements, positions and temperatures of the cases are representatives; the matrices and tensors are arbitrary (symbols)",
                       f"undecided obligations: {und[:20]}"]
    rep.explanation = "abstract evaluation with concrete groups and symbolic data, compared with the group mean, the orbits and the stabilisers computed from the elements"
    return rep
