"""Calling the code with small symbolic tensors (sa.tendom): shared by P05, P06, P07, ..."""
from sa import terms as tm
from sa.driver import Driver
from sa.engine import FrameCtx
from sa.project import lookup_method
from sa.tendom import NA, TenDomain
from sa.terms import T, ZERO
from sa.values import EMPTY, FnV, Obj, V, const, data, ref


class TRun:
    limit = 60      # seconds for one call
    died = []       # functions called from here that raise on every path

    def __init__(self, project, mod, dom=None):
        self.p = project
        self.dom = dom or TenDomain()
        self.drv = Driver(project, self.dom)
        self.eng = self.drv.eng
        self.mod = project.modules[mod]
        self.oids = 0

    def fresh(self):
        return self.drv.fresh()

    def start(self):
        tm.allow(self.limit)
        eng = self.eng
        eng.fids = [("mod", self.mod.name)]
        eng.ctx = [FrameCtx(None)]
        eng.callstack, eng.exc_acc, eng.entry = [], [], None
        self.oids += 1
        eng.itertag = [("call", self.oids)]     # objects of different calls are kept apart

    def node(self):
        return next(iter(self.mod.classes.values())).node if self.mod.classes else next(iter(self.mod.funcs.values()))

    def cls(self, name):
        return self.mod.classes[name]

    # ------------------------------------------------------------ inputs
    def arr(self, st, na):
        return self.dom.new(st, na)

    @staticmethod
    def real(name, *shape):
        return NA(shape, [tm.sym(name + "".join(map(str, ix)), (), True) for ix in indices(shape)])

    @staticmethod
    def cplx(name, *shape):
        return NA(shape, [tm.csym(name + "".join(map(str, ix))) for ix in indices(shape)])

    @staticmethod
    def hermitian(name, n):
        return NA((n, n), [tm.sym(f"{name}{i}{i}", (), True) if i == j else tm.csym(f"{name}{i}{j}") if i < j else tm.conj(tm.csym(f"{name}{j}{i}"))
                           for i in range(n) for j in range(n)])

    def inst(self, st, cls, **fields):
        self.oids += 1
        oid = ("ten", self.oids)
        st.heap[oid] = Obj("inst", cls, fields)
        return ref(oid)

    # ------------------------------------------------------------ calls
    def ended(self, st, r):
        if (st.dead or self.eng.noret) and self.dom.concrete:
            TRun.died.append(self.eng.noret or None)
        st.dead = False
        return r

    def call(self, st, f, args, kw=None):
        self.start()
        return self.ended(st, self.eng.call(st, f, args, kw or {}, self.node()))

    def new(self, st, cls, args, kw=None):
        self.start()
        self.eng.noret = False
        return self.ended(st, self.eng.instantiate(st, cls, args, kw or {}, cls.node))

    def method(self, st, obj, name, args=(), kw=None):
        self.start()
        f = self.eng.getattr(st, obj, name, self.node())
        self.eng.noret = False
        return self.ended(st, self.eng.call(st, f, list(args), kw or {}, self.node()))

    def static(self, st, cls, name, args, kw=None):
        c, f = lookup_method(cls, name)
        self.start()
        return self.ended(st, self.eng.call_fn(st, FnV(f, ("mod", c.mod.name)), list(args), kw or {}, f))

    def function(self, st, name, args, kw=None):
        """a function of the module"""
        f = self.mod.funcs[name]
        self.start()
        self.eng.noret = False
        return self.ended(st, self.eng.call_fn(st, FnV(f, ("mod", self.mod.name)), list(args), kw or {}, f))

    def get_attr(self, st, obj, name):
        self.start()
        return self.eng.getattr(st, obj, name, self.node())

    def set_attr(self, st, obj, name, v):
        (oid,) = obj.refs
        st.heap[oid] = st.heap[oid].set(name, v)

    def value(self, st, v):
        return self.dom.get(self.eng, st, v) if v is not None else None


def indices(shape):
    if not shape:
        return [()]
    return [(i,) + r for i in range(shape[0]) for r in indices(shape[1:])]


def dagger(a):
    """conjugate transpose in the last two axes"""
    *b, n, m = a.shape
    return NA((*b, m, n), [None if a.at(*ix, i, j) is None else tm.conj(a.at(*ix, i, j)) for ix in indices(tuple(b)) for j in range(m) for i in range(n)])
