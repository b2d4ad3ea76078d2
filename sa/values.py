"""Abstract values: a canonical join of alternatives."""

EMPTY = frozenset()


class Data:
    """A number / array / string / opaque value.  st: symbolic buffers it may share; ty: coarse type;
    x: facet of the active domain (hashable) ; cls: opaque."""
    __slots__ = ("st", "ty", "x", "_h")

    def __init__(self, st=EMPTY, ty="any", x=None):
        self.st, self.ty, self.x = st, ty, x
        self._h = None

    def __eq__(self, o):
        return self is o or (isinstance(o, Data) and self.st == o.st and self.ty == o.ty and self.x == o.x)

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.st, self.ty, self.x))
        return self._h

    def __repr__(self):
        return f"D({self.ty}{',' + str(sorted(map(str, self.st))) if self.st else ''}{',x=' + str(self.x) if self.x is not None else ''})"


class FnV:
    """function or lambda with its defining frame"""
    __slots__ = ("node", "env", "defs")

    def __init__(self, node, env, defs=None):
        self.node, self.env, self.defs = node, env, defs     # defs: values of the defaults where the function was defined

    def __eq__(self, o):
        return isinstance(o, FnV) and self.node is o.node and self.env == o.env and self.defs == o.defs

    def __hash__(self):
        return hash((id(self.node), self.env))

    def __repr__(self):
        return f"fn:{self.node._qual}"


class BoundV:
    __slots__ = ("recv", "fn", "cls")

    def __init__(self, recv, fn, cls):
        self.recv, self.fn, self.cls = recv, fn, cls

    def __eq__(self, o):
        return isinstance(o, BoundV) and self.recv == o.recv and self.fn == o.fn

    def __hash__(self):
        return hash((self.recv, self.fn))

    def __repr__(self):
        return f"bound:{self.fn}"


class ClsV:
    __slots__ = ("cls",)

    def __init__(self, cls):
        self.cls = cls

    def __eq__(self, o):
        return isinstance(o, ClsV) and self.cls is o.cls

    def __hash__(self):
        return hash(id(self.cls))

    def __repr__(self):
        return f"cls:{self.cls.name}"


class ModV:
    __slots__ = ("mod",)

    def __init__(self, mod):
        self.mod = mod

    def __eq__(self, o):
        return isinstance(o, ModV) and self.mod is o.mod

    def __hash__(self):
        return hash(id(self.mod))

    def __repr__(self):
        return f"mod:{self.mod.name}"


class ExtV:
    """external dotted path such as numpy.linalg.norm"""
    __slots__ = ("path",)

    def __init__(self, path):
        self.path = path

    def __eq__(self, o):
        return isinstance(o, ExtV) and self.path == o.path

    def __hash__(self):
        return hash(self.path)

    def __repr__(self):
        return f"ext:{self.path}"


class ExtM:
    """method of a data value / list / dict: recv.name"""
    __slots__ = ("recv", "name")

    def __init__(self, recv, name):
        self.recv, self.name = recv, name

    def __eq__(self, o):
        return isinstance(o, ExtM) and self.name == o.name and self.recv == o.recv

    def __hash__(self):
        return hash((self.name, self.recv))

    def __repr__(self):
        return f"extm:{self.name}"


class PartialV:
    """lambda-like wrapper made by a domain (unused alternatives keep generic)"""
    __slots__ = ("kind", "payload")

    def __init__(self, kind, payload):
        self.kind, self.payload = kind, payload

    def __eq__(self, o):
        return isinstance(o, PartialV) and (self.kind, self.payload) == (o.kind, o.payload)

    def __hash__(self):
        return hash((self.kind, self.payload))


MAXCONST = 8


class V:
    __slots__ = ("consts", "data", "tups", "refs", "fns", "unbound", "_h")

    def __init__(self, consts=EMPTY, data=None, tups=(), refs=EMPTY, fns=EMPTY, unbound=False):
        self.consts, self.data, self.tups, self.refs, self.fns, self.unbound = consts, data, tups, refs, fns, unbound
        self._h = None

    def key(self):
        return (self.consts, self.data, self.tups, self.refs, self.fns, self.unbound)

    def __eq__(self, o):
        return self is o or (isinstance(o, V) and hash(self) == hash(o) and self.key() == o.key())

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.key())
        return self._h

    def __repr__(self):
        out = [repr(c[1]) for c in self.consts]
        if self.data is not None:
            out.append(repr(self.data))
        out += ["(" + ", ".join(map(repr, t)) + ")" for _, t in self.tups]
        out += ["ref" + str(r) for r in self.refs]
        out += [repr(f) for f in self.fns]
        if self.unbound:
            out.append("UNBOUND")
        return "|".join(out) or "BOT"

    def empty(self):
        return not (self.consts or self.data is not None or self.tups or self.refs or self.fns or self.unbound)

    def without_unbound(self):
        if not self.unbound:
            return self
        return V(self.consts, self.data, self.tups, self.refs, self.fns)

    def is_single_const(self):
        return len(self.consts) == 1 and self.data is None and not self.tups and not self.refs and not self.fns

    def const(self):
        """the constant if exactly one, else raises"""
        (c,) = self.consts
        return c[1]

    def const_or(self, default=None):
        return self.const() if self.is_single_const() else default

    def only_consts(self):
        return bool(self.consts) and self.data is None and not self.tups and not self.refs and not self.fns

    def may_none(self):
        return ("NoneType", None) in self.consts

    def drop_none(self):
        return V(self.consts - {("NoneType", None)}, self.data, self.tups, self.refs, self.fns, self.unbound)


BOT = V()
UNBOUND = V(unbound=True)


def const(c):
    return V(consts=frozenset([(type(c).__name__, c)]))


NONE = const(None)
BOOL = V(consts=frozenset([("bool", True), ("bool", False)]))


def data(st=EMPTY, ty="any", x=None):
    return V(data=Data(st, ty, x))


def tup(items):
    return V(tups=((len(items), tuple(items)),))


def ref(oid):
    return V(refs=frozenset([oid]))


def fn(f):
    return V(fns=frozenset([f]))


def join_ty(a, b):
    return a if a == b else "any"


class Joiner:
    """joins depend on the active domain's facet join"""

    def __init__(self, domain):
        self.domain = domain

    def jdata(self, a, b):
        if a is b or a == b:
            return a
        if a is None:
            return b
        if b is None:
            return a
        x = a.x if a.x == b.x else self.domain.join_x(a.x, b.x)
        return Data(a.st | b.st, join_ty(a.ty, b.ty), x)

    def join(self, a, b):
        if a is b:
            return a
        if a == b:
            return a
        if a.empty():
            return b
        if b.empty():
            return a
        consts = a.consts | b.consts
        dat = self.jdata(a.data, b.data)
        if len(consts) > MAXCONST:
            keep = frozenset(c for c in consts if c[0] in ("NoneType", "bool"))
            rest = consts - keep
            if rest:
                tys = {"str" if c[0] == "str" else ("num" if c[0] in ("int", "float", "complex") else "any") for c in rest}
                d = Data(EMPTY, tys.pop() if len(tys) == 1 else "any", self.domain.const_x_join(rest))
                dat = self.jdata(dat, d)
                consts = keep
        if a.tups == b.tups:
            tups = a.tups
        else:
            d = dict(a.tups)
            for n, t in b.tups:
                d[n] = tuple(self.join(p, q) for p, q in zip(d[n], t)) if n in d else t
            tups = tuple(sorted(d.items(), key=lambda kv: kv[0]))
            if len(tups) > 5:
                e = BOT
                for _, t in tups:
                    for i in t:
                        e = self.join(e, i)
                tups = ()
                dat = self.jdata(dat, self.collapse(e))
        return V(consts, dat, tups, a.refs | b.refs, a.fns | b.fns, a.unbound or b.unbound)

    def collapse(self, v):
        """one Data that over-approximates v as array-like content"""
        st = set()
        d = v.data
        if d is not None:
            st |= d.st
        for _, t in v.tups:
            for i in t:
                st |= self.collapse(i).st
        tys = set()
        if d is not None:
            tys.add(d.ty)
        if v.consts:
            tys |= {"str" if c[0] == "str" else "num" for c in v.consts if c[0] != "NoneType"}
        if v.tups or v.refs or v.fns:
            tys.add("any")
        return Data(frozenset(st), tys.pop() if len(tys) == 1 else "any", self.domain.collapse_x(v))

    def joinall(self, vs):
        r = BOT
        for v in vs:
            r = self.join(r, v)
        return r


class Obj:
    """immutable heap object. kind: inst|list|dict|set|iter; fields: tuple-of-pairs dict; elem: V"""
    __slots__ = ("kind", "cls", "fields", "elem", "x")

    def __init__(self, kind, cls=None, fields=None, elem=BOT, x=None):
        self.kind, self.cls, self.fields, self.elem, self.x = kind, cls, fields or {}, elem, x

    def __eq__(self, o):
        return self is o or (isinstance(o, Obj) and self.kind == o.kind and self.cls is o.cls and self.elem == o.elem and self.x == o.x and self.fields == o.fields)

    __hash__ = None

    def set(self, name, val):
        f = dict(self.fields)
        f[name] = val
        return Obj(self.kind, self.cls, f, self.elem, self.x)

    def with_elem(self, elem):
        return Obj(self.kind, self.cls, self.fields, elem, self.x)


class State:
    __slots__ = ("frames", "own", "heap", "ts", "facts", "guards", "dead")

    def __init__(self):
        self.dead = False    # an expression evaluated in this state raises on every path
        self.frames = {}     # fid -> {name: V}
        self.own = set()
        self.heap = {}       # oid -> Obj
        self.ts = {}         # domain typestate key -> frozenset/hashable
        self.facts = frozenset()   # (fid, cond key, bool)
        self.guards = {}     # (fid, name) -> frozenset(facts) under which it is bound

    def copy(self):
        s = State.__new__(State)
        s.frames = dict(self.frames)
        s.own = set()
        self.own = set()
        s.heap = dict(self.heap)
        s.ts = dict(self.ts)
        s.facts = self.facts
        s.guards = dict(self.guards)
        s.dead = self.dead
        return s

    def getvar(self, fid, name):
        return self.frames[fid].get(name, UNBOUND)

    def setvar(self, fid, name, v):
        f = self.frames.get(fid)
        if f is None:
            f = {}
            self.frames[fid] = f
            self.own.add(fid)
        elif fid not in self.own:
            f = dict(f)
            self.frames[fid] = f
            self.own.add(fid)
        f[name] = v

    def same(self, o):
        return self.dead == o.dead and self.frames == o.frames and self.heap == o.heap and self.ts == o.ts
