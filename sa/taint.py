"""Explicit-flow taint: which query arguments a value is computed from."""
from .alias import AliasDomain
from .values import EMPTY, Data, ExtM, V


class TaintDomain(AliasDomain):
    name = "taint"

    def join_x(self, a, b):
        return (a or EMPTY) | (b or EMPTY)

    def widen_x(self, x):
        return x

    def collapse_x(self, v):
        return self.flat(v)

    def flat(self, v):
        out = EMPTY
        if v.data is not None and v.data.x:
            out |= v.data.x
        for _, t in v.tups:
            for i in t:
                out |= self.flat(i)
        for f in v.fns:
            if isinstance(f, ExtM):
                out |= self.flat(f.recv)
        return out

    def deep(self, st, v, depth=4):
        out = self.flat(v)
        if depth:
            for oid in v.refs:
                o = st.heap.get(oid)
                if o is None or o.kind == "inst":
                    continue
                out |= self.deep(st, o.elem, depth - 1)
                if o.x:
                    out |= o.x
                for k, q in o.fields.items():
                    if k == "#items":
                        for i in q:
                            out |= self.deep(st, i, depth - 1)
                    elif isinstance(q, V):
                        out |= self.deep(st, q, depth - 1)
            for _, t in v.tups:
                for i in t:
                    out |= self.deep(st, i, depth - 1)
        return out

    def many(self, st, vs):
        out = EMPTY
        for v in vs:
            out |= self.deep(st, v)
        return out or None

    def binop(self, eng, st, op, l, r, node):
        return self.many(st, (l, r))

    def unop(self, eng, st, op, v, node):
        return self.many(st, (v,))

    def compare(self, eng, st, node, left, rights):
        return self.many(st, [left] + list(rights))

    def ext_call(self, eng, st, path, args, kwargs, node):
        return self.many(st, list(args) + list(kwargs.values()))

    def method(self, eng, st, recv, name, args, kwargs, node):
        return self.many(st, [recv] + list(args) + list(kwargs.values()))

    def subscript(self, eng, st, base, idx, node):
        return self.many(st, [base] + self.idx_vals(idx))

    def idx_vals(self, idx):
        if idx[0] == "slice":
            return [p for p in idx[1:] if p is not None]
        if idx[0] == "tuple":
            return [v for i in idx[1] for v in self.idx_vals(i)]
        if idx[0] == "expr":
            return [idx[1]]
        return []

    def attr(self, eng, st, base, name, node):
        return self.flat(base) or None

    def fstring(self, eng, st, parts, node):
        return self.many(st, parts)

    def store_sub(self, eng, st, base, idx, val, node, aug):
        return self.many(st, [base, val] + self.idx_vals(idx))


def tainted(v, t, st=None, keep=()):
    """v with taint t on every data alternative (numbers included)"""
    if v is None:
        return v
    d = v.data
    if d is not None:
        d = Data(d.st, d.ty, (d.x or EMPTY) | t)
    consts = v.consts
    tups = tuple((n, tuple(tainted(i, t) for i in q)) for n, q in v.tups)
    return V(consts, d, tups, v.refs, v.fns, v.unbound)
