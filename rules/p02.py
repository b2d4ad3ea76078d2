"""Storage-alias abstract interpretation of every public operation.  A buffer or object that both the result (or the
receiver under construction) and an argument or the receiver can reach is shared; sharing is a violation when some public
operation of a class that holds it on either side writes it in place."""
from sa.values import BoundV, ExtM, FnV, V, ref

from .common import Report
from .effects import Run

MINIMUM = {"operations": 270, "results_examined": 250, "inplace_fields": 15}


class Walk:
    """buffers and symbolic objects reachable from a value, with the instances that hold them"""

    def __init__(self, eng, st):
        self.eng, self.st = eng, st
        self.out = {}          # (symbol, is object) -> set of owner chains
        self.seen = set()

    def value(self, v, owners):
        if v.data is not None:
            for s in v.data.st:
                self.hit(s, False, owners)
        for _, t in v.tups:
            for i in t:
                self.value(i, owners)
        for f in v.fns:
            if isinstance(f, FnV):
                fid = f.env
                while fid and fid[0] != "mod":
                    if ("env", fid) not in self.seen:
                        self.seen.add(("env", fid))
                        for k, q in self.st.frames.get(fid, {}).items():
                            self.value(q, owners)
                    fid = self.eng.frame_meta[fid][1]
            elif isinstance(f, (BoundV, ExtM)):
                self.value(f.recv, owners)
        for r in v.refs:
            self.obj(r, owners)

    def hit(self, s, isobj, owners):
        self.out.setdefault((s, isobj), set()).update(owners)

    def obj(self, r, owners):
        o = self.st.heap.get(r)
        if o is None:
            return
        key = (r, frozenset(owners))
        if key in self.seen or len(self.seen) > 4000:
            return
        self.seen.add(key)
        if r[0] == "sym":
            path = r[1] + tuple(x for x in r[2][1:] if isinstance(x, str) and x != "[]")
            self.hit(path, True, owners)
        if o.kind == "inst":
            owners = {(c, p) for c, p in owners} | {(o.cls.name, ())}
        for k, q in o.fields.items():
            if k == "#items":
                for i in q:
                    self.value(i, owners)
            elif isinstance(q, V):
                self.value(q, {(c, p + (k,)) for c, p in owners} if isinstance(k, str) else owners)
        self.value(o.elem, owners)


def inplace_table(run):
    """(class, field path) -> where some public operation changes the contents of that field of one of its objects"""
    out = {}
    for e in run.entries:
        if e.name == "__init__":
            continue
        st = run.results[e.label][1]
        for (s, kind), wh in run.domain.inplace.get(e.label, {}).items():
            if "closure" in s or s[0] not in ("self", "arg"):
                continue
            if s[0] == "arg":
                continue
            for c, p in arg_owners(run, st, s):
                if p:
                    out.setdefault((c, p, kind), {})[e.label] = sorted(wh)[0]
    return out


def arg_owners(run, st, sym):
    """instances among the arguments that hold the symbol: (class, path inside)"""
    out = set()
    for oid, o in st.heap.items():
        if oid[0] == "sym" and o.kind == "inst":
            path = oid[1] + tuple(x for x in oid[2][1:] if isinstance(x, str) and x != "[]")
            if sym[:len(path)] == path:
                out.add((o.cls.name, tuple(sym[len(path):])))
    return out


def hits(table, owners, isobj):
    """in-place operations that change what is at one of the owner paths"""
    for c, p in sorted(owners):
        for (tc, tp, kind), ops in table.items():
            if tc != c or (kind == "object") != isobj:
                continue
            if isobj:
                # contents of the object itself, or an attribute of it
                if tp == p or (len(tp) == len(p) + 1 and tp[:-1] == p and tp[-1].startswith("@")):
                    yield c, tp, ops
            elif tp == p:
                yield c, tp, ops


def shares(run):
    table = inplace_table(run)
    for label, (e, st, r) in sorted(run.results.items()):
        w = Walk(run.drv.eng, st)
        w.value(r, set())
        if e.kind == "method" and e.name != "__init__" and e.label not in IDENTITY:
            # what a documented in-place operation has put into the receiver
            own = Walk(run.drv.eng, st)
            for oid, o in list(st.heap.items()):
                if oid[0] == "sym" and o.kind == "inst" and oid[1] == ("self",) and len(oid[2]) == 1:
                    own.obj(oid, set())
            for (s, isobj), owners in own.out.items():
                if s[0] == "arg":
                    w.out.setdefault((s, isobj), set()).update(owners)
        yield e, st, w, table


# (operation, argument or "self"[, field]) -> documented reason
EXEMPT_ARG = {"log"}                       # a fit returns the logger it was given
IDENTITY = {                               # operations documented to return the receiver / argument itself
    "kpaths.KPath.to", "symmetry.Symmetry.ignore_translation", "kpaths.interpolate", "kpaths.interpolate_unstructured",
}
LINKED = {                                 # documented in BandStructureModel.copy: neighbors stay linked with the coefficient functions
    ("bandstructure.BandStructureModel.copy", ("self", "neighbors")),
    ("bandstructure.BandStructureModel.__add__", ("self", "neighbors")),
    ("bandstructure.BandStructureModel.__mul__", ("self", "neighbors")),
}
ACCESSOR = {("kpaths.KPath.sym_x_names", ("self", "names"))}    # plain attribute accessor of display names


def component(e, st, sym):
    """an object argument of a constructor is held as a component, with everything it owns"""
    if e.name != "__init__" and e.kind not in ("static", "class", "func"):
        return False
    if sym[0] != "arg":
        return False
    for oid, o in st.heap.items():
        if oid[0] == "sym" and o.kind == "inst" and oid[1] == sym[:2]:
            return True
    return False


def check(project, tier):
    rep = Report()
    run = Run(project).all()
    run.stats(rep)
    table = inplace_table(run)
    rep.coverage["inplace_fields"] = len(table)
    for e, st, w, _ in shares(run):
        r = run.results[e.label][2]
        rep.count("results_examined")
        if all(isinstance(f, (FnV, BoundV)) for f in r.fns) and r.fns and not r.refs and r.data is None:
            rep.count("closures_not_examined")       # a returned function may use its receiver
            continue
        bad = {}
        for (s, isobj), owners in w.out.items():
            if s[0] not in ("arg", "self") or len(s) < 2 and e.label in IDENTITY:
                continue
            if e.label in IDENTITY or s[:2] == ("arg", "log") or "closure" in s:
                continue
            if (e.label, s) in LINKED or (e.label, s) in ACCESSOR:
                continue
            if component(e, st, s):
                continue
            ao = arg_owners(run, st, s)
            for c, p, ops in list(hits(table, owners, isobj)) + list(hits(table, ao, isobj)):
                bad.setdefault(s, (c, p, ops))
        rep.oblige(True)
        for s, (c, p, ops) in sorted(bad.items(), key=str):
            op, (wh, how) = sorted(ops.items())[0]
            src = "the receiver's " + ".".join(s[1:]) if s[0] == "self" else "argument " + ".".join(s[1:])
            rep.oblige(False, f"shared|{e.label}|{'.'.join(s)}",
                       f"{e.label}: the result shares storage with {src or 'receiver'}, which {op} changes in place ({how} at {wh}; field {c}.{'.'.join(p)})")
        if len(rep.samples) < 20 and w.out:
            rep.samples.append(f"{e.label}: {len(w.out)} shared symbols, none of them written in place by a public operation" if not bad else f"{e.label}: {sorted(bad)}")
    return rep
