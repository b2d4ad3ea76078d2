"""P01 / P02 / P03: who writes which buffer, who shares which buffer."""

from .engine import Domain
from .project import where


# memoised data that may be filled in by a query (class, field): never depends on the query, see P03
MEMO = {("CubesSmearing", "scale"), ("ExtraCubesSmearing", "scale"), ("KIntegral", "v"), ("KIntegral", "h"), ("KIntegral", "w")}


class AliasDomain(Domain):
    name = "alias"
    call_results = True
    unroll_max = 2
    max_loop = 4

    def __init__(self):
        self.effects = {}      # (entry, root symbol) -> {(where, how): chain}
        self.entry = None
        self.random = {}
        self.start, self.kept = {}, {}
        self.inplace = {}      # entry -> {(root symbol, buffer|object): {(where, how)}}: contents changed, not merely rebound

    def event(self, eng, st, kind, node, **info):
        if eng.entry is None:
            return
        if kind == "enter" and len(eng.callstack) == 1:
            self.kept = {}
            self.start = {(oid, f): o.fields[f] for oid, o in st.heap.items() if oid[0] == "sym" and o.cls is not None
                          for c, f in MEMO if c == o.cls.name and f in o.fields}
        if kind == "setattr" and (info["oid"], info.get("attr")) in self.start:
            self.kept.setdefault(eng.callstack[-1][0], set()).add((info["oid"], info["attr"]))
        if kind == "mutate":
            for s in info["buf"]:
                self.add(eng, s, node, info["how"])
                self.inplace.setdefault(eng.entry.label, {}).setdefault((s, "buffer"), set()).add((where(node), info["how"]))
        elif kind in ("mutobj", "setattr"):
            oid = info["oid"]
            how = info.get("how") or f"attribute {info.get('attr')} assigned"
            if oid[0] == "sym":
                path = oid[1] + tuple(str(x) for x in oid[2][1:] if not isinstance(x, int))
                if kind == "setattr":
                    path = path + (info["attr"],)
                self.add(eng, path, node, how)
                if kind == "mutobj":
                    self.inplace.setdefault(eng.entry.label, {}).setdefault((path, "object"), set()).add((where(node), how))
                else:
                    # rebinding an attribute changes every holder of that object
                    self.inplace.setdefault(eng.entry.label, {}).setdefault((path[:-1] + ("@" + path[-1],), "object"), set()).add((where(node), how))
        elif kind == "extcall":
            p = info["path"]
            if p.startswith("numpy.random") or p.startswith("random."):
                self.random.setdefault(eng.entry.label, {})[where(node)] = (p, self.chain(eng))

    def chain(self, eng):
        return " -> ".join(f[0]._qual for f in eng.callstack)

    def add(self, eng, sym, node, how):
        self.effects.setdefault(eng.entry.label, {}).setdefault(sym, {})[(where(node), how)] = self.chain(eng)

    def on_return(self, eng, st, fnv, result, node, bound=None):
        # once the filling function has returned, its product is kept data like what was kept before
        if eng.callstack:
            for oid, f in self.kept.pop(fnv.node, ()):
                o = st.heap.get(oid)
                if o is not None:
                    st.heap[oid] = o.set(f, eng.join(o.fields[f], self.start[oid, f]))
        return result
