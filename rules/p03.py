"""Frame conditions: the write-effect summary of every public method on its receiver (from the storage-alias abstract
interpretation, through views, callees and closures) must lie inside the fields the operation is documented to change;
for query operations that set is empty.  Memo fields may be filled by queries, but the stored value must not be computed
from a query argument (explicit-flow taint).  Random generators may be reached only from the operations listed."""
from sa.driver import Driver, entries
from sa.taint import TaintDomain, tainted
from sa.values import ref

from .api import API
from .effects import Run

from .common import Report

MINIMUM = {"operations": 270, "query_operations": 150, "memo_writers": 4}

B, A, F = "bandstructure.BandStructureModel.", "tight_binding_asym.AsymTightBindingModel.", "tight_binding_asym.HermitianFourierSeries."
T, U, H, Q, L = "tight_binding.TightBindingModel.", "unitary_representations.UnitaryRepresentation.", "hamiltonian_symmetry.HamiltonianSymmetry.", "qespresso_interface.QECrystal.", "logger.OptimisationLogger."
HS = {("H", "H_r"), ("S", "H_r")}
ORB = {("U",), ("names",), ("pos",), ("inv",)}
# documented in-place operations and the fields they change
WRITES = {
    B + "randomize": {("params",)}, B + "optimize": {("params",)}, B + "optimize_cg": {("params",)},
    B + "normalize": {("params",)}, B + "permute": {("params",)}, B + "set_params_complex": {("params",)}, B + "transform": {("neighbors",)},
    A + "randomize": HS, A + "optimize": HS, A + "optimize_cg": HS, A + "normalize": HS, A + "permute": HS,
    A + "transform": {("H", "neighbors"), ("S", "neighbors")}, A + "set_from_complex": {("H", "H_r")},
    F + "add_neighbors": {("neighbors",), ("H_r",)}, F + "limit_neighbors": {("neighbors",), ("H_r",)},
    F + "limit_neighbor_count": {("neighbors",), ("H_r",)}, F + "cleanup_neighbors": {("neighbors",), ("H_r",)},
    T + "optimize": {("params",)}, T + "normalize": {("params",)}, T + "set_from_complex": {("params",)},
    U + "match_sym": {("U",), ("sym",)}, U + "permute": {("U",)},
    H + "append": ORB, H + "append_s": ORB, H + "append_diamond_s": ORB, H + "append_p": ORB, H + "append_diamond_p": ORB,
    H + "append_d2": ORB, H + "append_d3": ORB, H + "append_diamond_d3": ORB,
    "kpaths.KPath.to": {("indices",), ("names",), ("path",)},
    L + "add_message": {("stream",)}, L + "abort": {("stream",), ("aborted",)}, L + "add_data": {("iterations",), ("loss",), ("stream",)},
    Q + "set_multitasking_parameters": {("nk",), ("nd",), ("ni",), ("nt",)}, Q + "scale_to_density": {("A",)},
    Q + "set_cutoff_from_pseudopotentials": {("kinetic_energy_cutoff",)},
    # documented: reading a band calculation replaces the lattice by the one the calculation used
    Q + "read_bands_crystal": {("A",)}, Q + "plot_bands": {("A",)}, Q + "prepare_wannier": {("A",)}, Q + "prepare_plot_wannier_bands": {("A",)},
    "slater_koster.SlaterKoster.set_parameter": {("model", "params")},
}
# class -> fields filled in on first use
MEMO = {"CubesSmearing": {"scale"}, "ExtraCubesSmearing": {"scale"}, "KIntegral": {"v", "w", "h"}, "DensityOfStates": set()}
MEMO_NAMES = {"scale", "v", "w", "h"}
# operations that fill memo fields on demand: the argument `hessians` selects how much is filled
MEMO_HOLDERS = {"CubesSmearing", "ExtraCubesSmearing", "KIntegral", "DensityOfStates"}
RANDOM = {
    B + "init_tight_binding_from_ref": "random starting point", B + "init_from_ref": "random starting point", B + "randomize": "documented",
    A + "init_from_ref": "random starting point", A + "randomize": "documented", "tight_binding_asym.autofit_asym": "randomised fit",
    T + "init_from_ref": "random starting point", "linalg.random_hermitian": "random matrix", "linalg.random_unitary": "random matrix",
    "tight_binding.random_hermitian": "random matrix", "density_of_states.DensityOfStates.__init__": "spot check of the symmetry (assert only)",
    "density_of_states.DensityOfStates.check": "spot check of the symmetry (assert only)", "symmetry.Symmetry.check_symmetry": "spot check",
    U + "check_symmetry": "spot check",
}


def memo(cls, path):
    """a memo field of the receiver or of one of its smearing methods; private fields count as memo too"""
    if not path:
        return False
    leaf = path[-1]
    if leaf.startswith("_") and not leaf.startswith("__"):
        return True
    if len(path) == 1:
        return leaf in MEMO.get(cls.name, ())
    return "smearing" in path and leaf in MEMO["CubesSmearing"]


class MemoDomain(TaintDomain):
    def __init__(self):
        super().__init__()
        self.memo_writes = {}
        self.ev_base = super().event

    def event(self, eng, st, kind, node, **info):
        super().event(eng, st, kind, node, **info)
        if eng.entry is None:
            return
        oid = info.get("oid")
        if kind == "setattr" and oid is not None and (oid[0] == "sym"):
            t = self.deep(st, info["value"])
            self.memo_writes.setdefault(eng.entry.label, []).append((oid, info["attr"], t, node))
        elif kind == "mutobj" and oid is not None:
            pass


def check(project, tier):
    from sa.project import where
    rep = Report()
    run = Run(project).all()
    run.stats(rep)
    dom = run.domain
    memo_entries = []
    for e in run.entries:
        eff = dom.effects.get(e.label, {})
        allowed = WRITES.get(e.label, set())
        if e.cls is not None and e.name != "__init__":
            rep.count("in_place_operations" if allowed else "query_operations")
        for s, wh in sorted(eff.items(), key=str):
            if s[0] != "self":
                continue
            path = tuple(s[1:])
            short = tuple(p for p in path if p != "[]")
            if short in allowed or any(short[:len(a)] == a for a in allowed):
                continue
            if memo(e.cls, path):
                memo_entries.append(e)
                # filling in means assigning the field; changing kept data in place would alter later answers
                wh = {k: c for k, c in wh.items() if not k[1].startswith("attribute ")}
                if not wh:
                    continue
            (w, how), chain = sorted(wh.items())[0]
            what = "changes nothing" if not allowed else "changes only " + ", ".join(".".join(a) for a in sorted(allowed))
            rep.oblige(False, f"receiver-written|{e.label}|{'.'.join(path)}",
                       f"{e.label} (documented: {what}) can write self.{'.'.join(path)}: {how} at {w} (call path {chain})")
        rep.oblige(True)
        rnd = dom.random.get(e.label, {})
        if rnd:
            rep.count("random_users")
        if rnd and e.label not in RANDOM:
            w, (p, chain) = sorted(rnd.items())[0]
            rep.oblige(False, f"random|{e.label}", f"{e.label} draws random numbers: {p} at {w} (call path {chain})")
    # memo values must not depend on the query
    d = MemoDomain()
    drv = Driver(project, d)
    for e in dict.fromkeys(memo_entries):
        st = drv.fresh()
        args, kwargs = drv.symargs(st, e)
        names = [a.arg for a in e.node.args.args][1:]
        args = [args[0]] + [tainted(v, frozenset([n])) for n, v in zip(names, args[1:])]
        drv.run(e, st, args, kwargs)
        rep.count("memo_writers")
        for oid, attr, t, node in d.memo_writes.get(e.label, []):
            o = st.heap.get(oid)
            t = {x for x in t if isinstance(x, str)}
            rep.oblige(not t, f"memo-depends-on-query|{e.label}|{attr}",
                       f"{e.label}: the value kept in {o.cls.name if o and o.cls else '?'}.{attr} (set at {where(node)}) is computed from the query argument(s) {sorted(t)}, so a later query sees it")
        rep.samples.append(f"{e.label}: fills {sorted({a for _, a, _, _ in d.memo_writes.get(e.label, [])})} independent of {names}")
    rep.samples += [f"{l}: may write only {sorted('.'.join(p) for p in w)}" for l, w in sorted(WRITES.items())[:15]]
    return rep
