"""Storage-alias abstract interpretation of every public operation: each argument is a symbolic buffer, views share it,
copies do not; a write (item or augmented assignment, mutating method, out=, attribute write on a passed object) that can
reach an argument buffer on any path is a violation."""
from .common import Report
from .effects import Run

MINIMUM = {"operations": 270, "functions": 260, "external_calls": 2000}

# (operation, parameter): why the write is part of the documented contract
EXEMPT = {
    ("slater_koster.SlaterKoster.from_orbitals", "orbital_integrals"): "documented in the source: the input dict gets extended with the symmetry-related integrals",
    ("qespresso_interface.qe_prepare", "pseudo_potential_files_dict"): "the dict becomes the module's registry of pseudopotential files and its open entries are resolved",
}
LOGGERS = {"log"}          # a supplied progress logger is appended to
MEMO_FIELDS = {"scale"}    # DensityOfStates.smearing[i].scale, memoised area scale


def check(project, tier):
    rep = Report()
    run = Run(project).all()
    run.stats(rep)
    for e in run.entries:
        eff = run.domain.effects.get(e.label, {})
        bad = {}
        for sym, wh in eff.items():
            if sym[0] != "arg":
                continue
            p = sym[1]
            if p in LOGGERS or (e.label, p) in EXEMPT:
                continue
            if len(sym) > 2 and sym[-1] in MEMO_FIELDS and "smearing" in sym:
                continue
            bad.setdefault(p, []).extend((w, how, chain) for (w, how), chain in wh.items())
        params = [a.arg for a in e.node.args.args if a.arg != "self"]
        rep.count("parameters", len(params))
        for p in params:
            if p in bad:
                w, how, chain = sorted(bad[p])[0]
                rep.oblige(False, f"input-mutated|{e.label}|{p}", f"{e.label}: argument '{p}' can be modified: {how} at {w} (call path {chain})")
            else:
                rep.oblige(True)
        for p in sorted(set(bad) - set(params)):
            w, how, chain = sorted(bad[p])[0]
            rep.oblige(False, f"input-mutated|{e.label}|{p}", f"{e.label}: argument '{p}' can be modified: {how} at {w} (call path {chain})")
        if len(rep.samples) < 20 and params:
            rep.samples.append(f"{e.label}({', '.join(params)}): no path writes an argument buffer" if not bad else f"{e.label}: {sorted(bad)}")
    return rep
