"""P10: formats, layout and refused requests of model files (see files.py)."""
from .common import Report
from .files import p10_jobs
from .pool import run_jobs

MINIMUM = {"obligations": 1}


def check(project, tier):
    rep = Report()
    und = run_jobs(rep, p10_jobs(project))
    rep.assumptions = ["two orbitals, three neighbours (in two and three dimensions), without symmetry and with a two-fold rotation; coefficients and k are free symbols",
                       "json and repr of a float give back the same float; no entry is negligible (the writer may drop entries below rounding)",
                       f"undecided obligations: {und[:20]}"]
    rep.explanation = "abstract evaluation of every kind of request (file name, format) on a modelled disk: what is opened, what is written (JSON tree, text), whether it raises, and the Hamiltonian that is read from the documented layout"
    return rep
