"""P20: a model that is written to a file and read again is the same model (see files.py)."""
from .common import Report
from .files import p20_jobs
from .pool import run_jobs

MINIMUM = {"obligations": 1}


def check(project, tier):
    rep = Report()
    und = run_jobs(rep, p20_jobs(project))
    rep.assumptions = ["two orbitals, three neighbours (in two and three dimensions), without symmetry and with a two-fold rotation; coefficients and k are free symbols",
                       "json and repr of a float give back the same float; no entry is negligible (the writer may drop entries below rounding)",
                       f"undecided obligations: {und[:20]}"]
    rep.explanation = "abstract evaluation of the writer and then the reader on the same (modelled) file; the Hamiltonian of the loaded model is compared as a normal form with that of the saved one"
    return rep
