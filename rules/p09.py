"""P09: every step of a fit obeys the constraints that were asked for (see fit.py)."""
from .common import Report
from .fit import p09_jobs
from .pool import run_jobs

MINIMUM = {"obligations": 1}


def check(project, tier):
    rep = Report()
    und = run_jobs(rep, p09_jobs(project))
    rep.assumptions = ["two bands, three neighbours, two or four k points, two steps; the coefficient matrices, reference bands and weights are free symbols",
                       "eigenvectors, pseudo inverses and the linear solver are opaque (equal arguments give equal results); the normalisation gives new coefficients with the same zero entries",
                       "the symmetriser is a linear projection compatible with the zero entries",
                       f"undecided obligations: {und[:20]}"]
    rep.explanation = "abstract evaluation of the fits path by path with symbolic coefficients; the coefficients after every step are compared with the constraints"
    return rep
