"""P08: every way out of a fit leaves a normalised model whose error is the last log entry (see fit.py)."""
from .common import Report
from .fit import p08_jobs
from .pool import run_jobs

MINIMUM = {"obligations": 1}


def check(project, tier):
    rep = Report()
    und = run_jobs(rep, p08_jobs(project))
    rep.assumptions = ["two bands, three neighbours, two or four k points, two steps; the coefficient matrices, reference bands and weights are free symbols",
                       "eigenvectors, pseudo inverses and the linear solver are opaque (equal arguments give equal results); the normalisation gives new coefficients",
                       "an interruption is considered before every statement inside the guarded block",
                       f"undecided obligations: {und[:20]}"]
    rep.explanation = "abstract evaluation of the fits path by path with symbolic coefficients; the coefficients and the log at every exit are compared with the last normalisation and its error"
    return rep
