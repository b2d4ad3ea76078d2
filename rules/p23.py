"""P23: bands, gradients, Hessians and fit errors follow their definitions (see bands.py)."""
from .bands import loss_jobs, p23_jobs
from .common import Report
from .pool import run_jobs

MINIMUM = {"obligations": 1}


def check(project, tier):
    rep = Report()
    und = run_jobs(rep, p23_jobs(project) + loss_jobs(project))
    rep.assumptions = ["two or three bands, one or two variables, no degenerate bands; Hermitian matrices, eigenvalues and eigenvectors are free symbols; a guard of 1e-40 in a denominator counts as zero",
                       f"undecided obligations: {und[:20]}"]
    rep.explanation = "abstract evaluation; the result (normal form over the entries of the matrices, their eigenvalues and eigenvectors) is compared with the formula of perturbation theory"
    return rep
