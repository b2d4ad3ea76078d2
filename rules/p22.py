"""P22: operations that make models from models (see algebra.py)."""
from .algebra import p22_jobs
from .common import Report
from .pool import run_jobs

MINIMUM = {"obligations": 1}


def check(project, tier):
    rep = Report()
    und = run_jobs(rep, p22_jobs(project))
    rep.assumptions = ["two orbitals, two dimensions, three to five neighbours; coefficients, k and the transformation are free symbols, trimming by norm with representative numbers",
                       "supercells: five pairs of cells with twice the volume, neighbour lists that contain all neighbours up to the diagonal; compared by the traces of the first two powers",
                       f"undecided obligations: {und[:20]}"]
    rep.explanation = "abstract evaluation of the operation; the Hamiltonian and overlap of the result at a symbolic k (normal form) are compared with the matrices the operation stands for"
    return rep
