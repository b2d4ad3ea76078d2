"""P05: the Hamiltonian, overlap, gradient and Hessian matrices evaluated for symbolic k points and coefficient matrices have to
be equal, entry by entry as normal forms, to their own conjugate transpose; and normalize() has to leave the zeroth matrix equal
to its conjugate transpose whatever it was.  Nothing is executed."""
from sa import terms as tm
from sa.project import lookup_method, where

from . import p06, p07
from .common import Report
from .p06 import DIM, Book, evaluate
from .ten import dagger

MINIMUM = {"models": 1}


def hermitian(project, rep, book, tag, mod, run, st, obj, n):
    rep.count("models")
    cls = run.cls(tag.split("(")[0])
    for batch, dim in p06.SHAPES:
        if mod == "tight_binding" and len(batch) != 1:
            continue
        for m in ("f", "df", "ddf"):
            f = lookup_method(cls, m)[1]
            if f is None:
                continue
            a = evaluate(run, st, obj, m, batch)[0]
            book.same(run.dom, f"{tag.split('(')[0]}.{m}", f"{tag}.{m}, k of shape {batch + (dim,)}: equal to its conjugate transpose", where(f),
                      a, dagger(a) if a is not None else None)


def check(project, tier):
    rep = Report()
    book = Book(rep)
    tm.allow_whole(600)
    p06.each_model(project, rep, book, hermitian)
    p07.p07(project, Report(), Book(Report()), book)
    rep.assumptions = ["real arithmetic; two k points, two dimensions, two bands, three neighbours, two symmetry elements; the zeroth matrix is Hermitian (all of them for TightBindingModel)",
                       "numpy.linalg.eigh returns a free unitary matrix",
                       f"undecided obligations: {book.undecided[:20]}"]
    rep.explanation = "algebraic value numbering of small symbolic tensors; complex conjugation acts on the normal form"
    return rep
