"""Small numpy programs: the analyser's array vocabulary is compared with numpy itself (tools/vocab.py).  Development aid,
not part of any check."""
import numpy as np
import math

A = np.array([[3, 1, 2], [0, 5, 4]])
B = np.array([[0.5, -1.25, 2.0], [1.5, 0.25, -3.0]])
M = np.array([[2.0, 1.0, 0.0], [1.0, 3.0, 1.0], [0.0, 1.0, 4.0]])
C = np.arange(24).reshape(2, 3, 4)


class Anchor:
    pass


def linspace(): return [np.linspace(0, 1, 5), np.linspace(0, 1, 4, endpoint=False), np.linspace(2, 2, 1)]
def tile(): return [np.tile(A, 2), np.tile(A, (2, 1)), np.tile([1, 2], (2, 2)), np.tile(C[0], (2, 1, 1))]
def atleast(): return [np.atleast_1d(3), np.atleast_3d(A), np.atleast_3d([1, 2]), np.atleast_2d([1, 2])]
def stacks(): return [np.column_stack([[1, 2], [3, 4]]), np.dstack([A, A]), np.column_stack([A, A]), np.vstack([A, A]), np.hstack([A, A]), np.stack([A, B], axis=-1)]
def tri(): return [np.triu(M), np.tril(M, -1), np.triu(M, k=1), np.triu(C)]
def triidx():
    i, j = np.triu_indices(3)
    k, l = np.tril_indices(3, -1)
    return [i, j, k, l, M[np.triu_indices(3, 1)]]
def diagidx(): return [M[np.diag_indices(3)]]
def ix(): return [M[np.ix_([0, 2], [1, 2])], M[np.ix_([2, 0, 1], [2, 0, 1])]]
def indices(): return [np.indices((2, 3))]
def fromiter(): return [np.fromiter((x * x for x in [1, 2, 3]), float)]
def ptp(): return [np.ptp(A), np.ptp(A, axis=0), np.ptp(B, axis=1)]
def var(): return [np.var(B), np.var(B, axis=0), np.std(B, axis=1), np.var(B, axis=1, ddof=1), B.std()]
def average(): return [np.average(B), np.average(B, axis=1, weights=[1, 2, 3]), np.average(B, weights=A, axis=0), np.average(B, axis=0)]
def median(): return [np.median(B), np.median(B, axis=1), np.median(A, axis=0)]
def cums(): return [np.cumsum(A), np.cumsum(A, axis=0), np.cumsum(A, axis=1), np.cumprod(A, axis=1), A.cumsum(axis=0), np.cumsum(B)]
def diff(): return [np.diff(A), np.diff(A, axis=0), np.diff(C, axis=1)]
def search():
    x = np.array([1, 2, 4, 7])
    return [np.searchsorted(x, [0, 1, 3, 7, 9]), np.searchsorted(x, 4, side="right"), np.searchsorted(x, 4)]
def unique():
    x = np.array([3, 1, 3, 2, 1])
    u, i, v, c = np.unique(x, return_index=True, return_inverse=True, return_counts=True)
    return [u, i, v, c, np.unique(np.array([[1, 2], [0, 1], [1, 2]]), axis=0), np.unique(A)]
def isin(): return [A[np.isin(A, [1, 5])], A[~np.isin(A, [1, 5])]]
def argwhere(): return [np.argwhere(A > 2), np.argwhere(B < 0)]
def equal(): return [np.array_equal(A, A), np.array_equal(A, B), np.array_equal(A, A[:1])]
def finite(): return [np.all(np.isfinite(B)), np.any(np.isnan(B)), B[np.isfinite(B)]]
def rounding(): return [np.ceil(B), np.trunc(B), np.floor(B), np.round(B), np.round(B, 1), B.astype(int), np.array(B, dtype=int), np.rint(B), np.fix(B)]
def minmax(): return [np.maximum(A, B), np.minimum(A, 2), np.clip(B, -1, 1), np.clip(B, 0, None), B.clip(-1, 1), np.maximum.reduce([A, B, A])]
def flips(): return [np.fliplr(A), np.flipud(A), np.flip(C, axis=1), np.rollaxis(C, 2), np.rollaxis(C, 0, 3), np.roll(A, 1, axis=1), np.roll(A, 2)]
def split():
    a, b, c = np.split(np.arange(6), 3)
    d, e = np.split(A, [1], axis=1)
    return [a, b, c, d, e]
def takealong():
    o = np.argsort(A, axis=1)
    return [np.take_along_axis(A, o, axis=1), np.take_along_axis(C, o[:, :, None] % 4, axis=2)]
def select(): return [np.select([A < 2, A > 3], [A * 10, -A], default=7)]
def filld():
    x = M.copy()
    np.fill_diagonal(x, 0)
    y = np.zeros((2, 3))
    np.copyto(y, [1, 2, 3])
    return [x, y]
def at():
    x = np.zeros(4)
    np.add.at(x, [0, 1, 1, 3], [1, 2, 3, 4])
    y = np.zeros((3, 2))
    np.add.at(y, np.array([2, 2, 0]), A[:, :2][[0, 1, 0]])
    z = np.zeros((3, 3))
    np.add.at(z, ([0, 0, 1], [1, 1, 2]), 5)
    np.subtract.at(x, 2, 1)
    return [x, y, z]
def ufuncs(): return [np.add.reduce(A), np.multiply.reduce(A, axis=1), np.add.accumulate(A), np.add.outer([1, 2], [10, 20, 30]), np.multiply.accumulate([1, 2, 3]), np.logical_and.reduce(A > 0), np.subtract.outer([1, 2], [1, 2, 3])]
def linalg():
    s, l = np.linalg.slogdet(M)
    return [np.linalg.solve(M, [1, 2, 3]), np.linalg.solve(M, np.eye(3)), s, l, np.linalg.matrix_power(M, 3), np.linalg.matrix_power(M, -1), np.linalg.matrix_power(M, 0), np.linalg.multi_dot([A, M, M]), np.linalg.det(M), np.linalg.norm(B), np.linalg.norm(B, axis=1)]
def contractions(): return [np.einsum("ij,kj->ik", A, B), np.tensordot(C, A, axes=([1], [1])), np.dot(A, M), np.kron(A, [[1, 2]]), np.cross([1, 0, 0], [0, 1, 0]), np.inner(A, B), np.outer([1, 2], [3, 4]), np.trace(M), np.vdot([1j, 2], [1j, 3]), np.matmul(C, np.ones((4, 2)))]
def shapes(): return [np.moveaxis(C, 0, 2), np.swapaxes(C, 0, 1), np.transpose(C, (2, 0, 1)), C.T, C.reshape(4, -1), np.expand_dims(A, 1), np.squeeze(A[:1]), np.broadcast_to([1, 2, 3], (2, 3)), np.repeat(A, 2, axis=0), np.repeat(A, [1, 2], axis=0), np.concatenate([A, B], axis=1), np.delete(A, 1, axis=1), np.append(A, B), np.block([[A, A], [A, A]]), np.take(A, [0, 2], axis=1), np.diag(M), np.diag([1, 2])]
def logic(): return [np.where(A > 1, A, -B), A[A > 1], np.nonzero(A > 2), np.count_nonzero(A > 2), np.any(A > 4, axis=0), np.all(A > 0, axis=1), np.argmax(A), np.argmin(B, axis=1), np.lexsort((A[0], A[1])), np.sort(B, axis=0), np.isclose(A, A + 1e-12)]
def meshes(): return list(np.meshgrid([1, 2], [3, 4, 5], indexing="ij")) + [np.arange(5, 1, -2), np.eye(2, 3), np.full((2, 2), 7)]
def cplx():
    z = B + 1j * A
    return [z.real, z.imag, np.conj(z), np.abs(z), z @ M, np.sum(z), np.prod(z, axis=0), z.T.conj(), np.mean(z, axis=1), np.exp(B), np.sqrt(np.abs(B)), B**2, 2.0**B, A // 2, A % 2, -7 // 2, np.mod(B, 1), np.sign(B), np.arctan2(A, B)]
def inplace():
    x = B.copy()
    x[0] += 1
    x[:, 1] *= 2
    x[1, ::2] = 9
    y = x.T
    y[0, 0] = -1
    x[[0, 1], [2, 0]] -= 1
    x[x > 8] = 0
    return [x, y]
