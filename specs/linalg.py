"""Contracts of the structured matrices (runlmc/linalg): products."""
import numpy as np
from runlmc.linalg.matrix import Matrix
from runlmc.linalg.toeplitz import Toeplitz
from runlmc.linalg.bttb import BTTB
from runlmc.linalg.kronecker import Kronecker
from runlmc.linalg.block_diag import BlockDiag
from runlmc.linalg.block_matrix import SymmSquareBlockMatrix
from runlmc.linalg.sum_matrix import SumMatrix
from runlmc.linalg.composition import Composition
from runlmc.linalg.diag import Diag
from runlmc.linalg.identity import Identity
from runlmc.linalg.numpy_matrix import NumpyMatrix
from runlmc.approx.ski import SKI


class AMat(Matrix):
    """the arbitrary operand: any matrix whose matvec/matmat/as_numpy honour the contract"""

    def __init__(self, M):
        super().__init__(M.shape[0], M.shape[1])
        self.M = M

    def matvec(self, x):
        return self.M.dot(x)

    def as_numpy(self):
        return self.M


def dts(cx):
    return cx.choice('dt', 'f', 'i')


def mul(cx, M, x):
    """the operand of a product: a vector or a matrix of columns"""
    return M.matvec(x)


# ------------------------------------------------------------------ the entries every type stands for
def toep(top):
    return lambda i, j: top[abs(i - j)]


def bttb1(top):
    return toep(top)


def bttb2(top, q):
    return lambda i, j: top[abs(i // q - j // q) * q + abs(i % q - j % q)]


def bttb3(top, q, r):
    return lambda i, j: top[(abs(i // (q * r) - j // (q * r)) * q + abs(i // r % q - j // r % q)) * r
                            + abs(i % r - j % r)]


def times(cx, m, entry, x):
    return lambda i: cx.sum(m, lambda j: entry(i, j) * x[j])


def timesm(cx, m, entry, X):
    return lambda i, k: cx.sum(m, lambda j: entry(i, j) * X[j, k])


# ------------------------------------------------------------------ matvec
def h_toeplitz_matvec(cx):
    n = cx.size('n')
    top = cx.array('top', n, dt=cx.choice('tdt', 'f', 'i'))
    x = cx.array('x', n, dt=dts(cx))
    y = Toeplitz(top).matvec(x)
    cx.arr('Toeplitz.matvec', y, n, times(cx, n, toep(top), x))


def h_toeplitz_matmat(cx):
    n, k = cx.size('n'), cx.size('k')
    top = cx.array('top', n)
    X = cx.array('X', n, k, dt=dts(cx))
    Y = Toeplitz(top).matmat(X)
    cx.arr('Toeplitz.matmat', Y, (n, k), timesm(cx, n, toep(top), X))


def h_bttb1_matvec(cx):
    n = cx.size('n')
    top = cx.array('top', n)
    x = cx.array('x', n, dt=dts(cx))
    y = BTTB(top, (n,)).matvec(x)
    cx.arr('BTTB.matvec (1 axis)', y, n, times(cx, n, bttb1(top), x))


def h_bttb2_matvec(cx):
    p, q = cx.size('p'), cx.size('q')
    top = cx.array('top', p * q)
    x = cx.array('x', p * q, dt=dts(cx))
    y = BTTB(top, (p, q)).matvec(x)
    e = lambda i, j: top[abs(i) * q + abs(j)]
    cx.shape('BTTB.matvec (2 axes)', y, p * q)
    cx.arr('BTTB.matvec (2 axes)', y.reshape(p, q), (p, q), lambda a, b: cx.sum(p, lambda c: cx.sum(
        q, lambda d: top[abs(a - c) * q + abs(b - d)] * x[c * q + d])))


def h_bttb3_matvec(cx):
    p, q, r = cx.size('p', cap=4), cx.size('q', cap=4), cx.size('r', cap=4)
    top = cx.array('top', p * q * r)
    x = cx.array('x', p * q * r)
    y = BTTB(top, (p, q, r)).matvec(x)
    cx.shape('BTTB.matvec (3 axes)', y, p * q * r)
    cx.arr('BTTB.matvec (3 axes)', y.reshape(p, q, r), (p, q, r), lambda a, b, c: cx.sum(p, lambda d: cx.sum(
        q, lambda e: cx.sum(r, lambda f: top[(abs(a - d) * q + abs(b - e)) * r + abs(c - f)]
                            * x[(d * q + e) * r + f]))))


def h_kron_matvec(cx):
    a, b, c, d = cx.size('a'), cx.size('b'), cx.size('c'), cx.size('d')
    A = cx.array('A', a, b)
    B = cx.array('B', c, d)
    x = cx.array('x', b * d, dt=dts(cx))
    y = Kronecker(AMat(A), AMat(B)).matvec(x)
    cx.arr('Kronecker.matvec', y, a * c, lambda p: cx.sum(b, lambda j: cx.sum(
        d, lambda l: A[p // c, j] * B[p % c, l] * x[j * d + l])))


def h_kron_matmat(cx):
    a, b, c, d, k = cx.size('a'), cx.size('b'), cx.size('c'), cx.size('d'), cx.size('k')
    A = cx.array('A', a, b)
    B = cx.array('B', c, d)
    X = cx.array('X', b * d, k)
    Y = Kronecker(AMat(A), AMat(B)).matmat(X)
    cx.arr('Kronecker.matmat', Y, (a * c, k), lambda p, z: cx.sum(b, lambda j: cx.sum(
        d, lambda l: A[p // c, j] * B[p % c, l] * X[j * d + l, z])))


def h_diag_matvec(cx):
    n = cx.size('n')
    v = cx.array('v', n)
    x = cx.array('x', n, dt=dts(cx))
    cx.arr('Diag.matvec', Diag(v).matvec(x), n, lambda i: v[i] * x[i])


def h_diag_matmat(cx):
    n, k = cx.size('n'), cx.size('k')
    v = cx.array('v', n)
    X = cx.array('X', n, k, dt=dts(cx))
    cx.arr('Diag.matmat', Diag(v).matmat(X), (n, k), lambda i, z: v[i] * X[i, z])


def h_identity_matvec(cx):
    n, k = cx.size('n'), cx.size('k')
    x = cx.array('x', n, dt=dts(cx))
    X = cx.array('X', n, k)
    cx.arr('Identity.matvec', Identity(n).matvec(x), n, lambda i: x[i])
    cx.arr('Identity.matmat', Identity(n).matmat(X), (n, k), lambda i, z: X[i, z])


def h_numpy_matvec(cx):
    n, m, k = cx.size('n'), cx.size('m'), cx.size('k')
    A = cx.array('A', n, m, dt=cx.choice('adt', 'f', 'i'))
    x = cx.array('x', m, dt=dts(cx))
    X = cx.array('X', m, k)
    cx.arr('NumpyMatrix.matvec', NumpyMatrix(A).matvec(x), n, times(cx, m, lambda i, j: A[i, j], x))
    cx.arr('NumpyMatrix.matmat', NumpyMatrix(A).matmat(X), (n, k), timesm(cx, m, lambda i, j: A[i, j], X))


def h_wrap_matvec(cx):
    n, m, k = cx.size('n'), cx.size('m'), cx.size('k')
    A = cx.array('A', n, m)
    x = cx.array('x', m, dt=dts(cx))
    X = cx.array('X', m, k)
    M = Matrix.wrap((n, m), A.dot)
    cx.true('shape', M.shape == (n, m))
    cx.arr('Matrix.wrap.matvec', M.matvec(x), n, times(cx, m, lambda i, j: A[i, j], x))
    cx.arr('Matrix.matmat', M.matmat(X), (n, k), timesm(cx, m, lambda i, j: A[i, j], X))


def h_linear_operator(cx):
    n, m, k = cx.size('n'), cx.size('m'), cx.size('k')
    A = cx.array('A', n, m)
    x = cx.array('x', m)
    X = cx.array('X', m, k)
    M = AMat(A)
    op = M.as_linear_operator()
    cx.true('operator shape', op.shape == (n, m))
    cx.arr('operator matvec', op.matvec(x), n, times(cx, m, lambda i, j: A[i, j], x))
    cx.arr('operator matmat', op.matmat(X), (n, k), timesm(cx, m, lambda i, j: A[i, j], X))
    cx.arr('operator matvec again', M.as_linear_operator().matvec(x), n, times(cx, m, lambda i, j: A[i, j], x))


def h_sum_matvec(cx):
    n, m = cx.size('n'), cx.size('m')
    K = cx.choice('K', 1, 2, 3)
    As = [cx.array('A%d' % k, n, m) for k in range(K)]
    x = cx.array('x', m, dt=dts(cx))
    y = SumMatrix([AMat(A) for A in As]).matvec(x)
    cx.arr('SumMatrix.matvec', y, n, times(cx, m, lambda i, j: sum(A[i, j] for A in As), x))


def h_sum_matmat(cx):
    n, m, k = cx.size('n'), cx.size('m'), cx.size('k')
    K = cx.choice('K', 1, 2, 3)
    As = [cx.array('A%d' % q, n, m) for q in range(K)]
    X = cx.array('X', m, k)
    cx.arr('SumMatrix.matmat', SumMatrix([AMat(A) for A in As]).matmat(X), (n, k),
           timesm(cx, m, lambda i, j: sum(A[i, j] for A in As), X))


def h_composition_matvec(cx):
    a, b, c, d = cx.size('a'), cx.size('b'), cx.size('c'), cx.size('d')
    A, B, C = cx.array('A', a, b), cx.array('B', b, c), cx.array('C', c, d)
    K = cx.choice('K', 1, 2, 3)
    if K == 1:
        x = cx.array('x', b, dt=dts(cx))
        y = Composition([AMat(A)]).matvec(x)
        cx.arr('Composition.matvec', y, a, times(cx, b, lambda i, j: A[i, j], x))
    elif K == 2:
        x = cx.array('x', c, dt=dts(cx))
        y = Composition([AMat(A), AMat(B)]).matvec(x)
        cx.arr('Composition.matvec', y, a, times(cx, c, lambda i, j: cx.sum(b, lambda p: A[i, p] * B[p, j]), x))
    else:
        x = cx.array('x', d, dt=dts(cx))
        M = Composition([AMat(A), AMat(B), AMat(C)])
        cx.true('shape', M.shape == (a, d))
        cx.arr('Composition.matvec', M.matvec(x), a, lambda i: cx.sum(b, lambda p: cx.sum(c, lambda q: cx.sum(
            d, lambda j: A[i, p] * B[p, q] * C[q, j] * x[j]))))


def h_composition_matmat(cx):
    a, b, c, d, k = cx.size('a'), cx.size('b'), cx.size('c'), cx.size('d'), cx.size('k')
    A, B, C = cx.array('A', a, b), cx.array('B', b, c), cx.array('C', c, d)
    K = cx.choice('K', 1, 2, 3)
    if K == 1:
        X = cx.array('X', b, k, dt=dts(cx))
        Y = Composition([AMat(A)]).matmat(X)
        cx.arr('Composition.matmat', Y, (a, k), timesm(cx, b, lambda i, j: A[i, j], X))
    elif K == 2:
        X = cx.array('X', c, k, dt=dts(cx))
        Y = Composition([AMat(A), AMat(B)]).matmat(X)
        cx.arr('Composition.matmat', Y, (a, k), timesm(cx, c, lambda i, j: cx.sum(b, lambda p: A[i, p] * B[p, j]), X))
    else:
        X = cx.array('X', d, k, dt=dts(cx))
        Y = Composition([AMat(A), AMat(B), AMat(C)]).matmat(X)
        cx.arr('Composition.matmat', Y, (a, k), lambda i, z: cx.sum(b, lambda p: cx.sum(c, lambda q: cx.sum(
            d, lambda j: A[i, p] * B[p, q] * C[q, j] * X[j, z]))))


def h_blockdiag_matvec(cx):
    K = cx.choice('K', 1, 2, 3)
    rs = [cx.size('r%d' % k) for k in range(K)]
    cs = [cx.size('c%d' % k) for k in range(K)]
    As = [cx.array('A%d' % k, rs[k], cs[k]) for k in range(K)]
    n, m = sum(rs), sum(cs)
    x = cx.array('x', m, dt=dts(cx))
    M = BlockDiag([AMat(A) for A in As])
    cx.true('BlockDiag.shape', M.shape == (n, m))
    y = M.matvec(x)
    cx.shape('BlockDiag.matvec', y, n)
    for k in range(K):
        r0, c0 = sum(rs[:k]), sum(cs[:k])
        cx.arr('BlockDiag.matvec block', y[r0:r0 + rs[k]], rs[k],
               lambda i: cx.sum(cs[k], lambda j: As[k][i, j] * x[c0 + j]))


def h_symm_block_matvec(cx):
    D = cx.choice('D', 1, 2, 3)
    m = cx.size('m')
    As = [[cx.array('A%d%d' % (min(i, j), max(i, j)), m, m) for j in range(D)] for i in range(D)]
    x = cx.array('x', D * m, dt=dts(cx))
    M = SymmSquareBlockMatrix([[AMat(As[i][j]) for j in range(D)] for i in range(D)])
    cx.true('SymmSquareBlockMatrix.shape', M.shape == (D * m, D * m))
    y = M.matvec(x)
    cx.shape('SymmSquareBlockMatrix.matvec', y, D * m)
    for i in range(D):
        cx.arr('SymmSquareBlockMatrix.matvec block', y[i * m:(i + 1) * m], m, lambda a: sum(
            cx.sum(m, lambda b: As[i][j][a, b] * x[j * m + b]) for j in range(D)))


def h_ski_matvec(cx):
    n, m = cx.size('n'), cx.size('m')
    W = cx.array('W', n, m)
    K = cx.array('K', m, m)
    x = cx.array('x', n, dt=dts(cx))
    S = SKI(AMat(K), W, W.T)
    cx.true('SKI.shape', S.shape == (n, n))
    cx.arr('SKI.matvec', S.matvec(x), n, lambda i: cx.sum(m, lambda a: cx.sum(m, lambda b: cx.sum(
        n, lambda j: W[i, a] * K[a, b] * W[j, b] * x[j]))))


def h_bttb_matmat(cx):
    p, q, k = cx.size('p'), cx.size('q'), cx.size('k')
    top = cx.array('top', p * q)
    X = cx.array('X', p * q, k, dt=dts(cx))
    Y = BTTB(top, (p, q)).matmat(X)
    cx.shape('BTTB.matmat', Y, p * q, k)
    x = X[:, 0]
    y = BTTB(top, (p, q)).matvec(x)
    j = cx.int('j', 0, k - 1)
    y = BTTB(top, (p, q)).matvec(X[:, j])
    cx.arr('BTTB.matmat column', Y[:, j], p * q, lambda i: y[i])


def h_blockdiag_matmat(cx):
    K = cx.choice('K', 1, 2, 3)
    rs = [cx.size('r%d' % k) for k in range(K)]
    cs = [cx.size('c%d' % k) for k in range(K)]
    As = [cx.array('A%d' % k, rs[k], cs[k]) for k in range(K)]
    n, m, w = sum(rs), sum(cs), cx.size('w')
    X = cx.array('X', m, w, dt=dts(cx))
    Y = BlockDiag([AMat(A) for A in As]).matmat(X)
    cx.shape('BlockDiag.matmat', Y, n, w)
    for k in range(K):
        r0, c0 = sum(rs[:k]), sum(cs[:k])
        cx.arr('BlockDiag.matmat block', Y[r0:r0 + rs[k]], (rs[k], w),
               lambda i, z: cx.sum(cs[k], lambda j: As[k][i, j] * X[c0 + j, z]))


def h_symm_block_matmat(cx):
    D = cx.choice('D', 1, 2, 3)
    m, w = cx.size('m'), cx.size('w')
    As = [[cx.array('A%d%d' % (min(i, j), max(i, j)), m, m) for j in range(D)] for i in range(D)]
    X = cx.array('X', D * m, w, dt=dts(cx))
    Y = SymmSquareBlockMatrix([[AMat(As[i][j]) for j in range(D)] for i in range(D)]).matmat(X)
    cx.shape('SymmSquareBlockMatrix.matmat', Y, D * m, w)
    for i in range(D):
        cx.arr('SymmSquareBlockMatrix.matmat block', Y[i * m:(i + 1) * m], (m, w), lambda a, z: sum(
            cx.sum(m, lambda b: As[i][j][a, b] * X[j * m + b, z]) for j in range(D)))


def h_ski_matmat(cx):
    n, m, w = cx.size('n'), cx.size('m'), cx.size('w')
    W = cx.array('W', n, m)
    K = cx.array('K', m, m)
    X = cx.array('X', n, w, dt=dts(cx))
    cx.arr('SKI.matmat', SKI(AMat(K), W, W.T).matmat(X), (n, w), lambda i, z: cx.sum(m, lambda a: cx.sum(
        m, lambda b: cx.sum(n, lambda j: W[i, a] * K[a, b] * W[j, b] * X[j, z]))))


def h_simple_matmat(cx):
    n, m, w = cx.size('n'), cx.size('m'), cx.size('w')
    A = cx.array('A', n, m)
    X = cx.array('X', m, w, dt=dts(cx))
    kind = cx.choice('kind', 'numpy', 'wrap', 'identity')
    if kind == 'numpy':
        cx.arr('NumpyMatrix.matmat', NumpyMatrix(A).matmat(X), (n, w), timesm(cx, m, lambda i, j: A[i, j], X))
    elif kind == 'wrap':
        cx.arr('wrap.matmat', Matrix.wrap((n, m), A.dot).matmat(X), (n, w), timesm(cx, m, lambda i, j: A[i, j], X))
    else:
        cx.arr('Identity.matmat', Identity(m).matmat(X), (m, w), lambda i, j: X[i, j])
