"""Contracts of the dense exports, of construction errors and of the eigenvalue bounds."""
import numpy as np
from runlmc.linalg.matrix import Matrix
from runlmc.linalg.toeplitz import Toeplitz
from runlmc.linalg.bttb import BTTB
from runlmc.linalg.kronecker import Kronecker
from runlmc.linalg.block_diag import BlockDiag
from runlmc.linalg.block_matrix import SymmSquareBlockMatrix
from runlmc.linalg.sum_matrix import SumMatrix
from runlmc.linalg.composition import Composition
from runlmc.linalg.diag import Diag
from runlmc.linalg.identity import Identity
from runlmc.linalg.numpy_matrix import NumpyMatrix
from runlmc.approx.ski import SKI
from specs.linalg import AMat, toep


def h_toeplitz_dense(cx):
    n = cx.size('n')
    top = cx.array('top', n)
    cx.arr('Toeplitz.as_numpy', Toeplitz(top).as_numpy(), (n, n), lambda i, j: top[abs(i - j)])


def h_bttb1_dense(cx):
    n = cx.size('n')
    top = cx.array('top', n)
    cx.arr('BTTB.as_numpy (1 axis)', BTTB(top, (n,)).as_numpy(), (n, n), lambda i, j: top[abs(i - j)])


def h_bttb2_dense(cx):
    p, q = cx.size('p'), cx.size('q')
    top = cx.array('top', p * q)
    M = BTTB(top, (p, q)).as_numpy()
    cx.shape('BTTB.as_numpy (2 axes)', M, p * q, p * q)
    cx.arr('BTTB.as_numpy (2 axes)', M.reshape(p, q, p, q), (p, q, p, q),
           lambda a, b, c, d: top[abs(a - c) * q + abs(b - d)])


def h_bttb3_dense(cx):
    p, q, r = cx.size('p', cap=4), cx.size('q', cap=4), cx.size('r', cap=4)
    top = cx.array('top', p * q * r)
    M = BTTB(top, (p, q, r)).as_numpy()
    cx.shape('BTTB.as_numpy (3 axes)', M, p * q * r, p * q * r)
    cx.true('BTTB.as_numpy (3 axes)', cx.forall((p, q, r, p, q, r), lambda a, b, c, d, e, f: M[
        (a * q + b) * r + c, (d * q + e) * r + f] == top[(abs(a - d) * q + abs(b - e)) * r + abs(c - f)]))


def h_kron_dense(cx):
    a, b, c, d = cx.size('a'), cx.size('b'), cx.size('c'), cx.size('d')
    A = cx.array('A', a, b)
    B = cx.array('B', c, d)
    cx.arr('Kronecker.as_numpy', Kronecker(AMat(A), AMat(B)).as_numpy(), (a * c, b * d),
           lambda i, j: A[i // c, j // d] * B[i % c, j % d])


def h_diag_dense(cx):
    n = cx.size('n')
    v = cx.array('v', n)
    cx.arr('Diag.as_numpy', Diag(v).as_numpy(), (n, n), lambda i, j: cx.ite(i == j, v[i], 0))


def h_identity_dense(cx):
    n = cx.size('n')
    cx.arr('Identity.as_numpy', Identity(n).as_numpy(), (n, n), lambda i, j: cx.ite(i == j, 1, 0))


def h_numpy_dense(cx):
    n, m = cx.size('n'), cx.size('m')
    A = cx.array('A', n, m, dt=cx.choice('adt', 'f', 'i'))
    cx.arr('NumpyMatrix.as_numpy', NumpyMatrix(A).as_numpy(), (n, m), lambda i, j: A[i, j])


def h_default_dense(cx):
    """the inherited export of a matrix known only through its products"""
    n, m = cx.size('n'), cx.size('m')
    A = cx.array('A', n, m)
    cx.arr('Matrix.as_numpy', Matrix.wrap((n, m), A.dot).as_numpy(), (n, m), lambda i, j: A[i, j])


def h_sum_dense(cx):
    n, m = cx.size('n'), cx.size('m')
    K = cx.choice('K', 1, 2, 3)
    As = [cx.array('A%d' % k, n, m) for k in range(K)]
    cx.arr('SumMatrix.as_numpy', SumMatrix([AMat(A) for A in As]).as_numpy(), (n, m),
           lambda i, j: sum(A[i, j] for A in As))


def h_composition_dense(cx):
    a, b, c, d = cx.size('a'), cx.size('b'), cx.size('c'), cx.size('d')
    A, B, C = cx.array('A', a, b), cx.array('B', b, c), cx.array('C', c, d)
    M = Composition([AMat(A), AMat(B), AMat(C)])
    cx.arr('Composition.as_numpy', M.as_numpy(), (a, d), lambda i, j: cx.sum(b, lambda p: cx.sum(
        c, lambda q: A[i, p] * B[p, q] * C[q, j])))


def h_blockdiag_dense(cx):
    K = cx.choice('K', 1, 2, 3)
    rs = [cx.size('r%d' % k) for k in range(K)]
    cs = [cx.size('c%d' % k) for k in range(K)]
    As = [cx.array('A%d' % k, rs[k], cs[k]) for k in range(K)]
    M = BlockDiag([AMat(A) for A in As]).as_numpy()
    cx.shape('BlockDiag.as_numpy', M, sum(rs), sum(cs))
    for k in range(K):
        for l in range(K):
            r0, c0 = sum(rs[:k]), sum(cs[:l])
            cx.arr('BlockDiag.as_numpy block', M[r0:r0 + rs[k], c0:c0 + cs[l]], (rs[k], cs[l]),
                   lambda i, j: As[k][i, j] if k == l else 0)


def h_symm_block_dense(cx):
    D = cx.choice('D', 1, 2, 3)
    m = cx.size('m')
    As = [[cx.array('A%d%d' % (min(i, j), max(i, j)), m, m) for j in range(D)] for i in range(D)]
    M = SymmSquareBlockMatrix([[AMat(As[i][j]) for j in range(D)] for i in range(D)]).as_numpy()
    cx.shape('SymmSquareBlockMatrix.as_numpy', M, D * m, D * m)
    for i in range(D):
        for j in range(D):
            cx.arr('SymmSquareBlockMatrix.as_numpy block', M[i * m:(i + 1) * m, j * m:(j + 1) * m], (m, m),
                   lambda a, b: As[i][j][a, b])


def h_ski_dense(cx):
    n, m = cx.size('n'), cx.size('m')
    W = cx.array('W', n, m)
    K = cx.array('K', m, m)
    S = SKI(AMat(K), W, W.T)
    cx.arr('SKI.as_numpy', S.as_numpy(), (n, n), lambda i, j: cx.sum(m, lambda a: cx.sum(
        m, lambda b: W[i, a] * K[a, b] * W[j, b])))


def h_square(cx):
    n, m = cx.size('n'), cx.size('m')
    A = cx.array('A', n, m)
    cx.true('is_square', AMat(A).is_square() == (n == m))


# ------------------------------------------------------------------ eigenvalue bounds
def slack(cx):
    """rounding, in the concrete runs"""
    return 1 if cx.symbolic else 1 - 1e-9


def h_toeplitz_bound(cx):
    """the bound dominates every absolute row sum (Gershgorin, so every eigenvalue) and is no larger than the
    largest of them up to rounding slack"""
    n = cx.size('n')
    top = cx.array('top', n)
    b = Toeplitz(top).upper_eig_bound()
    cx.true('Toeplitz.upper_eig_bound', cx.forall(n, lambda i: b >= slack(cx) * cx.sum(n, lambda j: abs(top[abs(i - j)]))))


class BMat(AMat):
    def __init__(self, M, bound):
        super().__init__(M)
        self.bound = bound

    def upper_eig_bound(self):
        return self.bound


def h_bounds(cx):
    """bounds of sums, products and diagonal matrices combine the bounds of their parts"""
    n, m = cx.size('n'), cx.size('m')
    v = cx.array('v', n)
    b = Diag(v).upper_eig_bound()
    cx.true('Diag.upper_eig_bound', cx.forall(n, lambda i: b >= v[i]))
    cx.true('Identity.upper_eig_bound', Identity(n).upper_eig_bound() >= 1)
    A, B = cx.array('A', n, n), cx.array('B', m, m)
    A2 = cx.array('A2', n, n)
    ba, bb, bc = cx.real('ba', lo=0), cx.real('bb', lo=0), cx.real('bc', lo=0)
    cx.true('Kronecker.upper_eig_bound', Kronecker(BMat(A, ba), BMat(B, bb)).upper_eig_bound() >= slack(cx) * ba * bb)
    cx.true('SumMatrix.upper_eig_bound', SumMatrix([BMat(A, ba), BMat(A2, bc)]).upper_eig_bound() >= slack(cx) * (ba + bc))


def h_symm_block_bound(cx):
    D = cx.choice('D', 1, 2, 3)
    m = cx.size('m')
    As = [[cx.array('A%d%d' % (min(i, j), max(i, j)), m, m) for j in range(D)] for i in range(D)]
    bs = [[cx.real('b%d%d' % (min(i, j), max(i, j)), lo=0) for j in range(D)] for i in range(D)]
    M = SymmSquareBlockMatrix(np.array([[BMat(As[i][j], bs[i][j]) for j in range(D)] for i in range(D)]))
    b = M.upper_eig_bound()
    for i in range(D):
        cx.true('SymmSquareBlockMatrix.upper_eig_bound', b >= slack(cx) * sum(bs[i][j] for j in range(D)))


def h_ski_bound(cx):
    """bound of the grid covariance times the largest absolute row and column sums of the weights (the largest
    singular value squared is at most their product)"""
    n, m = cx.size('n'), cx.size('m')
    W, K = cx.array('W', n, m), cx.array('K', m, m)
    bk = cx.real('bk', lo=0)
    b = SKI(BMat(K, bk), W, W.T).upper_eig_bound()
    cx.true('SKI.upper_eig_bound', b >= slack(cx) * bk * cx.max(m, lambda j: cx.sum(n, lambda i: abs(W[i, j]))) *
            cx.max(n, lambda i: cx.sum(m, lambda j: abs(W[i, j]))))


# ------------------------------------------------------------------ rejected arguments
def h_rejects(cx):
    n, m = cx.size('n'), cx.size('m')
    cx.raises('empty Toeplitz', 'ValueError', lambda: Toeplitz(np.zeros(0)))
    cx.raises('2-D Toeplitz', 'ValueError', lambda: Toeplitz(cx.array('T', n, m)))
    cx.raises('empty BTTB', 'ValueError', lambda: BTTB(np.zeros(0), (0,)))
    cx.raises('empty sum', 'ValueError', lambda: SumMatrix([]))
    cx.raises('1-D NumpyMatrix', 'ValueError', lambda: NumpyMatrix(cx.array('v', n)))
    cx.raises('2-D Diag', 'ValueError', lambda: Diag(cx.array('V', n, n)))
    cx.raises('empty matrix', 'ValueError', lambda: Matrix(0, n))
    cx.raises('empty matrix', 'ValueError', lambda: Matrix(n, 0))


def h_rejects_sizes(cx):
    p, q, n = cx.size('p'), cx.size('q'), cx.size('n')
    cx.assume(n != p * q)
    cx.raises('BTTB sizes disagree', 'ValueError', lambda: BTTB(cx.array('t', n), (p, q)))


def h_rejects_shapes(cx):
    a, b, c, d = cx.size('a'), cx.size('b'), cx.size('c'), cx.size('d')
    cx.assume(a != c or b != d)
    A, B = cx.array('A', a, b), cx.array('B', c, d)
    cx.raises('sum of different shapes', 'ValueError', lambda: SumMatrix([AMat(A), AMat(B)]))


def h_rejects_blocks(cx):
    """rows of different lengths, no rows, blocks that are not square"""
    m, k = cx.size('m'), cx.size('k')
    a = NumpyMatrix(cx.array('A', m, m))
    cx.raises('no blocks', 'ValueError', lambda: SymmSquareBlockMatrix([]))
    cx.raises('short row of blocks', 'ValueError', lambda: SymmSquareBlockMatrix([[a, a], [a]]))
    cx.raises('long row of blocks', 'ValueError', lambda: SymmSquareBlockMatrix([[a, a], [a, a, a]]))
    cx.raises('more columns than rows of blocks', 'ValueError', lambda: SymmSquareBlockMatrix([[a, a, a], [a, a, a]]))
    cx.raises('more rows than columns of blocks', 'ValueError', lambda: SymmSquareBlockMatrix([[a], [a]]))
    cx.assume(m != k)
    b = NumpyMatrix(cx.array('B', m, k))
    cx.raises('blocks that are not square', 'ValueError', lambda: SymmSquareBlockMatrix([[b, b], [b, b]]).matvec(np.ones(2 * m)))
