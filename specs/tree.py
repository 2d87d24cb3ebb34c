"""Random nests of the library's own structured matrices (bounded: concrete runs only)."""
import pickle
import numpy as np
import scipy.sparse
from runlmc.linalg.toeplitz import Toeplitz
from runlmc.linalg.bttb import BTTB
from runlmc.linalg.kronecker import Kronecker
from runlmc.linalg.block_diag import BlockDiag
from runlmc.linalg.block_matrix import SymmSquareBlockMatrix
from runlmc.linalg.sum_matrix import SumMatrix
from runlmc.linalg.composition import Composition
from runlmc.linalg.diag import Diag
from runlmc.linalg.identity import Identity
from runlmc.linalg.matrix import Matrix
from runlmc.linalg.numpy_matrix import NumpyMatrix
from runlmc.approx.ski import SKI


META = {'h_tree': {'times': 4}, 'h_tree_bound': {'times': 3}}


class Tree:
    """builds a structured matrix together with the dense matrix it denotes"""

    def __init__(self, cx):
        self.cx, self.k, self.inputs = cx, 0, []

    def fresh(self):
        self.k += 1
        return 't%d' % self.k

    def arr(self, *shape, **kw):
        a = self.cx.array(self.fresh(), *shape, **kw)
        self.inputs.append(a)
        return a

    def pick(self, *opts):
        return self.cx.choice(self.fresh(), *opts)

    def dims(self, n, parts):
        """n as a product"""
        ds = [d for d in range(1, n + 1) if n % d == 0]
        d = self.pick(*ds)
        return [d, n // d] if parts == 2 else [d] + self.dims(n // d, 2)

    def leaf(self, n, m):
        kinds = ['dense', 'wrap'] + (['toeplitz', 'bttb1', 'bttb2', 'bttb3', 'diag', 'identity'] if n == m else [])
        kind = self.pick(*kinds)
        if kind in ('dense', 'wrap'):
            A = self.arr(n, m, dt=self.pick('f', 'f', 'i'))
            return (NumpyMatrix(A) if kind == 'dense' else Matrix.wrap((n, m), A.dot)), A.astype(float)
        if kind == 'identity':
            return Identity(n), np.eye(n)
        v = self.arr(n, dt=self.pick('f', 'f', 'i'))
        if kind == 'diag':
            return Diag(v), np.diag(v).astype(float)
        if kind == 'toeplitz':
            return Toeplitz(v), np.array([[v[abs(i - j)] for j in range(n)] for i in range(n)], float)
        sizes = [n] if kind == 'bttb1' else self.dims(n, 2 if kind == 'bttb2' else 3)
        ix = list(np.ndindex(*sizes))
        t = v.reshape(sizes)
        return BTTB(v, tuple(sizes)), np.array([[t[tuple(abs(a - b) for a, b in zip(p, q))] for q in ix] for p in ix], float)

    def make(self, n, m, depth):
        """an n x m matrix"""
        if depth == 0:
            return self.leaf(n, m)
        kind = self.pick('leaf', 'sum', 'composition', 'kron', 'blockdiag', 'blocks', 'ski', 'shared')
        if kind == 'sum':
            ps = [self.make(n, m, depth - 1) for _ in range(self.pick(1, 2, 3, 5))]
            return SumMatrix([p[0] for p in ps]), sum(p[1] for p in ps)
        if kind == 'composition':
            ds = [n] + [self.pick(1, 2, 3, 4) for _ in range(self.pick(0, 1, 2, 3))] + [m]
            ps = [self.make(a, b, depth - 1) for a, b in zip(ds, ds[1:])]
            D = ps[0][1]
            for p in ps[1:]:
                D = D.dot(p[1])
            return Composition([p[0] for p in ps]), D
        if kind == 'kron':
            (a, c), (b, d) = self.dims(n, 2), self.dims(m, 2)
            A, B = self.make(a, b, depth - 1), self.make(c, d, depth - 1)
            return Kronecker(A[0], B[0]), np.kron(A[1], B[1])
        if kind == 'blockdiag':
            rs, cs, n0, m0 = [], [], n, m
            while n0 > 1 and m0 > 1 and len(rs) < 4 and self.pick(True, True, False):
                r, c = self.pick(*range(1, n0)), self.pick(*range(1, m0))
                rs.append(r)
                cs.append(c)
                n0, m0 = n0 - r, m0 - c
            ps = [self.make(a, b, depth - 1) for a, b in zip(rs + [n0], cs + [m0])]
            D, r, c = np.zeros((n, m)), 0, 0
            for p in ps:
                D[r:r + p[1].shape[0], c:c + p[1].shape[1]] = p[1]
                r, c = r + p[1].shape[0], c + p[1].shape[1]
            return BlockDiag([p[0] for p in ps]), D
        if kind == 'blocks' and n == m:
            D, k = self.dims(n, 2)
            ps = [[None] * D for _ in range(D)]
            for i in range(D):
                for j in range(i, D):
                    t = self.arr(k)
                    ps[i][j] = ps[j][i] = (Toeplitz(t), np.array([[t[abs(a - b)] for b in range(k)] for a in range(k)]))
            M = np.empty((D, D), dtype=object)
            for i in range(D):
                for j in range(D):
                    M[i, j] = ps[i][j][0]
            return SymmSquareBlockMatrix(M), np.block([[p[1] for p in r] for r in ps])
        if kind == 'ski' and n == m:
            k = self.pick(1, 2, 3, 5)
            W = self.arr(n, k)
            K = self.make(k, k, depth - 1)
            if self.pick(True, False):
                V, VT = scipy.sparse.csr_matrix(W), scipy.sparse.csr_matrix(W.T)
            else:
                V, VT = W, W.T
            return SKI(K[0], V, VT), W.dot(K[1]).dot(W.T)
        if kind == 'shared' and n == m:
            A, D = self.make(n, n, depth - 1)
            return Composition([A, SumMatrix([A, Identity(n), A])]), D.dot(2 * D + np.eye(n))
        return self.leaf(n, m)


def h_tree(cx):
    t = Tree(cx)
    n = cx.size('n', cap=12)
    m = cx.choice('square', n, n, cx.size('m', cap=12))
    M, D = t.make(n, m, cx.choice('depth', 0, 1, 2, 3))
    dt = cx.choice('dt', 'f', 'i')
    x, X = cx.array('x', m, dt=dt), cx.array('X', m, cx.size('k', cap=4), dt=dt)
    s = cx.snapshot(t.inputs, x, X)
    cx.eq('shape', M.shape, (n, m))
    cx.true('square', M.is_square() == (n == m))
    ops = [('matvec', lambda: M.matvec(x), (n,), lambda i: D[i].dot(x)),
           ('matmat', lambda: M.matmat(X), X[:0].shape[:0] + (n, X.shape[1]), lambda i, j: D[i].dot(X[:, j])),
           ('as_numpy', lambda: M.as_numpy(), (n, m), lambda i, j: D[i, j]),
           ('operator', lambda: M.as_linear_operator().matvec(x), (n,), lambda i: D[i].dot(x)),
           ('operator matmat', lambda: M.as_linear_operator().matmat(X), (n, X.shape[1]), lambda i, j: D[i].dot(X[:, j]))]
    for t in range(4):
        for label, f, shape, want in ops:
            cx.arr(label, f(), shape, want)
            cx.unchanged(label + ': inputs unchanged', s)
        ops = ops[::-1] if t % 2 else ops[2:] + ops[:2]


def close(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= 1e-11 * (1 + np.abs(b).max(initial=0))))


def h_tree_travels(cx):
    """a matrix sent to a worker process computes what it computed before, used before or not"""
    t = Tree(cx)
    n = cx.size('n', cap=12)
    M, D = t.make(n, n, cx.choice('depth', 0, 1, 2))
    x, X = cx.array('x', n), cx.array('X', n, cx.size('k', cap=4))
    if cx.choice('used', True, False):
        M.as_linear_operator().matvec(x)
        M.matmat(X)
    try:
        sent = pickle.dumps(M)
    except (pickle.PicklingError, AttributeError):
        # wrapped closures do not travel
        cx.assume(False)
    R = pickle.loads(sent)
    cx.true('matvec', close(R.matvec(x), M.matvec(x)))
    cx.true('matmat', close(R.matmat(X), M.matmat(X)))
    cx.true('as_numpy', close(R.as_numpy(), M.as_numpy()))
    cx.true('operator', close(R.as_linear_operator().matvec(x), M.matvec(x)))
    cx.true('the original', close(M.matvec(x), D.dot(x)) or np.allclose(M.matvec(x), D.dot(x)))


class Psd(Tree):
    """positive semi-definite structured matrices"""

    def leaf(self, n):
        kind = self.pick('toeplitz', 'diag', 'identity')
        if kind == 'identity':
            return Identity(n), np.eye(n)
        if kind == 'diag':
            v = self.arr(n, nonneg=True)
            return Diag(v), np.diag(v)
        f = self.arr(n)
        v = np.array([f[:n - i].dot(f[i:]) for i in range(n)])
        return Toeplitz(v), np.array([[v[abs(i - j)] for j in range(n)] for i in range(n)])

    def make(self, n, depth):
        if depth == 0:
            return self.leaf(n)
        kind = self.pick('leaf', 'sum', 'kron', 'blocks', 'ski')
        if kind == 'sum':
            ps = [self.make(n, depth - 1) for _ in range(self.pick(1, 2, 3))]
            return SumMatrix([p[0] for p in ps]), sum(p[1] for p in ps)
        if kind == 'kron':
            a, c = self.dims(n, 2)
            A, B = self.make(a, depth - 1), self.make(c, depth - 1)
            return Kronecker(A[0], B[0]), np.kron(A[1], B[1])
        if kind == 'blocks':
            D, k = self.dims(n, 2)
            A = self.make(k, depth - 1)
            c = np.abs(self.arr(D))
            M = np.empty((D, D), dtype=object)
            for i in range(D):
                for j in range(i, D):
                    M[i, j] = M[j, i] = Kronecker(Diag(np.array([c[i] * c[j]])), A[0])
            return SymmSquareBlockMatrix(M), np.kron(np.outer(c, c), A[1])
        if kind == 'ski':
            k = self.pick(1, 2, 3, 5)
            W = self.arr(n, k)
            K = self.make(k, depth - 1)
            return SKI(K[0], scipy.sparse.csr_matrix(W), scipy.sparse.csr_matrix(W.T)), W.dot(K[1]).dot(W.T)
        return self.leaf(n)


def h_tree_bound(cx):
    t = Psd(cx)
    n = cx.size('n', cap=12)
    M, D = t.make(n, cx.choice('depth', 0, 1, 2, 3))
    b = M.upper_eig_bound()
    top = float(np.linalg.eigvalsh(D).max())
    cx.true('no eigenvalue exceeds the bound', bool(b >= top - 1e-9 * (1 + abs(top))))
