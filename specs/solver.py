"""Contract of the iterative solver, for every sequence of iterates the method may produce."""
import numpy as np
from runlmc.approx.iterative import Iterative
from specs.linalg import AMat


class Scripted:
    """an arbitrary Krylov method: hands the iterates X[0], ..., X[T-1] to the callback, then returns `out`"""

    def __init__(self, T, X, out, info):
        self.T, self.X, self.out, self.info = T, X, out, info
        self.used = 0
        self.done = False

    def __call__(self, A, b, x0=None, tol=1e-5, maxiter=None, M=None, callback=None, **kw):
        self.used += 1
        self.A, self.b, self.tol, self.M = A, b, tol, M
        self.callback = callback
        for t in range(self.T):
            callback(self.X[t])
        self.done = True
        return self.out, self.info


def norm(cx, n, M, y, x):
    """residual norm"""
    def r(i):
        return y[i] - cx.sum(n, lambda j: M[i, j] * x[j])
    return cx.fn('sqrt', cx.sum(n, lambda i: r(i) * r(i)))


def h_solve(cx):
    n = cx.size('n')
    T = cx.size('T', lo=0)
    if not cx.symbolic:
        T = cx.choice('Tn', T, 99, 100, 101, 199, 200, 201, 350)
    M, y = cx.array('M', n, n), cx.array('y', n, dt=cx.choice('ydt', 'f', 'i'))
    X, out = cx.array('X', T, n), cx.array('out', n)
    if not cx.symbolic:
        ok = cx.choice('good', 0, 1, 2)
        if ok and T > 0:
            M = np.identity(n) + 0.01 * M
            X[cx.int('at', 0, T - 1):] = np.linalg.solve(M, y)
            if ok == 2:
                X = X + 1e-3
            if cx.choice('exact', True, False):
                out = np.linalg.solve(M, y)
    tol = cx.real('tol', pos=True)
    if not cx.symbolic:
        tol = tol * cx.choice('fine', 1, 1e-4, 1e-8)
    info = cx.choice('info', 0, 1, -1)
    minres = cx.choice('minres', True, False)
    meth, other = Scripted(T, X, out, info), Scripted(0, X, out, 0)
    s = cx.snapshot(M, y, X)
    res, logs = cx.logged(lambda: cx.with_methods(
        {'minres': meth if minres else other, 'cg': other if minres else meth},
        lambda: Iterative.solve(AMat(M), y, verbose=True, minres=minres, tol=tol)))
    x, ctr, err = res
    cx.eq('the chosen method is used once', meth.used, 1)
    cx.eq('the other method is not used', other.used, 0)
    z = cx.array('z', n)
    cx.arr('the method sees the matrix', meth.A.matvec(z), n, lambda i: cx.sum(n, lambda j: M[i, j] * z[j]))
    cx.arr('the method sees the right-hand side', meth.b, n, lambda i: y[i])
    cx.true('at least the requested accuracy is asked for', meth.tol <= tol)
    cx.unchanged('matrix, right-hand side and iterates unchanged', s)
    e = norm(cx, n, M, y, x)
    cx.eq('reported residual is the residual of the answer', err, e)
    if meth.done:
        cx.arr('answer of the method', x, n, lambda i: out[i])
        cx.eq('iterations counted', ctr, T)
        bad = err > tol or info != 0
        cx.true('critical message exactly on failure', (logs == ['critical']) if bad else (logs == []))
    else:
        cx.true('stops early at an iterate', 1 <= ctr <= T)
        cx.arr('early answer is the current iterate', x, n, lambda i: X[ctr - 1, i])
        cx.true('early only below the tolerance', err < tol)
        cx.true('no message when stopping early', logs == [])


def h_solve_plain(cx):
    """without verbosity: the answer alone, by default from MINRES"""
    n = cx.size('n')
    M, y, out = cx.array('M', n, n), cx.array('y', n), cx.array('out', n)
    meth, other = Scripted(0, None, out, 0), Scripted(0, None, y, 0)
    x = cx.with_methods({'minres': meth, 'cg': other}, lambda: Iterative.solve(AMat(M), y))
    cx.arr('answer of the method', x, n, lambda i: out[i])
    cx.eq('MINRES by default', (meth.used, other.used), (1, 0))


def h_solve_real(cx):
    """the real methods on well-conditioned systems (concrete only)"""
    n = cx.int('n', 1, 18)
    R, y = cx.array('R', n, n), cx.array('y', n)
    M = R.dot(R.T) + 4 * n * np.identity(n)
    (x, ctr, err), logs = cx.logged(lambda: Iterative.solve(AMat(M), y, verbose=True, minres=cx.choice('minres', True, False),
                                                            tol=1e-4))
    cx.true('solved', np.linalg.norm(M.dot(x) - y) <= 1e-4)
    cx.true('no message', logs == [])
