"""Contracts of the stochastic gradients: the probe estimator, and the derivative matrices it is fed with."""
import numpy as np
import scipy.sparse
from runlmc.lmc.stochastic_deriv import StochasticDerivService
from runlmc.lmc.likelihood import ApproxLMCLikelihood
from runlmc.lmc.metrics import Metrics
from runlmc.util.inline_pool import InlinePool
from specs.linalg import AMat
from specs.exact import coreg
from specs.grid import model


class Inverse:
    """a Krylov method that solves exactly: applies the given inverse"""

    def __init__(self, V):
        self.V = V
        self.As, self.bs = [], []

    def __call__(self, A, b, x0=None, tol=1e-5, maxiter=None, M=None, callback=None, **kw):
        self.As.append(A)
        self.bs.append(b)
        x = self.V.dot(b)
        for _ in range(max(0, 4 - len(self.bs))):  # earlier solves take more iterations than later ones
            if callback is not None:
                callback(x)
        return x, 0


def form(cx, n, u, dK, v):
    return cx.sum(n, lambda i: cx.sum(n, lambda j: u[i] * dK[i, j] * v[j]))


def estimator(cx, metrics):
    n = cx.size('n', cap=5)
    K, V, y = cx.array('K', n, n), cx.array('V', n, n), cx.array('y', n)
    it = cx.choice('probes', 1, 2)
    if not cx.symbolic:
        it = cx.int('it', 1, 12)
    dK, dL = cx.array('dK', n, n), cx.array('dL', n, n)
    meth, other = Inverse(V), Inverse(V)
    s = cx.snapshot(K, V, y, dK, dL)
    m = Metrics() if metrics else None
    sv = StochasticDerivService(m, InlinePool(None), it, 1e-4)
    d = cx.with_methods({'minres': meth, 'cg': other}, lambda: sv.generate(AMat(K), y))
    cx.eq('one solve for the data and one per probe', len(meth.bs), it + 1)
    cx.eq('no other solver', len(other.bs), 0)
    z = cx.array('z', n)
    for A in meth.As:
        cx.arr('solves with the covariance', A.matvec(z), n, lambda i: cx.sum(n, lambda j: K[i, j] * z[j]))
    k = cx.find(meth.bs, y)
    cx.arr('data solved', meth.bs[k], n, lambda i: y[i])
    rs = meth.bs[:k] + meth.bs[k + 1:]
    for r in rs:
        cx.arr('probe entries are plus or minus one', r * r, n, lambda i: 1)
    a = V.dot(y)
    cx.arr('solution', d.alpha, n, lambda i: a[i])
    want = []
    for M in (dK, dL):
        q = form(cx, n, a, M, a)
        t = sum([form(cx, n, V.dot(r), M, r) for r in rs]) / it
        cx.eq('quadratic term', d.d_normal_quadratic(AMat(M)), q)
        cx.eq('trace term', d.d_logdet_K(AMat(M)), t)
        want.append((q - t) / 2)
    cx.eq('derivative', d.derivative(AMat(dK)), want[0])
    cx.eq('derivative of another matrix', d.derivative(AMat(dL)), want[1])
    cx.eq('derivative again', d.derivative(AMat(dK)), want[0])
    cx.unchanged('covariance, data and derivative unchanged', s)


def h_estimator(cx):
    estimator(cx, False)


def h_estimator_metrics(cx):
    estimator(cx, True)


def h_probes(cx):
    """the probes are drawn afresh, independently and with both signs equally often (concrete only)"""
    n, it = cx.int('n', 1, 5), 150
    K = np.identity(n)
    sv = StochasticDerivService(None, InlinePool(None), it, 1e-4)
    draws = []
    for t in range(2):
        meth = Inverse(K)
        y = 3.0 + np.arange(n)
        cx.with_methods({'minres': meth, 'cg': meth}, lambda: sv.generate(AMat(K), y))
        k = cx.find(meth.bs, y)
        draws.append(np.array(meth.bs[:k] + meth.bs[k + 1:], dtype=float))
    R = np.hstack(draws)
    cx.shape('probes', R, it, 2 * n)
    # 150 draws: a deviation of 0.7 is more than eight standard deviations
    cx.true('both signs equally often', np.all(np.abs(R.mean(axis=0)) < 0.7))
    C = R.T.dot(R) / it
    cx.true('entries, points and draws independent', np.all(np.abs(C - np.identity(2 * n)) < 0.7))
    S = R[1:].T.dot(R[:-1]) / (it - 1)
    cx.true('successive probes independent', np.all(np.abs(S) < 0.7))


# ------------------------------------------------------------------ derivative matrices
class Deriv:
    """an arbitrary bilinear functional of the derivative matrix, in place of the estimator"""

    def __init__(self, u, v):
        self.u, self.v = u, v
        self.alpha = u
        self.seen = []

    def generate(self, K, y):
        self.seen.append((K, y))
        return self

    def derivative(self, dKdt):
        return self.u.dot(dKdt.matvec(self.v))


class Problem:
    """the approximate likelihood over one grid per set of input dimensions, with arbitrary distances and weights"""

    def __init__(self, cx, D, mix, ranks, ads=None):
        self.cx, self.D, self.mix = cx, D, mix
        self.ads = ads or [(0,)] * sum(mix)
        axes = sorted(set(self.ads))
        P = 1 + max(a for ad in axes for a in ad)
        self.fk, self.rk, self.A, self.kap, self.noise = model(cx, D, mix, ranks, P, ads)
        self.ns = [cx.size('n%d' % i, cap=4) for i in range(D)]
        self.n = sum(self.ns)
        self.m, self.d, self.W, ws = {}, {}, {}, {}
        for ad in axes:
            nm = str(ad[0])
            m = self.m[ad] = cx.size('m' + nm, lo=1, cap=4)
            self.d[ad] = cx.array('d' + nm, m, nonneg=True)
            self.W[ad] = cx.array('W' + nm, self.n, D * m)
            W = scipy.sparse.csr_matrix(self.W[ad])
            ws[ad] = (W, W.transpose().tocsr())
        self.u, self.v = cx.array('u', self.n), cx.array('v', self.n)
        self.Ys = [cx.array('Y%d' % i, self.ns[i]) for i in range(D)]
        self.K = AMat(cx.array('K', self.n, self.n))
        self.deriv = Deriv(self.u, self.v)
        self.like = ApproxLMCLikelihood(self.fk, self.K, dict(self.d), ws, self.Ys, self.deriv)

    def form(self, B, f, q):
        """u . W (B (x) f(d)) W^T v, on the grid of kernel q"""
        cx, n, ad = self.cx, self.n, self.ads[q]
        m, d, Wd = self.m[ad], self.d[ad], self.W[ad]
        tot = 0
        for i in range(self.D):
            for j in range(self.D):
                b = B(i, j)
                if b is None:
                    continue
                tot = tot + b * cx.sum(m, lambda s: cx.sum(m, lambda t: (
                    cx.sum(n, lambda r: self.u[r] * Wd[r, i * m + s]) * cx.umap(f, d[abs(s - t)]) *
                    cx.sum(n, lambda c: Wd[c, j * m + t] * self.v[c]))))
        return tot


CASES = [(1, (1, 0, 0), [1]), (2, (1, 1, 0), [2]), (2, (0, 1, 1), []), (2, (1, 1, 0), [1], [(1,), (0,)]),
         (2, (0, 1, 1), [], [(0,), (1,)])]


def h_approx_setup(cx):
    p = Problem(cx, *cx.choice('case', *CASES))
    cx.eq('derivatives generated once', len(p.deriv.seen), 1)
    K, y = p.deriv.seen[0]
    cx.true('for the given covariance', K is p.K)
    for i in range(p.D):
        o = sum(p.ns[:i])
        cx.arr('for the stacked data', y[o:o + p.ns[i]], p.ns[i], lambda s: p.Ys[i][s])
    cx.arr('solution', p.like.alpha(), p.n, lambda i: p.u[i])


def h_approx_noise_gradient(cx):
    p = Problem(cx, *cx.choice('case', *CASES))
    g = p.like.noise_gradient()
    cx.shape('noise gradient', g, p.D)
    for i in range(p.D):
        o = sum(p.ns[:i])
        cx.eq('noise gradient', g[i], cx.sum(p.ns[i], lambda s: p.u[o + s] * p.v[o + s]))


def h_approx_diag_gradient(cx):
    p = Problem(cx, *cx.choice('case', *CASES))
    Q = sum(p.mix)
    g = p.like.coreg_diags_gradients()
    cx.eq('one gradient per kernel', len(g), Q)
    for q in range(Q):
        cx.shape('diagonal gradient', g[q], p.D)
        for e in range(p.D):
            cx.eq('diagonal gradient', g[q][e], p.form(lambda i, j: 1 if i == j == e else None, 'k%d' % q, q))


def h_approx_vec_gradient(cx):
    p = Problem(cx, *cx.choice('case', *CASES))
    Q = sum(p.mix)
    g = p.like.coreg_vec_gradients()
    cx.eq('one gradient per kernel', len(g), Q)
    for q in range(Q):
        cx.shape('vector gradient', g[q], p.rk[q], p.D)
        for e in range(p.D):
            for r in range(p.rk[q]):
                a = p.A[q][r]
                cx.eq('vector gradient', g[q][r, e], p.form(lambda i, j: (
                    (a[j] if i == e else 0) + (a[i] if j == e else 0)) if i == e or j == e else None, 'k%d' % q, q))


def h_approx_kernel_gradient(cx):
    p = Problem(cx, *cx.choice('case', *CASES))
    Q = sum(p.mix)
    g = p.like.kernel_gradients()
    cx.eq('one gradient per kernel', len(g), Q)
    for q in range(Q):
        cx.eq('one gradient per hyperparameter', len(g[q]), 2)
        for h in range(2):
            nm = ('du%d' if h == 0 else 'dv%d') % q
            cx.eq('hyperparameter gradient', g[q][h], p.form(lambda i, j: coreg(cx, p.A, p.kap, p.rk, q, i, j), nm, q))
