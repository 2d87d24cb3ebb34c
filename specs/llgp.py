"""Contracts of the interpolated model: grids, predictions, likelihood, caches.

The functions the model calls (automatic grids, interpolation, grid covariance, gradients, iterative solver) are
represented by their contracts: arbitrary results of the right shape, recorded per call."""
import numpy as np
import scipy.linalg as la
import scipy.sparse
from runlmc.lmc.likelihood import ExactLMCLikelihood
from runlmc.models.interpolated_llgp import InterpolatedLLGP
from specs.fk import build, settle, param
from specs.exact import coreg, dist, norm_ads
from specs.gp import spread, var
from specs.linalg import AMat


class Cov(AMat):
    """an arbitrary covariance: products with M, solves with V"""

    def __init__(self, M, V, Ks):
        super().__init__(M)
        self.V, self.Ks = V, Ks


class OnGrid:
    def __init__(self, G):
        self.G = G
        self.grid_K = AMat(G)


class Solver:
    """contract of the iterative solver: the solution of the given system"""

    def __init__(self):
        self.used = 0

    def solve(self, K, y, verbose=False, minres=True, tol=1e-4):
        x = K.V.dot(y)
        return (x, 1, 0.0) if verbose else x


class Like:
    """contract of the approximate likelihood: some solution, some gradients"""

    def __init__(self, w, t, fk, K):
        cx, D, Q = w.cx, w.D, w.Q
        self.K, self.functional_kernel = K, fk
        self.sol = cx.array('alpha%d%s' % (t, w.tag), w.n)
        self.gv = [cx.array('gv%d_%d%s' % (q, t, w.tag), w.rk[q], D) for q in range(Q)]
        self.gd = [cx.array('gd%d_%d%s' % (q, t, w.tag), D) for q in range(Q)]
        self.gk = [[cx.real('gu%d_%d%s' % (q, t, w.tag)), cx.real('gw%d_%d%s' % (q, t, w.tag))] for q in range(Q)]
        self.gn = cx.array('gn%d%s' % (t, w.tag), D)

    def alpha(self):
        return self.sol

    def coreg_vec_gradients(self):
        return self.gv

    def coreg_diags_gradients(self):
        return self.gd

    def kernel_gradients(self):
        return self.gk

    def noise_gradient(self):
        return self.gn


class Call:
    pass


class World:
    """D outputs, kernels of the given mix on the given input dimensions, and the recorded calls"""

    def __init__(self, cx, D, mix, P=1, ads=None, tag='', ranks=None, least=2):
        self.cx, self.D, self.mix, self.P, self.tag = cx, D, mix, P, tag
        self.Q = sum(mix)
        self.ads = norm_ads(ads, self.Q, P)
        self.keys = []
        for ad in self.ads:
            if ad not in self.keys:
                self.keys.append(ad)
        self.fk, self.ks, ranks, ix = build(cx, mix, D, ads, ranks)
        self.rk = [ranks[q] if q < mix[0] else 1 for q in range(self.Q)]
        self.ranks = ranks
        self.ns = [cx.size('n%d%s' % (d, tag), lo=least, cap=max(4, least + 1)) for d in range(D)]
        self.n = sum(self.ns)
        self.Xs = [cx.array('X%d%s' % (d, tag), self.ns[d], P) for d in range(D)]
        self.Ys = [cx.array('Y%d%s' % (d, tag), self.ns[d]) for d in range(D)]
        for d in range(D):
            spread(cx, self.Ys[d], self.ns[d])
        self.grids, self.interps, self.gens = [], [], []
        self.solver = Solver()
        self.cur = self

    # contracts of the callees
    def autogrid(self, Xs, lo, hi, m):
        c = Call()
        k = len(self.grids)
        c.Xs, c.lo, c.hi, c.m = Xs, lo, hi, m
        p = 1 if self.P == 1 else len(self.keys[0]) if len(self.keys) == 1 else 1
        c.ms = [self.cx.size('m%d_%d%s' % (k, a, self.tag), cap=3) for a in range(p)]
        c.axes = [self.cx.array('g%d_%d%s' % (k, a, self.tag), c.ms[a]) for a in range(p)]
        c.M = c.ms[0] if p == 1 else c.ms[0] * c.ms[1]
        self.grids.append(c)
        return c.axes

    def grid_of(self, axes):
        """the automatic grid with these axes"""
        return [c for c in self.grids if c.axes[0] is axes[0]][0]

    def multi_interpolant(self, Xs, *inducing_grids):
        c = Call()
        k = len(self.interps)
        c.Xs, c.grid = Xs, self.grid_of(inducing_grids)
        c.axes = inducing_grids
        c.rows = sum([len(X) for X in Xs])
        c.dense = self.cx.array('W%d%s' % (k, self.tag), c.rows, self.D * c.grid.M)
        c.W = scipy.sparse.csr_matrix(c.dense)
        self.interps.append(c)
        return c.W

    def gen_grid_kernel(self, fk, grid_dists, interpolants, lens_per_output):
        cx = self.cx
        t = len(self.gens)
        g = Call()
        g.args = (fk, grid_dists, interpolants, lens_per_output)
        g.G = {ad: OnGrid(cx.array('G%d_%d%s' % (t, self.keys.index(ad), self.tag), self.D * self.gp_grid(ad).M,
                                   self.D * self.gp_grid(ad).M)) for ad in self.keys}
        g.K = Cov(cx.array('K%d%s' % (t, self.tag), self.n, self.n), cx.array('V%d%s' % (t, self.tag), self.n, self.n),
                  [g.G[ad] for ad in self.keys])
        self.gens.append(g)
        return g.K, g.G

    def gp_grid(self, ad):
        return self.grid_of(self.gp.grid_axes[ad]) if self.gp is not None else self.grids[self.keys.index(ad)]

    def likelihood(self, functional_kernel, grid_kern, grid_dists, interpolants, Ys, deriv):
        g = self.gens[-1]
        g.like_args = (functional_kernel, grid_kern, grid_dists, interpolants, Ys, deriv)
        g.like = Like(self, len(self.gens) - 1, functional_kernel, grid_kern)
        return g.like

    def run(self, thunk):
        cx = self.cx
        one, two, three, four = [
            ('runlmc.approx.interpolation', {'autogrid': lambda *a, **k: self.cur.autogrid(*a, **k),
                                             'multi_interpolant': lambda *a, **k: self.cur.multi_interpolant(*a, **k)}),
            ('runlmc.lmc.grid_kernel', {'gen_grid_kernel': lambda *a, **k: self.cur.gen_grid_kernel(*a, **k)}),
            ('runlmc.lmc.likelihood', {'ApproxLMCLikelihood': lambda *a, **k: self.cur.likelihood(*a, **k)}),
            ('runlmc.approx.iterative', {'Iterative': self.solver})]
        return cx.replacing(one[0], one[1], lambda: cx.replacing(two[0], two[1], lambda: cx.replacing(
            three[0], three[1], lambda: cx.replacing(four[0], four[1], thunk))))

    def build(self, **kw):
        self.gp = None
        args = dict(normalize=False, max_procs=1)
        args.update(kw)
        self.gp = InterpolatedLLGP(self.Xs, self.Ys, functional_kernel=self.fk, **args)
        self.settle('')
        return self.gp

    def settle(self, tag):
        """arbitrary new parameter values"""
        cx, fk = self.cx, self.fk
        Q, D, mix = self.Q, self.D, self.mix
        self.A = [cx.array('A%d%s%s' % (q, self.tag, tag), self.rk[q], D) if q < mix[0] + mix[1] else fk.coreg_vecs[q].copy()
                  for q in range(Q)]
        self.kap = [cx.array('kap%d%s%s' % (q, self.tag, tag), D, pos=True) if q < mix[0] else fk.coreg_diags[q].copy()
                    for q in range(Q)]
        self.noise = cx.array('noise%s%s' % (self.tag, tag), D, lo=0.5, hi=2.0)
        fk.coreg_vecs = self.A
        fk.coreg_diags = self.kap
        fk.noise = self.noise
        self.gp.parameters_changed()


LAYOUTS = [(1, (1, 0, 0), 1, None), (2, (1, 1, 0), 1, None), (2, (0, 1, 1), 2, [(0,), (1,)]), (2, (1, 0, 1), 2, None)]


def h_grids(cx):
    """grids and interpolation of the training inputs, per set of input dimensions"""
    D, mix, P, ads = cx.choice('layout', *LAYOUTS)
    w = World(cx, D, mix, P, ads, ranks=[1] * mix[0])
    s = cx.snapshot(*(w.Xs + w.Ys))

    def go():
        gp = w.build()
        cx.unchanged('data unchanged', s)
        cx.eq('one grid per set of input dimensions', len(w.grids), len(w.keys))
        cx.eq('sets of input dimensions', set(gp.grid_axes.keys()), set(w.keys))
        for ad in w.keys:
            g = w.grid_of(gp.grid_axes[ad])
            for d in range(D):
                cx.arr('grid covers the inputs', g.Xs[d], (w.ns[d], len(ad)), lambda i, j: w.Xs[d][i, ad[j]])
            cx.eq('range left to the data', (g.lo, g.hi, g.m), (None, None, None))
            W, WT = gp.interpolants[ad]
            c = [c for c in w.interps if c.grid is g][0]
            for d in range(D):
                cx.arr('interpolated inputs', c.Xs[d], (w.ns[d], len(ad)), lambda i, j: w.Xs[d][i, ad[j]])
            cx.eq('all axes used', len(c.axes), len(ad))
            cx.arr('interpolation', W, (w.n, D * g.M), lambda i, j: c.dense[i, j])
            cx.arr('transposed interpolation', WT, (D * g.M, w.n), lambda i, j: c.dense[j, i])
            if len(ad) == 1:
                cx.arr('grid distances', gp.dists[ad], g.M, lambda i: abs(g.axes[0][i] - g.axes[0][0]))
            else:
                cx.arr('grid distances', gp.dists[ad], (g.ms[0], g.ms[1]), lambda i, j: cx.fn('sqrt', (
                    (g.axes[0][i] - g.axes[0][0]) * (g.axes[0][i] - g.axes[0][0]) +
                    (g.axes[1][j] - g.axes[1][0]) * (g.axes[1][j] - g.axes[1][0]))))
        for t in w.gens:
            cx.true('covariance of the kernel', t.args[0] is w.fk)
            cx.eq('points per output', list(t.args[3]), w.ns)
            cx.true('likelihood of the kernel and covariance', t.like_args[0] is w.fk and t.like_args[1] is t.K)
            for d in range(D):
                cx.arr('likelihood of the data', t.like_args[4][d], w.ns[d], lambda i: w.Ys[d][i])
    w.run(go)


def h_grid_range(cx):
    """requested ranges and sizes reach the grid of their input dimensions"""
    P, ads = cx.choice('dims', (1, None), (2, [(0,), (1,)]), (2, [(1,), (0,)]), (2, None))
    scalar = cx.choice('scalar', False, True)
    D = 2
    w = World(cx, D, (0, 2, 0), P, ads)
    lo, hi = cx.array('lo', P, lo=-9, hi=-5), cx.array('hi', P, lo=5, hi=9)
    ms = cx.array('ms', P, dt='i', pos=True)

    def go():
        if scalar and P == 1:
            gp = w.build(lo=lo[0], hi=hi[0], m=ms[0])
        else:
            gp = w.build(lo=lo, hi=hi, m=ms)
        for ad in w.keys:
            g = w.grid_of(gp.grid_axes[ad])
            cx.arr('lower ends', g.lo, len(ad), lambda i: lo[ad[i]])
            cx.arr('upper ends', g.hi, len(ad), lambda i: hi[ad[i]])
            cx.arr('sizes', g.m, len(ad), lambda i: ms[ad[i]])
    w.run(go)


# ------------------------------------------------------------------ predictions
def queries(cx, w):
    ts = [cx.size('t%d' % d, lo=0, cap=3) for d in range(w.D)]
    Zs = [cx.array('Z%d' % d, ts[d], w.P) for d in range(w.D)]
    return ts, Zs


def check_mean(cx, w, mu, ts, Zs, first):
    """mean: interpolation of grid covariance times transposed training interpolation times solution"""
    g = w.gens[-1]
    parts = []
    for ad in w.keys:
        grid = w.gp_grid(ad)
        tr = [c for c in w.interps[:first] if c.grid is grid][0]
        te = [c for c in w.interps[first:] if c.grid is grid][0]
        for d in range(w.D):
            cx.arr('test points interpolated', te.Xs[d], (ts[d], len(ad)), lambda i, j: Zs[d][i, ad[j]])
        parts.append((te.dense, g.G[ad].G.dot(tr.dense.T.dot(g.like.sol))))
    cx.eq('one mean per output', len(mu), w.D)
    for d in range(w.D):
        o = sum(ts[:d])
        cx.arr('mean', mu[d], ts[d], lambda i: sum([cx.sum(len(v), lambda j: W[o + i, j] * v[j]) for W, v in parts]))


def prior(cx, w, d):
    """prior variance of output d, noise included"""
    return sum([coreg(cx, w.A, w.kap, w.rk, q, d, d) * cx.umap('k%d' % q, 0.0) for q in range(w.Q)]) + w.noise[d]


def clip(cx, v):
    return cx.ite(v < 0, 0, v)


def h_predict_mean(cx):
    D, mix, P, ads = cx.choice('layout', *LAYOUTS)
    w = World(cx, D, mix, P, ads, ranks=[1] * mix[0])
    ts, Zs = queries(cx, w)
    s = cx.snapshot(*Zs)

    def go():
        gp = w.build(prediction='exact')
        k = len(w.interps)
        mu, vr = gp.predict(Zs)
        check_mean(cx, w, mu, ts, Zs, k)
        cx.unchanged('test points unchanged', s)
    w.run(go)


def explained_exact(cx, w, ts, Zs):
    Kx = ExactLMCLikelihood.kernel_from_indices(Zs, w.Xs, w.fk)
    L = la.cho_factor(ExactLMCLikelihood(w.fk, w.Xs, w.Ys).K)
    S = la.cho_solve(L, Kx.T)
    return lambda i: cx.sum(w.n, lambda j: Kx[i, j] * S[j, i])


def explained_solve(cx, w, ts, Zs):
    Kx = ExactLMCLikelihood.kernel_from_indices(Zs, w.Xs, w.fk)
    V = w.gens[-1].K.V
    return lambda i: cx.sum(w.n, lambda j: cx.sum(w.n, lambda k: Kx[i, j] * V[j, k] * Kx[i, k]))


def explained_grid(cx, w, first):
    g = w.gens[-1]
    ad = w.keys[0]
    G, V = g.G[ad].G, g.K.V
    tr, te = w.interps[0].dense, w.interps[first].dense
    N = w.D * w.gp_grid(ad).M
    L, R = tr.dot(G), G.dot(tr.T)
    return lambda i: cx.sum(N, lambda u: te[i, u] * cx.sum(w.n, lambda a: cx.sum(w.n, lambda b: R[u, a] * V[a, b] * L[b, u])))


def check_variance(cx, w, vr, ts, ex):
    cx.eq('one variance per output', len(vr), w.D)
    for d in range(w.D):
        o = sum(ts[:d])
        cx.arr('variance', vr[d], ts[d], lambda i: clip(cx, prior(cx, w, d) - ex(o + i)))


def variance(cx, method, layouts):
    D, mix, P, ads = cx.choice('layout', *layouts)
    w = World(cx, D, mix, P, ads, ranks=[1] * mix[0])
    ts, Zs = queries(cx, w)
    s = cx.snapshot(*Zs)

    def go():
        gp = w.build(prediction=method)
        k = len(w.interps)
        mu, vr = gp.predict(Zs)
        if method == 'exact':
            ex = explained_exact(cx, w, ts, Zs)
        elif method == 'on-the-fly':
            ex = explained_solve(cx, w, ts, Zs)
        else:
            ex = explained_grid(cx, w, k)
        check_variance(cx, w, vr, ts, ex)
        cx.unchanged('test points unchanged', s)
    w.run(go)


def h_variance_exact(cx):
    variance(cx, 'exact', LAYOUTS)


def h_variance_solve(cx):
    variance(cx, 'on-the-fly', LAYOUTS[:2])


def h_variance_solve_dims(cx):
    variance(cx, 'on-the-fly', LAYOUTS[2:])


def h_variance_grid(cx):
    variance(cx, 'precompute', [LAYOUTS[0], LAYOUTS[1], LAYOUTS[3]])


# ------------------------------------------------------------------ likelihood
def logdet(cx, K, n):
    if not cx.symbolic:
        return float(np.linalg.slogdet(K)[1])
    L = la.cho_factor(K)[0]
    return 2 * cx.sum(n, lambda i: cx.fn('log', L[i, i]))


def check_likelihood(cx, w, gp):
    """log density: log determinant of the exact covariance, quadratic form of the data with the solution"""
    g = w.gens[-1]
    ex = ExactLMCLikelihood(w.fk, w.Xs, w.Ys).K
    cx.arr('covariance', gp.K(), (w.n, w.n), lambda i, j: ex[i, j])
    ld = logdet(cx, ex, w.n)
    qf = 0
    for d in range(w.D):
        o = sum(w.ns[:d])
        qf = qf + cx.sum(w.ns[d], lambda i: w.Ys[d][i] * g.like.sol[o + i])
    cx.eq('log determinant', gp.log_det_K(), ld)
    cx.eq('quadratic form', gp.normal_quadratic(), qf)
    cx.eq('log likelihood', gp.log_likelihood(), -(ld + qf + w.n * cx.fn('log', 2 * cx.pi())) / 2)


def h_likelihood(cx):
    D, mix, P, ads = cx.choice('layout', *LAYOUTS)
    w = World(cx, D, mix, P, ads, ranks=[1] * mix[0])

    def go():
        gp = w.build()
        check_likelihood(cx, w, gp)
    w.run(go)


def h_likelihood_normalized(cx):
    """with normalization the likelihood is that of the normalized data"""
    D = cx.choice('D', 1, 2)
    w = World(cx, D, (1, 0, 0), ranks=[1])

    def go():
        gp = w.build(normalize=True)
        sol = w.gens[-1].like.sol
        qf = 0
        for d in range(D):
            o = sum(w.ns[:d])
            m = cx.sum(w.ns[d], lambda i: w.Ys[d][i]) / w.ns[d]
            sd = cx.fn('sqrt', var(cx, w.Ys[d], w.ns[d]))
            qf = qf + cx.sum(w.ns[d], lambda i: (w.Ys[d][i] - m) / sd * sol[o + i])
            cx.arr('normalized data in the likelihood', w.gens[-1].like_args[4][d], w.ns[d], lambda i: (w.Ys[d][i] - m) / sd)
        cx.eq('quadratic form', gp.normal_quadratic(), qf)
    w.run(go)


# ------------------------------------------------------------------ histories
def h_gradients(cx):
    """after every change the gradients of the current likelihood are stored on the parameters they belong to"""
    D, mix, P, ads = cx.choice('layout', *LAYOUTS)
    w = World(cx, D, mix, P, ads, ranks=[1] * mix[0])

    def check(gp):
        g = w.gens[-1].like
        for q in range(w.Q):
            cx.arr('kernel gradient, first hyperparameter', w.ks[q].u.gradient, 1, lambda i: g.gk[q][0])
            cx.arr('kernel gradient, second hyperparameter', w.ks[q].v.gradient, 1, lambda i: g.gk[q][1])
            if q < mix[0] + mix[1]:
                cx.arr('vector gradient', param(w.fk, 'a%d' % q).gradient, (w.rk[q], D), lambda r, i: g.gv[q][r, i])
            if q < mix[0]:
                cx.arr('diagonal gradient', param(w.fk, 'kappa%d' % q).gradient, D, lambda i: g.gd[q][i])
        cx.arr('noise gradient', param(w.fk, 'noise').gradient, D, lambda i: g.gn[i])

    def go():
        gp = w.build()
        check(gp)
        w.settle('b')
        check(gp)
        cx.eq('kernel linked to the model', gp.gradient.size, w.fk.gradient.size)
    w.run(go)


def ask(cx, w, gp, ts, Zs, what):
    if what == 1:
        gp.predict(Zs)
    elif what == 2:
        gp.log_det_K()
    elif what == 3:
        gp.K()
        gp.predict(Zs)


def history(cx, method, layout):
    """any cached results, then new parameters: every query answers for the new parameters, first time and again"""
    D, mix, P, ads = layout
    w = World(cx, D, mix, P, ads, ranks=[1] * mix[0])
    ts, Zs = queries(cx, w)
    before = cx.choice('before', 0, 1, 2, 3)

    def go():
        gp = w.build(prediction=method)
        ask(cx, w, gp, ts, Zs, before)
        w.settle('b')
        for again in range(2):
            k = len(w.interps)
            mu, vr = gp.predict(Zs)
            check_mean(cx, w, mu, ts, Zs, k)
            ex = explained_exact(cx, w, ts, Zs) if method == 'exact' else explained_solve(
                cx, w, ts, Zs) if method == 'on-the-fly' else explained_grid(cx, w, k)
            check_variance(cx, w, vr, ts, ex)
            check_likelihood(cx, w, gp)
    w.run(go)


def h_history_exact(cx):
    history(cx, 'exact', cx.choice('layout', LAYOUTS[0], LAYOUTS[1]))


def h_history_solve(cx):
    history(cx, 'on-the-fly', LAYOUTS[0])


def h_history_grid(cx):
    history(cx, 'precompute', LAYOUTS[0])


def h_two_models(cx):
    """models do not see each other's results"""
    method = cx.choice('method', 'exact', 'precompute')
    w, v = World(cx, 1, (1, 0, 0), ranks=[1]), World(cx, 1, (0, 1, 0), tag='v')
    ts, Zs = queries(cx, w)

    def go(order):
        for x in order:
            w.cur = x
            k = len(x.interps)
            mu, vr = x.gp.predict(Zs)
            check_mean(cx, x, mu, ts, Zs, k)
            check_variance(cx, x, vr, ts, explained_exact(cx, x, ts, Zs) if method == 'exact' else explained_grid(cx, x, k))

    def all_():
        w.build(prediction=method)
        w.cur = v
        v.build(prediction=method)
        go([w, v, w])
        w.cur = w
        w.settle('b')
        go([v, w])
        w.cur = v
        v.settle('b')
        go([w, v, w])
        w.cur = w
        check_likelihood(cx, w, w.gp)
        w.cur = v
        check_likelihood(cx, v, v.gp)
        w.cur = w
        check_likelihood(cx, w, w.gp)
    w.run(all_)
