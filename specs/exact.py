"""Contracts of the exact covariance and of the exact likelihood gradients."""
import numpy as np
import scipy.linalg as la
from runlmc.lmc.likelihood import ExactLMCLikelihood
from runlmc.lmc.exact_deriv import ExactDeriv
from specs.fk import Kern, build, settle


def setup(cx, D, mix, P, ads=None, lo=1):
    """arbitrary data and hyperparameters of D outputs in P input dimensions"""
    fk, ks, ranks, ix = build(cx, mix, D, ads)
    fk.set_input_dim(P)
    rk, A, kap = settle(cx, fk, mix, ranks, D)
    noise = cx.array('noise', D, lo=0.5, hi=2.0)
    fk.noise = noise
    ns = [cx.size('n%d' % d, lo=lo, cap=4) for d in range(D)]
    Xs = [cx.array('X%d' % d, ns[d], P) for d in range(D)]
    Ys = [cx.array('Y%d' % d, ns[d]) for d in range(D)]
    return fk, rk, A, kap, noise, ns, Xs, Ys


def coreg(cx, A, kap, rk, q, i, j):
    v = cx.sum(rk[q], lambda r: A[q][r, i] * A[q][r, j])
    return v + kap[q][i] if i == j else v


def dist(cx, ad, x, z):
    """distance of two points over the input dimensions ad"""
    if len(ad) == 1:
        return abs(x[ad[0]] - z[ad[0]])
    return cx.fn('sqrt', sum([(x[p] - z[p]) * (x[p] - z[p]) for p in ad]))


def norm_ads(ads, Q, P):
    return [tuple(range(P)) if ads is None or ads[q] is None else ads[q] for q in range(Q)]


def layout(cx):
    which = cx.choice('layout', 0, 1, 2, 3, 4, 5)
    if which == 5:
        return 1, (1, 1, 0), 3, [(0, 2), (2,)]
    if which == 0:
        return 1, (1, 0, 0), 1, None
    if which == 1:
        return 2, (1, 1, 0), 1, None
    if which == 2:
        return 2, (0, 1, 1), 2, [(0,), (1,)]
    if which == 3:
        return 2, (1, 0, 1), 2, [None, (1,)]
    return 3, (1, 0, 0), 1, None


def h_exact_K(cx):
    D, mix, P, ads = layout(cx)
    fk, rk, A, kap, noise, ns, Xs, Ys = setup(cx, D, mix, P, ads)
    Q = sum(mix)
    ad = norm_ads(ads, Q, P)
    s = cx.snapshot(noise, *(Xs + Ys))
    ex = ExactLMCLikelihood(fk, Xs, Ys)
    cx.unchanged('data unchanged', s)
    n = sum(ns)
    cx.shape('covariance', ex.K, n, n)
    for i in range(D):
        for j in range(D):
            oi, oj = sum(ns[:i]), sum(ns[:j])
            cx.arr('covariance block', ex.K[oi:oi + ns[i], oj:oj + ns[j]], (ns[i], ns[j]),
                   lambda s, t: sum([coreg(cx, A, kap, rk, q, i, j) *
                                     cx.umap('k%d' % q, dist(cx, ad[q], Xs[i][s], Xs[j][t])) for q in range(Q)]) +
                   cx.ite(s == t, noise[i] if i == j else 0, 0))
    sol = la.cho_solve(la.cho_factor(ex.K), np.hstack(Ys))
    cx.arr('solution', ex.alpha(), n, lambda i: sol[i])


def h_exact_cross(cx):
    """covariance between two sets of points (no noise), any numbers of points per output"""
    D, mix, P, ads = layout(cx)
    fk, rk, A, kap, noise, ns, Xs, Ys = setup(cx, D, mix, P, ads)
    Q = sum(mix)
    ad = norm_ads(ads, Q, P)
    ts = [cx.size('t%d' % d, lo=0, cap=3) for d in range(D)]
    Zs = [cx.array('Z%d' % d, ts[d], P) for d in range(D)]
    s = cx.snapshot(*(Xs + Zs))
    K = ExactLMCLikelihood.kernel_from_indices(Zs, Xs, fk)
    cx.unchanged('points unchanged', s)
    cx.shape('cross covariance', K, sum(ts), sum(ns))
    for i in range(D):
        for j in range(D):
            oi, oj = sum(ts[:i]), sum(ns[:j])
            cx.arr('cross covariance block', K[oi:oi + ts[i], oj:oj + ns[j]], (ts[i], ns[j]),
                   lambda s, t: sum([coreg(cx, A, kap, rk, q, i, j) *
                                     cx.umap('k%d' % q, dist(cx, ad[q], Zs[i][s], Xs[j][t])) for q in range(Q)]))


# ------------------------------------------------------------------ gradients
def h_exact_deriv(cx):
    """the derivative service: half of quadratic form minus trace, for any symmetric dK"""
    n = cx.size('n', cap=5)
    y = cx.array('y', n)
    R = cx.array('R', n, n)
    K = R.dot(R.T) + np.identity(n)
    S = cx.array('S', n, n)
    dK = S + S.T
    L = la.cho_factor(K)
    s = cx.snapshot(y, K, dK)
    d = ExactDeriv(L, y)
    a, Ki = la.cho_solve(L, y), la.cho_solve(L, np.identity(n))
    cx.arr('alpha', d.alpha, n, lambda i: a[i])
    q = cx.sum(n, lambda i: cx.sum(n, lambda j: a[i] * dK[i, j] * a[j]))
    t = cx.sum(n, lambda i: cx.sum(n, lambda j: Ki[i, j] * dK[i, j]))
    cx.eq('quadratic term', d.d_normal_quadratic(dK), q)
    cx.eq('trace term', d.d_logdet_K(dK), t)
    cx.eq('derivative', d.derivative(dK), (q - t) / 2)
    cx.unchanged('inputs unchanged', s)
    cx.eq('derivative again', d.derivative(dK), (q - t) / 2)


def grad_layout(cx):
    which = cx.choice('layout', 0, 1, 2)
    if which == 0:
        return 1, (1, 0, 0), 1, None
    if which == 1:
        return 2, (1, 1, 0), 1, None
    return 2, (0, 1, 1), 2, [(0,), (1,)]


def blockform(cx, ex, ns, f):
    """1/2 sum over blocks and points of (alpha alpha^T - K^-1) . dK, dK given by blocks"""
    n = sum(ns)
    y = ex.y
    L = la.cho_factor(ex.K)
    a, Ki = la.cho_solve(L, y), la.cho_solve(L, np.identity(n))
    tot = 0
    for i in range(len(ns)):
        for j in range(len(ns)):
            oi, oj = sum(ns[:i]), sum(ns[:j])
            tot = tot + cx.sum(ns[i], lambda s: cx.sum(ns[j], lambda t: (
                a[oi + s] * a[oj + t] - Ki[oi + s, oj + t]) * f(i, j, s, t)))
    return tot / 2


def h_exact_noise_gradient(cx):
    D, mix, P, ads = grad_layout(cx)
    fk, rk, A, kap, noise, ns, Xs, Ys = setup(cx, D, mix, P, ads)
    ex = ExactLMCLikelihood(fk, Xs, Ys)
    g = ex.noise_gradient()
    cx.shape('noise gradient', g, D)
    for d in range(D):
        cx.eq('noise gradient', g[d], blockform(cx, ex, ns, lambda i, j, s, t: cx.ite(s == t, 1 if i == j == d else 0, 0)))


def h_exact_diag_gradient(cx):
    D, mix, P, ads = grad_layout(cx)
    fk, rk, A, kap, noise, ns, Xs, Ys = setup(cx, D, mix, P, ads)
    Q = sum(mix)
    ad = norm_ads(ads, Q, P)
    ex = ExactLMCLikelihood(fk, Xs, Ys)
    g = ex.coreg_diags_gradients()
    cx.eq('one gradient per kernel', len(g), Q)
    for q in range(Q):
        cx.shape('diagonal gradient', g[q], D)
        for d in range(D):
            cx.eq('diagonal gradient', g[q][d], blockform(cx, ex, ns, lambda i, j, s, t: cx.umap(
                'k%d' % q, dist(cx, ad[q], Xs[i][s], Xs[j][t])) * (1 if i == j == d else 0)))


def h_exact_vec_gradient(cx):
    D, mix, P, ads = grad_layout(cx)
    fk, rk, A, kap, noise, ns, Xs, Ys = setup(cx, D, mix, P, ads)
    Q = sum(mix)
    ad = norm_ads(ads, Q, P)
    ex = ExactLMCLikelihood(fk, Xs, Ys)
    g = ex.coreg_vec_gradients()
    cx.eq('one gradient per kernel', len(g), Q)
    for q in range(Q):
        for d in range(D):
            cx.shape('vector gradient', g[q], rk[q], D)
            cx.arr('vector gradient', g[q][:, d], rk[q], lambda r: blockform(cx, ex, ns, lambda i, j, s, t: cx.umap(
                'k%d' % q, dist(cx, ad[q], Xs[i][s], Xs[j][t])) * (
                    (A[q][r, j] if i == d else 0) + (A[q][r, i] if j == d else 0))))


def h_exact_kernel_gradient(cx):
    D, mix, P, ads = grad_layout(cx)
    fk, rk, A, kap, noise, ns, Xs, Ys = setup(cx, D, mix, P, ads)
    Q = sum(mix)
    ad = norm_ads(ads, Q, P)
    ex = ExactLMCLikelihood(fk, Xs, Ys)
    g = ex.kernel_gradients()
    cx.eq('one gradient per kernel', len(g), Q)
    for q in range(Q):
        cx.eq('one gradient per hyperparameter', len(g[q]), 2)
        for h in range(2):
            nm = ('du%d' if h == 0 else 'dv%d') % q
            cx.eq('hyperparameter gradient', g[q][h], blockform(cx, ex, ns, lambda i, j, s, t: coreg(
                cx, A, kap, rk, q, i, j) * cx.umap(nm, dist(cx, ad[q], Xs[i][s], Xs[j][t]))))
