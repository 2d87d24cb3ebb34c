"""Bounded contracts: real models end to end against dense formulas (concrete runs only)."""
import climin
import numpy as np
from scipy.sparse.linalg import minres
from runlmc.kern.rbf import RBF
from runlmc.kern.matern32 import Matern32
from runlmc.kern.std_periodic import StdPeriodic
from runlmc.kern.scaled import Scaled
from runlmc.lmc.functional_kernel import FunctionalKernel
from runlmc.lmc.likelihood import ExactLMCLikelihood
from runlmc.models.interpolated_llgp import InterpolatedLLGP
from specs.fk import param

META = {'h_real_grid': {'runs': 4}, 'h_real_predict': {'runs': 10}, 'h_real_likelihood': {'runs': 8}, 'h_real_pure': {'runs': 6},
        'h_real_history': {'runs': 6}, 'h_real_models': {'runs': 4}, 'h_real_metrics': {'runs': 4},
        'h_real_gradient': {'runs': 6}, 'h_real_workers': {'runs': 2}, 'h_real_optimize': {'runs': 4}}


def kernel(cx, tag, P, ads):
    ad = cx.choice('ad' + tag, *ads)
    kind = cx.choice('kind' + tag, 'rbf', 'mat', 'per', 'scaled')
    if kind == 'per' and P > 1 and (ad is None or len(ad) > 1):
        # not a covariance in two dimensions
        kind = 'rbf'
    if kind == 'rbf':
        return RBF(cx.real('l' + tag, lo=0.3, hi=1.5), name='rbf' + tag, active_dims=ad), ad
    if kind == 'mat':
        return Matern32(cx.real('l' + tag, lo=0.3, hi=1.5), name='mat' + tag, active_dims=ad), ad
    if kind == 'per':
        return StdPeriodic(cx.real('l' + tag, lo=0.5, hi=1.5), cx.real('p' + tag, lo=1.0, hi=3.0), name='per' + tag,
                           active_dims=ad), ad
    return Scaled(RBF(cx.real("l" + tag, lo=0.3, hi=1.5), name="rbf" + tag, active_dims=ad)), ad


def functional(cx, D, P, split):
    mix = cx.choice('mix', (1, 0, 0), (0, 2, 0), (1, 1, 0), (1, 0, 1), (0, 1, 1), (0, 0, 2), (2, 0, 1), (1, 1, 1))
    Q = sum(mix)
    ads = [None] if P == 1 or not split else [None, (0,), (1,), (0, 1)]
    ks = [kernel(cx, str(q), P, ads)[0] for q in range(Q)]
    ranks = [cx.int('r%d' % q, 1, 2) for q in range(mix[0])]
    ix = [cx.int('ix%d' % q, 0, D - 1) for q in range(mix[2])]
    return FunctionalKernel(D=D, lmc_kernels=ks[:mix[0]], lmc_ranks=ranks, slfm_kernels=ks[mix[0]:mix[0] + mix[1]],
                            indep_gp=ks[mix[0] + mix[1]:], indep_gp_index=ix), ks


class Problem:
    pass


class Recorder:
    """the real method; remembers the right-hand sides"""

    def __init__(self):
        self.bs = []

    def __call__(self, A, b, *a, **k):
        self.bs.append(np.array(b, dtype=float))
        return minres(A, b, *a, **k)


def problem(cx, split=True, prediction=None, normalize=None, metrics=False, keep=False):
    D, P = cx.choice('D', 1, 2, 3), cx.choice('P', 1, 1, 2)
    ns = [cx.int('n%d' % d, 3, 8) for d in range(D)]
    Xs = [cx.array('X%d' % d, ns[d], P, vary=False) for d in range(D)]
    Ys = [cx.array('Y%d' % d, ns[d], vary=False) for d in range(D)]
    p = Problem()
    p.fk, p.ks = functional(cx, D, P, split)
    if prediction is None:
        prediction = cx.choice('prediction', 'exact', 'on-the-fly')
    if normalize is None:
        normalize = cx.choice('normalize', True, False)
    if P == 1:
        Xs = [X[:, 0] for X in Xs]
    fmt = cx.choice('range', 0, 1)
    m = [cx.int('m%d' % p, 5, 8) for p in range(P)]
    kw = dict(m=m[0] if P == 1 else m) if fmt else dict(lo=-2.5 if P == 1 else [-2.5] * P, hi=2.5 if P == 1 else [2.5] * P,
                                                        m=m[0] if P == 1 else m)
    if keep:
        p.snap = cx.snapshot(Xs, Ys)
    rec = Recorder()
    p.gp = cx.with_methods({'minres': rec}, lambda: InterpolatedLLGP(
        Xs, Ys, normalize=normalize, prediction=prediction, max_procs=1, functional_kernel=p.fk, metrics=metrics,
        trace_iterations=4, tolerance=1e-6, **kw))
    p.rhs = rec.bs
    ts = [cx.int('t%d' % d, 0, 4) for d in range(D)]
    Zs = [cx.array('Z%d' % d, ts[d], P, lo=-1.8, hi=1.8, vary=False) for d in range(D)]
    if P == 1 and cx.choice('flat', True, False):
        Zs = [Z[:, 0] for Z in Zs]
    p.Xs, p.Ys, p.Zs = Xs, Ys, Zs
    return p


def dense(p):
    """the approximate covariance and its parts, from the model's parameters, grids and interpolation alone"""
    gp, fk = p.gp, p.fk
    parts = {}
    for ad, qs in fk.active_dims.items():
        axes = gp.grid_axes[ad]
        nodes = np.stack(np.meshgrid(*axes, indexing='ij'), -1).reshape(-1, len(axes))
        dist = np.sqrt(((nodes[:, None, :] - nodes[None, :, :]) ** 2).sum(-1))
        G = 0
        for q in qs:
            B = fk.coreg_vecs[q].T.dot(fk.coreg_vecs[q]) + np.diag(fk.coreg_diags[q])
            G = G + np.kron(B, np.asarray(p.ks[q].from_dist(dist)))
        parts[ad] = (gp.interpolants[ad][0].toarray(), G)
    lens = [len(Y) for Y in gp.Ys]
    K = sum(W.dot(G).dot(W.T) for W, G in parts.values()) + np.diag(np.repeat(np.asarray(fk.noise), lens))
    return K, parts


def near(cx, label, a, b, tol=2e-3):
    cx.eq(label + ': length', len(a), len(b))
    for x, y in zip(a, b):
        x, y = np.asarray(x), np.asarray(y)
        cx.eq(label + ': shape', tuple(x.shape), tuple(y.shape))
        if x.size:
            cx.true(label, bool(np.all(np.abs(x - y) <= tol * (1 + np.abs(y)))))


def oracle(p):
    from runlmc.approx.interpolation import multi_interpolant
    gp, fk, Zs = p.gp, p.fk, p.Zs
    Zs = [Z.reshape(-1, 1) if Z.ndim == 1 else Z for Z in Zs]
    lens = [len(Z) for Z in Zs]
    K, parts = dense(p)
    y = np.hstack(gp.Ys)
    a = np.linalg.solve(K, y)
    mean = np.zeros(sum(lens))
    ev = np.zeros(sum(lens))
    for ad, (W, G) in parts.items():
        T = multi_interpolant([Z[:, ad] for Z in Zs], *gp.grid_axes[ad]).toarray()
        mean += T.dot(G).dot(W.T.dot(a))
        if gp.prediction == 'precompute':
            ev += T.dot(np.diag(G.dot(W.T).dot(np.linalg.solve(K, W.dot(G)))))
    Xs = gp.Xs
    if gp.prediction != 'precompute':
        Kx = ExactLMCLikelihood.kernel_from_indices(Zs, Xs, fk)
        Ke = ExactLMCLikelihood.kernel_from_indices(Xs, Xs, fk) + np.diag(np.repeat(np.asarray(fk.noise), [len(Y) for Y in gp.Ys]))
        ev = np.diag(Kx.dot(np.linalg.solve(Ke if gp.prediction == 'exact' else K, Kx.T)))
    prior = np.array([sum((np.square(fk.coreg_vecs[q][:, d]).sum() + fk.coreg_diags[q][d]) *
                          float(np.asarray(p.ks[q].from_dist(np.zeros(1)))[0]) for q in range(fk.Q)) for d in range(fk.D)])
    prior = prior + np.asarray(fk.noise)
    var = np.maximum(np.repeat(prior, lens) - ev, 0)
    cut = np.cumsum(lens)[:-1]
    mu, vr = np.split(mean, cut), np.split(var, cut)
    if gp.normalizer:
        mu = [n.inverse_mean(m) for n, m in zip(gp.normalizer, mu)]
        vr = [n.inverse_variance(v) for n, v in zip(gp.normalizer, vr)]
    return mu, vr


def check_all(cx, p):
    check_predict(cx, p)
    check_likelihood(cx, p)


def check_predict(cx, p):
    mu, vr = p.gp.predict(p.Zs)
    emu, evr = oracle(p)
    near(cx, 'mean', mu, emu)
    near(cx, 'variance', vr, evr)


def check_likelihood(cx, p):
    gp, fk = p.gp, p.fk
    Ke = ExactLMCLikelihood.kernel_from_indices(gp.Xs, gp.Xs, fk) + np.diag(
        np.repeat(np.asarray(fk.noise), [len(Y) for Y in gp.Ys]))
    near(cx, 'exact covariance', [gp.K()], [Ke], 1e-6)
    K, _ = dense(p)
    y = np.hstack(gp.Ys)
    want = -0.5 * (np.linalg.slogdet(Ke)[1] + y.dot(np.linalg.solve(K, y)) + len(y) * np.log(2 * np.pi))
    near(cx, 'log likelihood', [gp.log_likelihood()], [want])


def leaves(node):
    if hasattr(node, 'parameters') and node.parameters:
        return [x for p in node.parameters for x in leaves(p)]
    return [node]


def scramble(cx, p, t):
    """new parameter values through the public parameter interface"""
    gp, fk = p.gp, p.fk
    how = cx.choice('how%d' % t, 0, 1, 2)
    if how == 0:
        x = gp.optimizer_array.copy()
        gp.optimizer_array = x + cx.array('dx%d' % t, len(x), lo=-0.4, hi=0.4, vary=False)
    elif how == 1:
        ps = leaves(fk)
        p = ps[cx.int('which%d' % t, 0, len(ps) - 1)]
        p[...] = np.array(p) * cx.real('f%d' % t, lo=0.6, hi=1.5)
    else:
        nz = param(fk, 'noise')
        nz[...] = cx.array('nz%d' % t, len(nz), lo=0.3, hi=1.5)


def h_real_predict(cx):
    """predictions of a real model equal the dense formulas"""
    p = problem(cx)
    check_predict(cx, p)
    check_predict(cx, p)


def h_real_likelihood(cx):
    """likelihood and covariance of a real model equal the dense formulas"""
    p = problem(cx)
    check_likelihood(cx, p)
    scramble(cx, p, 0)
    check_likelihood(cx, p)
    nz = param(p.fk, 'noise')
    nz[...] = cx.array('tiny', len(nz), lo=1e-7, hi=1e-5)
    near(cx, 'log determinant of a nearly singular covariance', [p.gp.log_det_K()], [np.linalg.slogdet(p.gp.K())[1]], 1e-4)


def h_real_pure(cx):
    """queries change no caller data and answer the same again"""
    prediction = cx.choice('method', 'exact', 'on-the-fly', 'precompute')
    p = problem(cx, split=False, prediction=prediction, keep=True)
    gp, Zs = p.gp, p.Zs
    cx.unchanged('construction leaves the data alone', p.snap)
    s = cx.snapshot(p.Xs, p.Ys, Zs)
    first = None
    for t in range(2):
        got = [gp.predict(Zs), gp.predict_quantiles(Zs, np.array([2.5, 50.0])), gp.K().copy(), gp.log_likelihood()]
        cx.unchanged('queries leave the data alone', s)
        if first is not None:
            near(cx, 'means again', got[0][0], first[0][0], 1e-12)
            near(cx, 'variances again', got[0][1], first[0][1], 1e-12)
            near(cx, 'quantiles again', got[1], first[1], 1e-12)
            near(cx, 'covariance again', [got[2]], [first[2]], 1e-12)
            near(cx, 'likelihood again', [got[3]], [first[3]], 1e-12)
        first = got


def h_real_grid(cx):
    """the same with the precomputed variance"""
    check_predict(cx, problem(cx, split=False, prediction='precompute'))


def h_real_history(cx):
    """any interleaving of parameter changes and queries"""
    p = problem(cx)
    for t in range(3):
        if cx.choice('ask%d' % t, True, False):
            check_all(cx, p)
        scramble(cx, p, t)
    check_all(cx, p)


def h_real_models(cx):
    """two models side by side"""
    p, o = problem(cx), Problem()
    D, P = len(p.Ys), p.gp.input_dim
    o.ks = [RBF(cx.real('l2', lo=0.3, hi=1.5), name='other')]
    o.fk = FunctionalKernel(D=D, lmc_kernels=o.ks, lmc_ranks=[1])
    o.gp = InterpolatedLLGP([X + 0.1 for X in p.Xs], [Y[::-1].copy() for Y in p.Ys], normalize=False, prediction='exact',
                            max_procs=1, functional_kernel=o.fk, m=6 if P == 1 else [6] * P, tolerance=1e-6)
    o.Zs = p.Zs
    check_all(cx, p)
    check_all(cx, o)
    check_all(cx, p)
    scramble(cx, o, 0)
    check_all(cx, p)
    check_all(cx, o)
    scramble(cx, p, 1)
    check_all(cx, o)
    check_all(cx, p)


def h_real_metrics(cx):
    """recording metrics changes no answer"""
    p = problem(cx, split=False, metrics=True)
    check_all(cx, p)
    scramble(cx, p, 0)
    check_all(cx, p)


def numeric(f, x, h=1e-5):
    return (f(x + h) - f(x - h)) / (2 * h)


def h_real_gradient(cx):
    """every stored gradient is the estimator for the derivative of the approximate covariance in that very entry"""
    p = problem(cx)
    K, _ = dense(p)
    y = np.hstack(p.gp.Ys)
    a = np.linalg.solve(K, y)
    rs = [b for b in p.rhs if np.all(np.abs(b) == 1)][-4:]
    cx.assume(len(rs) == 4)
    R = [np.linalg.solve(K, r) for r in rs]
    for node in leaves(p.fk):
        g = np.array(node.gradient, dtype=float).reshape(-1)
        flat = np.asarray(node.values).reshape(-1)
        for i in range(len(flat)):
            v = flat[i]

            def at(x):
                flat[i] = x
                r = dense(p)[0]
                flat[i] = v
                return r
            dK = numeric(at, v)
            if not dK.any():
                continue
            e = 0.5 * (a.dot(dK).dot(a) - np.mean([x.dot(dK).dot(r) for x, r in zip(R, rs)]))
            cx.true('gradient', abs(g[i] - e) <= 2e-3 * (1 + abs(e)))


def h_real_workers(cx):
    """real worker processes and serial evaluation give the same answers"""
    D = 2
    Xs = [cx.array('X%d' % d, 155 + 10 * d, lo=-2, hi=2, vary=False) for d in range(D)]
    Ys = [cx.array('Y%d' % d, 155 + 10 * d, vary=False) for d in range(D)]
    Zs = [cx.array('Z%d' % d, 3 + d, lo=-1.8, hi=1.8, vary=False) for d in range(D)]
    method = cx.choice('prediction', 'on-the-fly', 'precompute')
    seed = cx.int('seed', 0, 999)
    ls = [cx.real('l', lo=0.5, hi=1.5), cx.real('l2', lo=0.5, hi=1.5)]
    out = []
    for procs in (1, 3):
        np.random.seed(seed)
        fk = FunctionalKernel(D=D, lmc_kernels=[RBF(ls[0], name='k0')], lmc_ranks=[1],
                              slfm_kernels=[Matern32(ls[1], name='k1')])
        np.random.seed(seed)
        gp = InterpolatedLLGP(Xs, Ys, normalize=True, prediction=method, max_procs=procs, functional_kernel=fk, m=6,
                              trace_iterations=5, tolerance=1e-8)
        np.random.seed(seed)
        nz = param(fk, 'noise')
        nz[...] = np.array([0.7, 0.9])
        out.append((gp.predict(Zs), np.array(gp.gradient, dtype=float), gp.log_likelihood()))
    near(cx, 'means', out[1][0][0], out[0][0][0], 1e-5)
    near(cx, 'variances', out[1][0][1], out[0][0][1], 1e-5)
    near(cx, 'gradient', [out[1][1]], [out[0][1]], 1e-5)
    near(cx, 'log likelihood', [out[1][2]], [out[0][2]], 1e-5)


def h_real_optimize(cx):
    """the optimizer on a real model: steps, callbacks and final parameters follow the recorded gradients"""
    from runlmc.models.optimization import AdaDelta
    p = problem(cx)
    gp = p.gp
    max_it, drops, ratio = cx.int('max_it', 1, 8), cx.int('drops', 1, 3), cx.real('ratio', lo=0.0, hi=1.0)
    seen, at = [], []

    def callback():
        seen.append(float(np.abs(np.asarray(grads[-1])).max()))
        at.append(gp.optimizer_array.copy())
    grads = []
    opt = AdaDelta(max_it=max_it, permitted_drops=drops, min_grad_ratio=ratio, callback=callback)
    orig = climin.Adadelta

    def spy(wrt, fprime, *a, **k):
        def fp(x, *b, **c):
            g = fprime(x, *b, **c)
            grads.append(np.array(g, dtype=float))
            return g
        return orig(wrt, fp, *a, **k)
    cx.external('climin', {'Adadelta': spy}, lambda: gp.optimize(optimizer=opt))
    top, left = 0, drops
    for t, g in enumerate(seen):
        top = max(top, g)
        if g < ratio * top:
            left -= 1
        stop = t + 1 >= max_it or left <= 0
        cx.eq('stops exactly when it should', stop, t + 1 == len(seen))
    cx.true('takes a step', len(seen) >= 1)
    near(cx, 'model left at the last iterate', [gp.optimizer_array], [np.asarray(opt.x_opt)], 1e-12)
    check_all(cx, p)
