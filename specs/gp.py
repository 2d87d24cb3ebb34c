"""Contracts of output normalization, generic multi-output prediction, quantiles, input validation and mean functions."""
import numpy as np
from runlmc.util.normalizer import Norm
from runlmc.models.multigp import MultiGP
from runlmc.mean.constant import Constant
from runlmc.mean.zero import Zero


def mean(cx, Y, n):
    return cx.sum(n, lambda i: Y[i]) / n


def var(cx, Y, n):
    m = mean(cx, Y, n)
    return cx.sum(n, lambda i: (Y[i] - m) * (Y[i] - m)) / n


def std(cx, Y, n):
    return cx.fn('sqrt', var(cx, Y, n))


def spread(cx, Y, n):
    """the values of Y are not all equal (natively: by more than rounding)"""
    v = var(cx, Y, n)
    cx.assume(v > (0 if cx.symbolic else 1e-9 * float(np.max(np.square(Y)))))
    return v


# ------------------------------------------------------------------ Norm
def h_norm_stats(cx):
    n = cx.size('n', lo=2)
    Y = cx.array('Y', n, wide=True)
    v = spread(cx, Y, n)
    s = cx.snapshot(Y)
    N = Norm()
    cx.true('not scaled yet', not N.scaled())
    N.scale_by(Y)
    cx.true('scaled', N.scaled())
    m, d = mean(cx, Y, n), std(cx, Y, n)
    out = N.normalize(Y)
    cx.arr('normalize', out, n, lambda i: (Y[i] - m) / d)
    cx.unchanged('normalize leaves the data alone', s)
    cx.eq('zero mean', cx.sum(n, lambda i: out[i]), 0)
    cx.eq('unit variance', cx.sum(n, lambda i: out[i] * out[i]), n)
    k = cx.size('k', lo=0)
    Z, V = cx.array('Z', k), cx.array('V', k, nonneg=True)
    s = cx.snapshot(Z, V)
    cx.arr('inverse_mean', N.inverse_mean(Z), k, lambda i: Z[i] * d + m)
    cx.arr('inverse_variance', N.inverse_variance(V), k, lambda i: V[i] * v)
    back = N.inverse_mean(N.normalize(Z))
    cx.arr('normalize then undo', back, k, lambda i: Z[i])
    back = N.normalize(N.inverse_mean(Z))
    cx.arr('undo then normalize', back, k, lambda i: Z[i])
    cx.unchanged('inverse leaves its input alone', s)


def h_norm_requires_scaling(cx):
    n = cx.size('n')
    Y = cx.array('Y', n)
    cx.raises('unscaled normalizer', 'AttributeError', lambda: Norm().normalize(Y))


def h_norm_missing(cx):
    """missing values (nan) are ignored by the statistics (concrete only)"""
    n = cx.size('n', lo=3)
    Y = cx.array('Y', n, vary='float')
    cx.assume(np.std(Y[1:]) > 1e-3)
    Z = Y.copy()
    Z[0] = np.nan
    N = Norm()
    N.scale_by(Z)
    cx.eq('mean of the finite values', N.inverse_mean(0.0), np.mean(Y[1:]))
    cx.eq('variance of the finite values', N.inverse_variance(1.0), np.var(Y[1:]))


# ------------------------------------------------------------------ MultiGP
class GP(MultiGP):
    """the arbitrary multi-output model: predicts whatever its raw predictor says"""

    def _raw_predict(self, Xs):
        self.seen = Xs
        return self.raw

    def log_likelihood(self):
        return 0.0

    def parameters_changed(self):
        pass


def data(cx, K, P=None):
    """K outputs of arbitrary sizes; P input dimensions (None: one-dimensional arrays)"""
    ns = [cx.size('n%d' % k, lo=2) for k in range(K)]
    Xs = [cx.array('X%d' % k, ns[k]) if P is None else cx.array('X%d' % k, ns[k], P) for k in range(K)]
    Ys = [cx.array('Y%d' % k, ns[k], wide=True) for k in range(K)]
    for k in range(K):
        spread(cx, Ys[k], ns[k])
    return ns, Xs, Ys


def tests(cx, K, P=None):
    ts = [cx.size('t%d' % k, lo=0) for k in range(K)]
    Zs = [cx.array('Z%d' % k, ts[k]) if P is None else cx.array('Z%d' % k, ts[k], P) for k in range(K)]
    mu = [cx.array('mu%d' % k, ts[k]) for k in range(K)]
    vr = [cx.array('vr%d' % k, ts[k], nonneg=True) for k in range(K)]
    return ts, Zs, mu, vr


def h_gp_normalizes(cx):
    K = cx.choice('K', 1, 2, 3)
    ns, Xs, Ys = data(cx, K)
    s = cx.snapshot(*(Xs + Ys))
    gp = GP(Xs, Ys, normalize=True) if cx.choice('asked', True, False) else GP(Xs, Ys)  # the default
    cx.eq('number of outputs', gp.output_dim, K)
    cx.eq('input dimension', gp.input_dim, 1)
    for k in range(K):
        m, d = mean(cx, Ys[k], ns[k]), std(cx, Ys[k], ns[k])
        cx.arr('normalized output', gp.Ys[k], ns[k], lambda i: (Ys[k][i] - m) / d)
        cx.arr('inputs as columns', gp.Xs[k], (ns[k], 1), lambda i, j: Xs[k][i])
    cx.unchanged('training data unchanged', s)


def h_gp_raw(cx):
    """without normalization the data are used as given"""
    K = cx.choice('K', 1, 2, 3)
    P = cx.choice('P', 1, 2, 3)
    ns, Xs, Ys = data(cx, K, P)
    gp = GP(Xs, Ys, normalize=False)
    cx.eq('input dimension', gp.input_dim, P)
    cx.eq('number of outputs', gp.output_dim, K)
    for k in range(K):
        cx.arr('raw output', gp.Ys[k], ns[k], lambda i: Ys[k][i])
        cx.arr('raw inputs', gp.Xs[k], (ns[k], P), lambda i, j: Xs[k][i, j])


def h_gp_predict(cx):
    K = cx.choice('K', 1, 2, 3)
    normalize = cx.choice('normalize', True, False)
    ns, Xs, Ys = data(cx, K)
    ts, Zs, mu, vr = tests(cx, K)
    gp = GP(Xs, Ys, normalize=normalize)
    gp.raw = (mu, vr)
    s = cx.snapshot(*Zs)
    m, v = gp.predict(Zs)
    cx.unchanged('test points unchanged', s)
    cx.eq('outputs predicted', (len(m), len(v)), (K, K))
    for k in range(K):
        cx.arr('raw predictor sees the test points as columns', gp.seen[k], (ts[k], 1), lambda i, j: Zs[k][i])
        if normalize:
            a, b = mean(cx, Ys[k], ns[k]), std(cx, Ys[k], ns[k])
            cx.arr('mean in original units', m[k], ts[k], lambda i: mu[k][i] * b + a)
            cx.arr('variance in original units', v[k], ts[k], lambda i: vr[k][i] * var(cx, Ys[k], ns[k]))
        else:
            cx.arr('mean', m[k], ts[k], lambda i: mu[k][i])
            cx.arr('variance', v[k], ts[k], lambda i: vr[k][i])


def h_gp_quantiles(cx):
    K = cx.choice('K', 1, 2)
    normalize = cx.choice('normalize', True, False)
    ns, Xs, Ys = data(cx, K)
    ts, Zs, mu, vr = tests(cx, K)
    gp = GP(Xs, Ys, normalize=normalize)
    gp.raw = (mu, vr)
    q = cx.size('q')
    Q = cx.array('Q', q, lo=0.1, hi=99.9)
    s = cx.snapshot(Q, *Zs)
    out = gp.predict_quantiles(Zs, Q)
    cx.unchanged('arguments unchanged', s)
    cx.eq('outputs predicted', len(out), K)
    for k in range(K):
        a, b = (mean(cx, Ys[k], ns[k]), std(cx, Ys[k], ns[k])) if normalize else (0, 1)
        cx.arr('quantiles', out[k], (ts[k], q),
               lambda i, j: a + b * (mu[k][i] + cx.fn('sqrt', vr[k][i]) * cx.ppf(Q[j] / 100)))
    out = gp.predict_quantiles(Zs)
    for k in range(K):
        a, b = (mean(cx, Ys[k], ns[k]), std(cx, Ys[k], ns[k])) if normalize else (0, 1)
        cx.arr('default quantiles', out[k], (ts[k], 2),
               lambda i, j: a + b * (mu[k][i] + cx.fn('sqrt', vr[k][i]) * cx.ite(j == 0, cx.ppf(0.025), cx.ppf(0.975))))


# ------------------------------------------------------------------ validation
def h_gp_rejects(cx):
    n, m = cx.size('n', lo=2), cx.size('m', lo=2)
    Y = cx.array('Y', n)
    spread(cx, Y, n)
    X = cx.array('X', n)
    cx.raises('no outputs', 'ValueError', lambda: GP([], []))
    cx.raises('more inputs than outputs', 'ValueError', lambda: GP([X, X], [Y]))
    cx.raises('more outputs than inputs', 'ValueError', lambda: GP([X], [Y, Y]))
    cx.raises('three-dimensional inputs', 'ValueError', lambda: GP([X.reshape(n, 1, 1)], [Y]))
    cx.raises('two-dimensional outputs', 'ValueError', lambda: GP([X], [Y.reshape(n, 1)]))
    cx.raises('constant output', 'ValueError', lambda: GP([X], [Y * 0 + 2]))
    cx.raises('constant second output', 'ValueError', lambda: GP([X, X], [Y, Y * 0]))
    norm = cx.choice('normalize', True, False)
    cx.raises('constant output, any normalization', 'ValueError', lambda: GP([X], [Y * 0 + 2], normalize=norm))


def h_gp_rejects_lengths(cx):
    n, m = cx.size('n', lo=2), cx.size('m', lo=1)
    cx.assume(n != m)
    k = cx.size('k', lo=2)
    Y, Y2 = cx.array('Y', n), cx.array('Y2', k)
    spread(cx, Y, n)
    spread(cx, Y2, k)
    X, X2 = cx.array('X', m), cx.array('X2', k)
    cx.raises('lengths disagree', 'ValueError', lambda: GP([X], [Y]))
    cx.raises('lengths of the second output disagree', 'ValueError', lambda: GP([X2, X], [Y2, Y]))
    cx.raises('lengths of the first output disagree', 'ValueError', lambda: GP([X, X2], [Y, Y2]))


def h_gp_rejects_dims(cx):
    n, k = cx.size('n', lo=2), cx.size('k', lo=2)
    p, q = cx.size('p'), cx.size('q')
    cx.assume(p != q)
    Y, Y2 = cx.array('Y', n), cx.array('Y2', k)
    spread(cx, Y, n)
    spread(cx, Y2, k)
    X, X2 = cx.array('X', n, p), cx.array('X2', k, q)
    cx.raises('input dimensions disagree', 'ValueError', lambda: GP([X, X2], [Y, Y2]))
    gp = GP([X], [Y])
    t = cx.size('t')
    Z = cx.array('Z', t, q)
    cx.raises('test points of another dimension', 'ValueError', lambda: gp.predict([Z]))
    cx.raises('test points of another dimension', 'ValueError', lambda: gp.predict_quantiles([Z]))
    Z1 = cx.array('Z1', t, p)
    cx.raises('too few test inputs', ('AssertionError', 'ValueError'), lambda: GP([X, X], [Y, Y]).predict([Z1]))


def h_gp_rejects_mixed(cx):
    """one-dimensional arrays next to wider ones"""
    n, k, p = cx.size('n', lo=2), cx.size('k', lo=2), cx.size('p', lo=2)
    Y, Y2 = cx.array('Y', n), cx.array('Y2', k)
    spread(cx, Y, n)
    spread(cx, Y2, k)
    X, X2 = cx.array('X', n, p), cx.array('X2', k)
    cx.raises('flat next to wide inputs', 'ValueError', lambda: GP([X, X2], [Y, Y2]))
    cx.raises('wide next to flat inputs', 'ValueError', lambda: GP([X2, X], [Y2, Y]))


# ------------------------------------------------------------------ mean functions
def h_mean_zero(cx):
    K = cx.choice('K', 1, 2, 3)
    ns = [cx.size('n%d' % k, lo=0) for k in range(K)]
    xdt = cx.choice('xdt', 'f', 'i')
    Xs = [cx.array('X%d' % k, ns[k], dt=xdt) for k in range(K)]
    z = Zero(1, K)
    out = z.f(Xs)
    cx.eq('one array per output', len(out), K)
    for k in range(K):
        cx.arr('zero mean', out[k], ns[k], lambda i: 0)
    cx.eq('no parameters', len(z.mean_gradient(Xs)), 0)


def h_mean_constant(cx):
    K = cx.choice('K', 1, 2, 3)
    ns = [cx.size('n%d' % k, lo=0) for k in range(K)]
    xdt = cx.choice('xdt', 'f', 'i')
    Xs = [cx.array('X%d' % k, ns[k], dt=xdt) for k in range(K)]
    c = cx.array('c', K, dt=cx.choice('cdt', 'f', 'i'))
    s = cx.snapshot(c, *Xs)
    f = Constant(1, K, c)
    out = f.f(Xs)
    cx.eq('one array per output', len(out), K)
    for k in range(K):
        cx.arr('constant mean', out[k], ns[k], lambda i: c[k])
    g = f.mean_gradient(Xs)
    cx.eq('one gradient per output', len(g), K)
    for k in range(K):
        cx.eq('one array per output', len(g[k]), K)
        for j in range(K):
            cx.arr('mean gradient', g[k][j], ns[j], lambda i: 1 if j == k else 0)
    d = cx.array('d', K)
    f.update_gradient(d)
    cx.arr('stored gradient', f.gradient, K, lambda i: d[i])
    cx.unchanged('arguments unchanged', s)
    z = Constant(1, K).f(Xs)
    for k in range(K):
        cx.arr('default constant is zero', z[k], ns[k], lambda i: 0)


def h_mean_rejects(cx):
    K = cx.choice('K', 1, 2, 3)
    L = cx.choice('L', 0, 1, 2, 3, 4)
    cx.assume(K != L)
    ns = [cx.size('n%d' % k, lo=0) for k in range(L)]
    Xs = [cx.array('X%d' % k, ns[k]) for k in range(L)]
    cx.raises('wrong number of inputs', 'ValueError', lambda: Zero(1, K).f(Xs))
    cx.raises('wrong number of inputs', 'ValueError', lambda: Constant(1, K).f(Xs))
    cx.raises('wrong number of constants', 'ValueError', lambda: Constant(1, K, cx.array('c', L)))
    if L > 0:
        bad = Xs[:-1] + [Xs[L - 1].reshape(ns[L - 1], 1)]
        cx.raises('two-dimensional inputs', 'ValueError', lambda: Zero(1, L).f(bad))
        cx.raises('two-dimensional inputs', 'ValueError', lambda: Constant(1, L).f(bad))
    cx.raises('input dimension other than one', 'AssertionError', lambda: Zero(2, K))
