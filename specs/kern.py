"""Contracts of the stationary kernels: formula, exact hyperparameter derivatives, normalisation, gradient routing."""
import numpy as np
from runlmc.kern.rbf import RBF
from runlmc.kern.matern32 import Matern32
from runlmc.kern.std_periodic import StdPeriodic
from runlmc.kern.identity import Identity
from runlmc.kern.scaled import Scaled
from runlmc.lmc.functional_kernel import FunctionalKernel


def rbf(cx, g, d):
    return cx.fn('exp', -d * d * g / 2)


def matern(cx, g, d):
    r = cx.fn('sqrt', 3) * d * g
    return (1 + r) * cx.fn('exp', -r)


def periodic(cx, g, p, d):
    s = cx.fn('sin', cx.pi() * d / p)
    return cx.fn('exp', -s * s * g / 2)


def dists(cx):
    """distance arrays of any shape the code passes around"""
    kind = cx.choice('rank', 1, 2)
    if kind == 1:
        n = cx.size('n')
        return cx.array('d', n, nonneg=True, wide='small'), (n,)
    n, m = cx.size('n'), cx.size('m')
    return cx.array('d', n, m, nonneg=True, wide='small'), (n, m)


def h_rbf_value(cx):
    g = cx.real('g', pos=True)
    d, shp = dists(cx)
    cx.arr('RBF value', RBF(g).from_dist(d), shp, lambda *i: rbf(cx, g, d[i]))


def h_rbf_gradient(cx):
    g = cx.real('g', pos=True)
    d, shp = dists(cx)
    gr = RBF(g).kernel_gradient(d)
    cx.eq('RBF number of hyperparameters', len(gr), 1)
    cx.arr('RBF d/d inverse lengthscale', gr[0], shp, lambda *i: cx.diff(lambda t: rbf(cx, t, d[i]), g))


def h_matern_value(cx):
    g = cx.real('g', pos=True)
    d, shp = dists(cx)
    cx.arr('Matern32 value', Matern32(g).from_dist(d), shp, lambda *i: matern(cx, g, d[i]))


def h_matern_gradient(cx):
    g = cx.real('g', pos=True)
    d, shp = dists(cx)
    gr = Matern32(g).kernel_gradient(d)
    cx.eq('Matern32 number of hyperparameters', len(gr), 1)
    cx.arr('Matern32 d/d inverse lengthscale', gr[0], shp, lambda *i: cx.diff(lambda t: matern(cx, t, d[i]), g))


def h_periodic_value(cx):
    g, p = cx.real('g', pos=True), cx.real('p', lo=1e-6)
    if not cx.symbolic:
        p = p * cx.choice('unit', 1, 1, 0.01, 1e-4)
    d, shp = dists(cx)
    cx.arr('StdPeriodic value', StdPeriodic(g, p).from_dist(d), shp, lambda *i: periodic(cx, g, p, d[i]))


def h_periodic_gradient(cx):
    g, p = cx.real('g', pos=True), cx.real('p', lo=0.3)
    d, shp = dists(cx)
    gr = StdPeriodic(g, p).kernel_gradient(d)
    cx.eq('StdPeriodic number of hyperparameters', len(gr), 2)
    cx.arr('StdPeriodic d/d inverse lengthscale', gr[0], shp, lambda *i: cx.diff(lambda t: periodic(cx, t, p, d[i]), g))
    cx.arr('StdPeriodic d/d period', gr[1], shp, lambda *i: cx.diff(lambda t: periodic(cx, g, t, d[i]), p))


def h_identity_value(cx):
    d, shp = dists(cx)
    k = Identity()
    cx.arr('Identity value', k.from_dist(d), shp, lambda *i: cx.ite(d[i] == 0, 1, 0))
    cx.eq('Identity number of hyperparameters', len(k.kernel_gradient(d)), 0)


def base_kernel(cx, name):
    kind = cx.choice(name, 'rbf', 'matern', 'periodic', 'id')
    if kind == 'rbf':
        return RBF(cx.real(name + 'g', pos=True))
    if kind == 'matern':
        return Matern32(cx.real(name + 'g', pos=True))
    if kind == 'periodic':
        return StdPeriodic(cx.real(name + 'g', pos=True), cx.real(name + 'p', lo=0.3))
    return Identity()


def h_scaled_value(cx):
    k = base_kernel(cx, 'k')
    s = cx.real('s', pos=True)
    d, shp = dists(cx)
    sk = Scaled(k)
    sk.scale[:] = s
    inner = k.from_dist(d)
    cx.arr('Scaled value', sk.from_dist(d), shp, lambda *i: s * inner[i])


def h_scaled_gradient(cx):
    k = base_kernel(cx, 'k')
    s = cx.real('s', pos=True)
    d, shp = dists(cx)
    sk = Scaled(k)
    sk.scale[:] = s
    inner = k.from_dist(d)
    gi = k.kernel_gradient(d)
    gr = sk.kernel_gradient(d)
    cx.eq('Scaled number of hyperparameters', len(gr), len(gi) + 1)
    for a, b in zip(gr, gi):
        cx.arr('Scaled inner derivatives', a, shp, lambda *i: s * b[i])
    cx.arr('Scaled d/d scale', gr[len(gi)], shp, lambda *i: inner[i])


def h_normalised(cx):
    """k(0) = 1 and |k| <= 1 for every distance"""
    k = base_kernel(cx, 'k')
    d, shp = dists(cx)
    K = k.from_dist(d)
    z = k.from_dist(np.zeros(1))
    cx.arr('unit variance at distance zero', z, 1, lambda i: 1)
    cx.true('bounded by one', cx.forall(shp, lambda *i: K[i] <= 1 + (0 if cx.symbolic else 1e-12)))  # rounding, natively
    cx.true('nonnegative', cx.forall(shp, lambda *i: K[i] >= 0))


def h_even(cx):
    """kernel gradients and values leave the distances alone"""
    k = base_kernel(cx, 'k')
    d, shp = dists(cx)
    s = cx.snapshot(d)
    k.from_dist(d)
    k.kernel_gradient(d)
    cx.unchanged('distances unchanged', s)


def h_route(cx):
    """update_gradient stores each derivative on the hyperparameter it belongs to"""
    kind = cx.choice('k', 'rbf', 'matern', 'periodic', 'scaled', 'scaled matern', 'scaled periodic', 'scaled scaled',
                     'scaled identity')
    a, b = cx.real('a'), cx.real('b')
    if kind == 'rbf':
        k = RBF(1.5)
        k.update_gradient([a])
        cx.eq('RBF gradient', k.inv_lengthscale.gradient[0], a)
    elif kind == 'matern':
        k = Matern32(1.5)
        k.update_gradient([a])
        cx.eq('Matern32 gradient', k.inv_lengthscale.gradient[0], a)
    elif kind == 'periodic':
        k = StdPeriodic(1.5, 0.5)
        k.update_gradient([a, b])
        cx.eq('StdPeriodic lengthscale gradient', k.inv_lengthscale.gradient[0], a)
        cx.eq('StdPeriodic period gradient', k.period.gradient[0], b)
    elif kind == 'scaled':
        i = RBF(1.5)
        k = Scaled(i)
        k.update_gradient([a, b])
        cx.eq('Scaled inner gradient', i.inv_lengthscale.gradient[0], a)
        cx.eq('Scaled scale gradient', k.scale.gradient[0], b)
    elif kind == 'scaled matern':
        i = Matern32(1.5)
        k = Scaled(i)
        k.update_gradient([a, b])
        cx.eq('Scaled inner gradient', i.inv_lengthscale.gradient[0], a)
        cx.eq('Scaled scale gradient', k.scale.gradient[0], b)
    elif kind == 'scaled periodic':
        i, c = StdPeriodic(1.5, 0.5), cx.real('c')
        k = Scaled(i)
        k.update_gradient([a, b, c])
        cx.eq('Scaled inner lengthscale gradient', i.inv_lengthscale.gradient[0], a)
        cx.eq('Scaled inner period gradient', i.period.gradient[0], b)
        cx.eq('Scaled scale gradient', k.scale.gradient[0], c)
    elif kind == 'scaled scaled':
        i, c = RBF(1.5), cx.real('c')
        j = Scaled(i)
        k = Scaled(j)
        k.update_gradient([a, b, c])
        cx.eq('Scaled inner lengthscale gradient', i.inv_lengthscale.gradient[0], a)
        cx.eq('Scaled inner scale gradient', j.scale.gradient[0], b)
        cx.eq('Scaled scale gradient', k.scale.gradient[0], c)
    else:
        k = Scaled(Identity())
        k.update_gradient([a])
        cx.eq('Scaled scale gradient', k.scale.gradient[0], a)


def h_declared(cx):
    """a kernel works on the input dimensions it was declared with, and all of its hyperparameters, in the order of its
    gradient, are parameters of the model it is part of"""
    kind = cx.choice('k', 'rbf', 'matern', 'periodic', 'id', 'scaled', 'scaled periodic')
    dims = cx.choice('dims', None, (0,), (1,), (1, 0), [2])
    a, b = cx.real('a', pos=True), cx.real('b', pos=True)
    if kind == 'rbf':
        k, want = RBF(a, active_dims=dims), [a]
    elif kind == 'matern':
        k, want = Matern32(a, active_dims=dims), [a]
    elif kind == 'periodic':
        k, want = StdPeriodic(a, b, active_dims=dims), [a, b]
    elif kind == 'id':
        k, want = Identity(active_dims=dims), []
    elif kind == 'scaled':
        k, want = Scaled(RBF(a, active_dims=dims)), [a, b]
        k.scale[:] = b
    else:
        c = cx.real('c', pos=True)
        k, want = Scaled(StdPeriodic(a, b, active_dims=dims)), [a, b, c]
        k.scale[:] = c
    fk = FunctionalKernel(D=2, lmc_kernels=[k], lmc_ranks=[1])
    fk.set_input_dim(3)
    norm = (0, 1, 2) if dims is None else tuple(sorted(dims))
    cx.eq('input dimensions', fk.get_active_dims(0), norm)
    cx.eq('kernels on these dimensions', fk.active_dims, {norm: [0]})
    if want:
        gs = [cx.real('g%d' % i) for i in range(len(want))]
        k.update_gradient(gs)
        cx.arr('hyperparameters', k.param_array, len(want), lambda i: pickof(cx, want, i))
        cx.arr('flat gradient', k.gradient, len(want), lambda i: pickof(cx, gs, i))


def pickof(cx, xs, i):
    r = xs[-1]
    for j in range(len(xs) - 1):
        r = cx.ite(i == j, xs[j], r)
    return r
