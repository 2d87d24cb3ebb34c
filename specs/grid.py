"""Contracts of the grid covariance: the same matrix whichever representation is picked."""
import numpy as np
import scipy.sparse
from runlmc.lmc.grid_kernel import GridKernel, gen_grid_kernel
from specs.fk import Kern, build, settle
from specs.exact import coreg

# (outputs, mix, ranks): the rank heuristic picks a different representation in each group
SUM = [(1, (1, 0, 0), [1]), (2, (1, 0, 0), [2]), (2, (0, 1, 0), []), (2, (0, 0, 1), [])]
TOEPLITZ = [(2, (2, 0, 0), [2, 1]), (2, (1, 1, 1), [2]), (1, (2, 0, 0), [1, 1]), (2, (2, 0, 1), [1, 1]), (2, (0, 4, 0), []),
            (2, (0, 5, 0), [])]
LOWRANK = [(2, (1, 0, 1), [1]), (2, (0, 2, 0), []), (2, (0, 0, 2), []), (2, (0, 1, 1), []), (2, (0, 3, 0), [])]
THREE = [(3, (1, 1, 1), [1]), (3, (0, 1, 1), []), (3, (2, 0, 0), [2, 1]), (3, (2, 0, 0), [2, 2])]


def pick(cx, cases):
    """one of the cases; native runs also draw arbitrary mixes of kernels and ranks"""
    case = cx.choice('case', *cases)
    if cx.symbolic or cx.choice('listed', True, False, False):
        return case
    D = cx.int('D', 1, 4)
    mix = (cx.int('lmc', 0, 3), cx.int('slfm', 0, 2), cx.int('indep', 0, 2))
    if not sum(mix):
        return case
    return D, mix, [cx.int('rank%d' % k, 1, D) for k in range(mix[0])]


def model(cx, D, mix, ranks, P=1, ads=None):
    fk, ks, ranks, ix = build(cx, mix, D, ads, ranks)
    fk.set_input_dim(P)
    rk, A, kap = settle(cx, fk, mix, ranks, D)
    noise = cx.array('noise', D, pos=True)
    fk.noise = noise
    return fk, rk, A, kap, noise


def h_grid_single(cx):
    grid_1d(cx, *pick(cx, SUM))


def h_grid_toeplitz(cx):
    grid_1d(cx, *pick(cx, TOEPLITZ))


def h_grid_lowrank(cx):
    grid_1d(cx, *pick(cx, LOWRANK))


def h_grid_three(cx):
    grid_1d(cx, *pick(cx, THREE))


def grid_1d(cx, D, mix, ranks):
    """one input dimension, points on the grid: products for every representation"""
    fk, rk, A, kap, noise = model(cx, D, mix, ranks)
    Q = sum(mix)
    m = cx.size('m', lo=1)
    d = cx.array('d', m, nonneg=True)
    n = D * m
    W = scipy.sparse.csr_matrix(np.identity(n))
    x = cx.array('x', n)
    s = cx.snapshot(d, x)
    K, gk = gen_grid_kernel(fk, {(0,): d}, {(0,): (W, W.transpose().tocsr())}, [m] * D)
    cx.true('shape', K.shape == (n, n))
    y = K.matvec(x)
    cx.shape('product', y, n)
    for i in range(D):
        cx.arr('product with the grid covariance', y[i * m:(i + 1) * m], m, lambda s: noise[i] * x[i * m + s] + sum([
            coreg(cx, A, kap, rk, q, i, j) * cx.sum(m, lambda t: cx.umap('k%d' % q, d[abs(s - t)]) * x[j * m + t])
            for q in range(Q) for j in range(D)]))
    cx.unchanged('distances and operand unchanged', s)


def h_grid_types(cx):
    """each representation, asked for by name, of each mixture"""
    D, mix, ranks = pick(cx, [(2, (1, 0, 0), [2]), (2, (0, 2, 0), []), (2, (0, 0, 2), []), (2, (1, 1, 1), [1]), (1, (2, 0, 0), [1, 2])])
    fk, rk, A, kap, noise = model(cx, D, mix, ranks)
    Q = sum(mix)
    m = cx.size('m', lo=1)
    d = cx.array('d', m, nonneg=True)
    n = D * m
    W = scipy.sparse.csr_matrix(np.identity(n))
    x = cx.array('x', n)
    K = GridKernel(fk, d, W, W.transpose().tocsr(), cx.choice('type', 'sum', 'bt', 'slfm'), (0,))
    cx.true('shape', K.shape == (n, n))
    y = K.matvec(x)
    cx.shape('product', y, n)
    for i in range(D):
        cx.arr('product with this representation', y[i * m:(i + 1) * m], m, lambda s: sum([
            coreg(cx, A, kap, rk, q, i, j) * cx.sum(m, lambda t: cx.umap('k%d' % q, d[abs(s - t)]) * x[j * m + t])
            for q in range(Q) for j in range(D)]))


def h_points_single(cx):
    grid_points(cx, *cx.choice('case', (1, (1, 0, 0), [1]), (2, (1, 0, 0), [1])))


def h_points_factors(cx):
    grid_points(cx, 2, (0, 2, 0), [])


def h_points_indep(cx):
    grid_points(cx, 2, (0, 0, 2), [])


def grid_points(cx, D, mix, ranks):
    """arbitrary interpolation weights, unequal numbers of points per output"""
    fk, rk, A, kap, noise = model(cx, D, mix, ranks)
    Q = sum(mix)
    m = cx.size('m', lo=1, cap=4)
    d = cx.array('d', m, nonneg=True)
    ns = [cx.size('n%d' % i, cap=4) for i in range(D)]
    n = sum(ns)
    Wd = cx.array('W', n, D * m)
    W = scipy.sparse.csr_matrix(Wd)
    x = cx.array('x', n)
    K, gk = gen_grid_kernel(fk, {(0,): d}, {(0,): (W, W.transpose().tocsr())}, ns)
    cx.true('shape', K.shape == (n, n))
    y = K.matvec(x)
    cx.shape('product', y, n)
    for b in range(D):
        o = sum(ns[:b])
        cx.arr('product', y[o:o + ns[b]], ns[b], lambda r: noise[b] * x[o + r] + sum([
            coreg(cx, A, kap, rk, q, i, j) * cx.sum(m, lambda s: cx.sum(m, lambda t: cx.sum(n, lambda c: (
                Wd[o + r, i * m + s] * cx.umap('k%d' % q, d[abs(s - t)]) * Wd[c, j * m + t] * x[c]))))
            for q in range(Q) for i in range(D) for j in range(D)]))


class Eye:
    """the identity as an interpolation matrix"""

    def __init__(self, n):
        self.shape = (n, n)

    def dot(self, x):
        return x

    def transpose(self):
        return self

    def tocsr(self):
        return self


def h_grid_2d(cx):
    """two input dimensions"""
    D, mix, ranks = cx.choice('case', (1, (1, 0, 0), [1]), (2, (0, 1, 0), []), (2, (0, 2, 0), []), (2, (0, 0, 2), []),
                              (2, (1, 0, 1), [1]), (2, (2, 0, 0), [2, 2]))
    if not cx.symbolic:
        D, mix, ranks = pick(cx, [(D, mix, ranks)])
    fk, rk, A, kap, noise = model(cx, D, mix, ranks, 2)
    Q = sum(mix)
    p, r = cx.size('p', cap=4), cx.size('r', cap=4)
    m = p * r
    d = cx.array('d', p, r, nonneg=True)
    n = D * m
    W = Eye(n) if cx.symbolic else scipy.sparse.csr_matrix(np.identity(n))
    X = cx.array('X', D, p, r)
    x = X.reshape(n)
    s = cx.snapshot(d, x)
    K, gk = gen_grid_kernel(fk, {(0, 1): d}, {(0, 1): (W, W.transpose().tocsr())}, [m] * D)
    y = K.matvec(x)
    cx.shape('product', y, n)
    for i in range(D):
        cx.arr('product with the grid covariance', y[i * m:(i + 1) * m].reshape(p, r), (p, r),
               lambda s, t: noise[i] * X[i, s, t] + sum([coreg(cx, A, kap, rk, q, i, j) * cx.sum(p, lambda u: cx.sum(
                   r, lambda v: cx.umap('k%d' % q, d[abs(s - u), abs(t - v)]) * X[j, u, v]))
                   for q in range(Q) for j in range(D)]))
    cx.unchanged('distances and operand unchanged', s)


def h_grid_split(cx):
    """kernels on different input dimensions: one grid each, summed"""
    D = 2
    mix, ranks, ads = cx.choice('case', ((1, 1, 0), [1], [(0,), (1,)]), ((0, 2, 1), [], [(0,), (1,), (0,)]),
                                ((1, 0, 1), [2], [(1,), (0,)]), ((0, 1, 2), [], [(1,), (0,), (0,)]))
    if not cx.symbolic:
        D, mix, ranks = pick(cx, [(D, mix, ranks)])
        ads = [ads[q] if q < len(ads) else cx.choice('ad%d' % q, (0,), (1,)) for q in range(sum(mix))]
    fk, rk, A, kap, noise = model(cx, D, mix, ranks, 2, ads)
    Q = sum(mix)
    m = cx.size('m')
    ds = {(0,): cx.array('d0', m, nonneg=True), (1,): cx.array('d1', m, nonneg=True)}
    n = D * m
    W = scipy.sparse.csr_matrix(np.identity(n))
    x = cx.array('x', n)
    K, gk = gen_grid_kernel(fk, ds, {ad: (W, W.transpose().tocsr()) for ad in ds}, [m] * D)
    y = K.matvec(x)
    cx.shape('product', y, n)
    for i in range(D):
        cx.arr('product with the grid covariance', y[i * m:(i + 1) * m], m, lambda s: noise[i] * x[i * m + s] + sum([
            coreg(cx, A, kap, rk, q, i, j) * cx.sum(m, lambda t: cx.umap('k%d' % q, ds[ads[q]][abs(s - t)]) * x[j * m + t])
            for q in range(Q) for j in range(D)]))
