"""Frame conditions: no operation writes to the caller's arrays, and the same operation gives the same answer again."""
import numpy as np
import scipy.sparse
from runlmc.linalg.toeplitz import Toeplitz
from runlmc.linalg.bttb import BTTB
from runlmc.linalg.kronecker import Kronecker
from runlmc.linalg.block_diag import BlockDiag
from runlmc.linalg.block_matrix import SymmSquareBlockMatrix
from runlmc.linalg.sum_matrix import SumMatrix
from runlmc.linalg.composition import Composition
from runlmc.linalg.diag import Diag
from runlmc.linalg.identity import Identity
from runlmc.linalg.matrix import Matrix
from runlmc.linalg.numpy_matrix import NumpyMatrix
from runlmc.approx.interpolation import interp_cubic, interp_bicubic, multi_interpolant, autogrid, cubic_kernel
from runlmc.approx.ski import SKI
from runlmc.approx.iterative import Iterative
from runlmc.kern.rbf import RBF
from runlmc.kern.matern32 import Matern32
from runlmc.kern.std_periodic import StdPeriodic
from runlmc.kern.scaled import Scaled
from runlmc.kern.identity import Identity as IdentityKern
from runlmc.lmc.grid_kernel import gen_grid_kernel
from runlmc.lmc.likelihood import ExactLMCLikelihood, ApproxLMCLikelihood
from runlmc.lmc.stochastic_deriv import StochasticDerivService
from runlmc.mean.constant import Constant
from runlmc.parameterization.priors import Gaussian, Gamma, InverseGamma, HalfLaplace
from runlmc.util.inline_pool import InlinePool
from runlmc.util.normalizer import Norm
from runlmc.util.numpy_convenience import (map_entries, tesselate, chunks, cartesian_product, symm_2d_list_map,
                                           begin_end_indices, search_descending)
from specs.linalg import AMat
from specs.approx import Inverse
from specs.fk import build, settle
from specs.gp import GP, data, tests, spread
from specs.grid import model
from specs import exact, llgp


def keep(v):
    """the values of a result, apart from the result itself"""
    if isinstance(v, (list, tuple)):
        return [keep(x) for x in v]
    if isinstance(v, np.ndarray):
        return v.copy()
    return v


def same(cx, label, a, b):
    if isinstance(a, list):
        cx.eq(label, len(a), len(b))
        for x, y in zip(a, b):
            same(cx, label, x, y)
    elif isinstance(a, np.ndarray):
        if len(a.shape) == 1:
            cx.arr(label, b, a.shape, lambda i: a[i])
        elif len(a.shape) == 2:
            cx.arr(label, b, a.shape, lambda i, j: a[i, j])
        else:
            cx.arr(label, b, a.shape, lambda i, j, k: a[i, j, k])
    else:
        cx.eq(label, a, b)


def twice(cx, snap, *ops):
    """every operation, then every operation again"""
    first = []
    for label, f in ops:
        first.append(keep(f()))
        cx.unchanged(label + ': inputs unchanged', snap)
    for (label, f), a in zip(ops, first):
        same(cx, label + ': same answer again', a, keep(f()))
        cx.unchanged(label + ': inputs unchanged', snap)


def matrix(cx, M, snap, x, X, bound=False):
    ops = [('matvec', lambda: M.matvec(x)), ('matmat', lambda: M.matmat(X)), ('as_numpy', lambda: M.as_numpy())]
    if bound:
        ops.append(('bound', lambda: M.upper_eig_bound()))
    twice(cx, snap, *ops)


def operands(cx, n, dt='f'):
    return cx.array('x', n, dt=dt), cx.array('X', n, cx.size('k', cap=4), dt=dt)


def h_toeplitz(cx):
    n = cx.size('n')
    dt = cx.choice('dt', 'f', 'i')
    top = cx.array('top', n, dt=dt)
    x, X = operands(cx, n, dt)
    s = cx.snapshot(top, x, X)
    M = Toeplitz(top)
    cx.unchanged('construction: inputs unchanged', s)
    matrix(cx, M, s, x, X, True)


def h_bttb(cx):
    axes = cx.choice('axes', 1, 2)
    sizes = [cx.size('p%d' % a, cap=4) for a in range(axes)]
    n = sizes[0] if axes == 1 else sizes[0] * sizes[1]
    top = cx.array('top', n)
    x = cx.array('x', n)
    s = cx.snapshot(top, x)
    M = BTTB(top, tuple(sizes))
    cx.unchanged('construction: inputs unchanged', s)
    twice(cx, s, ('matvec', lambda: M.matvec(x)))


def h_small(cx):
    """diagonal, identity, dense wrapper, wrapped function"""
    which = cx.choice('which', 'diag', 'identity', 'dense', 'wrap')
    n = cx.size('n')
    x, X = operands(cx, n, cx.choice('dt', 'f', 'i'))
    A, v = cx.array('A', n, n), cx.array('v', n)
    s = cx.snapshot(x, X, A, v)
    M = Diag(v) if which == 'diag' else Identity(n) if which == 'identity' else NumpyMatrix(A) if which == 'dense' else \
        Matrix.wrap((n, n), A.dot)
    cx.unchanged('construction: inputs unchanged', s)
    matrix(cx, M, s, x, X, which in ('diag', 'identity'))


def h_kron(cx):
    a, b, c, d = [cx.size(t, cap=3) for t in 'abcd']
    A, B = cx.array('A', a, b), cx.array('B', c, d)
    x, X = operands(cx, b * d, cx.choice('dt', 'f', 'i'))
    s = cx.snapshot(A, B, x, X)
    matrix(cx, Kronecker(AMat(A), AMat(B)), s, x, X)


def h_composite(cx):
    """sums, compositions, block diagonals, symmetric blocks"""
    which = cx.choice('which', 'sum', 'composition', 'blockdiag', 'blocks')
    n, m = cx.size('n', cap=4), cx.size('m', cap=4)
    if which == 'sum':
        A, B = cx.array('A', n, m), cx.array('B', n, m)
        M = SumMatrix([AMat(A), AMat(B)])
    elif which == 'composition':
        A, B = cx.array('A', n, m), cx.array('B', m, n)
        M = Composition([AMat(A), AMat(B)])
    elif which == 'blockdiag':
        A, B = cx.array('A', n, m), cx.array('B', m, n)
        M = BlockDiag([AMat(A), AMat(B)])
    else:
        A, B = cx.array('A', n, n), cx.array('B', n, n)
        M = SymmSquareBlockMatrix(np.array([[AMat(A), AMat(B)], [AMat(B), AMat(A)]]))
    x, X = operands(cx, m if which == 'sum' else n if which == 'composition' else n + m if which == 'blockdiag' else 2 * n)
    s = cx.snapshot(A, B, x, X)
    matrix(cx, M, s, x, X)


def h_aliases(cx):
    """parts that hand back their operand (identities) inside every composite"""
    n = cx.size('n', cap=4)
    A = cx.array('A', n, n)
    which = cx.choice('which', 'sum', 'composition', 'blockdiag', 'blocks', 'kron', 'ski')
    a, b = cx.choice('parts', (Identity(n), AMat(A)), (AMat(A), Identity(n)), (Identity(n), Identity(n)))
    dt = cx.choice('dt', 'f', 'i')
    W = cx.array('W', n, n)
    M = SumMatrix([a, b]) if which == 'sum' else Composition([a, b]) if which == 'composition' else \
        BlockDiag([a, b]) if which == 'blockdiag' else Kronecker(a, b) if which == 'kron' else \
        SKI(a, W, W.T) if which == 'ski' else \
        SymmSquareBlockMatrix(np.array([[a, b], [b, a]]))
    k = n if which in ('sum', 'composition', 'ski') else n * n if which == 'kron' else 2 * n
    x, X = operands(cx, k, dt)
    s = cx.snapshot(A, W, x, X)
    matrix(cx, M, s, x, X)


def h_ski(cx):
    n, m = cx.size('n', cap=4), cx.size('m', cap=4)
    K, W = cx.array('K', m, m), cx.array('W', n, m)
    x, X = operands(cx, n)
    s = cx.snapshot(K, W, x, X)
    M = SKI(AMat(K), scipy.sparse.csr_matrix(W), scipy.sparse.csr_matrix(W.T))
    matrix(cx, M, s, x, X)


def h_interpolation(cx):
    """the interpolation matrices of one and several outputs, and the weight function"""
    m, n = cx.size('m', lo=4), cx.size('n')
    h, g0 = cx.real('h', lo=0.1, hi=2.0), cx.real('g0')
    grid = g0 + h * np.arange(m)
    xs = cx.array('xs', n, lo=-2, hi=2)
    s = cx.snapshot(grid, xs)
    if cx.symbolic:
        twice(cx, s, ('weights', lambda: cubic_kernel(xs)))
        W = interp_cubic(grid, xs)
        cx.unchanged('interpolation: inputs unchanged', s)
    else:
        twice(cx, s, ('weights', lambda: cubic_kernel(xs)), ('one output', lambda: interp_cubic(grid, xs).toarray()),
              ('two outputs', lambda: multi_interpolant([xs, xs[::-1]], grid).toarray()),
              ('two dimensions', lambda: interp_bicubic(grid, grid, np.stack([xs, xs], 1)).toarray()))


def h_autogrid(cx):
    D, P = cx.choice('D', 1, 2), cx.choice('P', 1, 2)
    ns = [cx.size('n%d' % d, cap=4) for d in range(D)]
    Xs = [cx.array('X%d' % d, ns[d], P) for d in range(D)]
    lo, hi = cx.array('lo', P, lo=-9, hi=-8), cx.array('hi', P, lo=8, hi=9)
    m = cx.array('m', P, dt='i', lo=2, hi=6)
    given = cx.choice('given', True, False)
    s = cx.snapshot(lo, hi, m, Xs)
    if given:
        twice(cx, s, ('grid', lambda: autogrid(Xs, lo, hi, m)))
    else:
        twice(cx, s, ('grid', lambda: autogrid(Xs, None, None, None)))


def h_kernels(cx):
    which = cx.choice('which', 'rbf', 'matern', 'periodic', 'identity', 'scaled')
    g, p = cx.real('g', pos=True), cx.real('p', lo=0.3)
    k = RBF(g) if which == 'rbf' else Matern32(g) if which == 'matern' else StdPeriodic(g, p) if which == 'periodic' else \
        IdentityKern() if which == 'identity' else Scaled(RBF(g))
    rank = cx.choice('rank', 1, 2)
    n, m = cx.size('n'), cx.size('m')
    d = cx.array('d', n, nonneg=True) if rank == 1 else cx.array('d', n, m, nonneg=True)
    s = cx.snapshot(d)
    twice(cx, s, ('value', lambda: k.from_dist(d)), ('gradient', lambda: k.kernel_gradient(d)))


def h_container(cx):
    """coregionalization matrices and kernel values"""
    D = 2
    mix = cx.choice('mix', (1, 1, 0), (1, 0, 1))
    fk, ks, ranks, ix = build(cx, mix, D)
    fk.set_input_dim(1)
    settle(cx, fk, mix, ranks, D)
    d = cx.array('d', cx.size('n'), nonneg=True)
    s = cx.snapshot(d)
    twice(cx, s, ('values', lambda: fk.eval_kernels_fixed_dim(d, (0,))), ('matrices', lambda: fk.coreg_mats()),
          ('gradients', lambda: fk.eval_kernel_gradients({(0,): d})))


def h_exact(cx):
    D, mix, P, ads = cx.choice('layout', (1, (1, 0, 0), 1, None), (2, (0, 1, 1), 2, [(0,), (1,)]))
    fk, rk, A, kap, noise, ns, Xs, Ys = exact.setup(cx, D, mix, P, ads)
    ts = [cx.size('t%d' % d, lo=0, cap=3) for d in range(D)]
    Zs = [cx.array('Z%d' % d, ts[d], P) for d in range(D)]
    s = cx.snapshot(Xs, Ys, Zs)
    twice(cx, s, ('covariance', lambda: ExactLMCLikelihood.kernel_from_indices(Xs, Xs, fk)),
          ('cross covariance', lambda: ExactLMCLikelihood.kernel_from_indices(Zs, Xs, fk)))
    ExactLMCLikelihood(fk, Xs, Ys)
    cx.unchanged('likelihood: inputs unchanged', s)


def h_grid_covariance(cx):
    D, mix, ranks = cx.choice('case', (2, (1, 0, 0), [1]), (2, (2, 0, 0), [2, 1]), (2, (0, 1, 1), []))
    fk, rk, A, kap, noise = model(cx, D, mix, ranks)
    m, n = cx.size('m', cap=4), cx.size('n', cap=3)
    d = cx.array('d', m, nonneg=True)
    W = cx.array('W', 2 * n, D * m)
    x = cx.array('x', 2 * n)
    s = cx.snapshot(d, W, x)
    K, _ = gen_grid_kernel(fk, {(0,): d}, {(0,): (scipy.sparse.csr_matrix(W), scipy.sparse.csr_matrix(W.T))}, [n] * D)
    cx.unchanged('construction: inputs unchanged', s)
    twice(cx, s, ('product', lambda: K.matvec(x)))


def h_solve(cx):
    n = cx.size('n', cap=5)
    K, V, y = cx.array('K', n, n), cx.array('V', n, n), cx.array('y', n)
    s = cx.snapshot(K, V, y)
    cx.with_methods({'minres': Inverse(V)}, lambda: twice(cx, s, ('solve', lambda: Iterative.solve(AMat(K), y))))


def h_estimate(cx):
    n = cx.size('n', cap=5)
    K, V, y, dK = cx.array('K', n, n), cx.array('V', n, n), cx.array('y', n), cx.array('dK', n, n)
    s = cx.snapshot(K, V, y, dK)
    sv = StochasticDerivService(None, InlinePool(None), 1, 1e-4)
    d = cx.with_methods({'minres': Inverse(V)}, lambda: sv.generate(AMat(K), y))
    cx.unchanged('solves: inputs unchanged', s)
    twice(cx, s, ('derivative', lambda: d.derivative(AMat(dK))))


def h_models(cx):
    """construction and predictions of a multi-output model"""
    K = cx.choice('K', 1, 2)
    normalize = cx.choice('normalize', True, False)
    ns, Xs, Ys = data(cx, K)
    ts, Zs, mu, vr = tests(cx, K)
    ps = cx.array('ps', cx.size('np', cap=3), lo=1, hi=99)
    s = cx.snapshot(ps, Xs, Ys, Zs)
    gp = GP(Xs, Ys, normalize=normalize)
    cx.unchanged('construction: inputs unchanged', s)
    gp.raw = (mu, vr)
    for t in range(2):
        gp.predict(Zs)
        cx.unchanged('prediction: inputs unchanged', s)
        gp.predict_quantiles(Zs, ps)
        cx.unchanged('quantiles: inputs unchanged', s)


def h_interpolated(cx):
    """the interpolated model: data and test points"""
    method = cx.choice('method', 'exact', 'on-the-fly', 'precompute')
    normalize = cx.choice('normalize', True, False)
    w = llgp.World(cx, 1, (1, 0, 0), ranks=[1])
    ts, Zs = llgp.queries(cx, w)
    s = cx.snapshot(w.Xs, w.Ys, Zs)

    def go():
        gp = w.build(prediction=method, normalize=normalize)
        cx.unchanged('construction: inputs unchanged', s)
        for t in range(2):
            gp.predict(Zs)
            cx.unchanged('prediction: inputs unchanged', s)
        twice(cx, s, ('covariance', lambda: gp.K()), ('log determinant', lambda: gp.log_det_K()),
              ('quadratic form', lambda: gp.normal_quadratic()), ('log likelihood', lambda: gp.log_likelihood()))
    w.run(go)


def h_normalizer(cx):
    n = cx.size('n', lo=2)
    Y, z = cx.array('Y', n), cx.array('z', cx.size('k'))
    spread(cx, Y, n)
    s = cx.snapshot(Y, z)
    nm = Norm()
    nm.scale_by(Y)
    cx.unchanged('construction: inputs unchanged', s)
    twice(cx, s, ('normalize', lambda: nm.normalize(z)), ('mean', lambda: nm.inverse_mean(z)),
          ('variance', lambda: nm.inverse_variance(z)))


def h_means(cx):
    D = 2
    ns = [cx.size('n%d' % d, lo=0) for d in range(D)]
    Xs = [cx.array('X%d' % d, ns[d]) for d in range(D)]
    s = cx.snapshot(Xs)
    c = Constant(1, D, cx.array('c', D))
    twice(cx, s, ('values', lambda: c.f(Xs)), ('gradients', lambda: c.mean_gradient(Xs)))


def h_priors(cx):
    which = cx.choice('which', 'gaussian', 'gamma', 'inverse gamma', 'half laplace')
    a, b = cx.real('a', lo=0.5, hi=4.0), cx.real('b', lo=0.5, hi=4.0)
    p = Gaussian(a, b) if which == 'gaussian' else Gamma(a, b) if which == 'gamma' else \
        InverseGamma(a, b) if which == 'inverse gamma' else HalfLaplace(b)
    x = cx.array('x', cx.size('n'), pos=True)
    s = cx.snapshot(x)
    twice(cx, s, ('density', lambda: p.lnpdf(x)), ('derivative', lambda: p.lnpdf_grad(x)))


def h_util(cx):
    n, m = cx.size('n', lo=2), cx.size('m')
    x, y = cx.array('x', n), cx.array('y', m)
    A = cx.array('A', n, n)
    lens = [2, n - 2]
    s = cx.snapshot(x, y, A)
    twice(cx, s, ('split', lambda: tesselate(x, lens)), ('grid', lambda: cartesian_product(x, y)),
          ('map', lambda: map_entries(lambda v: v * 2, A)))
    cx.eq('lengths unchanged', lens, [2, n - 2])
