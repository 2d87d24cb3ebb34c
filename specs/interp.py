"""Contracts of the interpolation matrices and the automatic grids."""
import numpy as np
import scipy.sparse
from runlmc.approx.interpolation import autogrid, cubic_kernel, interp_bicubic, interp_cubic, multi_interpolant


def keys(cx, t):
    """the cubic convolution kernel of Keys (1981), supported on [-2, 2]"""
    t = cx.ite(t < 0, -t, t)
    near = 1.5 * t * t * t - 2.5 * t * t + 1
    far = -0.5 * t * t * t + 2.5 * t * t - 4 * t + 2
    return cx.ite(t <= 1, near, cx.ite(t <= 2, far, 0))


def h_cubic_kernel(cx):
    n = cx.size('n', lo=0)
    x = cx.array('x', n, lo=-2, hi=2)
    s = cx.snapshot(x)
    u = cubic_kernel(x)
    cx.arr('the kernel of Keys', u, n, lambda i: keys(cx, x[i]))
    cx.unchanged('argument unchanged', s)


def h_cubic_kernel_rejects(cx):
    n = cx.size('n')
    x = cx.array('x', n, vary='float')
    k, e = cx.int('k', 0, n - 1), cx.real('e', pos=True)
    x[k] = cx.choice('side', 2 + e, -2 - e)
    cx.raises('distances beyond two cells are rejected', 'ValueError', lambda: cubic_kernel(x))


def axis(cx, tag, lo=4):
    """an evenly spaced increasing axis"""
    m = cx.size('m' + tag, lo=lo)
    g0, d = cx.real('g0' + tag), cx.real('d' + tag, pos=True)
    return m, g0, d, g0 + d * np.arange(m)


def positions(cx, tag, n, m, g0, d, inside=1):
    """n samples at positions p (in cells, from the first node), at least `inside` cells away from either end"""
    p = cx.array('p' + tag, n, lo=inside, hi=m - 1 - inside)
    if not cx.symbolic and cx.choice('nodes' + tag, False, True):
        p = np.round(p)
    return p, g0 + d * p


def h_interp1(cx):
    """rows hold the cubic convolution weights of their samples"""
    m, g0, d, grid = axis(cx, '')
    n = cx.size('n', lo=0)
    p, x = positions(cx, '', n, m, g0, d)
    s = cx.snapshot(grid, x)
    W = interp_cubic(grid, x)
    cx.unchanged('grid and samples unchanged', s)
    cx.arr('cubic convolution weights', W, (n, m), lambda i, j: keys(cx, p[i] - j))


def h_interp1_poly(cx):
    """quadratics sampled on the grid are reproduced at the samples"""
    m, g0, d, grid = axis(cx, '')
    n = cx.size('n', lo=0)
    p, x = positions(cx, '', n, m, g0, d)
    a, b, c = cx.real('a'), cx.real('b'), cx.real('c')
    y = interp_cubic(grid, x).dot(a + b * grid + c * grid * grid)
    cx.arr('quadratics are reproduced', y, n, lambda i: a + b * x[i] + c * x[i] * x[i])


def h_interp1_outside(cx):
    """weights sum to one wherever the sample lies"""
    m, g0, d, grid = axis(cx, '')
    n = cx.size('n', lo=0)
    p = cx.array('p', n)
    y = interp_cubic(grid, g0 + d * p).dot(np.ones(m))
    cx.arr('weights sum to one', y, n, lambda i: 1)


def h_interp2(cx):
    """two dimensions: products of the weights along either axis, first axis slowest; modular over the weight function
    (any function on [-2, 2) in the proof, continuous and vanishing at +-2 in the concrete runs)"""
    mx, gx0, dx, gx = axis(cx, 'x')
    my, gy0, dy, gy = axis(cx, 'y')
    n = cx.size('n')
    px, x = positions(cx, 'x', n, mx, gx0, dx)
    py, y = positions(cx, 'y', n, my, gy0, dy)
    s = cx.array('s', n, 2, vary='float')
    s[:, 0], s[:, 1] = x, y
    sn = cx.snapshot(gx, gy, s)

    def K(t):
        return cx.umap('w', t) if cx.symbolic else cx.umap('w', t) * (2 - t) * (2 + t)
    if cx.symbolic:
        cx.assume(cx.forall((n,), lambda i: px[i] < mx - 2))
        cx.assume(cx.forall((n,), lambda i: py[i] < my - 2))

    def stub(t):
        cx.true('distances within two cells', cx.forall((n,), lambda i: -2 <= t[i] <= 2))
        return K(t)
    W = cx.replacing('runlmc.approx.interpolation', {'cubic_kernel': stub}, lambda: interp_bicubic(gx, gy, s))
    cx.unchanged('grids and samples unchanged', sn)
    cx.shape('one row per sample, one column per grid point', W, n, mx * my)
    V = W.toarray().reshape(n, mx, my)

    def w(t):
        return cx.ite(t < -2, 0, cx.ite(t >= 2, 0, K(t)))
    cx.arr('product weights', V, (n, mx, my), lambda i, j, k: w(px[i] - j) * w(py[i] - k))


def h_interp2_outside(cx):
    """wherever the sample lies the total weight is the product of the totals along either axis; modular over the weight
    function (that of Keys totals one, h_interp1_outside)"""
    mx, gx0, dx, gx = axis(cx, 'x')
    my, gy0, dy, gy = axis(cx, 'y')
    n = cx.size('n')
    px, py = cx.array('px', n, vary='float'), cx.array('py', n, vary='float')
    s = np.column_stack([gx0 + dx * px, gy0 + dy * py])
    if not cx.symbolic:
        W = interp_bicubic(gx, gy, s)
        cx.arr('weights sum to one', W.dot(np.ones(mx * my)), n, lambda i: 1)
        return
    W = cx.replacing('runlmc.approx.interpolation', {'cubic_kernel': lambda t: cx.umap('w', t)},
                     lambda: interp_bicubic(gx, gy, s))
    fx, fy = px - np.floor(px), py - np.floor(py)
    tx = sum(cx.umap('w', fx + a) for a in range(-2, 2))
    ty = sum(cx.umap('w', fy + a) for a in range(-2, 2))
    cx.arr('total weight', W.dot(np.ones(mx * my)), n, lambda i: tx[i] * ty[i])


def h_interp2_poly(cx):
    """products of quadratics are reproduced in two dimensions: a lemma over the contracts h_interp2 (product weights) and
    h_interp1_poly (quadratics along one axis); the concrete runs check the code itself"""
    if cx.symbolic:
        n, mx, my = cx.size('n'), cx.size('mx'), cx.size('my')
        wx, wy = cx.array('wx', n, mx), cx.array('wy', n, my)
        f, g = cx.array('f', mx), cx.array('g', my)
        W = (wx[:, :, None] * wy[:, None, :]).reshape(n, mx * my)
        cx.arr('products of axis functions', W.dot(np.outer(f, g).ravel()), n,
               lambda i: cx.sum(mx, lambda j: wx[i, j] * f[j]) * cx.sum(my, lambda k: wy[i, k] * g[k]))
        return
    mx, gx0, dx, gx = axis(cx, 'x')
    my, gy0, dy, gy = axis(cx, 'y')
    n = cx.size('n', lo=0)
    px, x = positions(cx, 'x', n, mx, gx0, dx)
    py, y = positions(cx, 'y', n, my, gy0, dy)
    s = np.column_stack([x, y])
    W = interp_bicubic(gx, gy, s)
    f = np.outer(1 + gx - gx ** 2, 2 - gy + 3 * gy ** 2)
    cx.arr('weights', W, (n, mx * my), lambda i, j: keys(cx, px[i] - j // my) * keys(cx, py[i] - j % my))
    cx.arr('quadratics are reproduced', W.dot(f.ravel()), n,
           lambda i: (1 + x[i] - x[i] ** 2) * (2 - y[i] + 3 * y[i] ** 2))


class Csr:
    """an arbitrary valid n x m matrix in compressed rows"""

    def __init__(self, cx, tag, n, m):
        z = cx.size('z' + tag, lo=0)
        if cx.symbolic:
            ptr = cx.array('ptr' + tag, n + 1, dt='i', lo=0, hi=z)
            cx.assume(ptr[0] == 0)
            cx.assume(ptr[n] == z)
            cx.assume(cx.forall((n,), lambda i: ptr[i] <= ptr[i + 1]))
        else:
            if n == 0:
                z = 0
            ptr = np.sort(np.append(np.append(0, cx.array('ptr' + tag, n - 1, dt='i', lo=0, hi=z)), z)) \
                if n > 0 else np.array([0])
        self.data, self.ind = cx.array('data' + tag, z), cx.array('ind' + tag, z, dt='i', lo=0, hi=m - 1)
        self.n, self.m, self.ptr = n, m, ptr
        self.mat = scipy.sparse.csr_matrix((self.data, self.ind, ptr), shape=(n, m))

    def at(self, cx, i, j):
        return cx.sum(self.ptr[i + 1], lambda p: cx.ite(self.ind[p] == j, self.data[p], 0), lo=self.ptr[i])


def h_multi1(cx):
    """the joint matrix is block diagonal in the per-output matrices, for whatever those are"""
    D = cx.choice('D', 1, 2, 3)
    m = cx.size('m', lo=4)
    grid = cx.array('grid', m)
    ns = [cx.size('n%d' % a, lo=0) for a in range(D)]
    col = cx.choice('column', False, True)
    Xs = [cx.array('X%d' % a, ns[a]) for a in range(D)]
    Ws = [Csr(cx, str(a), ns[a], m) for a in range(D)]
    seen = []

    def stub(g, samples):
        cx.arr('uses the grid', g, m, lambda i: grid[i])
        a = len(seen)
        seen.append(a)
        cx.arr('uses the points of its output', samples, ns[a], lambda i: Xs[a][i])
        return Ws[a].mat
    arg = [X.reshape(len(X), 1) for X in Xs] if col else list(Xs)
    W = cx.replacing('runlmc.approx.interpolation', {'interp_cubic': stub}, lambda: multi_interpolant(arg, grid))
    blocks(cx, W, Ws, ns, D, m)


def h_multi2(cx):
    D = cx.choice('D', 1, 2)
    mx, my = cx.size('mx', lo=4), cx.size('my', lo=4)
    gx, gy = cx.array('gx', mx), cx.array('gy', my)
    ns = [cx.size('n%d' % a, lo=0) for a in range(D)]
    Xs = [cx.array('X%d' % a, ns[a], 2) for a in range(D)]
    Ws = [Csr(cx, str(a), ns[a], mx * my) for a in range(D)]
    seen = []

    def stub(g, h, samples):
        cx.arr('uses the first grid', g, mx, lambda i: gx[i])
        cx.arr('uses the second grid', h, my, lambda i: gy[i])
        a = len(seen)
        seen.append(a)
        cx.arr('uses the points of its output', samples, (ns[a], 2), lambda i, j: Xs[a][i, j])
        return Ws[a].mat
    W = cx.replacing('runlmc.approx.interpolation', {'interp_bicubic': stub}, lambda: multi_interpolant(Xs, gx, gy))
    blocks(cx, W, Ws, ns, D, mx * my)


def h_multi_real(cx):
    """the joint matrix of the real interpolations (concrete only)"""
    D, P = cx.choice('D', 1, 2, 3), cx.choice('P', 1, 2)
    ns = [cx.size('n%d' % a, lo=1 if a == 0 and P == 2 else 0) for a in range(D)]
    ax = [axis(cx, str(p)) for p in range(P)]
    Xs = []
    for a in range(D):
        Xs.append(np.column_stack([positions(cx, '%d%d' % (a, p), ns[a], *ax[p][:3])[1] for p in range(P)]))
    grids = [x[3] for x in ax]
    W = multi_interpolant(Xs, *grids).toarray()
    one = [interp_cubic(grids[0], X[:, 0]) if P == 1 else interp_bicubic(grids[0], grids[1], X) for X in Xs]
    m = int(np.prod([len(g) for g in grids]))
    want = np.zeros((sum(ns), D * m))
    r = 0
    for a in range(D):
        want[r:r + ns[a], a * m:(a + 1) * m] = one[a].toarray()
        r += ns[a]
    cx.arr('block diagonal', W, want.shape, lambda i, j: want[i, j])


def blocks(cx, W, Ws, ns, D, m):
    cx.shape('joint shape', W, sum(ns), D * m)
    V = W.toarray()
    r = 0
    for a in range(D):
        for b in range(D):
            cx.arr('block', V[r:r + ns[a], b * m:(b + 1) * m], (ns[a], m),
                   (lambda i, j: Ws[a].at(cx, i, j)) if a == b else (lambda i, j: 0))
        r = r + ns[a]


def least(cx, a, b):
    return cx.ite(a <= b, a, b)


def h_autogrid(cx):
    autogrids(cx, cx.choice('D', 1, 2), cx.choice('P', 1, 2))


def h_autogrid3(cx):
    autogrids(cx, 3, 1)


def autogrids(cx, D, P):
    """evenly spaced axes of m + 4 points over the points and the requested range [L, H], extended by 2 (H - L) / m"""
    ns = [cx.size('n%d' % a) for a in range(D)]
    Xs = [cx.array('X%d' % a, ns[a], P) for a in range(D)]
    given = cx.choice('given', 'none', 'range', 'size', 'all', 'lo', 'hi')
    lo = cx.array('lo', P) if given in ('range', 'all', 'lo') else None
    hi = cx.array('hi', P) if given in ('range', 'all', 'hi') else None
    m = cx.array('m', P, dt='i', lo=1, hi=40) if given in ('size', 'all') else None
    s = cx.snapshot(Xs, lo, hi, m)
    grids = autogrid(Xs, lo, hi, m)
    cx.unchanged('arguments unchanged', s)
    cx.eq('one axis per input dimension', len(grids), P)
    for p in range(P):
        g = grids[p]
        want = sum(ns) // D if m is None else m[p]
        M = want + 4
        cx.shape('requested number of points plus four', g, M)
        L, H = Xs[0][:, p].min(), -Xs[0][:, p].max()
        for X in Xs[1:]:
            L, H = least(cx, X[:, p].min(), L), least(cx, -X[:, p].max(), H)
        if lo is not None:
            L = least(cx, lo[p], L)
        if hi is not None:
            H = least(cx, -hi[p], H)
        H = -H
        g0, g1 = L - 2 * (H - L) / want, H + 2 * (H - L) / want
        cx.eq('first point', g[0], g0)
        cx.eq('last point', g[M - 1], g1)
        cx.arr('evenly spaced', g, M, lambda i: g[0] + i * (g[M - 1] - g[0]) / (M - 1))
        if not cx.symbolic:
            d = (g[M - 1] - g[0]) / (M - 1)
            cx.true('a cell to spare', all(g[0] + d <= X[:, p].min() + 1e-9 and X[:, p].max() <= g[M - 1] - d + 1e-9
                                           for X in Xs))


def h_autogrid_margin(cx):
    """lemma: such an axis leaves at least one cell on either side of [L, H] and is strictly increasing unless L == H"""
    L, w, m = cx.real('L'), cx.real('w', lo=0), cx.real('m', lo=1)
    H = L + w
    g0, g1 = L - 2 * w / m, H + 2 * w / m
    d = (g1 - g0) / (m + 3)
    # d = w (m + 4) / (m (m + 3))
    cx.eq('spacing', d * m * (m + 3), w * (m + 4))
    cx.true('a cell below', m * (m + 3) * (L - g0 - d) >= 0)
    cx.true('a cell above', m * (m + 3) * (g1 - H - d) >= 0)


def h_autogrid_rejects(cx):
    P = cx.choice('P', 1, 2)
    X = cx.array('X', cx.size('n'), P)
    k = cx.size('k')
    cx.assume(k != P)
    bad = cx.array('bad', k, lo=1, hi=9)
    which = cx.choice('which', 'lo', 'hi', 'm')
    cx.raises('settings that do not match the input dimension are rejected', 'AssertionError',
              lambda: autogrid([X], bad if which == 'lo' else None, bad if which == 'hi' else None,
                               bad if which == 'm' else None))


def h_rejects_interp(cx):
    """grids that are too short or not one-dimensional, and samples of the wrong shape"""
    n, m = cx.size('n'), cx.size('m', lo=4)
    grid, short = np.arange(m) * 1.0, np.arange(cx.int('k', 2, 3)) * 1.0
    one, two = cx.array('one', n), cx.array('two', n, 2)
    cx.raises('short grid', 'ValueError', lambda: interp_cubic(short, one))
    cx.raises('samples must be a vector', 'ValueError', lambda: interp_cubic(grid, two))
    cx.raises('grid must be a vector', 'ValueError', lambda: interp_cubic(grid.reshape(m, 1), one))
    cx.raises('short first grid', 'ValueError', lambda: interp_bicubic(short, grid, two))
    cx.raises('short second grid', 'ValueError', lambda: interp_bicubic(grid, short, two))
    cx.raises('first grid must be a vector', 'ValueError', lambda: interp_bicubic(grid.reshape(m, 1), grid, two))
    cx.raises('second grid must be a vector', 'ValueError', lambda: interp_bicubic(grid, grid.reshape(m, 1), two))
    cx.raises('samples must be pairs', 'ValueError', lambda: interp_bicubic(grid, grid, cx.array('three', n, 3)))
    cx.raises('samples must be a matrix', 'ValueError', lambda: interp_bicubic(grid, grid, cx.array('flat', n)))
