"""Contracts of the prior distributions and of the objective function built from them."""
import numpy as np
from paramz.transformations import Transformation
from runlmc.parameterization.priors import Gaussian, Gamma, InverseGamma, HalfLaplace
from runlmc.parameterization.model import Model


def density(cx, what, label, prior, x, n, f):
    """log density f at every point, its exact derivative as gradient, arguments untouched"""
    s = cx.snapshot(x)
    val = prior.lnpdf(x)
    cx.arr(label + ' log density', val, n, lambda i: f(x[i]))
    g = np.zeros(n) + prior.lnpdf_grad(x)
    cx.arr(label + ' derivative', g, n, lambda i: cx.diff(f, x[i]))
    cx.unchanged(label + ' leaves the values alone', s)


def h_gaussian(cx):
    n = cx.size('n')
    x = cx.array('x', n)
    mu, var = cx.real('mu'), cx.real('var', pos=True)
    density(cx, 0, 'Gaussian', Gaussian(mu, var), x, n,
            lambda t: -(t - mu) * (t - mu) / (2 * var) - cx.fn('log', 2 * cx.pi() * var) / 2)


def h_gaussian_rejects(cx):
    mu, var = cx.real('mu'), cx.real('var', hi=0)
    cx.assume(var <= 0)
    cx.raises('variance not positive', 'ValueError', lambda: Gaussian(mu, var))


def h_gamma(cx):
    n = cx.size('n')
    x = cx.array('x', n, pos=True)
    a, b = cx.real('a', pos=True), cx.real('b', pos=True)
    density(cx, 0, 'Gamma', Gamma(a, b), x, n,
            lambda t: a * cx.fn('log', b) - cx.gammaln(a) + (a - 1) * cx.fn('log', t) - b * t)


def h_gamma_moments(cx):
    """the gamma prior made from a mean and a variance has that mean a/b and variance a/b^2"""
    E, V = cx.real('E', pos=True), cx.real('V', pos=True)
    g = Gamma.from_EV(E, V)
    n = cx.size('n')
    x = cx.array('x', n, pos=True)
    a, b = E * E / V, E / V
    density(cx, 0, 'Gamma from moments', g, x, n,
            lambda t: a * cx.fn('log', b) - cx.gammaln(a) + (a - 1) * cx.fn('log', t) - b * t)


def h_inverse_gamma(cx):
    n = cx.size('n')
    x = cx.array('x', n, pos=True)
    a, b = cx.real('a', pos=True), cx.real('b', pos=True)
    density(cx, 0, 'InverseGamma', InverseGamma(a, b), x, n,
            lambda t: a * cx.fn('log', b) - cx.gammaln(a) - (a + 1) * cx.fn('log', t) - b / t)


def h_half_laplace(cx):
    n = cx.size('n')
    x = cx.array('x', n, pos=True)
    b = cx.real('b', pos=True)
    density(cx, 0, 'HalfLaplace', HalfLaplace(b), x, n, lambda t: -cx.fn('log', b) - t / b)


def h_domains(cx):
    """positive families constrain to positive values"""
    cx.eq('domains', [Gaussian.domain, Gamma.domain, InverseGamma.domain, HalfLaplace.domain],
          ['real', 'positive', 'positive', 'positive'])


# ------------------------------------------------------------------ objective
def bend(k):
    """an arbitrary transformation with a known log Jacobian"""
    class Bend(Transformation):
        def log_jacobian(self, x):
            return k * x * x

        def log_jacobian_grad(self, x):
            return 2 * k * x
    return Bend()


class Hill:
    """an arbitrary prior"""
    domain = 'real'

    def __init__(self, c):
        self.c = c

    def lnpdf(self, x):
        return self.c * x * x * x

    def lnpdf_grad(self, x):
        return 3 * self.c * x * x


class Index:
    """what the model reads of an index operation: how many indices, and (property, indices) pairs"""

    def __init__(self, pairs):
        self.pairs = pairs
        self.size = sum([len(i) for _, i in pairs])

    def items(self):
        return [(p, np.array(i)) for p, i in self.pairs]


class Ghost(Model):
    def __init__(self, ll, theta, grad, priors, constraints):
        self.ll = ll
        self.theta, self.grad = theta, grad
        self.pr, self.co = priors, constraints

    @property
    def param_array(self):
        return self.theta

    @property
    def gradient(self):
        return self.grad

    @property
    def priors(self):
        return self.pr

    @property
    def constraints(self):
        return self.co

    def initialize_parameter(self):
        pass

    def log_likelihood(self):
        return self.ll


LAYOUTS = [
    # (indices per prior, indices per constraint)
    ([], [[0, 1]]),
    ([[0]], []),
    ([[0]], [[0]]),
    ([[1]], [[0], [2]]),
    ([[0, 1]], [[0, 1, 2]]),
    ([[0, 1]], [[1], [0]]),
    ([[0], [1]], [[0, 1]]),
    ([[0], [1]], [[0], [1]]),
    ([[1], [0]], [[0], [2]]),
    ([[0, 2], [1, 3]], [[0, 1, 2, 3]]),
    ([[0, 2], [1, 3]], [[0, 1], [3]]),
    ([[2], [0], [3]], [[0, 1], [2, 3]]),
    ([[3, 0], [1], [2]], [[2, 3], [0], [1]]),
]


def h_objective(cx):
    L = cx.choice('layout', *LAYOUTS)
    fixed = cx.choice('fixed', False, True)
    n = cx.size('n', lo=4)
    theta, grad = cx.array('theta', n), cx.array('grad', n)
    ll = cx.real('ll')
    cs = [cx.real('c%d' % k) for k in range(len(L[0]))]
    ks = [cx.real('k%d' % k) for k in range(len(L[1]))]
    co = [(bend(ks[k]), L[1][k]) for k in range(len(L[1]))]
    if fixed:
        co = co + [('fixed', [2, 3])]
    m = Ghost(ll, theta, grad, Index([(Hill(cs[k]), L[0][k]) for k in range(len(L[0]))]), Index(co))
    s = cx.snapshot(theta, grad)
    hasp = [i for ix in L[0] for i in ix]
    lp = 0
    for k in range(len(L[0])):
        for i in L[0][k]:
            lp = lp + cs[k] * theta[i] * theta[i] * theta[i]
    for k in range(len(L[1])):
        for i in L[1][k]:
            if i in hasp:
                lp = lp + ks[k] * theta[i] * theta[i]

    def dlp(i):
        d = 0
        for k in range(len(L[0])):
            for j in L[0][k]:
                d = d + cx.ite(i == j, 3 * cs[k] * theta[j] * theta[j], 0)
        for k in range(len(L[1])):
            for j in L[1][k]:
                if j in hasp:
                    d = d + cx.ite(i == j, 2 * ks[k] * theta[j], 0)
        return d
    cx.eq('log prior', m.log_prior(), lp)
    cx.eq('log likelihood with prior', m.log_likelihood_with_prior(), ll + lp)
    cx.eq('objective', m.objective_function(), -(ll + lp))
    cx.arr('objective gradient', m.objective_function_gradients(), n, lambda i: -(grad[i] + dlp(i)))
    cx.unchanged('parameters and gradient unchanged', s)
    cx.arr('objective gradient again', m.objective_function_gradients(), n, lambda i: -(grad[i] + dlp(i)))


def h_real_model(cx):
    """the real parameter tree: priors set and unset through the public interface (concrete only)"""
    import paramz
    from runlmc.parameterization.param import Param
    from paramz.transformations import Logexp

    class M(Model):
        def __init__(self):
            super().__init__('m')
            self.ps = []

        def log_likelihood(self):
            return -float(sum((np.asarray(p) ** 2).sum() for p in self.ps))

        def parameters_changed(self):
            for p in self.ps:
                p.gradient = -2 * np.asarray(p)
    m = M()
    m.update_model(False)
    k = cx.size('k', cap=4)
    for i in range(k):
        w = cx.size('w%d' % i, cap=3)
        pos = cx.choice('pos%d' % i, True, False)
        p = Param('p%d' % i, cx.array('v%d' % i, w, lo=0.3, hi=2.0), *([Logexp()] if pos else []))
        m.ps.append(p)
        m.link_parameter(p)
    expect = []
    for i, p in enumerate(m.ps):
        kind = cx.choice('prior%d' % i, None, 'gauss', 'gamma', 'inv', 'half', 'unset')
        a, b = cx.real('a%d' % i, lo=0.5, hi=3), cx.real('b%d' % i, lo=0.5, hi=3)
        pr = {'gauss': Gaussian(a, b), 'gamma': Gamma(a, b), 'inv': InverseGamma(a, b), 'half': HalfLaplace(b),
              'unset': Gamma(a, b), None: None}[kind]
        pos = any(isinstance(c, Transformation) for c, ix in p.constraints.items() if len(ix))
        if kind == 'gauss' and pos:
            # a density over all reals does not belong on a constrained parameter
            cx.raises('prior outside the domain', 'AssertionError', lambda: p.set_prior(pr))
            p.unset_prior()
            pr = None
        if pr is not None:
            # the last prior counts, whatever was there before
            before = cx.choice('before%d' % i, None, 'gauss', 'gamma')
            if before == 'gamma' and kind != 'gauss':
                p.set_prior(Gamma(b, a))
            elif before == 'gauss' and not pos:
                p.set_prior(Gaussian(b, a))
            p.set_prior(pr)
            con = [c for c, ix in p.constraints.items() if len(ix)]
            if kind == 'gauss':
                cx.true('unconstrained', not con)
            else:
                cx.true('constrained to positive values', len(con) == 1 and con[0].domain == 'positive')
                cx.eq('every entry constrained', len(p.constraints[con[0]]), p.size)
            if kind == 'unset':
                p.unset_prior()
                pr = None
        if kind is None and not pos and cx.choice('fix%d' % i, True, False):
            p.fix(warning=False)
            cx.raises('prior on a fixed parameter', 'AssertionError', lambda: p.set_prior(Gaussian(a, b)))
            p.unset_prior()
            p.unfix()
        pos = any(isinstance(c, Transformation) for c, ix in p.constraints.items() if len(ix))
        expect.append((p, pr, pos))
    m.update_model(True)
    lp, g = 0., []
    T = Logexp()
    for p, pr, pos in expect:
        v = np.asarray(p).ravel()
        d = -2 * v
        if pr is not None:
            lp += pr.lnpdf(v).sum()
            d = d + pr.lnpdf_grad(v)
            if pos:
                lp += sum(T.log_jacobian(x) for x in v)
                d = d + np.array([T.log_jacobian_grad(x) for x in v])
        g.append(d)
    cx.eq('objective', m.objective_function(), -(m.log_likelihood() + lp))
    g = np.concatenate(g)
    cx.arr('objective gradient', m.objective_function_gradients(), len(g), lambda i: -g[i])
