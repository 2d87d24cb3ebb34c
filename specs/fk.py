"""Contracts of the multi-output kernel container: declared structure, coregionalization matrices, gradient routing."""
import numpy as np
from runlmc.lmc.functional_kernel import FunctionalKernel
from runlmc.kern.stationary_kern import StationaryKern
from runlmc.parameterization.param import Param
from runlmc.kern.rbf import RBF
from runlmc.kern.scaled import Scaled


class Kern(StationaryKern):
    """an arbitrary stationary kernel with two hyperparameters"""

    def __init__(self, cx, tag, active_dims=None):
        super().__init__(name='kern' + tag, active_dims=active_dims)
        self.cx, self.tag = cx, tag
        self.u = Param('u', 1.0)
        self.v = Param('v', 2.0)
        self.link_parameter(self.u)
        self.link_parameter(self.v)

    def from_dist(self, dists):
        return self.cx.umap('k' + self.tag, dists)

    def kernel_gradient(self, dists):
        return [self.cx.umap('du' + self.tag, dists), self.cx.umap('dv' + self.tag, dists)]

    def update_gradient(self, grad):
        self.u.gradient = grad[0]
        self.v.gradient = grad[1]


def param(node, name):
    """the linked parameter of that name"""
    return [p for p in node.parameters if p.name == name][0]


# kinds of kernel: (number coregionalized, single factor, independent)
MIXES = [(1, 0, 0), (0, 1, 0), (0, 0, 1), (2, 0, 0), (1, 1, 0), (1, 0, 1), (0, 1, 1), (0, 2, 0), (0, 0, 2), (1, 1, 1), (2, 1, 1),
         (1, 2, 2)]


def build(cx, mix, D, ads=None, ranks=None):
    """a container of the given mix of kernels; output indices of the independent ones are arbitrary"""
    Q = mix[0] + mix[1] + mix[2]
    ks = [Kern(cx, str(q), ads[q] if ads else None) for q in range(Q)]
    if ranks is None:
        ranks = [cx.size('r%d' % q, cap=3) for q in range(mix[0])]
    ix = [cx.int('ix%d' % q, 0, D - 1) for q in range(mix[2])]
    fk = FunctionalKernel(D=D, lmc_kernels=ks[:mix[0]], lmc_ranks=ranks, slfm_kernels=ks[mix[0]:mix[0] + mix[1]],
                          indep_gp=ks[mix[0] + mix[1]:], indep_gp_index=ix)
    return fk, ks, ranks, ix


def h_initial(cx):
    """declared ranks, zero diagonal of single-factor kernels, one unit entry of independent ones"""
    mix = cx.choice('mix', *MIXES)
    D = cx.size('D')
    fk, ks, ranks, ix = build(cx, mix, D)
    Q = len(ks)
    cx.eq('number of outputs', fk.D, D)
    cx.eq('number of kernels', fk.Q, Q)
    fk.set_input_dim(2)
    vecs, diags = fk.coreg_vecs, fk.coreg_diags
    cx.eq('one vector block per kernel', len(vecs), Q)
    cx.eq('one diagonal per kernel', len(diags), Q)
    for q in range(Q):
        cx.shape('diagonal', diags[q], D)
        if q < mix[0]:
            cx.shape('rank as declared', vecs[q], ranks[q], D)
        else:
            cx.shape('rank one', vecs[q], 1, D)
        if q >= mix[0] and q < mix[0] + mix[1]:
            cx.arr('single factor: zero diagonal', diags[q], D, lambda i: 0)
        if q >= mix[0] + mix[1]:
            d = ix[q - mix[0] - mix[1]]
            cx.arr('independent: unit entry', diags[q], D, lambda i: cx.ite(i == d, 1, 0))
            cx.arr('independent: no coupling', vecs[q], (1, D), lambda i, j: 0)
    cx.shape('noise', fk.noise, D)


def settle(cx, fk, mix, ranks, D, free=False):
    """arbitrary coregionalization parameters (free: also those the kind of kernel fixes)"""
    Q = mix[0] + mix[1] + mix[2]
    rk = [ranks[q] if q < mix[0] else 1 for q in range(Q)]
    A = [cx.array('A%d' % q, rk[q], D) if free or q < mix[0] + mix[1] else fk.coreg_vecs[q].copy() for q in range(Q)]
    kap = [cx.array('kap%d' % q, D, pos=True) if free or q < mix[0] else fk.coreg_diags[q].copy() for q in range(Q)]
    given = [a.copy() for a in A], [k.copy() for k in kap]
    fk.coreg_vecs, fk.coreg_diags = given
    for a in given[0] + given[1]:
        a[:] = -1  # the caller's arrays: reusing them must not matter
    return rk, A, kap


def h_coreg_mats(cx):
    mix = cx.choice('mix', *MIXES)
    D = cx.size('D')
    fk, ks, ranks, ix = build(cx, mix, D)
    fk.set_input_dim(1)
    rk, A, kap = settle(cx, fk, mix, ranks, D, True)
    noise = cx.array('noise', D, pos=True)
    fk.noise = noise
    cx.arr('noise', fk.noise, D, lambda i: noise[i])
    B = fk.coreg_mats()
    cx.eq('one matrix per kernel', len(B), len(ks))
    Bd = fk.coreg_mats((0,))
    cx.eq('one matrix per kernel on these dimensions', len(Bd), len(ks))
    for q in range(len(ks)):
        cx.arr('coregionalization matrix', B[q], (D, D),
               lambda i, j: cx.sum(rk[q], lambda r: A[q][r, i] * A[q][r, j]) + cx.ite(i == j, kap[q][i], 0))
        cx.arr('coregionalization matrix on these dimensions', Bd[q], (D, D),
               lambda i, j: cx.sum(rk[q], lambda r: A[q][r, i] * A[q][r, j]) + cx.ite(i == j, kap[q][i], 0))
        cx.arr('vectors', fk.coreg_vecs[q], (rk[q], D), lambda r, i: A[q][r, i])
        cx.arr('diagonals', fk.coreg_diags[q], D, lambda i: kap[q][i])


ADS = [None, (0,), (1,), (1, 0), (0, 1), [0]]


def h_bookkeeping(cx):
    """per set of input dimensions: kernels, counts, ranks"""
    mix = cx.choice('mix', (1, 1, 1), (2, 1, 0), (1, 0, 2), (0, 2, 1), (0, 0, 3), (3, 0, 0), (0, 3, 0))
    Q = 3
    ads = [cx.choice('ad%d' % q, *ADS[:5]) for q in range(Q)]
    D = cx.size('D')
    fk, ks, ranks, ix = build(cx, mix, D, ads)
    fk.set_input_dim(2)
    fk.set_input_dim(2)
    norm = [(0, 1) if a is None else tuple(sorted(a)) for a in ads]
    cx.eq('sets of input dimensions', set(fk.active_dims.keys()), set(norm))
    for ad in set(norm):
        idx = [q for q in range(Q) if norm[q] == ad]
        cx.eq('kernels on these dimensions', fk.active_dims[ad], idx)
        cx.eq('coregionalized kernels', fk.num_lmc[ad], len([q for q in idx if q < mix[0]]))
        cx.eq('single-factor kernels', fk.num_slfm[ad], len([q for q in idx if mix[0] <= q < mix[0] + mix[1]]))
        cx.eq('independent kernels', fk.num_indep[ad], len([q for q in idx if q >= mix[0] + mix[1]]))
        cx.eq('total rank', fk.total_rank(ad), sum([ranks[q] if q < mix[0] else 1 for q in idx if q < mix[0] + mix[1]]))
        cx.eq('kernels that are not independent', fk.filter_non_indep_idxs(idx), [q for q in idx if q < mix[0] + mix[1]])
    for q in range(Q):
        cx.eq('input dimensions of a kernel', fk.get_active_dims(q), norm[q])
    cx.raises('input dimension set twice', 'ValueError', lambda: fk.set_input_dim(3))


def h_eval(cx):
    """kernels and their gradients are evaluated on the distances of their own input dimensions, in kernel order"""
    mix = cx.choice('mix', (1, 1, 1), (0, 2, 1))
    ads = [cx.choice('ad%d' % q, None, (0,), (1,)) for q in range(3)]
    fk, ks, ranks, ix = build(cx, mix, 2, ads, [2] * mix[0])
    fk.set_input_dim(2)
    norm = [(0, 1) if a is None else a for a in ads]
    n, m = cx.size('n'), cx.size('m')
    d = {ad: cx.array('d%d%d' % (ad[0], len(ad)), n, m, nonneg=True) for ad in sorted(set(norm))}
    s = cx.snapshot(*[d[ad] for ad in sorted(set(norm))])
    v, g = fk.eval_kernels(d), fk.eval_kernel_gradients(d)
    cx.eq('one value per kernel', (len(v), len(g)), (3, 3))
    for q in range(3):
        cx.arr('kernel value', v[q], (n, m), lambda i, j: cx.umap('k%d' % q, d[norm[q]][i, j]))
        cx.eq('one gradient per hyperparameter', len(g[q]), 2)
        cx.arr('first gradient', g[q][0], (n, m), lambda i, j: cx.umap('du%d' % q, d[norm[q]][i, j]))
        cx.arr('second gradient', g[q][1], (n, m), lambda i, j: cx.umap('dv%d' % q, d[norm[q]][i, j]))
    for ad in sorted(set(norm)):
        idx = [q for q in range(3) if norm[q] == ad]
        w = fk.eval_kernels_fixed_dim(d[ad], ad)
        cx.shape('values on these dimensions', w, len(idx), n, m)
        for t in range(len(idx)):
            cx.arr('value on these dimensions', w[t], (n, m), lambda i, j: cx.umap('k%d' % idx[t], d[ad][i, j]))
    cx.unchanged('distances unchanged', s)


class Grads:
    """an arbitrary likelihood"""

    def __init__(self, vecs, diags, kerns, noise):
        self.vecs, self.diags, self.kerns, self.noise = vecs, diags, kerns, noise

    def coreg_vec_gradients(self):
        return self.vecs

    def coreg_diags_gradients(self):
        return self.diags

    def kernel_gradients(self):
        return self.kerns

    def noise_gradient(self):
        return self.noise


def h_gradient_routing(cx):
    mix = cx.choice('mix', *MIXES)
    D = cx.size('D')
    ad = cx.choice('ad', None, ((0,), (1,)), ((1,), (0,)), ((1,), (0, 1)))
    fk, ks, ranks, ix = build(cx, mix, D, None if ad is None else [ad[q % 2] for q in range(sum(mix))])
    fk.set_input_dim(2)
    Q = len(ks)
    rk = [ranks[q] if q < mix[0] else 1 for q in range(Q)]
    gv = [cx.array('gv%d' % q, rk[q], D) for q in range(Q)]
    gd = [cx.array('gd%d' % q, D) for q in range(Q)]
    gk = [[cx.real('gu%d' % q), cx.real('gw%d' % q)] for q in range(Q)]
    gn = cx.array('gn', D)
    s = cx.snapshot(gn, *(gv + gd))
    fk.update_gradient(Grads(gv, gd, gk, gn))
    for q in range(Q):
        cx.arr('kernel gradient, first hyperparameter', ks[q].u.gradient, 1, lambda i: gk[q][0])
        cx.arr('kernel gradient, second hyperparameter', ks[q].v.gradient, 1, lambda i: gk[q][1])
        if q < mix[0] + mix[1]:
            cx.arr('vector gradient', param(fk, 'a%d' % q).gradient, (rk[q], D), lambda r, i: gv[q][r, i])
        if q < mix[0]:
            cx.arr('diagonal gradient', param(fk, 'kappa%d' % q).gradient, D, lambda i: gd[q][i])
    cx.arr('noise gradient', param(fk, 'noise').gradient, D, lambda i: gn[i])
    cx.unchanged('gradients unchanged', s)
    n = sum([p.gradient.size for p in fk.parameters])
    cx.shape('flat gradient', fk.gradient, n)
    cx.eq('every hyperparameter is linked', n,
          2 * Q + sum([rk[q] * D for q in range(mix[0] + mix[1])]) + mix[0] * D + D)


def h_scaled_linked(cx):
    """the scale of a scaled kernel takes part in optimization"""
    s = Scaled(RBF(cx.real('g', pos=True)))
    s.update_gradient([cx.real('a'), cx.real('b')])
    cx.arr('flat gradient', s.gradient, 2, lambda i: cx.ite(i == 0, cx.real('a'), cx.real('b')))


# ------------------------------------------------------------------ validation
def h_rejects(cx):
    D = cx.size('D')
    k = [Kern(cx, str(q)) for q in range(3)]
    cx.raises('no kernels', 'ValueError', lambda: FunctionalKernel(D=D, lmc_kernels=[], lmc_ranks=[]))
    cx.raises('nothing given', 'ValueError', lambda: FunctionalKernel(D=D))
    cx.raises('no number of outputs', 'ValueError', lambda: FunctionalKernel(lmc_kernels=k[:1], lmc_ranks=[1]))
    cx.raises('no outputs', 'ValueError', lambda: FunctionalKernel(D=0, lmc_kernels=k[:1], lmc_ranks=[1]))
    cx.raises('more kernels than ranks', 'ValueError', lambda: FunctionalKernel(D=D, lmc_kernels=k[:2], lmc_ranks=[1]))
    cx.raises('more ranks than kernels', 'ValueError', lambda: FunctionalKernel(D=D, lmc_kernels=k[:1], lmc_ranks=[1, 1]))
    cx.raises('ranks without kernels', 'ValueError', lambda: FunctionalKernel(D=D, slfm_kernels=k[:1], lmc_ranks=[1]))
    cx.raises('kernels without ranks', 'ValueError', lambda: FunctionalKernel(D=D, lmc_kernels=k[:1]))
    r = cx.int('r', hi=0)
    cx.raises('rank not positive', 'ValueError', lambda: FunctionalKernel(D=D, lmc_kernels=k[:1], lmc_ranks=[r]))
    cx.raises('second rank not positive', 'ValueError',
              lambda: FunctionalKernel(D=D, lmc_kernels=k[:2], lmc_ranks=[1, r]))
    cx.raises('more output indices than independent kernels', 'ValueError',
              lambda: FunctionalKernel(D=D, indep_gp=k[:1], indep_gp_index=[0, 0]))
    cx.raises('fewer output indices than independent kernels', 'ValueError',
              lambda: FunctionalKernel(D=D, indep_gp=k[:2], indep_gp_index=[0]))


def h_accepts(cx):
    """every part is optional as long as one is there"""
    what = cx.choice('what', 0, 1, 2, 3)
    D = cx.size('D', lo=2)
    k = [Kern(cx, str(q)) for q in range(2)]
    if what == 0:
        fk = FunctionalKernel(D=D, lmc_kernels=k, lmc_ranks=[1, 2])
    elif what == 1:
        fk = FunctionalKernel(D=D, slfm_kernels=k)
    elif what == 2:
        fk = FunctionalKernel(D=D, indep_gp=k)
    else:
        fk = FunctionalKernel(D=D, indep_gp=k, indep_gp_index=[1, 0])
    cx.eq('number of kernels', fk.Q, 2)
    if what == 2:
        cx.arr('default output of the first', fk.coreg_diags[0], D, lambda i: cx.ite(i == 0, 1, 0))
        cx.arr('default output of the second', fk.coreg_diags[1], D, lambda i: cx.ite(i == 1, 1, 0))
    if what == 3:
        cx.arr('declared output of the first', fk.coreg_diags[0], D, lambda i: cx.ite(i == 1, 1, 0))
        cx.arr('declared output of the second', fk.coreg_diags[1], D, lambda i: cx.ite(i == 0, 1, 0))
