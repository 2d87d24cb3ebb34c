"""which contracts decide which property"""
import os
import re

HERE = os.path.dirname(os.path.abspath(__file__))


def names(mod, pat='h_'):
    with open(os.path.join(HERE, mod + '.py')) as f:
        return [('specs.' + mod, n) for n in re.findall(r'^def (%s\w*)\(' % pat, f.read(), re.M)]


def pick(mod, *ns):
    have = [n for _, n in names(mod)]
    for n in ns:
        assert n in have, n
    return [('specs.' + mod, n) for n in ns]


TRUSTED = [
    'pv: symbolic interpreter for the Python subset used by the code (/verif/pv/interp.py, ops.py, loops.py, pybuiltins.py)',
    'pv: normal form and rewriting of bounded sums (/verif/pv/terms.py, solver.py)',
    'z3 4.x (python bindings); cvc5 1.1.2 for the cross-check of the thorough tier',
    'pv/npmodel.py: contracts assumed for numpy/scipy functions (each is exercised against the real library by the '
    'native run of every contract)',
]
ASSUMPTIONS = [
    'floating point is treated as exact real arithmetic in the verifier; the native runs use a relative tolerance of 1e-7',
    'integers are mathematical integers (no int64 overflow)',
    'numpy/scipy calls satisfy their documented contracts as modelled in pv/npmodel.py',
]

BOUNDED_DENSE = ['h_bttb3_dense']
_l = names('linalg')
_d = [x for x in names('dense') if x[1].endswith('_dense') or x[1] == 'h_square']
PROPS = {
    'C01': dict(contracts=_l, bounded=pick('tree', 'h_tree'), note='every matvec/matmat proved equal to the dense product for all sizes and entries; numbers '
                'of summands/blocks enumerated 1..3, grid axes 1..3'),
    'C02': dict(contracts=[x for x in _d if x[1] not in BOUNDED_DENSE], bounded=[('specs.dense', n) for n in BOUNDED_DENSE] + pick('tree', 'h_tree'),
                note='exports proved for all sizes; the three-axis grid export is a bounded stand-in'),
    'C03': dict(contracts=names('pure'), bounded=pick('real', 'h_real_pure') + pick('tree', 'h_tree'),
                note='frame conditions and repeatability proved for every operation listed in specs/pure.py, all sizes and values; '
                'numbers of outputs, blocks and axes enumerated 1..2'),
    'C04': dict(contracts=pick('dense', 'h_toeplitz_bound', 'h_bounds', 'h_symm_block_bound', 'h_ski_bound'),
                bounded=pick('tree', 'h_tree_bound'),
                note='row-sum domination proved for all sizes; eigenvalue step is the Gershgorin theorem (assumed)'),
    'C05': dict(contracts=names('interp', 'h_cubic') + names('interp', 'h_interp1') + pick('interp', 'h_interp2', 'h_interp2_outside', 'h_interp2_poly'),
                note='weights proved for all grids, sizes and samples; two dimensions modular over the weight function, whose '
                'own contract is proved'),
    'C06': dict(contracts=pick('interp', 'h_multi1', 'h_multi2'), bounded=pick('interp', 'h_multi_real'),
                note='proved for arbitrary per-output matrices in compressed rows, all sizes; 1..3 outputs'),
    'C07': dict(contracts=names('interp', 'h_autogrid') + pick('llgp', 'h_grids', 'h_grid_range'), note='proved for all data, ranges and sizes; 1..3 outputs, 1..2 input '
                'dimensions'),
    'C08': dict(contracts=names('kern'), note='values and derivatives proved for all distances and hyperparameters over the reals'),
    'C09': dict(contracts=pick('exact', 'h_exact_K', 'h_exact_cross') + pick('kern', 'h_declared'),
                note='proved for all numbers of points, values and kernels (arbitrary functions of the distance); outputs '
                '1..3, kernels 1..2, input dimensions 1..2 enumerated'),
    'C10': dict(contracts=names('grid') + pick('kern', 'h_declared'),
                note='every representation proved equal to the model for all grid sizes, kernels and parameters; mixtures, '
                'ranks (1..2) and outputs (1..3) enumerated'),
    'C11': dict(contracts=names('exact', 'h_exact_deriv') + names('exact', r'h_exact_\w*_gradient'),
                note='proved for all numbers of points and values; outputs 1..2, kernels 1..2 enumerated; the solver of '
                'symmetric systems is an assumed contract'),
    'C12': dict(contracts=[x for x in names('approx') if x[1] != 'h_probes'], bounded=pick('approx', 'h_probes') + pick('real', 'h_real_gradient'),
                note='estimator proved for all covariances, inverses, data and probes (1..2 probes; more natively); derivative '
                'matrices proved for all grids, weights, points and kernels; outputs 1..2, kernels 1..2 enumerated; the '
                'iterative solver is used through the contract of C13'),
    'C13': dict(contracts=pick('solver', 'h_solve', 'h_solve_plain'), bounded=pick('solver', 'h_solve_real'),
                note='proved for every sequence of iterates and every return value of the Krylov method, all sizes and '
                'tolerances; convergence of scipy MINRES/CG themselves is a bounded stand-in'),
    'C14': dict(contracts=pick('llgp', 'h_predict_mean', 'h_variance_exact', 'h_variance_solve', 'h_variance_solve_dims',
                               'h_variance_grid'),
                bounded=pick('real', 'h_real_predict', 'h_real_grid'),
                note='mean and the three variance methods proved for all covariances, solutions, weights, values and numbers '
                'of training and test points, modular over interpolation (C05, C06), grid covariance (C10), exact covariance '
                '(C09) and solver (C13); outputs 1..2 enumerated; assembled real models are a bounded stand-in'),
    'C15': dict(contracts=names('llgp', 'h_history') + pick('llgp', 'h_two_models'),
                bounded=pick('real', 'h_real_history', 'h_real_models', 'h_real_metrics'),
                note='proved for arbitrary parameter values over enumerated histories (query, update, query in all orders of '
                'the query kinds); longer random histories on real models are a bounded stand-in'),
    'C16': dict(contracts=pick('gp', 'h_norm_stats', 'h_norm_requires_scaling', 'h_gp_normalizes', 'h_gp_raw', 'h_gp_predict'),
                bounded=pick('gp', 'h_norm_missing'),
                note='affine maps proved for all lengths and values, 1..3 outputs; missing values (nan) are a bounded stand-in'),
    'C17': dict(contracts=pick('gp', 'h_gp_quantiles'), note='proved for all numbers of percentages and test points; the '
                'normal quantile function is an uninterpreted dependency'),
    'C18': dict(contracts=names('gp', 'h_gp_rejects') + names('dense', 'h_rejects') + pick('gp', 'h_mean_rejects') +
                pick('util', 'h_tesselate_rejects', 'h_search_rejects') + pick('fk', 'h_rejects', 'h_accepts') +
                pick('priors', 'h_gaussian_rejects') + pick('interp', 'h_rejects_interp', 'h_autogrid_rejects', 'h_cubic_kernel_rejects'),
                note='rejection proved for all sizes violating each precondition'),
    'C19': dict(contracts=pick('fk', 'h_initial', 'h_coreg_mats', 'h_bookkeeping', 'h_eval', 'h_accepts') + pick('kern', 'h_declared'),
                note='proved for all numbers of outputs and ranks; mixtures and input-dimension sets enumerated'),
    'C20': dict(contracts=[x for x in names('priors') if x[1] != 'h_real_model'], bounded=pick('priors', 'h_real_model'),
                note='densities and derivatives proved for all values; objective proved for all values over enumerated layouts '
                'of priors and constraints; the real parameter tree is a bounded stand-in'),
    'C21': dict(contracts=pick('fk', 'h_gradient_routing', 'h_scaled_linked') + names('kern', r'h_\w*route\w*') +
                pick('llgp', 'h_gradients') + pick('kern', 'h_declared'), bounded=pick('real', 'h_real_gradient'),
                note='proved for all gradients, outputs and ranks; mixtures enumerated'),
    'C22': dict(contracts=pick('optim', 'h_adadelta'), bounded=pick('real', 'h_real_optimize'),
                note='proved for every sequence of gradients of every length and dimension and every setting; the update rule of '
                'the dependency (climin) is an arbitrary sequence of steps'),
    'C23': dict(contracts=names('util'), note='proved for all lengths and values; numbers of segments 1..4, axes 1..3'),
    'C24': dict(contracts=pick('gp', 'h_mean_zero', 'h_mean_constant', 'h_mean_rejects'),
                note='proved for all numbers of points, 1..3 outputs'),
    'C25': dict(contracts=pick('llgp', 'h_likelihood', 'h_likelihood_normalized'), bounded=pick('real', 'h_real_likelihood'),
                note='proved for all covariances, factorizations, solutions and data; outputs 1..2 enumerated; assembled real '
                'models are a bounded stand-in'),
    'C26': dict(contracts=names('par'), bounded=pick('real', 'h_real_workers') + pick('tree', 'h_tree_travels'),
                note='proved for all work lists, modular over multiprocessing (results in order, assumed); real worker '
                'processes are a bounded stand-in'),
}
COST = {}
