#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the table below (committed outputs; not run by any check)"""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)


def P(id, title, statement, over, text, why, files, mech, observe=()):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                             observe_at=list(observe), hook_needed=None))


I, H, C, S = 'inputs', 'histories', 'configurations', 'schedules'
L = 'runlmc/linalg/'
PROPS = [
    P('C01', 'Structured matrix products equal dense products',
      'Multiplying any structured matrix the library offers (Toeplitz, multi-level Toeplitz over a grid, Kronecker, block '
      'diagonal, symmetric block, sum, composition, diagonal, identity, dense wrapper, wrapped function, grid-interpolated) '
      'by a vector or by a matrix gives the product of the dense matrix it denotes with that operand, for integer and real '
      'operands alike. The result has the shape of the dense product and real entries are never truncated or reordered.',
      [I, C], 'all sizes (including 1), all entries, all nestings of operands, vector and matrix right-hand sides',
      'tests draw a few small sizes; the special-cased sizes, dtypes and nestings are unboundedly many',
      [L + 'toeplitz.py', L + 'bttb.py', L + 'kronecker.py', L + 'block_diag.py', L + 'block_matrix.py', L + 'sum_matrix.py',
       L + 'composition.py', L + 'diag.py', L + 'identity.py', L + 'numpy_matrix.py', L + 'matrix.py', 'runlmc/approx/ski.py'],
      [('circulant embedding and FFT product', L + 'toeplitz.py, ' + L + 'bttb.py'),
       ('reshape-based Kronecker product', L + 'kronecker.py'), ('default matmat', L + 'matrix.py')],
      ['return values of matvec and matmat']),
    P('C02', 'Dense export of a structured matrix is the matrix it denotes',
      'Exporting any structured matrix as a dense array yields, entry for entry and with the right shape, the matrix it '
      'denotes: the same matrix its products are taken with.',
      [I, C], 'all sizes, entries and nestings of operands',
      'tests compare at a few sizes, and several of them derive the expected products from the export itself',
      [L + 'matrix.py', L + 'toeplitz.py', L + 'bttb.py', L + 'kronecker.py', L + 'block_diag.py', L + 'block_matrix.py',
       L + 'sum_matrix.py', 'runlmc/approx/ski.py'],
      [('as_numpy of every class', L)], ['return value of as_numpy']),
    P('C03', 'Operations leave caller data alone and are repeatable',
      'Building matrices, grids, interpolations, kernels or models and multiplying, exporting, evaluating or predicting with '
      'them never changes an array the caller passed in. Repeating the same operation on the same object gives the same '
      'answer.',
      [I, H], 'all operations, all inputs, any number of repetitions',
      'a test that does not look at its inputs afterwards cannot see an in-place update; most look only at results',
      [L, 'runlmc/approx/interpolation.py', 'runlmc/kern/', 'runlmc/models/interpolated_llgp.py', 'runlmc/util/normalizer.py'],
      [('copies before in-place updates', 'runlmc/approx/interpolation.py, ' + L)],
      ['caller arrays before and after; second result against the first']),
    P('C04', 'Advertised eigenvalue bounds are true upper bounds',
      'Whenever a structured matrix reports an upper bound on its eigenvalues, no eigenvalue of the matrix exceeds it (for '
      'composites: given valid bounds of the positive semi-definite parts).',
      [I], 'all sizes and entries for which a bound is reported',
      'random well-conditioned matrices leave slack, so a bound that is slightly too small passes',
      [L + 'toeplitz.py', L + 'kronecker.py', L + 'block_matrix.py', L + 'sum_matrix.py', L + 'diag.py', L + 'identity.py',
       'runlmc/approx/ski.py'],
      [('Gershgorin row sums, products, sums and maxima of bounds', L)], ['return value of upper_eig_bound']),
    P('C05', 'Grid interpolation reproduces polynomials and uses only nearby nodes',
      'Every row of the one- and two-dimensional interpolation matrices holds the cubic-convolution weights of its sample: '
      'they sum to one, reproduce linear and quadratic functions sampled on the grid inside the covered region, and equal the '
      'unit vector at a grid node. Weights of nodes more than two cells away from the sample are zero and row order follows '
      'sample order.',
      [I], 'all grids (sizes, offsets, spacings), all sample positions including grid nodes and borders',
      'tests compare interpolated smooth functions loosely; wrong weights near nodes and borders change them very little',
      ['runlmc/approx/interpolation.py'], [('cubic convolution kernel, clamped stencil', 'runlmc/approx/interpolation.py')],
      ['the returned sparse matrices']),
    P('C06', 'Multi-output interpolation is block diagonal in the outputs',
      'The joint interpolation matrix of several outputs is the block-diagonal arrangement of the per-output interpolation '
      'matrices, in output order, for any numbers of points per output including outputs with no points.',
      [I, C], 'all numbers of outputs, sizes per output (including empty), grids in one and two dimensions',
      'tests use a few equal-sized outputs', ['runlmc/approx/interpolation.py', 'runlmc/util/numpy_convenience.py'],
      [('offset arithmetic on compressed rows', 'runlmc/approx/interpolation.py')], ['the returned sparse matrix']),
    P('C07', 'Automatic grids cover the data with margin',
      'The automatically chosen grid in every input dimension is evenly spaced, has the requested number of points m plus '
      'four, and spans the smallest interval containing every input point of every output and the requested range, extended '
      'on each side by 2/m of its length. So at least one full cell lies beyond the data on each side (no interpolation '
      'stencil is clipped), and the arguments are left alone.',
      [I, C], 'all data sets, requested ranges and sizes, and defaults',
      'tests use a few fixed data sets', ['runlmc/approx/interpolation.py', 'runlmc/models/interpolated_llgp.py'],
      [('range extension and linspace', 'runlmc/approx/interpolation.py')], ['grid axes']),
    P('C08', 'Kernel values and hyperparameter derivatives are exact',
      'Each stationary kernel returns its textbook value at every distance (one at distance zero, within [0, 1] before '
      'scaling), and each reported hyperparameter derivative is the exact partial derivative of that value. Each derivative '
      'is stored on the hyperparameter it belongs to.',
      [I], 'all nonnegative distances, all positive hyperparameters, any array shape',
      'tests compare finite differences at a few points with loose tolerance',
      ['runlmc/kern/rbf.py', 'runlmc/kern/matern32.py', 'runlmc/kern/std_periodic.py', 'runlmc/kern/identity.py',
       'runlmc/kern/scaled.py'], [('from_dist, kernel_gradient, update_gradient', 'runlmc/kern/')],
      ['kernel values and gradients']),
    P('C09', 'Exact covariance is the linear model of coregionalization',
      'The exact covariance between points x of output i and z of output j is the sum over latent kernels of the '
      "coregionalization entry (i, j) times the kernel of the distance between x and z over that kernel's input dimensions; "
      'the training covariance adds the noise of output i on its diagonal only. Rows and columns follow output order, then '
      'point order.',
      [I, C], 'all numbers of outputs, points per output (unequal, empty for test points), kernels, ranks, input dimensions',
      'tests rebuild the matrix for a few random layouts', ['runlmc/lmc/likelihood.py', 'runlmc/lmc/functional_kernel.py'],
      [('block scaling by the coregionalization matrices', 'runlmc/lmc/likelihood.py')], ['covariance matrices']),
    P('C10', 'Grid covariance is independent of its internal representation',
      'The approximate covariance equals interpolation of the sum over latent kernels of coregionalization matrix (x) kernel '
      'on the grid, plus per-output noise on the diagonal, whichever internal representation is picked and for any mixture '
      'of coregionalized, single-factor and independent kernels and of input dimensions.',
      [I, C], 'all kernel mixtures, ranks, numbers of outputs, grids, active dimensions',
      'the representation is picked by a rank heuristic; tests reach a few mixtures',
      ['runlmc/lmc/grid_kernel.py', 'runlmc/approx/ski.py', 'runlmc/lmc/functional_kernel.py'],
      [('three grid representations', 'runlmc/lmc/grid_kernel.py')], ['products with the approximate covariance']),
    P('C11', 'Exact likelihood gradients are the true derivatives',
      'Every component of the exact gradient (coregionalization vectors, diagonals, kernel hyperparameters, noise) equals '
      'one half of the quadratic form minus the trace term for the derivative of the exact covariance with respect to that '
      'very parameter.',
      [I, C], 'all data, hyperparameters, numbers of outputs and kernels',
      'finite-difference tests cover a few configurations', ['runlmc/lmc/likelihood.py', 'runlmc/lmc/exact_deriv.py',
                                                            'runlmc/lmc/derivative.py'],
      [('chain rule through coregionalization blocks', 'runlmc/lmc/likelihood.py')], ['gradient lists']),
    P('C12', 'Stochastic gradients are the probe estimator of the true gradients',
      'Every component of the approximate gradient equals one half of (solution . dK solution minus the mean over probes of '
      'inverse-probe . dK probe), with the derivative dK of the approximate covariance for that parameter and the same probe '
      'vectors with entries plus or minus one for every parameter.',
      [I, C], 'all data, probes, numbers of probes, hyperparameters, kernels',
      'tests only check that the noisy estimate is close to the exact one on average',
      ['runlmc/lmc/stochastic_deriv.py', 'runlmc/lmc/likelihood.py', 'runlmc/lmc/derivative.py'],
      [('Hutchinson trace estimator', 'runlmc/lmc/stochastic_deriv.py')], ['gradient lists']),
    P('C13', 'The iterative solver reports honestly',
      'The iterative solve uses the given matrix and right-hand side, returns the iterate the method produced (or the iterate '
      'at which it stopped early, only when its residual is below the tolerance), reports the true residual norm and the '
      'number of iterations, and logs a critical message exactly when the residual exceeds the tolerance or the method failed.',
      [I, H], 'all matrices, right-hand sides, tolerances, and all sequences of iterates of the method',
      'tests use well-conditioned systems where the method always converges', ['runlmc/approx/iterative.py'],
      [('callback with early termination', 'runlmc/approx/iterative.py')], ['return value, log records']),
    P('C14', 'Predictions are the posterior mean and variance',
      'The predicted mean at a test point is the interpolated grid cross-covariance applied to the solution of the training '
      'system. The predicted variance is the prior variance plus noise of the output minus the explained variance, clipped at '
      'zero, where the explained variance is the quadratic form of the cross-covariance with the inverse of the exact covariance '
      '("exact"), with the inverse of the approximate covariance ("on-the-fly"), or the interpolated per-node explained '
      'variance of the grid ("precompute"). Results are split per output in input order, for any numbers of test points per '
      'output.',
      [I, C], 'all models, test points (including outputs without any), variance methods',
      'tests check closeness to a reference implementation on a few data sets',
      ['runlmc/models/interpolated_llgp.py', 'runlmc/models/multigp.py'],
      [('grid projection and variance methods', 'runlmc/models/interpolated_llgp.py')], ['predict results']),
    P('C15', 'No stale results after parameters change',
      'After any sequence of parameter updates, predictions and likelihood queries, every query returns what a freshly built '
      'model with the current parameter values would return. Models do not share cached results with each other.',
      [H], 'all interleavings of updates and queries, over one or several models',
      'tests query once per model', ['runlmc/models/interpolated_llgp.py'],
      [('cache clearing on parameter change', 'runlmc/models/interpolated_llgp.py')], ['predict, K, log_likelihood']),
    P('C16', 'Output normalization round-trips',
      'Normalizing shifts and scales each output to mean zero and unit standard deviation; the inverse transformations of '
      'means and variances undo it exactly and each output uses its own statistics. Predictions are reported in the original '
      'units.',
      [I], 'all outputs, all values', 'tests use one or two data sets', ['runlmc/util/normalizer.py', 'runlmc/models/multigp.py'],
      [('per-output affine maps', 'runlmc/util/normalizer.py')], ['normalized outputs, predictions']),
    P('C17', 'Predicted quantiles are the Gaussian quantiles of the prediction',
      'Column k of the predicted quantiles of an output is its predicted mean plus the standard normal quantile of the k-th '
      'requested percentage times its predicted standard deviation, in original units, in the requested order.',
      [I, C], 'all requested percentages, test points, outputs, with and without normalization',
      'tests check one pair of quantiles', ['runlmc/models/multigp.py'], [('predict_quantiles', 'runlmc/models/multigp.py')],
      ['predict_quantiles results']),
    P('C18', 'Malformed inputs are rejected before use',
      'Empty, mismatched or wrongly shaped inputs and outputs, outputs of zero variance, inconsistent or non-square blocks, '
      'non-vector diagonals, unknown prediction methods, missing kernels and ranks that do not match are rejected with an '
      'error at construction or call time; well-formed inputs are accepted.',
      [I], 'all malformed shapes and counts', 'tests cover a few malformed examples',
      ['runlmc/models/multigp.py', 'runlmc/models/interpolated_llgp.py', 'runlmc/lmc/functional_kernel.py', L,
       'runlmc/approx/interpolation.py'], [('validation at construction', 'runlmc/models/multigp.py')], ['raised errors']),
    P('C19', 'Kernel bookkeeping matches the declared kernels',
      'A multi-output kernel built from coregionalized, single-factor and independent kernels reports, per set of input '
      'dimensions, the right kernels, counts and total rank, and its coregionalization matrices are the sum of vector outer '
      'products plus diagonal: rank as declared, zero diagonal for single-factor kernels, a single unit entry at the declared '
      'output for independent ones. Input dimensions cannot be changed once set.',
      [I, C], 'all mixtures, ranks, active dimensions, output counts',
      'tests cover a few mixtures', ['runlmc/lmc/functional_kernel.py'],
      [('index ranges by kernel kind', 'runlmc/lmc/functional_kernel.py')], ['public accessors']),
    P('C20', 'Priors enter the objective and its gradient consistently',
      'Each prior reports its log density, normalizing constant included, and its exact derivative. The '
      'objective is minus the log likelihood minus all log priors and log Jacobians of constrained parameters with priors, '
      'and the objective gradient includes the matching derivative for every such parameter.',
      [I, C], 'all prior families and values, any number of priors and constraints over any parameters',
      'tests cover one prior at a time', ['runlmc/parameterization/priors.py', 'runlmc/parameterization/model.py',
                                         'runlmc/parameterization/priorizable.py'],
      [('log_prior and its gradient', 'runlmc/parameterization/model.py')], ['objective_function and its gradients']),
    P('C21', 'Gradients reach the parameter they belong to',
      'After every parameter update of a model, the gradient stored on each hyperparameter of each kernel, coregionalization '
      'vector, coregionalization diagonal and noise entry is the likelihood derivative for that very parameter; the '
      "optimizer's flat gradient is its concatenation in parameter order.",
      [I, C], 'all kernel mixtures, ranks, numbers of outputs', 'tests check one-kernel models',
      ['runlmc/lmc/functional_kernel.py', 'runlmc/models/interpolated_llgp.py', 'runlmc/kern/'],
      [('update_gradient', 'runlmc/lmc/functional_kernel.py')], ['gradients of linked parameters']),
    P('C22', 'The optimizer stops as documented and returns the last iterate',
      'The stochastic optimizer runs at most the configured number of iterations, calls the callback once per iteration, '
      'stops as soon as the gradient norm has dropped below the configured fraction of its running maximum the permitted '
      'number of times, and stores the final parameters.',
      [H, C], 'all sequences of gradients, all settings', 'tests run a handful of iterations on one model',
      ['runlmc/models/optimization.py'], [('iteration loop', 'runlmc/models/optimization.py')],
      ['number of steps, callback calls, final point']),
    P('C23', 'Index and grid utilities are exact',
      'Splitting an array by segment lengths, begin/end offsets, chunking, Cartesian products, symmetric block maps, entry '
      'maps and searches in decreasing arrays return exactly the documented elements in the documented order for every input, '
      'and bad segment lengths or non-decreasing inputs are rejected.',
      [I], 'all lengths, values, dimensions', 'tests use a few examples', ['runlmc/util/numpy_convenience.py'],
      [('index arithmetic', 'runlmc/util/numpy_convenience.py')], ['return values']),
    P('C24', 'Mean functions are evaluated per output',
      'A mean function returns, for each output, one value per input point (zero, or that output\'s constant), its gradient '
      'is one exactly at the points of the output the parameter belongs to, and wrongly shaped inputs are rejected.',
      [I], 'all numbers of outputs and points', 'tests use fixed small cases', ['runlmc/mean/constant.py', 'runlmc/mean/zero.py',
                                                                             'runlmc/mean/mean_function.py'],
      [('f and mean_gradient', 'runlmc/mean/')], ['return values']),
    P('C25', 'The log likelihood is the Gaussian log density of the data',
      'The reported log likelihood is minus one half of (log determinant of the exact covariance plus quadratic form of the '
      'normalized data plus n log 2 pi), the log determinant taken from the factorization of the exact covariance and the '
      'quadratic form from the iterative solution of the approximate training system.',
      [I], 'all data and hyperparameters', 'tests compare approximately on a few models',
      ['runlmc/models/interpolated_llgp.py'], [('log_likelihood, log_det_K, normal_quadratic', 'runlmc/models/interpolated_llgp.py')],
      ['log_likelihood']),
    P('C26', 'Parallel and serial evaluation agree',
      'Running with a pool of worker processes gives the same results, in the same order, as running serially.',
      [I, S], 'all work lists and pool sizes', 'tests run serially', ['runlmc/util/inline_pool.py', 'runlmc/lmc/stochastic_deriv.py',
                                                                     'runlmc/models/interpolated_llgp.py'],
      [('order-preserving starmap', 'runlmc/util/inline_pool.py')], ['results with and without a pool']),
]
NA_PROPS = [
    P('N01', 'Kernels are positive semi-definite',
      'Every stationary kernel yields a positive semi-definite covariance matrix on any finite set of points.',
      [I], 'all point sets', 'only a few point sets are factorized in tests', ['runlmc/kern/'], [('from_dist', 'runlmc/kern/')]),
    P('N02', 'Interpolation error decays at the cubic rate',
      'Refining the grid drives the approximate covariance to the exact one at third order in the spacing for smooth kernels.',
      [I], 'all smooth kernels and grids', 'an asymptotic statement', ['runlmc/approx/interpolation.py'],
      [('cubic convolution', 'runlmc/approx/interpolation.py')]),
    P('N03', 'Products take near-linear time and memory',
      'Structured products never form the dense matrix and run in near-linear time.',
      [I], 'all sizes', 'tests do not measure complexity', [L], [('FFT products', L)]),
    P('N04', 'The iterative solver converges',
      'For symmetric positive definite matrices the iterative solver reaches the requested residual within n iterations.',
      [I], 'all well-posed systems', 'floating-point convergence depends on conditioning', ['runlmc/approx/iterative.py'],
      [('MINRES', 'runlmc/approx/iterative.py')]),
    P('N05', 'Results are accurate to rounding error',
      'Floating-point results deviate from the exact real-arithmetic results by a small multiple of machine precision.',
      [I], 'all inputs', 'tests use tolerances on sampled inputs', [L], [('FFT products', L)]),
]
NA_REASON = {
    'N01': "Bochner-type positive-definiteness over all finite point sets is a statement of harmonic analysis about the kernel "
           'formula, not about the code; no contract the verifier can discharge expresses it (values are pinned by C08).',
    'N02': 'asymptotic approximation rate: a limit statement over function classes, outside first-order contracts; the exact '
           'weights it rests on are C05.',
    'N03': 'running time and memory are not expressible in the functional contracts of this verifier.',
    'N04': 'MINRES is an external dependency and its convergence is a floating-point statement; C13 decides what the code does '
           'with whatever the method returns.',
    'N05': 'the verifier treats floating point as real arithmetic; rounding analysis of FFT-based products is out of its reach.',
}
TODO = 'contracts for this property are still being built'


def main():
    from specs import table
    have = table.PROPS
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in PROPS + NA_PROPS:
            f.write(json.dumps(p) + '\n')
    checks, na = [], []
    for p in PROPS:
        i = p['id']
        if i not in have:
            na.append(dict(property=i, reason=TODO))
            continue
        e = have[i]
        lvl = e.get('level', 'proof')
        checks.append(dict(
            property=i, quick_cmd='./check %s --tier quick' % i, thorough_cmd='./check %s --tier thorough' % i,
            technique='contract-based deductive verification of the real source (symbolic execution + z3), counterexamples '
                      'replayed on the real code' if lvl == 'proof' else
                      'contracts on the real code, part discharged deductively, rest checked at run time (bounded)',
            level=lvl, level_note=e['note']))
    for p in NA_PROPS:
        na.append(dict(property=p['id'], reason=NA_REASON[p['id']]))
    m = dict(version=1, setup_cmd='./setup', checks=checks, not_applicable=na)
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    for p in PROPS + NA_PROPS:
        assert len(p['title']) <= 80, p['title']


if __name__ == '__main__':
    main()
