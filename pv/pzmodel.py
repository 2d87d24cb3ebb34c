"""Assumed contract of paramz (the parameterization library the code is built on): array-valued parameters with a
gradient, trees of parameters, transformations.  Only what the code under contract reads is modelled; everything else
is outside the verifier's subset."""
from . import terms as T, ops, npmodel as N
from .terms import ZERO, ONE, const, mul
from .values import *
from .arrays import SArr, OArr, Store, Content, size_of


class PArr(SArr):
    """a parameter: an array with a gradient of the same shape"""

    def __init__(self, cls, name, base, constraint):
        SArr.__init__(self, base.store, base.shape, 'f', base.fwd, base.inv, base.contig)
        self.cls = cls
        self.attrs = {'name': name}
        self.pname = name
        self.constraint = constraint
        self.fixed = False
        self.grad = N.fresh_arr(base.shape, lambda idx: ZERO, 'f')
        self.stamp = J.stamp()

    def plain(self):
        return SArr(self.store, self.shape, 'f', self.fwd, self.inv, self.contig)

    def pv_getattr(self, I, name):
        if name == 'gradient':
            return self.grad
        if name in ('values', 'param_array'):
            return self.plain()
        if name == 'name':
            return self.attrs['name']
        if name in ('constrain_fixed', 'fix', 'unfix', 'constrain_positive', 'constrain_negative', 'unconstrain',
                    'constrain_bounded', 'constrain'):
            return Native('Param.' + name, lambda I2, *a, **k: None)
        if name == 'is_fixed':
            raise Unsupported('Param.is_fixed')
        if name in ('set_prior', 'unset_prior', 'priors', 'constraints'):
            raise Unsupported('Param.' + name)
        return N.arr_attr(I, self, name)

    def pv_setattr(self, I, name, v):
        if name == 'gradient':
            ops.assign_view(I, self.grad, v)
            return
        if name == 'name':
            Loc('attr', self, 'name').write(v)
            return
        raise Unsupported('attribute %s of a parameter' % name)


def mk_param(I, cls, args, kw):
    def p(name, input_array, default_constraint=None, **k):
        a = N.array(I, input_array) if not isinstance(input_array, SArr) else input_array
        if isinstance(a, OArr):
            raise Unsupported('object parameter')
        if not isinstance(a, SArr):
            a = ops.to_arr(I, a)
        if a.dtype != 'f':
            a = a.copy('f')
        if len(a.shape) == 0:
            a = N.reshape(I, a, (ONE,))
        return PArr(cls, name, a, default_constraint)
    return p(*args, **kw)


class CParams:
    pass


SRC = '''
class Parameterizable(object):
    def __init__(self, *a, name=None, **kw):
        self.name = name

    def add_index_operation(self, name, operations):
        pass


class Parameterized(Parameterizable):
    def __init__(self, name=None, parameters=(), *a, **kw):
        super().__init__(name=name)
        self.parameters = []

    def link_parameter(self, param, index=None):
        if index is None:
            self.parameters.append(param)
        else:
            self.parameters.insert(index, param)

    def link_parameters(self, *params):
        for p in params:
            self.link_parameter(p)

    @property
    def gradient(self):
        return np.concatenate([p.gradient.ravel() for p in self.parameters])

    @gradient.setter
    def gradient(self, val):
        if len(self.parameters) == 1:
            p = self.parameters[0]
            p.gradient = np.reshape(val, p.shape)
        elif self.parameters:
            off = 0
            for p in self.parameters:
                n = p.gradient.size
                p.gradient = np.reshape(val[off:off + n], p.shape)
                off += n

    @property
    def param_array(self):
        return np.concatenate([p.param_array.ravel() for p in self.parameters])

    def update_model(self, updates=None):
        pass


class Model(Parameterized):
    def __init__(self, name=None):
        super().__init__(name=name)


class Transformation(object):
    def log_jacobian(self, model_param):
        raise NotImplementedError

    def log_jacobian_grad(self, model_param):
        raise NotImplementedError


class Logexp(Transformation):
    pass


class NegativeLogexp(Transformation):
    pass


class Exponent(Transformation):
    pass


class ParameterIndexOperations(object):
    def __init__(self, *a):
        pass


class Optimizer(object):
    def __init__(self, *a, **k):
        self.x_opt = None


_REAL = 'real'
_POSITIVE = 'positive'
_NEGATIVE = 'negative'
__fixed__ = 'fixed'
'''


def base(I):
    m = I.modules.get('$paramz')
    if m is None:
        import ast
        m = Mod('$paramz')
        m.vars['__name__'] = 'paramz'
        I.modules['$paramz'] = m
        m.vars['np'] = I.module('numpy')
        env = Env(None, m.vars)
        env.vars = m.vars
        sv = I.loc
        I.run_block(ast.parse(SRC).body, env, m)
        I.loc = sv
        pz = m.vars['Parameterizable']
        m.vars['Param'] = NativeCls('Param', mk_param, (pz,))
    return m


def sub(name, *names):
    def f(I):
        b = base(I)
        m = Mod(name)
        for n in names:
            m.vars[n] = b.vars[n]
        return m
    return f


def modules():
    return {
        'paramz': sub('paramz', 'Param', 'Parameterized', 'Model', 'Parameterizable'),
        'paramz.core': sub('paramz.core'),
        'paramz.core.index_operations': sub('paramz.core.index_operations', 'ParameterIndexOperations'),
        'paramz.core.parameter_core': sub('paramz.core.parameter_core', 'Parameterizable'),
        'paramz.transformations': sub('paramz.transformations', 'Transformation', 'Logexp', 'NegativeLogexp', 'Exponent',
                                      '__fixed__'),
        'paramz.domains': sub('paramz.domains', '_REAL', '_POSITIVE', '_NEGATIVE'),
        'paramz.optimization': sub('paramz.optimization', 'Optimizer'),
    }
