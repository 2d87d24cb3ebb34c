"""numpy / scipy contracts: what the verified code may rely on."""
import math
from fractions import Fraction
from . import terms as T
from . import solver as S
from .terms import (Poly, B, ZERO, ONE, TRUE, FALSE, And, Or, Not, eq, le, lt, ite, var, const, lift, add, mul,
                    scale, subst, var_atom)
from .values import *
from .values import J
from .arrays import (SArr, OArr, MaskSel, Content, Store, fresh_arr, tite, conv, conv_term, row_major, unravel,
                     size_of, PH, PHA)
from . import ops
from .ops import elementwise, to_arr, scalar, wrap0, same_dim, SliceV
from . import pybuiltins as pb

NOT_GIVEN = UNBOUND


class DType:
    def __init__(self, k, name):
        self.k, self.name = k, name

    def pv_eq(self, I, o):
        return isinstance(o, DType) and o.k == self.k

    def pv_getattr(self, I, name):
        if name == 'kind':
            return self.k
        if name in ('name', '__name__'):
            return self.name
        if name == 'type':
            return self
        return UNBOUND

    def pv_call(self, I, v=0):
        return cast_scalar(I, v, self)

    def __repr__(self):
        return '<dtype %s>' % self.name


F8, I8, B1, OB = DType('f', 'float64'), DType('i', 'int64'), DType('b', 'bool'), DType('O', 'object')
LOSSY = (DType('f', 'float32'), DType('f', 'float16'), DType('i', 'int8'), DType('i', 'int16'))
BYK = {'f': F8, 'i': I8, 'b': B1, 'O': OB}


def dt(I, d, default='f'):
    if d is None or d is UNBOUND:
        return default
    if isinstance(d, DType):
        if d in LOSSY:
            I.define(FALSE, 'values keep double precision')
        return d.k
    if isinstance(d, str):
        if d in ('float32', 'float16', 'f4', 'f2', 'f', 'single', 'half', 'e', 'int8', 'int16', 'i1', 'i2'):
            I.define(FALSE, 'values keep double precision')
            return 'i' if d[0] == 'i' else 'f'
        if d.startswith('float') or d in ('d', 'f8', 'f'):
            return 'f'
        if d.startswith('int') or d in ('i8', 'i'):
            return 'i'
        if d.startswith('bool'):
            return 'b'
        if d in ('object', 'O'):
            return 'O'
    if isinstance(d, Cls):
        r = {'float': 'f', 'int': 'i', 'bool': 'b', 'object': 'O'}.get(d.name)
        if r:
            return r
    raise Unsupported('dtype %r' % (d,))


def cast_scalar(I, v, t):
    k = dt(I, t)
    if isinstance(v, (SArr,)):
        return v.copy(k)
    return mk(conv_term(T.mkbool(v) if isinstance(v, (B, bool)) else num(v), dt_of(v), k), k)


# ------------------------------------------------------------------ shapes
def shape_arg(I, s):
    if isinstance(s, (int, Sc)):
        return (dim(I, s),)
    it = I.iterate(s)
    if not isinstance(it, list):
        raise Unsupported('shape of symbolic rank')
    return tuple(dim(I, x) for x in it)


def dim(I, x):
    if isinstance(x, float) or (isinstance(x, Sc) and x.dt == 'f'):
        I.raise_('TypeError', 'float dimension')
    k = ops.as_int(I, x)
    if k is None:
        raise Unsupported('dimension %r' % (x,))
    p = lift(k)
    if not p.is_const():
        if not I.branch(le(ZERO, p)):
            I.raise_('ValueError', 'negative dimensions')
    elif p.const() < 0:
        I.raise_('ValueError', 'negative dimensions')
    return p


def np_empty(I, shape, dtype=None, order='C'):
    s = shape_arg(I, shape)
    d = dt(I, dtype)
    nm = T.fresh_name('E')
    if d == 'O':
        return ObjStore(s)
    if d == 'b':
        return fresh_arr(s, lambda idx: T.bapp(nm, idx), 'b')
    if not s:
        return fresh_arr(s, lambda idx: T.app(nm, (), 'r'), d)
    return fresh_arr(s, lambda idx: T.app(nm, idx, 'i' if d == 'i' else 'r'), d)


class ObjStore(OArr):
    """object array being filled: concrete cells only"""

    def __init__(self, shape, d=None):
        self.shape = tuple(shape)
        self.d = dict(d or {})
        self.stamp = J.stamp()

    def get(self, idx):
        key = tuple(int(p.const()) if p.is_const() else None for p in idx)
        if None in key:
            raise Unsupported('symbolic index into an object array')
        return self.d.get(key)

    def pv_map(self, f, tf):
        return ObjStore(tuple(tf(s) for s in self.shape), {k: f(v) for k, v in self.d.items()})


def full(I, s, c, d):
    c = lift(c) if d != 'b' else T.mkbool(bool(c))
    return fresh_arr(s, lambda idx: c, d)


def np_zeros(I, shape, dtype=None, order='C'):
    d = dt(I, dtype)
    if d == 'O':
        s = shape_arg(I, shape)
        return ObjStore(s)
    return full(I, shape_arg(I, shape), 0, d)


def np_ones(I, shape, dtype=None, order='C'):
    return full(I, shape_arg(I, shape), 1, dt(I, dtype))


def np_full(I, shape, fill, dtype=None):
    v = num(fill)
    return fresh_arr(shape_arg(I, shape), lambda idx: v, dt(I, dtype, dt_of(fill)))


def like(c):
    def f(I, a, dtype=None, order='K'):
        a = to_arr(I, a)
        d = dt(I, dtype, a.dtype)
        if c is None:
            nm = T.fresh_name('E')
            return fresh_arr(a.shape, lambda idx: T.app(nm, idx, 'i' if d == 'i' else 'r'), d)
        return full(I, a.shape, c, d)
    return f


def np_full_like(I, a, fill, dtype=None, order='C'):
    a = to_arr(I, a)
    d = dt(I, dtype, a.dtype)
    if 'bif'.index(dt_of(fill)) > 'bif'.index(d):
        if d == 'b':
            raise Unsupported('conversion to bool')
        fill = cast_scalar(I, fill, BYK[d])
    v = num(fill)
    return fresh_arr(a.shape, lambda idx: v, d)


def np_identity(I, n, dtype=None, M=None):
    p = dim(I, n)
    q = p if M is None else dim(I, M)
    return fresh_arr((p, q), lambda idx: ite(eq(idx[0], idx[1]), ONE, ZERO), dt(I, dtype))


def np_arange(I, *a, dtype=None):
    r = pb.b_range(I, *a) if not any(dt_of(x) == 'f' for x in a) else None
    if r is None:
        raise Unsupported('float arange')
    return array(I, r, 'i')


def array(I, v, dtype=None):
    """np.array"""
    if isinstance(v, SArr):
        return v.copy(dtype)
    if isinstance(v, OArr):
        return v
    if isinstance(v, MaskSel):
        raise Unsupported('array of a masked selection')
    if scalar(v):
        a = to_arr(I, v)
        return a.copy(dtype) if dtype else a
    if isinstance(v, SparseM):
        raise Unsupported('array of a sparse matrix')
    it = I.iterate(v)
    if isinstance(it, list):
        if not it:
            return full(I, (ZERO,), 0, dtype or 'f')
        if any(isinstance(x, (Obj,)) or hasattr(x, 'pv_matrix') for x in it):
            return OArr((const(len(it)),), lambda idx: pick(I, it, idx[0]))
        if all(scalar(x) for x in it):
            d = dtype
            if d is None:
                d = dt_of(it[0])
                for x in it[1:]:
                    d = ops.join(d, dt_of(x))
            ts = [conv_term(T.mkbool(x) if isinstance(x, (bool, B)) else num(x), dt_of(x), d) for x in it]
            return fresh_arr((const(len(it)),), lambda idx: chain(idx[0], ts), d)
        arrs = [array(I, x) if not isinstance(x, SArr) else x for x in it]
        if any(isinstance(x, OArr) for x in arrs):
            if all(isinstance(x, OArr) for x in arrs):
                return OArr((const(len(it)),) + arrs[0].shape,
                            lambda idx: pick(I, arrs, idx[0]).get(tuple(idx[1:])))
            raise Unsupported('mixed object array')
        return np_stack(I, arrs, dtype)
    if isinstance(it, SSeq):
        k = T.fresh('k')
        base = I.facts
        I.facts = base.plus(le(ZERO, k), lt(k, it.length))
        try:
            e = it.elem(k)
            if not scalar(e) and not isinstance(e, (SArr, Obj)) and not hasattr(e, 'pv_matrix'):
                e = array(I, e)
        finally:
            I.facts = base
        if isinstance(e, Obj) or hasattr(e, 'pv_matrix'):
            return OArr((it.length,), lambda idx: it.elem(idx[0]))
        if scalar(e):
            d = dtype or dt_of(e)
            return fresh_arr((it.length,), lambda idx: scterm(it.elem(idx[0]), d), d)
        ka = var_atom(k)
        if any(ka.args[0] in s.fv for s in e.shape):
            raise Unsupported('ragged array')
        d = dtype or e.dtype
        b = e.content().body()
        frm = e.dtype

        def f(idx):
            m = {PHA[i]: x for i, x in enumerate(idx[1:])}
            m[ka] = idx[0]
            return conv_term(subst(b, m), frm, d)
        return fresh_arr((it.length,) + e.shape, f, d)
    raise Unsupported('array of %r' % (v,))


def scterm(v, d):
    return conv_term(T.mkbool(v) if isinstance(v, (bool, B)) else num(v), dt_of(v), d)


def chain(i, ts):
    if i.is_const():
        j = int(i.const())
        if 0 <= j < len(ts):
            return ts[j]
    r = ts[-1]
    for j in range(len(ts) - 2, -1, -1):
        r = tite(eq(i, const(j)), ts[j], r)
    return r


def pick(I, ls, i):
    if i.is_const():
        return ls[int(i.const())]
    for j in range(len(ls) - 1):
        if I.branch(eq(i, const(j))):
            return ls[j]
    return ls[-1]


def np_stack(I, arrs, dtype=None):
    s0 = arrs[0].shape
    d = dtype
    for a in arrs:
        if len(a.shape) != len(s0):
            I.raise_('ValueError', 'inhomogeneous shape')
        for x, y in zip(a.shape, s0):
            if not same_dim(I, x, y):
                I.raise_('ValueError', 'inhomogeneous shape')
        if dtype is None:
            d = a.dtype if d is None else ops.join(d, a.dtype)
    cs = [conv(a.content(), a.dtype, d) for a in arrs]
    return fresh_arr((const(len(arrs)),) + s0, lambda idx: chain(idx[0], [c.at(tuple(idx[1:])) for c in cs]), d)


def np_array(I, v, dtype=None, copy=True, order='K', ndmin=0):
    d = dt(I, dtype, None)
    if ndmin:
        raise Unsupported('ndmin')
    if copy is False and isinstance(v, SArr) and d in (None, v.dtype):
        return v
    if d == 'O':
        raise Unsupported('object array')
    return array(I, v, d)


def np_asarray(I, v, dtype=None, order='K'):
    d = dt(I, dtype, None)
    if isinstance(v, SArr) and (d is None or d == v.dtype):
        return v
    return array(I, v, d)


# ------------------------------------------------------------------ elementwise functions
def ufn(name, pre=None, outdt='f'):
    def f(I, x):
        if hasattr(x, 'pv_values'):
            x = x.pv_values(I)
        if isinstance(x, MaskSel):
            g = x.f
            return MaskSel(x.mask, x.shape, lambda idx: T.fn(name, g(idx)), outdt)
        if isinstance(x, Obj):
            return I.call(I.getattr(x, '__array_ufunc__'), [name], {})
        if isinstance(x, (LList, tuple, SSeq)):
            x = to_arr(I, x)

        def g(t):
            t = lift(t)
            if pre:
                I.define(pre(t), name + ' outside its domain')
            return T.fn(name, t)
        if isinstance(x, SArr):
            return wrap0(I, elementwise(I, [x], g, outdt if outdt else x.dtype))
        if scalar(x):
            r = g(num(x))
            return mk(r, outdt or dt_of(x))
        raise Unsupported('%s of %r' % (name, x))
    return f


def np_abs(I, x):
    if isinstance(x, (int, float)):
        return abs(x)
    a = to_arr(I, x)
    return wrap0(I, elementwise(I, [a], lambda t: T.tabs(lift(t)), 'i' if a.dtype == 'b' else a.dtype))


def np_fabs(I, x):
    a = to_arr(I, x)
    return wrap0(I, elementwise(I, [a], lambda t: T.tabs(lift(t)), 'f'))


def np_square(I, x):
    if isinstance(x, MaskSel):
        f = x.f
        return MaskSel(x.mask, x.shape, lambda idx: T.power(f(idx), 2), x.dtype)
    return ops.binary(I, 'Mult', x, x)


def np_floor(I, x):
    a = to_arr(I, x)
    return wrap0(I, elementwise(I, [a], lambda t: T.fn('floor', lift(t)), a.dtype))


def np_ceil(I, x):
    a = to_arr(I, x)
    return wrap0(I, elementwise(I, [a], lambda t: scale(T.fn('floor', scale(lift(t), -1)), -1), a.dtype))


def binfn(f):
    def g(I, a, b):
        x, y = to_arr(I, a), to_arr(I, b)
        return wrap0(I, elementwise(I, [x, y], lambda p, q: f(lift(p), lift(q)), ops.join(x.dtype, y.dtype)))
    return g


def binop(op):
    return lambda I, a, b: ops.binary(I, op, a, b)


def np_sign(I, x):
    a = to_arr(I, x)
    return wrap0(I, elementwise(I, [a], lambda t: ite(lt(ZERO, lift(t)), ONE, ite(lt(lift(t), ZERO), const(-1), ZERO)),
                                a.dtype))


def np_where(I, c, *ab):
    if not ab:
        raise Unsupported('np.where with one argument')
    ca, x, y = to_arr(I, c), to_arr(I, ab[0]), to_arr(I, ab[1])
    return wrap0(I, elementwise(I, [ca, x, y], lambda p, q, r: tite(
        p if isinstance(p, B) else T.ne(lift(p), ZERO), q, r), ops.join(x.dtype, y.dtype)))


def np_isnan(I, x):
    a = to_arr(I, x)
    return wrap0(I, elementwise(I, [a], lambda t: FALSE, 'b'))


# ------------------------------------------------------------------ reductions
def norm_axis(I, axis, n):
    if axis is None:
        return None
    if isinstance(axis, int):
        return axis + n if axis < 0 else axis
    raise Unsupported('axis')


def reduce_arr(I, a, axis, f):
    """f(n, get: j -> term) -> term"""
    n = len(a.shape)
    ax = norm_axis(I, axis, n)
    c = a.content()
    if ax is None:
        if n == 0:
            return a
        if n == 1:
            return fresh_arr((), lambda idx: f(a.shape[0], lambda j: c.at((j,))), a.dtype)

        def nested(d, pre):
            if d == n:
                return c.at(pre)
            return f(a.shape[d], lambda j: nested(d + 1, pre + (j,)))
        return fresh_arr((), lambda idx: nested(0, ()), a.dtype)
    shp = a.shape[:ax] + a.shape[ax + 1:]
    return fresh_arr(shp, lambda idx: f(a.shape[ax], lambda j: c.at(tuple(idx[:ax]) + (j,) + tuple(idx[ax:]))), a.dtype)


def sum_red(n, get):
    k = T.fresh('k')
    return T.Sum(k, ZERO, n, lift(get(k)))


def np_sum(I, v, axis=None):
    if isinstance(v, SparseM):
        raise Unsupported('sum of sparse')
    if isinstance(v, MaskSel):
        f, m = v.f, v.mask
        a = fresh_arr(v.shape, lambda idx: ite(T.mkbool(m.at(idx)), lift(f(idx)), ZERO), v.dtype)
        return np_sum(I, a, axis)
    a = to_arr(I, v)
    r = reduce_arr(I, a, axis, sum_red)
    r.dtype = 'i' if a.dtype == 'b' else a.dtype
    r.store.dtype = r.dtype
    return wrap0(I, r)


def np_mean(I, v, axis=None):
    a = to_arr(I, v)
    s = reduce_arr(I, a, axis, sum_red)
    ax = norm_axis(I, axis, len(a.shape))
    n = size_of(a.shape) if ax is None else a.shape[ax]
    I.define(T.ne(n, ZERO), 'mean of an empty array')
    c = s.content()
    return wrap0(I, fresh_arr(s.shape, lambda idx: T.div(lift(c.at(idx)), n), 'f'))


def np_var(I, v, axis=None):
    a = to_arr(I, v)
    if len(a.shape) != 1 and not (axis is None or axis == 0):
        raise Unsupported('var axis')
    if len(a.shape) != 1:
        raise Unsupported('var of a matrix')
    n = a.shape[0]
    I.define(T.ne(n, ZERO), 'variance of an empty array')
    c = a.content()
    k, j = T.fresh('k'), T.fresh('k')
    mean = T.div(T.Sum(k, ZERO, n, lift(c.at((k,)))), n)
    s = T.Sum(j, ZERO, n, T.power(add(lift(c.at((j,))), scale(mean, -1)), 2))
    return mk(T.div(s, n), 'f')


def np_std(I, v, axis=None):
    x = np_var(I, v, axis)
    return mk(T.fn('sqrt', num(x)), 'f')


def extremum(I, which, n, get, d):
    k = T.fresh('k')
    if which == 'max':
        return mk(T.Max(k, ZERO, n, lift(get(k))), d)
    return mk(scale(T.Max(k, ZERO, n, scale(lift(get(k)), -1)), -1), d)


def np_extremum(which):
    def red(n, get):
        k = T.fresh('k')
        if n.is_const() and n.const() <= 4:
            r = lift(get(ZERO))
            for i in range(1, int(n.const())):
                r = (T.tmax if which == 'max' else T.tmin)(r, lift(get(const(i))))
            return r
        if which == 'max':
            return T.Max(k, ZERO, n, lift(get(k)))
        return scale(T.Max(k, ZERO, n, scale(lift(get(k)), -1)), -1)

    def f(I, v, axis=None):
        a = to_arr(I, v)
        n = len(a.shape)
        ax = norm_axis(I, axis, n)
        sz = size_of(a.shape) if ax is None else a.shape[ax]
        if not I.branch(lt(ZERO, sz)):
            I.raise_('ValueError', 'zero-size array to reduction operation')
        if ax is None and n > 1:
            raise Unsupported('extremum over several axes')
        r = reduce_arr(I, a, axis, red)
        return wrap0(I, r)
    return f


def np_all(I, v, axis=None):
    a = to_arr(I, v)
    if axis is not None:
        raise Unsupported('all with axis')
    c = a.content()

    def nested(d, pre):
        if d == len(a.shape):
            x = c.at(pre)
            return x if isinstance(x, B) else T.ne(x, ZERO)
        k = T.fresh('k')
        return T.Forall(k, ZERO, a.shape[d], nested(d + 1, pre + (k,)))
    return mk(nested(0, ()))


def np_any(I, v, axis=None):
    a = to_arr(I, v)
    if axis is not None:
        raise Unsupported('any with axis')
    c = a.content()

    def nested(d, pre):
        if d == len(a.shape):
            x = c.at(pre)
            return Not(x) if isinstance(x, B) else eq(x, ZERO)
        k = T.fresh('k')
        return T.Forall(k, ZERO, a.shape[d], nested(d + 1, pre + (k,)))
    return mk(Not(nested(0, ())))


def np_prod(I, v, axis=None):
    if isinstance(v, SArr) and len(v.shape) > 1 and axis != 0:
        raise Unsupported('prod over several axes')
    if isinstance(v, (LList, tuple)) or isinstance(v, SArr):
        it = I.iterate(v if not (isinstance(v, SArr) and not v.shape) else LList([v]))
        if isinstance(it, list):
            if not it:
                return 1.0
            r = it[0]
            for x in it[1:]:
                r = ops.binary(I, 'Mult', r, x)
            return r
    if scalar(v):
        return v
    if isinstance(v, SArr) and len(v.shape) == 1 and v.dtype != 'b':
        q = T.fresh('q')
        ctx = I.facts.plus(le(ZERO, q), lt(q, v.shape[0]))
        if S.prove_eq(ctx, lift(v.at((q,))), ONE):
            return mk(ONE, v.dtype)
    raise Unsupported('prod of a symbolic number of factors')


def np_accumulate(I, v, axis=0):
    a = to_arr(I, v)
    if len(a.shape) != 1:
        raise Unsupported('accumulate')
    c = a.content()

    def f(idx):
        k = T.fresh('k')
        return T.Sum(k, ZERO, add(idx[0], ONE), lift(c.at((k,))))
    return fresh_arr(a.shape, f, 'i' if a.dtype == 'b' else a.dtype)


def np_argmax(I, *a, **k):
    raise Unsupported('argmax')


# ------------------------------------------------------------------ shared keyword arguments
def uf(f):
    """elementwise functions and products: out= is honoured, every other keyword is outside the subset"""
    def g(I, *a, out=None, **kw):
        if isinstance(out, tuple):
            out = out[0] if len(out) == 1 else out
        if kw.get('where', True) is not True or set(kw) - {'where', 'axis', 'casting'}:
            raise Unsupported('keywords %s of a numpy function' % sorted(kw))
        r = f(I, *a, **({'axis': kw['axis']} if 'axis' in kw else {}))
        if out is None:
            return r
        if not isinstance(out, SArr):
            raise Unsupported('out= of %r' % (out,))
        ra = to_arr(I, r)
        if len(ra.shape) != len(out.shape) or not all(same_dim(I, x, y) for x, y in zip(ra.shape, out.shape)):
            raise Unsupported('out= of another shape')
        if 'bif'.index(ra.dtype) > 'bif'.index(out.dtype):
            I.raise_('TypeError', 'Cannot cast ufunc output')
        ops.assign_view(I, out, ra)
        return out
    return g


def red(f):
    """reductions: axis, keepdims"""
    def g(I, v, axis=None, dtype=None, out=None, keepdims=False, **kw):
        if kw or out is not None or dtype not in (None, F8) or keepdims not in (True, False):
            raise Unsupported('keywords of a reduction')
        if dtype is F8 and not isinstance(v, SparseM) and to_arr(I, v).dtype != 'f':
            v = to_arr(I, v).copy('f')
        r = f(I, v, axis)
        if not keepdims:
            return r
        a, ra = to_arr(I, v), to_arr(I, r)
        c = ra.content()
        if axis is None:
            return fresh_arr((ONE,) * len(a.shape), lambda idx: c.at(()), ra.dtype)
        ax = norm_axis(I, axis, len(a.shape))
        return fresh_arr(a.shape[:ax] + (ONE,) + a.shape[ax + 1:],
                         lambda idx: c.at(tuple(idx[:ax]) + tuple(idx[ax + 1:])), ra.dtype)
    return g


def np_clip(I, a, lo=None, hi=None):
    """minimum(maximum(a, lo), hi)"""
    r = a
    if lo is not None:
        r = binfn(T.tmax)(I, r, lo)
    if hi is not None:
        r = binfn(T.tmin)(I, r, hi)
    return r


def np_ptp(I, v, axis=None):
    return ops.binary(I, 'Sub', np_extremum('max')(I, v, axis), np_extremum('min')(I, v, axis))


def np_block(I, rows):
    its = I.iterate(rows)
    if not isinstance(its, list):
        raise Unsupported('block of a symbolic number of rows')
    if not its or not all(isinstance(r, LList) for r in its):
        raise Unsupported('block nesting')
    out = []
    for r in its:
        bs = [to_arr(I, x) for x in I.iterate(r)]
        if any(len(b.shape) != 2 for b in bs):
            raise Unsupported('block of arrays that are not matrices')
        out.append(np_concatenate(I, LList(bs), 1) if len(bs) > 1 else bs[0])
    return np_concatenate(I, LList(out), 0) if len(out) > 1 else out[0].copy()


def np_tile(I, a, reps):
    if isinstance(a, OArr):
        its = I.iterate(a)
        if isinstance(its, list) and isinstance(reps, int):
            out = its * reps
            return OArr((const(len(out)),), lambda idx: pick(I, out, idx[0]))
        raise Unsupported('tile of objects')
    a = to_arr(I, a)
    if isinstance(reps, (tuple, LList)):
        its = I.iterate(reps)
        if len(its) == 1:
            reps = its[0]
        elif len(a.shape) == 1 and len(its) == 2:
            k, m = (dim(I, x) for x in its)
            c, n = a.content(), a.shape[0]
            return fresh_arr((k, mul(m, n)), lambda idx: c.at((idx[1] if m is ONE else T.imod(idx[1], n),)), a.dtype)
        else:
            raise Unsupported('tile')
    if len(a.shape) != 1 or not scalar(reps):
        raise Unsupported('tile')
    k, n, c = dim(I, reps), a.shape[0], a.content()
    return fresh_arr((mul(k, n),), lambda idx: c.at((T.imod(idx[0], n),)), a.dtype)


def np_expand_dims(I, a, axis):
    a = to_arr(I, a)
    if not isinstance(axis, int):
        raise Unsupported('expand_dims axis')
    ax = axis + len(a.shape) + 1 if axis < 0 else axis
    return reshape(I, a, a.shape[:ax] + (ONE,) + a.shape[ax:])


def np_atleast_2d(I, a):
    a = to_arr(I, a)
    if len(a.shape) >= 2:
        return a
    return reshape(I, a, (ONE,) + a.shape if a.shape else (ONE, ONE))


def np_broadcast_to(I, a, shape):
    a, s = to_arr(I, a), shape_arg(I, shape)
    off = len(s) - len(a.shape)
    if off < 0:
        I.raise_('ValueError', 'cannot broadcast')
    c, one = a.content(), []
    for x, y in zip(a.shape, s[off:]):
        one.append(x is ONE and y is not ONE)
        if not one[-1] and not same_dim(I, x, y):
            raise Unsupported('broadcast_to')
    return fresh_arr(s, lambda idx: c.at(tuple(ZERO if o else i for o, i in zip(one, idx[off:]))), a.dtype)


def np_swapaxes(I, a, i, j):
    a = to_arr(I, a)
    p = list(range(len(a.shape)))
    p[i], p[j] = p[j], p[i]
    return transpose(I, a, tuple(p))


def np_moveaxis(I, a, i, j):
    a = to_arr(I, a)
    n = len(a.shape)
    if not isinstance(i, int) or not isinstance(j, int):
        raise Unsupported('moveaxis')
    p = [x for x in range(n) if x != i % n]
    p.insert(j % n, i % n)
    return transpose(I, a, tuple(p))


def np_count_nonzero(I, v, axis=None):
    a = to_arr(I, v)
    b = elementwise(I, [a], lambda t: ite(t if isinstance(t, B) else T.ne(lift(t), ZERO), ONE, ZERO), 'i')
    return np_sum(I, b, axis)


def as_bool(t):
    return t if isinstance(t, B) else T.ne(lift(t), ZERO)


def ops_bool(op):
    def f(I, a, b):
        return wrap0(I, elementwise(I, [to_arr(I, a), to_arr(I, b)], lambda x, y: op(as_bool(x), as_bool(y)), 'b'))
    return f


def np_logical_not(I, a):
    return wrap0(I, elementwise(I, [to_arr(I, a)], lambda x: Not(as_bool(x)), 'b'))


def cmpop(op):
    return lambda I, a, b: ops.compare(I, op, a, b)


def np_array_equal(I, a, b):
    a, b = to_arr(I, a), to_arr(I, b)
    if len(a.shape) != len(b.shape):
        return False
    for x, y in zip(a.shape, b.shape):
        if not same_dim(I, x, y):
            return False
    return np_all(I, ops.compare(I, 'Eq', a, b)) if a.shape else ops.compare(I, 'Eq', a, b)


def np_average(I, v, axis=None, weights=None):
    if weights is not None:
        raise Unsupported('weighted average')
    return np_mean(I, v, axis)


def np_matmul(I, a, b):
    if not isinstance(a, SparseM) and not isinstance(b, SparseM):
        x, y = to_arr(I, a), to_arr(I, b)
        if len(x.shape) not in (1, 2) or len(y.shape) not in (1, 2):
            raise Unsupported('matmul of stacked matrices')
    return dot(I, a, b)


def np_vdot(I, a, b):
    x, y = to_arr(I, a), to_arr(I, b)
    if len(x.shape) != 1 or len(y.shape) != 1:
        raise Unsupported('inner product of matrices')
    return dot(I, x, y)


def np_stack_(I, vs, axis=0):
    its = I.iterate(vs)
    if not isinstance(its, list):
        if axis == 0:
            return array(I, its)
        raise Unsupported('stack of a symbolic number of arrays')
    r = np_stack(I, [to_arr(I, x) for x in its])
    if axis == 0:
        return r
    return np_moveaxis(I, r, 0, axis)


def np_flip(I, a, axis=None):
    a = to_arr(I, a)
    n = len(a.shape)
    ax = norm_axis(I, axis, n)
    rev = SliceV(None, None, -1)
    return ops.getitem(I, a, tuple(rev if ax is None or i == ax else SliceV(None, None, None) for i in range(n)))


# ------------------------------------------------------------------ linear algebra
def content_of(v):
    return v.content()


def dot(I, a, b):
    if isinstance(a, SparseM) or isinstance(b, SparseM):
        return sparse_dot(I, a, b)
    if isinstance(b, Obj) or isinstance(a, Obj):
        raise Unsupported('dot with an object')
    a, b = to_arr(I, a), to_arr(I, b)
    if a.shape == () or b.shape == ():
        return ops.binary(I, 'Mult', a, b)
    d = ops.join(a.dtype, b.dtype)
    if d == 'b':
        raise Unsupported('boolean dot')
    n = a.shape[-1]
    m = b.shape[0] if len(b.shape) == 1 else b.shape[-2]
    if not same_dim(I, n, m):
        I.raise_('ValueError', 'shapes not aligned')
    ca, cb = a.content(), b.content()
    la = len(a.shape) - 1
    shp = a.shape[:-1] + (b.shape[:-2] + b.shape[-1:] if len(b.shape) > 1 else ())

    def f(idx):
        k = T.fresh('k')
        x = ca.at(tuple(idx[:la]) + (k,))
        r = tuple(idx[la:])
        y = cb.at((k,) if len(b.shape) == 1 else r[:-1] + (k,) + r[-1:])
        return T.Sum(k, ZERO, n, mul(lift(x), lift(y)))
    return wrap0(I, fresh_arr(shp, f, d))


def np_outer(I, a, b):
    a, b = to_arr(I, a), to_arr(I, b)
    a, b = reshape(I, a, (const(-1),)), reshape(I, b, (const(-1),))
    ca, cb = a.content(), b.content()
    return fresh_arr((a.shape[0], b.shape[0]), lambda idx: mul(lift(ca.at((idx[0],))), lift(cb.at((idx[1],)))),
                     ops.join(a.dtype, b.dtype))


def np_kron(I, a, b):
    a, b = to_arr(I, a), to_arr(I, b)
    if len(a.shape) != len(b.shape):
        raise Unsupported('kron ranks')
    ca, cb = a.content(), b.content()
    shp = tuple(mul(x, y) for x, y in zip(a.shape, b.shape))

    def f(idx):
        return mul(lift(ca.at(tuple(T.idiv(i, s) for i, s in zip(idx, b.shape)))),
                   lift(cb.at(tuple(T.imod(i, s) for i, s in zip(idx, b.shape)))))
    return fresh_arr(shp, f, ops.join(a.dtype, b.dtype))


def np_tensordot(I, a, b, axes=2):
    a, b = to_arr(I, a), to_arr(I, b)
    if not (isinstance(axes, tuple) and all(isinstance(x, int) for x in axes)):
        if isinstance(axes, int) and axes == 1:
            axes = (-1, 0)
        else:
            its = [I.iterate(x) if not isinstance(x, int) else [x] for x in I.iterate(axes)]
            if any(len(x) != 1 for x in its):
                raise Unsupported('tensordot axes')
            axes = (its[0][0], its[1][0])
    ax, bx = (norm_axis(I, x, len(y.shape)) for x, y in zip(axes, (a, b)))
    if not same_dim(I, a.shape[ax], b.shape[bx]):
        I.raise_('ValueError', 'shape-mismatch for sum')
    n = a.shape[ax]
    ca, cb = a.content(), b.content()
    sa = a.shape[:ax] + a.shape[ax + 1:]
    sb = b.shape[:bx] + b.shape[bx + 1:]

    def f(idx):
        k = T.fresh('k')
        ia, ib = tuple(idx[:len(sa)]), tuple(idx[len(sa):])
        return T.Sum(k, ZERO, n, mul(lift(ca.at(ia[:ax] + (k,) + ia[ax:])), lift(cb.at(ib[:bx] + (k,) + ib[bx:]))))
    return fresh_arr(sa + sb, f, ops.join(a.dtype, b.dtype))


def np_einsum(I, spec, *arrs):
    if not isinstance(spec, str):
        raise Unsupported('einsum')
    lhs, _, rhs = spec.replace(' ', '').partition('->')
    ins = lhs.split(',')
    arrs = [to_arr(I, a) for a in arrs]
    if '->' not in spec or len(ins) != len(arrs) or '.' in spec:
        raise Unsupported('einsum')
    dims = {}
    for s, a in zip(ins, arrs):
        if len(s) != len(a.shape):
            I.raise_('ValueError', 'einsum')
        for ch, n in zip(s, a.shape):
            if ch in dims:
                if not same_dim(I, dims[ch], n):
                    I.raise_('ValueError', 'einsum')
            else:
                dims[ch] = n
    summed = [c for c in dims if c not in rhs]
    cs = [a.content() for a in arrs]

    def f(idx):
        env = dict(zip(rhs, idx))
        for c in summed:
            env[c] = T.fresh('k')
        t = ONE
        for s, c in zip(ins, cs):
            t = mul(t, lift(c.at(tuple(env[ch] for ch in s))))
        for c in reversed(summed):
            t = T.Sum(env[c], ZERO, dims[c], t)
        return t
    d = arrs[0].dtype
    for a in arrs[1:]:
        d = ops.join(d, a.dtype)
    return wrap0(I, fresh_arr(tuple(dims[c] for c in rhs), f, d))


def np_diag(I, v, k=0):
    if k != 0:
        raise Unsupported('diag offset')
    a = to_arr(I, v)
    c = a.content()
    if len(a.shape) == 1:
        n = a.shape[0]
        return fresh_arr((n, n), lambda idx: ite(eq(idx[0], idx[1]), lift(c.at((idx[0],))), ZERO), a.dtype)
    if len(a.shape) == 2:
        n = a.shape[0]
        if not same_dim(I, a.shape[0], a.shape[1]):
            n = T.tmin(a.shape[0], a.shape[1])
        return a.view((n,), lambda idx: (idx[0], idx[0]), lambda s: (eq(s[0], s[1]), (s[0],)), False)
    I.raise_('ValueError', 'Input must be 1- or 2-d.')


def np_trace(I, v):
    return np_sum(I, np_diag(I, v))


def transpose(I, a, *axes):
    n = len(a.shape)
    if len(axes) == 1 and isinstance(axes[0], tuple):
        axes = axes[0]
    if not axes or axes == (None,):
        perm = tuple(reversed(range(n)))
    else:
        perm = tuple(int(x) % n for x in axes)
    if n <= 1:
        return a
    shp = tuple(a.shape[p] for p in perm)
    inv = [0] * n
    for i, p in enumerate(perm):
        inv[p] = i
    return a.view(shp, lambda idx: tuple(idx[inv[j]] for j in range(n)),
                  lambda s: (TRUE, tuple(s[p] for p in perm)), perm == tuple(range(n)) and a.contig)


def reshape(I, a, shape):
    shape = list(shape)
    size = size_of(a.shape)
    neg = [i for i, s in enumerate(shape) if s.is_const() and s.const() == -1]
    if len(neg) > 1:
        I.raise_('ValueError', 'can only specify one unknown dimension')
    if neg:
        rest = ONE
        for i, s in enumerate(shape):
            if i not in neg:
                rest = mul(rest, s)
        q = T.exact_div(size, rest) if rest is not ZERO else None
        if q is None or not q.isint:
            if not I.branch(lt(ZERO, rest)):
                I.raise_('ValueError', 'cannot reshape')
            q = S.simp(I.facts, T.idiv(size, rest))
            if not I.branch(eq(mul(q, rest), size)):
                I.raise_('ValueError', 'cannot reshape array')
        elif not q.is_const() or not rest.is_const():
            if not rest.is_const() and not I.branch(lt(ZERO, rest)):
                I.raise_('ValueError', 'cannot reshape array')
        shape[neg[0]] = q
    else:
        if not same_dim(I, size_of(shape), size):
            I.raise_('ValueError', 'cannot reshape array')
    shape = tuple(shape)
    src = a.shape
    if len(shape) == len(src) and all(x is y for x, y in zip(shape, src)):
        return SArr(a.store, a.shape, a.dtype, a.fwd, a.inv, a.contig)
    # strip unit dimensions when only those change
    ns = [s for s in shape if s is not ONE]
    ss = [s for s in src if s is not ONE]
    if len(ns) == len(ss) and all(x is y for x, y in zip(ns, ss)):
        pos_n = [i for i, s in enumerate(shape) if s is not ONE]
        pos_s = [i for i, s in enumerate(src) if s is not ONE]

        def fwd(idx):
            out = [ZERO] * len(src)
            for p, q in zip(pos_s, pos_n):
                out[p] = idx[q]
            return tuple(out)

        def inv(s):
            out = [ZERO] * len(shape)
            for p, q in zip(pos_s, pos_n):
                out[q] = s[p]
            return TRUE, tuple(out)
    else:
        def fwd(idx):
            return unravel(row_major(idx, shape), src)

        def inv(s):
            return TRUE, unravel(row_major(s, src), shape)
    if a.contig:
        return a.view(shape, fwd, inv, True)
    c = a.content()
    return fresh_arr(shape, lambda idx: c.at(fwd(idx)), a.dtype)


def la_toeplitz(I, c, r=None):
    a = to_arr(I, c)
    if len(a.shape) != 1:
        a = reshape(I, a, (const(-1),))
    x = a.content()
    n = a.shape[0]
    if r is None:
        return fresh_arr((n, n), lambda idx: lift(x.at((T.tabs(add(idx[0], scale(idx[1], -1))),))), a.dtype)
    b = to_arr(I, r)
    y = b.content()
    return fresh_arr((n, b.shape[0]), lambda idx: ite(le(idx[1], idx[0]),
                                                      lift(x.at((add(idx[0], scale(idx[1], -1)),))),
                                                      lift(y.at((add(idx[1], scale(idx[0], -1)),)))),
                     ops.join(a.dtype, b.dtype))


def seq_of_blocks(I, vs):
    """list of blocks or SSeq"""
    from .interp import StarSeq
    if len(vs) == 1 and isinstance(vs[0], StarSeq):
        return vs[0].seq
    return list(vs)


def la_block_diag(I, *vs):
    bl = seq_of_blocks(I, vs)
    if isinstance(bl, list):
        bl = [to_arr(I, b) for b in bl]
        bl = [reshape(I, b, (ONE, b.shape[0])) if len(b.shape) == 1 else b for b in bl]
        rs, cs = [ZERO], [ZERO]
        d = 'f'
        for b in bl:
            rs.append(add(rs[-1], b.shape[0]))
            cs.append(add(cs[-1], b.shape[1]))
        con = [b.content() for b in bl]

        def f(idx):
            r = ZERO
            for i, c in enumerate(con):
                inside = And(le(rs[i], idx[0]), lt(idx[0], rs[i + 1]), le(cs[i], idx[1]), lt(idx[1], cs[i + 1]))
                r = add(r, ite(inside, lift(c.at((add(idx[0], scale(rs[i], -1)), add(idx[1], scale(cs[i], -1))))),
                               ZERO))
            return r
        return fresh_arr((rs[-1], cs[-1]), f, d)
    k = T.fresh('k')
    base = I.facts
    I.facts = base.plus(le(ZERO, k), lt(k, bl.length))
    try:
        b = bl.elem(k)
    finally:
        I.facts = base
    ka = var_atom(k)
    R, C = prefix(b.shape[0], ka), prefix(b.shape[1], ka)
    body = b.content().body()

    def f(idx):
        v = T.fresh('k')
        t = subst(body, {ka: v, PHA[0]: add(idx[0], scale(R(v), -1)), PHA[1]: add(idx[1], scale(C(v), -1))})
        v1 = add(v, ONE)
        g = And(le(R(v), idx[0]), lt(idx[0], R(v1)), le(C(v), idx[1]), lt(idx[1], C(v1)))
        return T.Sum(v, ZERO, bl.length, ite(g, lift(t), ZERO))
    return fresh_arr((R(bl.length), C(bl.length)), f, 'f')


def prefix(body, ka):
    def S_(n):
        v = T.fresh('k')
        return T.Sum(v, ZERO, n, subst(body, {ka: v}))
    return S_


def np_concatenate(I, vs, axis=0):
    it = I.iterate(vs)
    if isinstance(it, list):
        arrs = [to_arr(I, v) for v in it]
        if not arrs:
            I.raise_('ValueError', 'need at least one array to concatenate')
        r = len(arrs[0].shape)
        ax = norm_axis(I, axis, r)
        d = arrs[0].dtype
        off = [ZERO]
        for a in arrs:
            if len(a.shape) != r:
                I.raise_('ValueError', 'all the input array dimensions must match')
            for i in range(r):
                if i != ax and not same_dim(I, a.shape[i], arrs[0].shape[i]):
                    I.raise_('ValueError', 'all the input array dimensions must match exactly')
            off.append(add(off[-1], a.shape[ax]))
            d = ops.join(d, a.dtype)
        con = [conv(a.content(), a.dtype, d) for a in arrs]
        shp = arrs[0].shape[:ax] + (off[-1],) + arrs[0].shape[ax + 1:]

        def f(idx):
            p = idx[ax]
            r_ = None
            for i in range(len(con) - 1, -1, -1):
                v = con[i].at(tuple(idx[:ax]) + (add(p, scale(off[i], -1)),) + tuple(idx[ax + 1:]))
                r_ = v if r_ is None else tite(lt(p, off[i + 1]), v, r_)
            return r_
        return fresh_arr(shp, f, d)
    if isinstance(it, SSeq):
        k = T.fresh('k')
        ka = var_atom(k)
        if not I.branch(lt(ZERO, it.length)):
            I.raise_('ValueError', 'need at least one array to concatenate')
        base = I.facts
        I.facts = base.plus(le(ZERO, k), lt(k, it.length))
        try:
            b = to_arr(I, it.elem(k))
        finally:
            I.facts = base
        ax = norm_axis(I, axis, len(b.shape))
        for i, s in enumerate(b.shape):
            if i != ax and ka.args[0] in s.fv:
                s0 = subst(s, {ka: ZERO})
                if not I.branch(T.Forall(k, ZERO, it.length, eq(s, s0))):
                    I.raise_('ValueError', 'dimensions must match')
        shp0 = tuple(subst(s, {ka: ZERO}) for s in b.shape)
        R = prefix(b.shape[ax], ka)
        body = b.content().body()
        if b.dtype == 'b':
            raise Unsupported('boolean concatenation')

        w = b.shape[ax]
        if w.is_const() and w.const() >= 1:
            # pieces of one width
            def g(idx):
                q = idx[ax] if w == ONE else T.idiv(idx[ax], w)
                m = {PHA[i]: x for i, x in enumerate(idx)}
                m[PHA[ax]] = add(idx[ax], scale(mul(q, w), -1))
                m[ka] = q
                return subst(body, m)
            return fresh_arr(shp0[:ax] + (mul(it.length, w),) + shp0[ax + 1:], g, b.dtype)

        def f(idx):
            v = T.fresh('k')
            m = {PHA[i]: x for i, x in enumerate(idx)}
            m[PHA[ax]] = add(idx[ax], scale(R(v), -1))
            m[ka] = v
            t = subst(body, m)
            return T.Sum(v, ZERO, it.length, ite(And(le(R(v), idx[ax]), lt(idx[ax], R(add(v, ONE)))), lift(t), ZERO))
        return fresh_arr(shp0[:ax] + (S.simp(I.facts, R(it.length)),) + shp0[ax + 1:], f, b.dtype)
    raise Unsupported('concatenate')


def seq_map(I, v, f):
    it = I.iterate(v)
    if isinstance(it, list):
        return LList([f(x) for x in it])
    return SSeq(it.length, lambda k: f(it.elem(k)))


def np_vstack(I, vs):
    def two(x):
        a = to_arr(I, x)
        return reshape(I, a, (ONE, a.shape[0])) if len(a.shape) == 1 else a
    return np_concatenate(I, seq_map(I, vs, two), 0)


def np_hstack(I, vs):
    it = I.iterate(vs)
    first = it[0] if isinstance(it, list) else it.elem(ZERO)
    r = len(to_arr(I, first).shape)

    def one(x):
        a = to_arr(I, x)
        return reshape(I, a, (ONE,)) if len(a.shape) == 0 else a
    return np_concatenate(I, seq_map(I, vs, one), 0 if r <= 1 else 1)


def np_column_stack(I, vs):
    def col(x):
        a = to_arr(I, x)
        return reshape(I, a, (a.shape[0], ONE)) if len(a.shape) == 1 else a
    return np_concatenate(I, seq_map(I, vs, col), 1)


def np_repeat(I, v, counts, axis=None):
    if isinstance(v, OArr):
        its = I.iterate(v)
        cs = I.iterate(counts) if not scalar(counts) else None
        if isinstance(its, list) and isinstance(cs, list) and all(isinstance(c, int) for c in cs):
            out = [x for x, c in zip(its, cs) for _ in range(c)]
            return OArr((const(len(out)),), lambda idx: pick(I, out, idx[0]))
        if isinstance(its, list) and isinstance(cs, list):
            items = []
            for x, c in zip(its, cs):
                items.append(Seg(SSeq(num(c), lambda k, x=x: x)))
            ll = LList(items)
            n = pb.length_poly(I, ll)
            return OArr((n,), lambda idx: ops.seq_at(I, ll, idx[0]))
        raise Unsupported('repeat of objects')
    a = to_arr(I, v)
    if len(a.shape) != 1:
        raise Unsupported('repeat')
    c = a.content()
    if scalar(counts):
        m = num(counts)
        return fresh_arr((mul(a.shape[0], m),), lambda idx: c.at((T.idiv(idx[0], m),)), a.dtype)
    ca = to_arr(I, counts)
    if not same_dim(I, ca.shape[0], a.shape[0]):
        I.raise_('ValueError', 'operands could not be broadcast together')
    cc = ca.content()
    n = a.shape[0]
    if n.is_const():
        offs = [ZERO]
        for i in range(int(n.const())):
            offs.append(add(offs[-1], lift(cc.at((const(i),)))))
        N = offs[-1]

        def f(idx):
            r = None
            for i in range(int(n.const()) - 1, -1, -1):
                x = c.at((const(i),))
                r = x if r is None else tite(lt(idx[0], offs[i + 1]), x, r)
            return r if r is not None else ZERO
        return fresh_arr((N,), f, a.dtype)
    k = T.fresh('k')
    ka = var_atom(k)
    R = prefix(lift(cc.at((k,))), ka)

    def f(idx):
        w = T.fresh('k')
        return T.Sum(w, ZERO, n, ite(And(le(R(w), idx[0]), lt(idx[0], R(add(w, ONE)))), lift(c.at((w,))), ZERO))
    return fresh_arr((R(n),), f, a.dtype)


def np_split(I, a, pts, axis=0):
    a = to_arr(I, a)
    n = a.shape[0]
    if scalar(pts):
        raise Unsupported('split into sections')
    it = I.iterate(pts)
    if isinstance(it, list):
        b = [ZERO] + [num(x) for x in it] + [n]
        return LList([ops.arr_getitem(I, a, SliceV(mk(b[i], 'i'), mk(b[i + 1], 'i'), None))
                      for i in range(len(b) - 1)])
    m = it.length
    v = a

    def piece(k):
        lo = ite(le(k, ZERO), ZERO, num(it.elem(add(k, const(-1)))))
        hi = ite(le(m, k), n, num(it.elem(k)))
        return ops.arr_getitem(I, v, SliceV(mk(lo, 'i'), mk(hi, 'i'), None))
    from . import loops
    return loops.map_seq(I, SSeq(add(m, ONE), lambda k: mk(k, 'i')), lambda k: piece(num(k)))


def np_roll(I, v, shift, axis=None):
    a = to_arr(I, v)
    if len(a.shape) != 1 or shift not in (1, -1):
        raise Unsupported('roll')
    c = a.content()
    n = a.shape[0]
    last = add(n, const(-1))
    if shift == 1:
        return fresh_arr(a.shape, lambda idx: tite(eq(idx[0], ZERO), c.at((last,)), c.at((add(idx[0], const(-1)),))),
                         a.dtype)
    return fresh_arr(a.shape, lambda idx: tite(eq(idx[0], last), c.at((ZERO,)), c.at((add(idx[0], ONE),))), a.dtype)


def np_append(I, a, v, axis=None):
    a, v = to_arr(I, a), to_arr(I, v)
    if axis is None:
        a = reshape(I, a, (const(-1),)) if len(a.shape) != 1 else a
        v = reshape(I, v, (const(-1),)) if len(v.shape) != 1 else v
        return np_concatenate(I, LList([a, v]))
    return np_concatenate(I, LList([a, v]), axis)


def np_linspace(I, lo, hi, num_=50, endpoint=True, retstep=False, dtype=None, axis=0, **kw):
    n = kw.pop('num', num_)
    if kw or endpoint is not True or retstep is not False or dtype not in (None, F8) or not (scalar(lo) and scalar(hi)):
        raise Unsupported('linspace options')
    a, b = num(lo), num(hi)
    m = dim(I, n)
    I.define(Or(lt(ONE, m)), 'linspace with fewer than two points')
    return fresh_arr((m,), lambda idx: add(a, mul(idx[0], T.div(add(b, scale(a, -1)), add(m, const(-1))))), 'f')


def np_ix_(I, *arrs):
    n = len(arrs)
    out = []
    for i, a in enumerate(arrs):
        a = to_arr(I, a)
        out.append(reshape(I, a, tuple(a.shape[0] if j == i else ONE for j in range(n))))
    return tuple(out)


def np_diff(I, v):
    a = to_arr(I, v)
    c = a.content()
    n = a.shape[0]
    m = add(n, const(-1)) if I.branch(le(ONE, n)) else ZERO
    return fresh_arr((m,), lambda idx: add(lift(c.at((add(idx[0], ONE),))), scale(lift(c.at((idx[0],))), -1)), a.dtype)


def np_searchsorted(I, a, v, side='left', sorter=None):
    """insertion point into an ascending array (scalar needle)"""
    a = to_arr(I, a)
    if sorter is not None or not scalar(v) or len(a.shape) != 1:
        raise Unsupported('searchsorted')
    n, c, x = a.shape[0], a.content(), num(v)
    i = T.fresh('i')
    asc = T.Forall(i, ZERO, add(n, const(-1)), le(lift(c.at((i,))), lift(c.at((add(i, ONE),)))))
    if not I.holds(asc):
        raise Unsupported('searchsorted in an array not known to be ascending')
    r = T.fresh('ins')
    I.assume(le(ZERO, r))
    I.assume(le(r, n))
    i, j = T.fresh('i'), T.fresh('i')
    lo, hi = lift(c.at((i,))), lift(c.at((j,)))
    if side == 'left':
        I.assume(T.Forall(i, ZERO, r, lt(lo, x)))
        I.assume(T.Forall(j, r, n, le(x, hi)))
    else:
        I.assume(T.Forall(i, ZERO, r, le(lo, x)))
        I.assume(T.Forall(j, r, n, lt(x, hi)))
    return mk(r, 'i')


def np_fromiter(I, v, dtype=None, count=-1):
    d = dt(I, dtype)
    it = I.iterate(v)
    if isinstance(it, list):
        return array(I, LList(it), d) if it else full(I, (ZERO,), 0, d)
    return array(I, it, d)


def np_put(I, a, ind, v):
    ops.arr_setitem(I, a, ind, v)


def np_copy(I, a, order='C'):
    return to_arr(I, a).copy()


def np_result_type(I, *arrs):
    d = 'b'
    for a in arrs:
        d = ops.join(d, to_arr(I, a).dtype)
    return BYK[d]


def la_norm(I, v, ord=None, axis=None):
    a = to_arr(I, v)
    inf = isinstance(ord, float) and math.isinf(ord)
    if len(a.shape) == 1 or axis is not None:
        if ord in (None, 2):
            sq = elementwise(I, [a], lambda t: T.power(lift(t), 2), a.dtype)
            s = to_arr(I, np_sum(I, sq, axis if axis is not None else None))
            c = s.content()
            return wrap0(I, fresh_arr(s.shape, lambda idx: T.fn('sqrt', lift(c.at(idx))), 'f'))
        ab = elementwise(I, [a], lambda t: T.tabs(lift(t)), a.dtype)
        if ord == 1:
            return np_sum(I, ab, axis)
        if inf:
            return np_extremum('max')(I, ab, axis)
    if len(a.shape) == 2 and axis is None:
        ab = elementwise(I, [a], lambda t: T.tabs(lift(t)), a.dtype)
        if ord == 1:
            return np_extremum('max')(I, np_sum(I, ab, 0))
        if inf:
            return np_extremum('max')(I, np_sum(I, ab, 1))
        if ord in (None, 'fro'):
            return la_norm(I, reshape(I, ab.copy(), (const(-1),)))
    raise Unsupported('norm')


# ------------------------------------------------------------------ fft
class Spec:
    """spectrum of (a product of) zero-padded real arrays"""

    def __init__(self, facs, shape):
        self.facs, self.full = facs, shape       # facs: list of (content, orig shape)
        self.fac = facs
        self.stamp = J.stamp()

    def mulby(self, I, o):
        if not isinstance(o, Spec):
            raise Unsupported('spectrum arithmetic')
        if len(self.full) != len(o.full):
            I.raise_('ValueError', 'operands could not be broadcast together')
        for a, b in zip(self.full[:-1], o.full[:-1]):
            if not same_dim(I, a, b):
                I.raise_('ValueError', 'operands could not be broadcast together')
        a, b = self.full[-1], o.full[-1]
        if a is not b and not I.branch(eq(a, b)):
            if I.branch(eq(T.idiv(a, const(2)), T.idiv(b, const(2)))):
                raise Unsupported('spectra of different parity')
            I.raise_('ValueError', 'operands could not be broadcast together')
        return list(self.fac) + list(o.fac)

    def pv_inplace(self, I, op, v):
        if op != 'Mult':
            raise Unsupported('spectrum arithmetic')
        Loc('spec', self).write(self.mulby(I, v))
        return self

    def pv_binary(self, I, op, a, b):
        if op != 'Mult':
            raise Unsupported('spectrum arithmetic')
        if not isinstance(a, Spec) or not isinstance(b, Spec):
            raise Unsupported('spectrum arithmetic')
        return Spec(a.mulby(I, b), a.full)

    def pv_map(self, f, tf):
        def one(fc):
            c, s = fc
            return (Content(c.rank, None, tf(c.body())), tuple(tf(x) for x in s))
        return Spec([one(x) for x in self.fac], tuple(tf(x) for x in self.full))


def rfftn(I, a, s=None, axes=None):
    a = to_arr(I, a)
    if axes is not None:
        raise Unsupported('rfftn axes')
    full_ = a.shape if s is None else shape_arg(I, s)
    if len(full_) != len(a.shape):
        raise Unsupported('rfftn with fewer axes')
    orig = []
    for n, m in zip(a.shape, full_):
        if not I.branch(le(ONE, m)):
            I.raise_('ValueError', 'Invalid number of FFT data points')
        orig.append(n if n is m or I.branch(le(n, m)) else m)
    c = a.content()
    c.body()
    return Spec([(c, tuple(orig))], tuple(full_))


def rfft(I, a, n=None, axis=-1):
    a = to_arr(I, a)
    if len(a.shape) != 1:
        raise Unsupported('rfft of a matrix')
    return rfftn(I, a, None if n is None else (n,))


def irfftn(I, sp, s=None, axes=None):
    if not isinstance(sp, Spec):
        raise Unsupported('irfft of a non-spectrum')
    M = sp.full
    if s is not None:
        for x, y in zip(shape_arg(I, s), M):
            if not I.branch(eq(x, y)):
                raise Unsupported('irfft with another length')
    else:
        h = T.idiv(M[-1], const(2))
        if not I.branch(eq(scale(h, 2), M[-1])):
            raise Unsupported('irfft of odd length')
    fs = sp.fac
    if len(fs) == 1:
        c, o = fs[0]
        return fresh_arr(M, lambda idx: pad_at(c, o, M, idx), 'f')
    if len(fs) != 2:
        raise Unsupported('product of more than two spectra')
    (c1, o1), (c2, o2) = fs
    # the shorter operand is summed over
    if all(x is y for x, y in zip(o1, M)):
        (c1, o1), (c2, o2) = (c2, o2), (c1, o1)

    def f(idx):
        js = [T.fresh('k') for _ in M]
        back = [ite(le(j, i), add(i, scale(j, -1)), add(i, scale(j, -1), m)) for i, j, m in zip(idx, js, M)]
        t = mul(lift(c1.at(tuple(js))), pad_at(c2, o2, M, tuple(back)))
        for j, n in reversed(list(zip(js, o1))):
            t = T.Sum(j, ZERO, n, t)
        return t
    return fresh_arr(M, f, 'f')


def pad_at(c, o, M, idx):
    g = And(*[lt(i, n) for i, n, m in zip(idx, o, M) if n is not m])
    return ite(g, lift(c.at(tuple(idx))), ZERO)


def irfft(I, sp, n=None, axis=-1):
    return irfftn(I, sp, None if n is None else (n,))


# powers of two: pow2bl(e) = 2**bitlen(e)
def _ax_pow2(a):
    e = a.args[1]
    h = T.app('pow2h', (e,), 'i')
    p = T.of_atom(a)
    return [Or(le(e, ZERO), And(eq(p, scale(h, 2)), le(h, e), lt(e, p), le(ONE, h))),
            Or(Not(eq(e, ZERO)), eq(p, ONE))]


S.AXIOMS['pow2bl'] = _ax_pow2
S.AXIOMS['bitlen'] = lambda a: [le(ZERO, T.of_atom(a))]


# ------------------------------------------------------------------ sparse
class SparseM:
    """scipy.sparse matrix; dense(i, j) term"""

    def __init__(self, shape, dense, csr=None):
        self.shape, self.dense, self.csr = tuple(shape), dense, csr

    def pv_map(self, f, tf):
        b = self.dense((PH[0], PH[1]))
        nb = tf(b)
        r = SparseM(tuple(tf(s) for s in self.shape),
                    lambda idx: subst(nb, {PHA[0]: idx[0], PHA[1]: idx[1]}),
                    tuple(f(x) for x in self.csr) if self.csr else None)
        return r

    def pv_binary(self, I, op, a, b):
        if op == 'MatMult':
            return sparse_dot(I, a, b)
        if op in ('Add', 'Sub') and isinstance(a, SparseM) and isinstance(b, SparseM):
            for x, y in zip(a.shape, b.shape):
                if not same_dim(I, x, y):
                    I.raise_('ValueError', 'inconsistent shapes')
            da, db = a.dense, b.dense
            s = 1 if op == 'Add' else -1
            return SparseM(a.shape, lambda idx: add(da(idx), scale(db(idx), s)))
        if op == 'Mult':
            m, o = (a, b) if isinstance(a, SparseM) else (b, a)
            if scalar(o):
                p = num(o)
                d = m.dense
                return SparseM(m.shape, lambda idx: mul(p, d(idx)))
            return sparse_dot(I, a, b)
        raise Unsupported('sparse operator')

    def pv_getattr(self, I, name):
        if name == 'shape':
            return tuple(mk(s, 'i') for s in self.shape)
        if name == 'ndim':
            return 2
        if name in ('T',):
            return self.tr()
        if name == 'transpose':
            return Native(name, lambda I2, *a, **k: self.tr())
        if name in ('tocsr', 'tocsc', 'copy', 'tocoo', 'asformat'):
            return Native(name, lambda I2, *a, **k: self)
        if name in ('toarray', 'todense', 'A'):
            f = lambda I2, *a, **k: fresh_arr(self.shape, lambda idx: self.dense(idx), 'f')
            return f(I) if name == 'A' else Native(name, f)
        if name == 'dot':
            return Native(name, lambda I2, x: sparse_dot(I2, self, x))
        if name in ('data', 'indices', 'indptr', 'nnz') and self.csr:
            data, ind, ptr = self.csr
            if name == 'nnz':
                return mk(lift(ptr.at((add(ptr.shape[0], const(-1)),))), 'i')
            return {'data': data, 'indices': ind, 'indptr': ptr}[name]
        if name in ('data', 'indices', 'indptr', 'nnz'):
            self.csr = as_csr(I, self)
            return self.pv_getattr(I, name)
        return UNBOUND

    def tr(self):
        d = self.dense
        return SparseM((self.shape[1], self.shape[0]), lambda idx: d((idx[1], idx[0])))


def as_csr(I, m):
    raise Unsupported('CSR arrays of a computed sparse matrix')


def sparse_dot(I, a, b):
    if isinstance(a, SparseM):
        da, sa, ra = a.dense, a.shape, 2
    else:
        x = to_arr(I, a)
        c = x.content()
        da, sa, ra = (lambda idx: lift(c.at(tuple(idx)))), x.shape, len(x.shape)
    if isinstance(b, SparseM):
        db, sb, rb = b.dense, b.shape, 2
    else:
        y = to_arr(I, b)
        c2 = y.content()
        db, sb, rb = (lambda idx: lift(c2.at(tuple(idx)))), y.shape, len(y.shape)
    if not same_dim(I, sa[-1], sb[0]):
        I.raise_('ValueError', 'dimension mismatch')
    n = sb[0]

    def f(idx):
        k = T.fresh('k')
        i = tuple(idx[:ra - 1])
        j = tuple(idx[ra - 1:])
        return T.Sum(k, ZERO, n, mul(da(i + (k,)), db((k,) + j)))
    if isinstance(a, SparseM) and isinstance(b, SparseM):
        return SparseM((sa[0], sb[1]), f)
    return wrap0(I, fresh_arr(sa[:-1] + sb[1:], f, 'f'))


def csr_matrix(I, arg, shape=None, dtype=None, copy=False):
    if isinstance(arg, SparseM):
        return arg
    if isinstance(arg, SArr):
        c = arg.content()
        return SparseM(arg.shape, lambda idx: lift(c.at(tuple(idx))))
    if isinstance(arg, tuple) and len(arg) == 2 and all(scalar(x) for x in arg):
        shp = shape_arg(I, arg)
        z = SparseM(shp, lambda idx: ZERO)
        z.csr = (full(I, (ZERO,), 0, 'f'), full(I, (ZERO,), 0, 'i'), full(I, (add(shp[0], ONE),), 0, 'i'))
        return z
    if isinstance(arg, tuple) and len(arg) == 3:
        data, ind, ptr = (to_arr(I, x) for x in arg)
        if ind.dtype == 'f':
            ind = ind.copy('i')
        else:
            ind = ind.copy()
        data = data.copy()
        ptr = ptr.copy('i') if ptr.dtype == 'f' else ptr.copy()
        shp = shape_arg(I, shape)
        if not same_dim(I, ptr.shape[0], add(shp[0], ONE)):
            I.raise_('ValueError', 'index pointer size')
        cd, ci, cp = data.content(), ind.content(), ptr.content()
        g = T.fresh('g')
        if S.valid(I.facts.plus(le(ZERO, g), le(g, shp[0])), eq(lift(cp.at((g,))), g)):
            ci_ = lift(ci.at((g,)))
            I.define(T.Forall(g, ZERO, shp[0], And(le(ZERO, ci_), lt(ci_, shp[1]))), 'column index out of range')
            return SparseM(shp, lambda idx: ite(eq(lift(ci.at((idx[0],))), idx[1]), lift(cd.at((idx[0],))), ZERO),
                           (data, ind, ptr))

        def f(idx):
            p = T.fresh('k')
            return T.Sum(p, lift(cp.at((idx[0],))), lift(cp.at((add(idx[0], ONE),))),
                         ite(eq(lift(ci.at((p,))), idx[1]), lift(cd.at((p,))), ZERO))
        return SparseM(shp, f, (data, ind, ptr))
    raise Unsupported('csr_matrix')


def sp_vstack(I, ms, format=None, dtype=None):
    it = I.iterate(ms)
    if not isinstance(it, list):
        raise Unsupported('vstack of a symbolic number of sparse matrices')
    off = [ZERO]
    for m in it:
        if not same_dim(I, m.shape[1], it[0].shape[1]):
            I.raise_('ValueError', 'incompatible dimensions')
        off.append(add(off[-1], m.shape[0]))
    ds = [m.dense for m in it]

    def f(idx):
        r = None
        for i in range(len(ds) - 1, -1, -1):
            v = ds[i]((add(idx[0], scale(off[i], -1)), idx[1]))
            r = v if r is None else ite(lt(idx[0], off[i + 1]), v, r)
        return r
    return SparseM((off[-1], it[0].shape[1]), f)


def sp_block_diag(I, ms, format=None, dtype=None):
    it = I.iterate(ms)
    if not isinstance(it, list):
        raise Unsupported('sparse block_diag')
    a = la_block_diag(I, *[fresh_arr(m.shape, lambda idx, m=m: m.dense(idx), 'f') for m in it])
    return SparseM(a.shape, lambda idx: a.at(tuple(idx)))


class LinOp:
    """scipy LinearOperator: forwards to the given callables"""

    def __init__(self, I, shape, matvec, matmat=None, dtype=None):
        self.shape, self.mv, self.mm = shape, matvec, matmat

    def pv_getattr(self, I, name):
        if name == 'shape':
            return self.shape
        if name == 'dtype':
            return F8
        if name == 'matvec':
            return Native('matvec', lambda I2, x: I2.call(self.mv, [x], {}))
        if name == 'matmat' and self.mm is not None:
            return Native('matmat', lambda I2, x: I2.call(self.mm, [x], {}))
        if name == 'dot':
            return Native('dot', lambda I2, x: I2.call(self.mv if len(x.shape) == 1 else self.mm, [x], {}))
        return UNBOUND

    def pv_map(self, f, tf):
        o = LinOp(None, f(self.shape), f(self.mv), f(self.mm))
        return o


# ------------------------------------------------------------------ array attributes
def arr_attr(I, a, name):
    if isinstance(a, MaskSel):
        if name in ('min', 'max', 'sum', 'size', 'shape'):
            raise Unsupported('method of a masked selection')
        return UNBOUND
    if name == 'shape':
        return tuple(mk(s, 'i') for s in a.shape)
    if name == 'ndim':
        return len(a.shape)
    if name == 'size':
        return mk(size_of(a.shape), 'i')
    if name == 'dtype':
        return BYK['O' if isinstance(a, OArr) else a.dtype]
    if name == 'flags' or name == 'base' or name == 'strides':
        raise Unsupported(name)
    if isinstance(a, OArr):
        if name == 'T' and len(a.shape) == 2:
            return OArr((a.shape[1], a.shape[0]), lambda idx: a.get((idx[1], idx[0])))
        if name == 'tolist':
            return Native(name, lambda I2: LList(I2.as_items(a)))
        return UNBOUND
    if name == 'T':
        return transpose(I, a)
    f = ARR.get(name)
    if f is None:
        return UNBOUND
    return Native('ndarray.' + name, lambda I2, *x, **k: f(I2, a, *x, **k))


def a_reshape(I, a, *shape, order='C'):
    if order != 'C':
        raise Unsupported('reshape order')
    s = shape[0] if len(shape) == 1 else shape
    if isinstance(s, (int, Sc)):
        ps = (lift(ops.as_int(I, s)),)
    else:
        its = I.iterate(s)
        if not isinstance(its, list):
            raise Unsupported('reshape to symbolic rank')
        ps = tuple(lift(ops.as_int(I, x)) for x in its)
    return reshape(I, a, ps)


def a_astype(I, a, dtype, casting='unsafe', copy=True, order='K'):
    d = dt(I, dtype)
    if casting == 'safe' and 'bif'.index(a.dtype) > 'bif'.index(d):
        I.raise_('TypeError', 'Cannot cast array safely')
    if not copy and d == a.dtype:
        return a
    return a.copy(d)


def a_fill(I, a, v):
    ops.assign_view(I, a, v)


def a_dot(I, a, b):
    return dot(I, a, b)


def a_ravel(I, a, order='C'):
    if order != 'C':
        raise Unsupported('ravel order')
    return reshape(I, a, (const(-1),))


def a_flatten(I, a, order='C'):
    if order != 'C':
        raise Unsupported('flatten order')
    return reshape(I, a, (const(-1),)).copy()


ARR = dict(reshape=a_reshape, astype=a_astype, fill=a_fill, dot=a_dot, ravel=a_ravel, flatten=a_flatten,
           copy=lambda I, a, order='C': a.copy(), sum=red(np_sum), mean=red(np_mean), std=red(np_std), var=red(np_var),
           max=red(np_extremum('max')), min=red(np_extremum('min')), all=red(np_all), any=red(np_any), prod=red(np_prod),
           cumsum=uf(np_accumulate), clip=uf(np_clip), ptp=red(np_ptp), swapaxes=np_swapaxes, transpose=transpose, tolist=lambda I, a: LList(I.as_items(a)),
           view=lambda I, a: a, squeeze=lambda I, a: reshape(I, a, tuple(s for s in a.shape if s is not ONE)),
           repeat=np_repeat, item=lambda I, a, *x: mk(a.as_scalar(), a.dtype),
           diagonal=lambda I, a: np_diag(I, a), trace=np_trace, argmax=np_argmax,
           conj=lambda I, a: a)


def np_random_randint(I, lo, hi=None, size=None, dtype=None):
    if hi is None:
        lo, hi = 0, lo
    s = shape_arg(I, size) if size is not None else ()
    nm = T.fresh_name('rnd')
    l, h = num(lo), num(hi)
    a = fresh_arr(s, lambda idx: T.app(nm, idx, 'i'), 'i')
    vs = [T.fresh('g') for _ in s]
    t = T.app(nm, vs, 'i')
    f = And(le(l, t), lt(t, h))
    for v, n in reversed(list(zip(vs, s))):
        f = T.Forall(v, ZERO, n, f)
    I.assume(f)
    return wrap0(I, a)


def np_random_real(I, *size, **k):
    s = size[0] if len(size) == 1 and isinstance(size[0], tuple) else k.get('size', size)
    if s is None:
        s = ()
    s = shape_arg(I, s)
    nm = T.fresh_name('rnd')
    return wrap0(I, fresh_arr(s, lambda idx: T.app(nm, idx, 'r'), 'f'))


def np_nditer(I, a, order='K'):
    if order != 'C':
        raise Unsupported('iteration in memory order')
    return a_ravel(I, to_arr(I, a))


def ufunc(name, f, op=None):
    class U:
        def pv_call(self, I, *a, **k):
            return uf(f)(I, *a, **k)

        def pv_getattr(self, I, n):
            if n == 'accumulate' and name == 'add':
                return Native('accumulate', uf(np_accumulate))
            if n == 'reduce' and name == 'add':
                return Native('reduce', lambda I2, v, axis=0: np_sum(I2, v, axis))
            if n == 'reduce' and name == 'multiply':
                return Native('reduce', lambda I2, v, axis=0: np_prod(I2, v, axis))
            if n == 'outer' and name == 'multiply':
                return Native('outer', np_outer)
            if n == 'outer' and op:
                return Native('outer', lambda I2, x, y: ops.binary(
                    I2, op, a_reshape(I2, to_arr(I2, x), -1, 1), a_reshape(I2, to_arr(I2, y), 1, -1)))
            return UNBOUND
    return U()


def nat(d):
    return {k: Native('np.' + k, v) for k, v in d.items()}


def numpy_module(I):
    m = Mod('numpy')
    v = m.vars
    v['__name__'] = 'numpy'
    pos = lambda t: lt(ZERO, t)
    nn = lambda t: le(ZERO, t)
    v.update(nat(dict(
        empty=np_empty, zeros=np_zeros, ones=np_ones, full=np_full, zeros_like=like(0), ones_like=like(1),
        empty_like=like(None), full_like=np_full_like, identity=np_identity, eye=lambda I, n, M=None, **k: np_identity(I, n, M=M),
        arange=np_arange, array=np_array, asarray=np_asarray, ascontiguousarray=np_asarray, copy=np_copy,
        exp=uf(ufn('exp')), log=uf(ufn('log', pos)), sqrt=uf(ufn('sqrt', nn)), sin=uf(ufn('sin')), cos=uf(ufn('cos')),
        log10=uf(lambda I, x: ops.binary(I, 'Div', uf(ufn('log', pos))(I, x), ufn('log')(I, 10))),
        log2=uf(lambda I, x: ops.binary(I, 'Div', uf(ufn('log', pos))(I, x), ufn('log')(I, 2))),
        log1p=uf(lambda I, x: uf(ufn('log', pos))(I, ops.binary(I, 'Add', x, 1.0))),
        expm1=uf(lambda I, x: ops.binary(I, 'Sub', uf(ufn('exp'))(I, x), 1.0)),
        hypot=uf(lambda I, x, y: uf(ufn('sqrt', nn))(I, ops.binary(I, 'Add', ops.binary(I, 'Mult', x, x),
                                                                   ops.binary(I, 'Mult', y, y)))),
        abs=uf(np_abs), absolute=uf(np_abs), fabs=uf(np_fabs), square=uf(np_square), floor=uf(np_floor), ceil=uf(np_ceil),
        sign=uf(np_sign), minimum=uf(binfn(T.tmin)), maximum=uf(binfn(T.tmax)), where=np_where, isnan=np_isnan,
        reciprocal=uf(lambda I, x: ops.binary(I, 'Div', 1.0, x)), clip=uf(np_clip), ptp=red(np_ptp), block=np_block,
        tile=np_tile, expand_dims=np_expand_dims, atleast_2d=np_atleast_2d, squeeze=lambda I, a: reshape(
            I, to_arr(I, a), tuple(s for s in to_arr(I, a).shape if s is not ONE)),
        broadcast_to=np_broadcast_to, swapaxes=np_swapaxes, moveaxis=np_moveaxis, count_nonzero=np_count_nonzero,
        logical_and=uf(ops_bool(And)), logical_or=uf(ops_bool(Or)), logical_not=uf(np_logical_not),
        equal=uf(cmpop('Eq')), not_equal=uf(cmpop('NotEq')), less=uf(cmpop('Lt')), less_equal=uf(cmpop('LtE')),
        greater=uf(cmpop('Gt')), greater_equal=uf(cmpop('GtE')), array_equal=np_array_equal, average=np_average,
        dot=uf(dot), matmul=uf(np_matmul), outer=np_outer, kron=np_kron, tensordot=np_tensordot, einsum=np_einsum, diag=np_diag,
        vdot=np_vdot, inner=np_vdot, trace=np_trace, diagonal=np_diag,
        sum=red(np_sum), mean=red(np_mean), std=red(np_std), var=red(np_var), max=red(np_extremum('max')),
        min=red(np_extremum('min')), amax=red(np_extremum('max')), amin=red(np_extremum('min')), all=red(np_all),
        any=red(np_any), prod=red(np_prod), cumsum=uf(np_accumulate),
        concatenate=np_concatenate, vstack=np_vstack, hstack=np_hstack, column_stack=np_column_stack,
        stack=np_stack_,
        repeat=np_repeat, split=np_split, roll=np_roll, append=np_append, linspace=np_linspace, ix_=np_ix_,
        diff=np_diff, fromiter=np_fromiter, put=np_put, result_type=np_result_type,
        reshape=lambda I, a, s: a_reshape(I, to_arr(I, a), s), ravel=lambda I, a: a_ravel(I, to_arr(I, a)),
        transpose=lambda I, a, *x: transpose(I, to_arr(I, a), *x), atleast_1d=lambda I, a: to_arr(I, a),
        shape=lambda I, a: tuple(mk(s, 'i') for s in to_arr(I, a).shape), ndim=lambda I, a: len(to_arr(I, a).shape),
        size=lambda I, a: mk(size_of(to_arr(I, a).shape), 'i'),
        isfinite=lambda I, x: np_where(I, np_isnan(I, x), False, True),
        divide=uf(binop('Div')), true_divide=uf(binop('Div')), power=uf(binop('Pow')),
        floor_divide=uf(binop('FloorDiv')), mod=uf(binop('Mod')), remainder=uf(binop('Mod')),
        negative=uf(lambda I, x: ops.unary(I, 'USub', x)),
        array2string=lambda I, *a, **k: Opaque('str'), set_printoptions=lambda I, *a, **k: None,
        seterr=lambda I, *a, **k: None, isscalar=lambda I, x: scalar(x),
        flip=np_flip, flipud=lambda I, a: np_flip(I, a, 0), fliplr=lambda I, a: np_flip(I, a, 1),
        searchsorted=np_searchsorted,
        nditer=np_nditer,
    )))
    v['add'] = ufunc('add', binop('Add'), 'Add')
    v['multiply'] = ufunc('multiply', binop('Mult'), 'Mult')
    v['subtract'] = ufunc('subtract', binop('Sub'), 'Sub')
    for n in ('float64', 'float', 'double', 'float_'):
        v[n] = F8
    v['float32'] = v['single'] = LOSSY[0]
    v['float16'] = v['half'] = LOSSY[1]
    v['int8'], v['int16'] = LOSSY[2:]
    for n in ('int64', 'int32', 'int', 'intp', 'int_'):
        v[n] = I8
    v['bool_'] = v['bool'] = B1
    v['object_'] = v['object'] = OB
    v['ndarray'] = NativeCls('ndarray', None, (OBJECT,))
    v['inf'], v['nan'], v['pi'] = math.inf, math.nan, Sc(T.PI, 'f')
    v['newaxis'] = None
    eps = Mod('finfo')
    v['finfo'] = Native('finfo', lambda I, *a: eps)
    eps.vars['eps'] = Sc(T.app('eps', (), 'r'), 'f')
    S.AXIOMS['eps'] = lambda a: [lt(ZERO, T.of_atom(a)), lt(T.of_atom(a), const(Fraction(1, 10 ** 15)))]
    r = Mod('numpy.random')
    r.vars.update(nat(dict(randint=np_random_randint, rand=np_random_real, randn=np_random_real,
                           normal=np_random_real, uniform=np_random_real, seed=lambda I, *a: None)))
    v['random'] = r
    f = Mod('numpy.fft')
    f.vars.update(nat(dict(rfft=rfft, irfft=irfft, rfftn=rfftn, irfftn=irfftn)))
    v['fft'] = f
    v['linalg'] = I.module('scipy.linalg')
    ma = Mod('numpy.ma')
    ma.vars['masked_invalid'] = Native('masked_invalid', lambda I, a, copy=True: a)
    v['ma'] = ma
    t = Mod('numpy.testing')
    v['testing'] = t
    return m


# ------------------------------------------------------------------ solving contracts
SOLVES = []     # (K content body, rank, rhs body) -> name


class Chol:
    """cho_factor(K): carries the factored matrix"""

    def __init__(self, K):
        self.K = K


class CholArr(SArr):
    pass


def cho_factor(I, a, lower=False, overwrite_a=False, check_finite=True):
    a = to_arr(I, a)
    if len(a.shape) != 2:
        I.raise_('ValueError', 'expected square matrix')
    if not same_dim(I, a.shape[0], a.shape[1]):
        I.raise_('ValueError', 'expected square matrix')
    s = a.shape
    K = a.copy()
    nm = 'chol:' + solve_name(I, K, K)
    d = T.fresh('q')
    I.assume(T.Forall(d, ZERO, s[0], lt(ZERO, T.app(nm, (d, d), 'r'))))
    r = fresh_arr(s, lambda idx: T.app(nm, idx, 'r'), 'f')
    r.factored = K
    return (r, lower)


def is_identity(I, b, bb):
    if len(b.shape) != 2:
        return False
    ctx = I.facts
    for p, s in zip(PH, b.shape):
        ctx = ctx.plus(le(ZERO, p), lt(p, s))
    try:
        return S.prove_eq(ctx, bb, T.ite(eq(PH[0], PH[1]), ONE, ZERO))
    except S.TooHard:
        return False


def solve_name(I, K, b):
    """name of the uninterpreted solution of K X = b (congruent: equal K and b give equal X)"""
    kb, bb = K.content().body(), lift(b.content().body())
    for nm, k2, sh2, b2, bs2 in SOLVES:
        if len(bs2) != len(b.shape) or not (sh2[0] is K.shape[0] or I.holds(eq(sh2[0], K.shape[0]))):
            continue
        if k2 is kb and b2 is bb:
            return nm
    for nm, k2, sh2, b2, bs2 in SOLVES:
        if len(bs2) != len(b.shape) or not (sh2[0] is K.shape[0] or I.holds(eq(sh2[0], K.shape[0]))):
            continue
        ctx = I.facts
        for p, s in zip(PH, K.shape):
            ctx = ctx.plus(le(ZERO, p), lt(p, s))
        try:
            if k2 is not kb and not S.prove_eq(ctx, lift(k2), lift(kb)):
                continue
            ctx = I.facts
            for p, s in zip(PH, b.shape):
                ctx = ctx.plus(le(ZERO, p), lt(p, s))
            if b2 is not bb and not S.prove_eq(ctx, b2, bb):
                continue
        except S.TooHard:
            continue
        return nm
    nm = ('inv@%d' if is_identity(I, b, bb) else 'solve@%d') % len(SOLVES)
    SOLVES.append((nm, kb, K.shape, bb, b.shape))
    return nm


def cho_solve(I, c_and_lower, b, overwrite_b=False, check_finite=True):
    c = c_and_lower[0]
    K = getattr(c, 'factored', None)
    if K is None:
        raise Unsupported('cho_solve with an unknown factor')
    b = to_arr(I, b)
    if not same_dim(I, b.shape[0], K.shape[0]):
        I.raise_('ValueError', 'incompatible dimensions')
    nm = solve_name(I, K, b)
    if overwrite_b and b.store is not None and b.dtype == 'f':
        junk = T.fresh_name('junk')
        b.write(lambda idx: T.app(junk, idx, 'r'))
    return fresh_arr(b.shape, lambda idx: T.app(nm, idx, 'r'), 'f')


def cdist(I, X, Z, metric='euclidean'):
    if metric != 'euclidean':
        raise Unsupported('cdist metric')
    X, Z = to_arr(I, X), to_arr(I, Z)
    if len(X.shape) != 2 or len(Z.shape) != 2:
        I.raise_('ValueError', 'XA must be a 2-dimensional array.')
    if not same_dim(I, X.shape[1], Z.shape[1]):
        I.raise_('ValueError', 'XA and XB must have the same number of columns')
    a, b = X.content(), Z.content()
    P = X.shape[1]

    def f(idx):
        k = T.fresh('k')
        d = lambda j: T.power(add(lift(a.at((idx[0], j))), scale(lift(b.at((idx[1], j))), -1)), 2)
        if P is ONE:
            return T.tabs(add(lift(a.at((idx[0], ZERO))), scale(lift(b.at((idx[1], ZERO))), -1)))
        return T.fn('sqrt', T.Sum(k, ZERO, P, d(k)))
    return fresh_arr((X.shape[0], Z.shape[0]), f, 'f')


def scipy_modules(I):
    pass


def mod(name, d, raw=None):
    def make(I):
        m = Mod(name)
        m.vars['__name__'] = name
        m.vars.update(nat(d))
        for k, v in (raw or {}).items():
            m.vars[k] = v(I) if callable(v) and not isinstance(v, (Native, Cls)) else v
        return m
    return make


def norm_ppf(I, q, *a):
    x = to_arr(I, q)
    return wrap0(I, elementwise(I, [x], lambda t: T.app('ppf', (lift(t),), 'r'), 'f'))


def lin_op(I, shape=None, matvec=None, matmat=None, dtype=None, **k):
    return LinOp(I, shape, matvec, matmat, dtype)


def scipy_stats(I):
    m = Mod('scipy.stats')
    n = Mod('norm')
    n.vars['ppf'] = Native('ppf', norm_ppf)
    m.vars['norm'] = n

    def truncnorm(I2, a, b):
        o = Mod('frozen')
        o.vars['rvs'] = Native('rvs', lambda I3, size=(): np_random_real(I3, size=size))
        return o
    m.vars['truncnorm'] = Native('truncnorm', truncnorm)
    return m


def gammaln(I, x):
    if scalar(x):
        return mk(T.app('gammaln', (num(x),), 'r'), 'f')
    return wrap0(I, elementwise(I, [to_arr(I, x)], lambda t: T.app('gammaln', (lift(t),), 'r'), 'f'))


def logging_module(I):
    m = Mod('logging')
    lg = Mod('logger')
    for n in ('debug', 'info', 'warning', 'critical', 'error', 'exception', 'warn'):
        def f(I2, *a, n=n, **k):
            I2.events.append(('log', n) + tuple(a[:1]))
        lg.vars[n] = Native(n, f)
    lg.vars['isEnabledFor'] = Native('isEnabledFor', lambda I2, x: False)
    m.vars['getLogger'] = Native('getLogger', lambda I2, *a: lg)
    for n, k in (('DEBUG', 10), ('INFO', 20), ('WARNING', 30), ('CRITICAL', 50)):
        m.vars[n] = k
    return m


class Cached:
    """functools.lru_cache(maxsize=...) on a method: per-receiver memo with cache_clear"""

    def __init__(self, fn):
        self.fn = fn
        self.cache = LDict()

    def pv_setcls(self, c):
        if isinstance(self.fn, Fn):
            self.fn.cls = c

    def pv_bind(self, I, obj):
        return CachedBound(self, obj)

    def pv_call(self, I, *a, **k):
        key = tuple(pb.ObjKey(x) if isinstance(x, Obj) else pb.hkey(I, x) for x in a)
        if key in self.cache.d:
            return self.cache.d[key]
        v = I.call(self.fn, list(a), k)
        Loc('dict', self.cache).write({key: v})
        return v

    def pv_getattr(self, I, name):
        if name == 'cache_clear':
            return Native(name, lambda I2: Loc('dict', self.cache).write({}))
        if name == '__doc__':
            return None
        return UNBOUND

    def pv_setattr(self, I, name, v):
        pass


class CachedBound:
    def __init__(self, c, obj):
        self.c, self.obj = c, obj

    def pv_call(self, I, *a, **k):
        return self.c.pv_call(I, self.obj, *a, **k)

    def pv_getattr(self, I, name):
        return self.c.pv_getattr(I, name)


def lru_cache(I, maxsize=128, typed=False):
    if isinstance(maxsize, Fn):
        return Cached(maxsize)
    return Native('lru_cache', lambda I2, f: Cached(f))


def it_accumulate(I, v, *a):
    it = I.iterate(v)
    if isinstance(it, list):
        out = []
        for x in it:
            out.append(x if not out else ops.binary(I, 'Add', out[-1], x))
        return LList(out)
    return np_accumulate(I, array(I, it))


def it_product(I, *vs, repeat=1):
    its = [I.iterate(v) for v in vs] * repeat
    if all(isinstance(x, list) for x in its):
        import itertools
        return LList(list(itertools.product(*its)))
    return PSeq(its)


def it_chain(I, *vs):
    out = []
    for v in vs:
        out += I.as_items(v)
    return LList(out)


def modules():
    """name -> factory of modelled modules"""
    lin = dict(toeplitz=la_toeplitz, block_diag=la_block_diag, norm=la_norm, cho_factor=cho_factor,
               cho_solve=cho_solve)
    return {
        'numpy': numpy_module,
        'numpy.fft': lambda I: I.module('numpy').vars['fft'],
        'numpy.random': lambda I: I.module('numpy').vars['random'],
        'numpy.linalg': lambda I: I.module('scipy.linalg'),
        'scipy': mod('scipy', {}),
        'scipy.linalg': mod('scipy.linalg', lin),
        'scipy.sparse': mod('scipy.sparse', dict(csr_matrix=csr_matrix, vstack=sp_vstack, block_diag=sp_block_diag,
                                                 csc_matrix=csr_matrix)),
        'scipy.sparse.linalg': mod('scipy.sparse.linalg', dict(LinearOperator=lin_op)),
        'scipy.spatial': mod('scipy.spatial', {}),
        'scipy.spatial.distance': mod('scipy.spatial.distance', dict(cdist=cdist)),
        'scipy.stats': scipy_stats,
        'scipy.special': mod('scipy.special', dict(gammaln=gammaln)),
        'scipy.fft': lambda I: I.module('numpy').vars['fft'],
        'scipy.fftpack': mod('scipy.fftpack', {}),
        'logging': logging_module,
        'functools': mod('functools', dict(lru_cache=lru_cache,
                                           partial=lambda I, f, *a, **k: Partial(f, list(a), k),
                                           wraps=lambda I, f: Native('wraps', lambda I2, g: g),
                                           reduce=lambda I, f, v, *i: _reduce(I, f, v, *i))),
        'itertools': mod('itertools', dict(accumulate=it_accumulate, product=it_product, chain=it_chain,
                                           repeat=lambda I, x, n: LList([x] * n) if isinstance(n, int) else SSeq(
                                               num(n), lambda k: x),
                                           starmap=lambda I, f, ls: pb.b_map(
                                               I, Native('star', lambda I2, a: I2.call(f, I2.iterate(a), {})), ls))),
        'operator': mod('operator', dict(add=binop('Add'), mul=binop('Mult'), sub=binop('Sub'), matmul=binop('MatMult'),
                                         itemgetter=lambda I, k: Native('itemgetter', lambda I2, o: ops.getitem(I2, o, k)))),
        'math': mod('math', dict(sqrt=ufn('sqrt'), exp=ufn('exp'), log=ufn('log'), floor=lambda I, x: mk(
            T.fn('floor', num(x)), 'i'), sin=ufn('sin'), cos=ufn('cos')), dict(pi=lambda I: Sc(T.PI, 'f'), inf=math.inf)),
        'os': mod('os', {}, dict(environ=lambda I: LDict({'OMP_NUM_THREADS': '1'}))),
        'sys': mod('sys', {}),
        'warnings': mod('warnings', dict(warn=lambda I, *a, **k: None, simplefilter=lambda I, *a, **k: None)),
        'time': mod('time', {}),
        'copy': mod('copy', dict(copy=lambda I, x: x)),
        'multiprocessing': mod('multiprocessing', dict(cpu_count=lambda I: mk(T.fresh('cpus'), 'i'),
                                                       Pool=lambda I, *a, **k: Opaque('pool'))),
        'climin': mod('climin', {}),
        'collections': mod('collections', dict(OrderedDict=pb.b_dict)),
        'types': mod('types', {}, dict(FunctionType=NativeCls('function'))),
        'abc': mod('abc', {}),
        'typing': mod('typing', {}),
        'contextlib': mod('contextlib', {}),
        'GPy': mod('GPy', {}),
    }


def _reduce(I, f, v, *init):
    it = I.iterate(v)
    if not isinstance(it, list):
        raise Unsupported('reduce over a symbolic sequence')
    its = list(init) + it
    r = its[0]
    for x in its[1:]:
        r = I.call(f, [r, x], {})
    return r
