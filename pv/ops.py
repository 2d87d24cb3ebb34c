"""Operators: arithmetic, comparison, subscripting."""
from fractions import Fraction
from . import terms as T
from .terms import (Poly, B, ZERO, ONE, TRUE, FALSE, And, Or, Not, eq, le, lt, ite, var, const, lift, add, mul,
                    scale, subst, var_atom)
from .values import *
from .arrays import (SArr, OArr, MaskSel, Content, Store, fresh_arr, tite, conv_term, row_major, unravel, size_of)


class SliceV:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step

    def pv_map(self, f, tf):
        return SliceV(f(self.lo), f(self.hi), f(self.step))


SYM = {'Add': '__add__', 'Sub': '__sub__', 'Mult': '__mul__', 'Div': '__truediv__', 'FloorDiv': '__floordiv__',
       'Mod': '__mod__', 'Pow': '__pow__', 'MatMult': '__matmul__', 'BitAnd': '__and__', 'BitOr': '__or__',
       'BitXor': '__xor__', 'LShift': '__lshift__', 'RShift': '__rshift__'}
RSYM = {k: '__r' + v[2:] for k, v in SYM.items()}


def join(a, b):
    order = 'bif'
    if a == 'O' or b == 'O':
        return 'O'
    return order[max(order.index(a), order.index(b))]


def result_dt(op, a, b):
    if op == 'Div':
        return 'f'
    r = join(a, b)
    if r == 'b' and op in ('Add', 'Mult', 'BitAnd', 'BitOr', 'BitXor'):
        return 'b'
    if r == 'b':
        return 'i'
    return r


def term_op(I, op, x, y, dx, dy, what='arith'):
    """element-level arithmetic; x, y Poly or B"""
    if op in ('BitAnd', 'BitOr', 'BitXor'):
        if isinstance(x, B) or isinstance(y, B):
            x, y = T.mkbool(x), T.mkbool(y)
            return And(x, y) if op == 'BitAnd' else Or(x, y) if op == 'BitOr' else Or(And(x, Not(y)), And(Not(x), y))
        raise Unsupported('bit operation on numbers')
    x, y = lift(x), lift(y)
    if op == 'Add':
        return add(x, y)
    if op == 'Sub':
        return add(x, scale(y, -1))
    if op == 'Mult':
        return mul(x, y)
    if op == 'Div':
        I.define(T.ne(y, ZERO), 'division by zero')
        try:
            return T.div(x, y)
        except ZeroDivisionError:
            raise Unsupported('division by zero constant')
    if op == 'FloorDiv':
        I.define(T.ne(y, ZERO), 'division by zero')
        return T.idiv(x, y)
    if op == 'Mod':
        I.define(T.ne(y, ZERO), 'division by zero')
        return T.imod(x, y)
    if op == 'Pow':
        if y.is_const():
            c = y.const()
            if c < 0:
                I.define(T.ne(x, ZERO), 'zero to a negative power')
            if c.denominator == 2:
                I.define(le(ZERO, x), 'root of a negative number')
            try:
                return T.power(x, c)
            except ValueError:
                raise Unsupported('power')
        if x.is_const() and x.const() == 2 and len(y.terms) == 1:
            (m, c), = y.terms
            if c == 1 and len(m) == 1 and m[0][0].op == 'app' and m[0][0].args[0] == 'bitlen':
                return T.app('pow2bl', (m[0][0].args[1],), 'i')
        raise Unsupported('symbolic power')
    if op == 'LShift':
        I.define(le(ZERO, y), 'negative shift count')
        return T.mul(x, term_op(I, 'Pow', const(2), y, 'i', 'i'))
    if op == 'RShift' and y.is_const() and y.const() >= 0:
        return T.idiv(x, const(2 ** int(y.const())))
    raise Unsupported('operator ' + op)


def scalar(v):
    return isinstance(v, (int, float, bool, Sc, B, Fraction))


def binary(I, op, a, b, inplace=False):
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        return Opaque('arith')
    # python-level containers
    if isinstance(a, str) or isinstance(b, str):
        if isinstance(a, str) and isinstance(b, str) and op == 'Add':
            return a + b
        if op == 'Mod' and isinstance(a, str):
            args = b if isinstance(b, tuple) else (b,)
            if all(isinstance(x, (int, str, float)) for x in args):
                return a % b
            return Opaque('format')
        if op == 'Mult' and isinstance(a, str) and isinstance(b, int):
            return a * b
        if op == 'Add':
            return Opaque('str')
        I.raise_('TypeError', 'str operand')
    if isinstance(a, LList) and isinstance(b, LList) and op == 'Add':
        return LList(a.items + b.items)
    if isinstance(a, LList) and isinstance(b, SSeq) and op == 'Add':
        return LList(a.items + [Seg(b)])
    if isinstance(a, SSeq) and isinstance(b, LList) and op == 'Add':
        return LList([Seg(a)] + b.items)
    if isinstance(a, tuple) and isinstance(b, tuple) and op == 'Add':
        return a + b
    if isinstance(a, (LList, tuple)) and op == 'Mult' and isinstance(b, (int, Sc)):
        if isinstance(b, int):
            return LList(a.items * b) if isinstance(a, LList) else a * b
        if isinstance(a, LList) and len(a.items) == 1 and a.concrete():
            x = a.items[0]
            return LList([Seg(SSeq(T.tmax(ZERO, b.p) if not I.holds(le(ZERO, b.p)) else b.p, lambda k: x))])
        raise Unsupported('list repetition')
    if isinstance(b, (LList, tuple)) and op == 'Mult' and isinstance(a, (int, Sc)):
        return binary(I, op, b, a)
    for x, y, nm in ((a, b, SYM[op]), (b, a, RSYM[op])):
        if isinstance(x, Obj):
            f = x.cls.lookup(nm)
            if f is not UNBOUND:
                return I.call(I.bind(f, x, x.cls), [y], {})
    h = getattr(a, 'pv_binary', None) or getattr(b, 'pv_binary', None)
    if h is not None:
        return h(I, op, a, b)
    if isinstance(a, LSet) or isinstance(b, LSet):
        from . import pybuiltins
        return pybuiltins.set_op(I, op, a, b)
    if isinstance(a, MaskSel) or isinstance(b, MaskSel):
        return mask_binary(I, op, a, b)
    if isinstance(a, (SArr, OArr)) or isinstance(b, (SArr, OArr)):
        if op == 'MatMult':
            from . import npmodel
            return npmodel.np_matmul(I, a, b)
        return arr_binary(I, op, to_arr(I, a), to_arr(I, b))
    if scalar(a) and scalar(b):
        return scalar_binary(I, op, a, b)
    if a is None or b is None:
        I.raise_('TypeError', 'unsupported operand')
    raise Unsupported('operator %s on %r, %r' % (op, a, b))


def scalar_binary(I, op, a, b):
    if not isinstance(a, (Sc, B, Fraction)) and not isinstance(b, (Sc, B, Fraction)):
        ok = not (isinstance(a, float) or isinstance(b, float)) or op in ()
        if not ok:
            # exact rational evaluation of float constants
            import math
            if (isinstance(a, float) and not math.isfinite(a)) or (isinstance(b, float) and not math.isfinite(b)):
                return PYOPS[op](a, b)
        try:
            if ok and op != 'Div':
                return PYOPS[op](a, b)
        except ZeroDivisionError:
            I.raise_('ZeroDivisionError')
        except TypeError:
            I.raise_('TypeError')
    da, db = dt_of(a), dt_of(b)
    if isinstance(a, B) and isinstance(b, (B, bool)) or isinstance(b, B) and isinstance(a, bool):
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            return mk(term_op(I, op, T.mkbool(a), T.mkbool(b), 'b', 'b'))
    x, y = num(a), num(b)
    if op in ('Div', 'FloorDiv', 'Mod'):
        if not I.branch(T.ne(y, ZERO)):
            I.raise_('ZeroDivisionError')
    dt = result_dt(op, da if da != 'b' else 'i', db if db != 'b' else 'i')
    if op == 'Pow' and y.is_const() and y.const() < 0:
        dt = 'f'
    t = term_op(I, op, x, y, da, db)
    return mk(t, dt)


PYOPS = {'Add': lambda a, b: a + b, 'Sub': lambda a, b: a - b, 'Mult': lambda a, b: a * b,
         'Div': lambda a, b: a / b, 'FloorDiv': lambda a, b: a // b, 'Mod': lambda a, b: a % b,
         'Pow': lambda a, b: a ** b, 'BitAnd': lambda a, b: a & b, 'BitOr': lambda a, b: a | b,
         'BitXor': lambda a, b: a ^ b, 'LShift': lambda a, b: a << b, 'RShift': lambda a, b: a >> b}


def to_arr(I, v):
    if isinstance(v, (SArr, OArr)):
        return v
    if scalar(v):
        t = v if isinstance(v, B) else T.mkbool(v) if isinstance(v, bool) else num(v)
        return SArr(Store((), Content(0, lambda idx: t)), (), dt_of(v))
    if isinstance(v, (LList, tuple, SSeq)):
        from . import npmodel
        return npmodel.array(I, v)
    raise Unsupported('array operand %r' % (v,))


def same_dim(I, a, b):
    """True if equal; forks when undecided"""
    if a is b:
        return True
    return I.branch(eq(a, b))


def broadcast_shapes(I, s1, s2):
    n = max(len(s1), len(s2))
    out = []
    for i in range(n):
        a = s1[len(s1) - n + i] if i >= n - len(s1) else ONE
        b = s2[len(s2) - n + i] if i >= n - len(s2) else ONE
        if a is b:
            out.append(a)
        elif b is ONE:
            out.append(a)
        elif a is ONE:
            out.append(b)
        else:
            d = I.known(eq(a, b))
            if d is True:
                out.append(a)
            elif I.branch(eq(a, b)):
                out.append(a)
            elif I.branch(eq(a, ONE)):
                out.append(b)
            elif I.branch(eq(b, ONE)):
                out.append(a)
            else:
                I.raise_('ValueError', 'operands could not be broadcast together')
    return tuple(out)


def bidx(I, shape, out):
    """index map from broadcast result index to operand index"""
    off = len(out) - len(shape)
    one = []
    for i, s in enumerate(shape):
        o = out[off + i]
        one.append(s is ONE and o is not ONE or (s is not o and not (o is ONE) and I.known(eq(s, ONE)) is True))

    def f(idx):
        return tuple(ZERO if one[i] else idx[off + i] for i in range(len(shape)))
    return f


def generic_idx(I, shape):
    """fresh index variables with their range facts"""
    vs = [T.fresh('g') for _ in shape]
    fs = []
    for v, s in zip(vs, shape):
        fs += [le(ZERO, v), lt(v, s)]
    return tuple(vs), And(*fs)


def elementwise(I, arrs, f, dtype):
    shape = arrs[0].shape
    for a in arrs[1:]:
        shape = broadcast_shapes(I, shape, a.shape)
    maps = [bidx(I, a.shape, shape) for a in arrs]
    cs = [a.content() for a in arrs]
    # definedness is checked once, at a generic index
    gi, gf = generic_idx(I, shape)
    base = I.facts
    I.facts = base.plus(gf)
    try:
        f(*[c.at(m(gi)) for c, m in zip(cs, maps)])
    finally:
        I.facts = base
    nodef = I.nodef

    def g(idx):
        I.nodef += 1
        try:
            return f(*[c.at(m(idx)) for c, m in zip(cs, maps)])
        finally:
            I.nodef -= 1
    return fresh_arr(shape, g, dtype)


def wrap0(I, a):
    """0-d results become scalars like numpy scalars"""
    if isinstance(a, SArr) and a.shape == ():
        return mk(a.at(()), a.dtype)
    return a


def arr_binary(I, op, a, b):
    if isinstance(a, OArr) or isinstance(b, OArr):
        raise Unsupported('object array arithmetic')
    dt = result_dt(op, a.dtype, b.dtype)
    if op in ('BitAnd', 'BitOr', 'BitXor') and (a.dtype != 'b' or b.dtype != 'b'):
        I.raise_('TypeError', 'bit operation on numbers')
    if op == 'Sub' and a.dtype == 'b' and b.dtype == 'b':
        I.raise_('TypeError', 'boolean subtract')
    if op in ('Add', 'Mult') and dt == 'b':
        f = (lambda x, y: Or(x, y)) if op == 'Add' else (lambda x, y: And(x, y))
    else:
        f = lambda x, y: term_op(I, op, x, y, a.dtype, b.dtype)
    return wrap0(I, elementwise(I, [a, b], f, dt))


def mask_binary(I, op, a, b):
    m = a if isinstance(a, MaskSel) else b

    def val(v):
        if isinstance(v, MaskSel):
            if v.mask is not m.mask and not same_mask(I, v, m):
                raise Unsupported('different masks')
            return v.f, v.dtype
        if scalar(v):
            t = num(v)
            return (lambda idx: t), dt_of(v)
        raise Unsupported('mask operand')
    fa, da = val(a)
    fb, db = val(b)
    base = I.facts
    gi, gf = generic_idx(I, m.shape)
    I.facts = base.plus(gf, m.mask.at(gi))
    try:
        term_op(I, op, fa(gi), fb(gi), da, db)
    finally:
        I.facts = base

    def g(idx):
        I.nodef += 1
        try:
            return term_op(I, op, fa(idx), fb(idx), da, db)
        finally:
            I.nodef -= 1
    return MaskSel(m.mask, m.shape, g, result_dt(op, da, db))


def same_mask(I, a, b):
    gi, gf = generic_idx(I, a.shape)
    x, y = T.mkbool(a.mask.at(gi)), T.mkbool(b.mask.at(gi))
    return x is y or I.holds(T.Implies(gf, T.Iff(x, y)))


def unary(I, op, v):
    if op == 'Not':
        t = I.tobool(v)
        return (not t) if isinstance(t, bool) else mk(Not(t))
    if isinstance(v, Opaque):
        return v
    if isinstance(v, Obj):
        nm = {'USub': '__neg__', 'UAdd': '__pos__', 'Invert': '__invert__'}[op]
        return I.call(I.getattr(v, nm), [], {})
    if op == 'USub':
        if isinstance(v, (int, float)) and not isinstance(v, bool):
            return -v
        if isinstance(v, SArr):
            if v.dtype == 'b':
                I.raise_('TypeError', 'boolean negative')
            return elementwise(I, [v], lambda x: scale(lift(x), -1), v.dtype)
        if isinstance(v, MaskSel):
            f = v.f
            return MaskSel(v.mask, v.shape, lambda idx: scale(f(idx), -1), v.dtype)
        return mk(scale(num(v), -1), dt_of(v))
    if op == 'UAdd':
        return v
    if op == 'Invert':
        if isinstance(v, SArr) and v.dtype == 'b':
            return elementwise(I, [v], lambda x: Not(x), 'b')
        if isinstance(v, B):
            return mk(Not(v))
        if isinstance(v, int):
            return ~v
    raise Unsupported('unary ' + op)


def inplace(I, op, cur, val, elem=False):
    """augmented assignment: returns the object to rebind"""
    if isinstance(cur, LList) and op == 'Add':
        cur.set_items(cur.items + I.as_items(val))
        return cur
    if isinstance(cur, SArr) and not elem:
        return inplace_arr(I, op, cur, val)
    if isinstance(cur, SArr) and elem:
        return inplace_arr(I, op, cur, val)
    h = getattr(cur, 'pv_inplace', None)
    if h is not None:
        return h(I, op, val)
    if isinstance(cur, Obj):
        nm = '__i' + SYM[op][2:]
        f = cur.cls.lookup(nm)
        if f is not UNBOUND:
            return I.call(I.bind(f, cur, cur.cls), [val], {})
    return binary(I, op, cur, val)


def inplace_arr(I, op, cur, val):
    if isinstance(val, (LList, tuple, SSeq)):
        val = to_arr(I, val)
    if isinstance(val, Obj):
        return binary(I, op, cur, val)
    r = binary(I, op, cur, val)
    if not isinstance(r, SArr):
        r = to_arr(I, r)
    if len(r.shape) != len(cur.shape):
        I.raise_('ValueError', 'non-broadcastable output operand')
    for x, y in zip(r.shape, cur.shape):
        if not same_dim(I, x, y):
            I.raise_('ValueError', 'non-broadcastable output operand')
    if r.dtype == 'f' and cur.dtype == 'i':
        I.raise_('TypeError', 'cannot cast ufunc output from float to int')
    c = r.content()
    cur.write(lambda idx: c.at(idx))
    return cur


# ---------------------------------------------------------------- comparison
def compare(I, op, a, b):
    if op in ('Is', 'IsNot'):
        r = identical(a, b)
        return r if op == 'Is' else not r
    if op in ('In', 'NotIn'):
        r = contains(I, b, a)
        if isinstance(r, B):
            return mk(r if op == 'In' else Not(r))
        return r if op == 'In' else not r
    if isinstance(a, Obj) or isinstance(b, Obj):
        nm = {'Eq': '__eq__', 'NotEq': '__ne__', 'Lt': '__lt__', 'LtE': '__le__', 'Gt': '__gt__',
              'GtE': '__ge__'}[op]
        if isinstance(a, Obj) and a.cls.lookup(nm) is not UNBOUND:
            return I.call(I.getattr(a, nm), [b], {})
        if op == 'Eq':
            return a is b
        if op == 'NotEq':
            return a is not b
    if isinstance(a, SArr) or isinstance(b, SArr):
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            return op == 'NotEq'
        x, y = to_arr(I, a), to_arr(I, b)
        return wrap0(I, elementwise(I, [x, y], lambda p, q: cmp_term(op, p, q), 'b'))
    if scalar(a) and scalar(b):
        if not isinstance(a, (Sc, B, Fraction)) and not isinstance(b, (Sc, B, Fraction)):
            return {'Eq': a == b, 'NotEq': a != b, 'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[op]
        import math
        for v, w in ((a, b), (b, a)):
            if isinstance(v, float) and math.isinf(v):
                neg = v < 0
                left = v is a
                if op in ('Eq', 'NotEq'):
                    return op == 'NotEq'
                less = op in ('Lt', 'LtE')
                return (neg == less) if left else (neg != less)
        return mk(cmp_term(op, num(a), num(b)))
    if op in ('Eq', 'NotEq'):
        r = equal(I, a, b)
        if isinstance(r, B):
            return mk(r if op == 'Eq' else Not(r))
        return r if op == 'Eq' else not r
    if isinstance(a, str) and isinstance(b, str):
        return {'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[op]
    if isinstance(a, LSet) and isinstance(b, LSet):
        if op == 'LtE':
            return And(*[T.mkbool(contains(I, b, x)) for x in a.items])
    if a is None or b is None:
        I.raise_('TypeError', 'comparison with None')
    raise Unsupported('comparison %s of %r, %r' % (op, a, b))


def cmp_term(op, x, y):
    if isinstance(x, B) and isinstance(y, B) and op in ('Eq', 'NotEq'):
        r = T.Iff(x, y)
        return r if op == 'Eq' else Not(r)
    x, y = lift(x), lift(y)
    return {'Eq': lambda: eq(x, y), 'NotEq': lambda: Not(eq(x, y)), 'Lt': lambda: lt(x, y), 'LtE': lambda: le(x, y),
            'Gt': lambda: lt(y, x), 'GtE': lambda: le(y, x)}[op]()


def identical(a, b):
    if isinstance(a, (int, str, bool)) and isinstance(b, (int, str, bool)):
        return type(a) is type(b) and a == b
    return a is b


def equal(I, a, b):
    """python == ; bool or B"""
    if a is b and not isinstance(a, float):
        return True
    if scalar(a) and scalar(b):
        return I.tobool(compare(I, 'Eq', a, b))
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        return isinstance(a, str) and isinstance(b, str) and a == b if not (a is None or b is None) else a is b
    if isinstance(a, tuple) and isinstance(b, tuple) or isinstance(a, LList) and isinstance(b, LList):
        x = a if isinstance(a, tuple) else a.items
        y = b if isinstance(b, tuple) else b.items
        if any(isinstance(e, Seg) for e in x) or any(isinstance(e, Seg) for e in y):
            raise Unsupported('list equality')
        if len(x) != len(y):
            return False
        rs = [equal(I, p, q) for p, q in zip(x, y)]
        if any(r is False for r in rs):
            return False
        r = And(*[T.mkbool(r) for r in rs])
        return True if r is TRUE else False if r is FALSE else r
    if isinstance(a, LDict) and isinstance(b, LDict):
        if set(a.d) != set(b.d):
            return False
        return I.tobool(mk(And(*[T.mkbool(equal(I, a.d[k], b.d[k])) for k in a.d])))
    if isinstance(a, (LSet, SeqSet)) and isinstance(b, (LSet, SeqSet)):
        from . import pybuiltins
        return pybuiltins.set_equal(I, a, b)
    if isinstance(a, (Cls, Fn, Obj, Mod, Native)) or isinstance(b, (Cls, Fn, Obj, Mod, Native)):
        return a is b
    if type(a) is not type(b):
        return False
    if hasattr(a, 'pv_eq'):
        return a.pv_eq(I, b)
    raise Unsupported('equality of %r and %r' % (a, b))


def contains(I, c, x):
    if isinstance(c, LDict):
        return I.hkey(x) in c.d
    if isinstance(c, str) and isinstance(x, str):
        return x in c
    if isinstance(c, (tuple, LList, LSet)):
        its = c if isinstance(c, tuple) else c.items
        rs = []
        for e in its:
            if isinstance(e, Seg):
                s = e.seq
                k = T.fresh('k')
                rs.append(Not(T.Forall(k, ZERO, s.length, Not(T.mkbool(equal(I, s.elem(k), x))))))
            else:
                rs.append(T.mkbool(equal(I, e, x)))
        r = Or(*rs)
        return True if r is TRUE else False if r is FALSE else r
    it = I.iterate(c)
    if isinstance(it, list):
        return contains(I, LList(it), x)
    if isinstance(it, SSeq):
        return contains(I, LList([Seg(it)]), x)
    raise Unsupported('in')


# ---------------------------------------------------------------- subscripts
def getitem(I, o, k):
    if isinstance(o, SArr):
        return arr_getitem(I, o, k)
    if isinstance(o, LDict):
        kk = I.hkey(k)
        if kk not in o.d:
            d = getattr(o, 'default', None)
            if d is not None:
                v = I.call(d, [], {})
                o.put(kk, v)
                return v
            I.raise_('KeyError', k)
        return o.d[kk]
    if isinstance(o, (tuple, LList, SSeq)):
        return seq_getitem(I, o, k)
    if isinstance(o, str):
        if isinstance(k, int):
            return o[k]
        if isinstance(k, SliceV):
            return o[slice(k.lo, k.hi, k.step)]
    if isinstance(o, Obj):
        return I.call(I.getattr(o, '__getitem__'), [k], {})
    if isinstance(o, OArr):
        return oarr_getitem(I, o, k)
    if isinstance(o, MaskSel):
        raise Unsupported('indexing a masked selection')
    h = getattr(o, 'pv_getitem', None)
    if h is not None:
        return h(I, k)
    if scalar(o) or o is None:
        I.raise_('TypeError', 'not subscriptable')
    if isinstance(o, Opaque):
        return Opaque('item')
    raise Unsupported('subscript of %r' % (o,))


def setitem(I, o, k, v):
    if isinstance(o, SArr):
        return arr_setitem(I, o, k, v)
    if isinstance(o, LDict):
        o.put(I.hkey(k), v)
        return
    if isinstance(o, LList):
        if isinstance(k, int) and o.concrete():
            its = list(o.items)
            if not -len(its) <= k < len(its):
                I.raise_('IndexError', 'list assignment index out of range')
            its[k] = v
            o.set_items(its)
            return
        raise Unsupported('list item assignment')
    if isinstance(o, Obj):
        return I.call(I.getattr(o, '__setitem__'), [k, v], {})
    if isinstance(o, OArr):
        return oarr_setitem(I, o, k, v)
    h = getattr(o, 'pv_setitem', None)
    if h is not None:
        return h(I, k, v)
    if isinstance(o, tuple):
        I.raise_('TypeError', 'tuple does not support item assignment')
    raise Unsupported('item assignment on %r' % (o,))


def seq_len(I, o):
    return I.len_(o)


def as_int(I, k):
    """index value -> int or Poly"""
    if isinstance(k, bool):
        return int(k)
    if isinstance(k, int):
        return k
    if isinstance(k, Sc):
        if k.dt == 'f':
            I.raise_('IndexError', 'float index')
        return k.p
    if isinstance(k, SArr) and k.shape == () and k.dtype == 'i':
        return lift(k.at(()))
    if isinstance(k, float):
        I.raise_('IndexError', 'float index')
    return None


def norm_index(I, k, n):
    """k int/Poly, n Poly -> in-range Poly or IndexError"""
    kp = const(k) if isinstance(k, int) else k
    if kp.is_const():
        if kp.const() < 0:
            kp = add(n, kp)
            if not I.branch(le(ZERO, kp)):
                I.raise_('IndexError', 'index out of range')
            return kp
    elif not I.branch(le(ZERO, kp)):
        kp = add(n, kp)
        if not I.branch(le(ZERO, kp)):
            I.raise_('IndexError', 'index out of range')
        return kp
    if not I.branch(lt(kp, n)):
        I.raise_('IndexError', 'index out of range')
    return kp


def norm_slice(I, s, n):
    """-> (start Poly, length Poly, step int)"""
    step = s.step
    if step is None:
        step = 1
    if isinstance(step, Sc) and step.p.is_const():
        step = int(step.p.const())
    if not isinstance(step, int):
        # symbolic positive step
        if isinstance(step, Sc) and I.branch(lt(ZERO, step.p)):
            lo = clamp(I, s.lo, n, ZERO)
            hi = clamp(I, s.hi, n, n)
            ln = T.idiv(add(hi, scale(lo, -1), step.p, const(-1)), step.p)
            if not I.branch(le(lo, hi)):
                ln = ZERO
            return lo, ln, step.p
        raise Unsupported('slice step')
    if step == 0:
        I.raise_('ValueError', 'slice step cannot be zero')
    if step > 0:
        lo = clamp(I, s.lo, n, ZERO)
        hi = clamp(I, s.hi, n, n)
        if lo is hi:
            return lo, ZERO, step
        if not I.branch(le(lo, hi)):
            return lo, ZERO, step
        d = add(hi, scale(lo, -1))
        if step == 1:
            return lo, d, 1
        return lo, T.idiv(add(d, const(step - 1)), const(step)), step
    m1 = const(-1)
    last = add(n, m1)
    lo = clampneg(I, s.lo, n, last)
    hi = clampneg(I, s.hi, n, m1) if s.hi is not None else m1
    if not I.branch(le(hi, lo)):
        return lo, ZERO, step
    d = add(lo, scale(hi, -1))
    if step == -1:
        return lo, d, -1
    return lo, T.idiv(add(d, const(-step - 1)), const(-step)), step


def clamp(I, v, n, default):
    if v is None:
        return default
    k = as_int(I, v)
    if k is None:
        I.raise_('TypeError', 'slice indices must be integers')
    p = const(k) if isinstance(k, int) else k
    if p is n:
        return n
    if not I.branch(le(ZERO, p)):
        p = add(p, n)
        return p if I.branch(le(ZERO, p)) else ZERO
    return p if I.branch(le(p, n)) else n


def clampneg(I, v, n, default):
    if v is None:
        return default
    k = as_int(I, v)
    if k is None:
        I.raise_('TypeError', 'slice indices must be integers')
    p = const(k) if isinstance(k, int) else k
    if not I.branch(le(ZERO, p)):
        p = add(p, n)
        return p if I.branch(le(ZERO, p)) else const(-1)
    return p if I.branch(lt(p, n)) else add(n, const(-1))


def seq_getitem(I, o, k):
    if isinstance(k, SliceV):
        if isinstance(o, tuple) or (isinstance(o, LList) and o.concrete()):
            its = o if isinstance(o, tuple) else o.items
            bs = [k.lo, k.hi, k.step]
            if all(x is None or isinstance(x, int) for x in bs):
                r = list(its)[slice(*bs)]
                return tuple(r) if isinstance(o, tuple) else LList(r)
            st, ln, step = norm_slice(I, k, const(len(its)))
            if st.is_const() and ln.is_const() and isinstance(step, int):
                r = [its[int(st.const()) + step * i] for i in range(int(ln.const()))]
                return tuple(r) if isinstance(o, tuple) else LList(r)
            raise Unsupported('symbolic slice of a concrete list')
        n = lift_len(I, o)
        # fast path: concrete prefix removal from mixed lists
        if isinstance(o, LList) and k.step in (None, 1) and (k.hi is None) and isinstance(k.lo, int) and k.lo >= 0:
            if all(not isinstance(x, Seg) for x in o.items[:k.lo]) and len(o.items) >= k.lo:
                return LList(o.items[k.lo:])
        if isinstance(o, LList) and k.step in (None, 1) and k.lo in (None, 0) and isinstance(k.hi, int) and k.hi < 0:
            h = -k.hi
            if len(o.items) >= h and all(not isinstance(x, Seg) for x in o.items[-h:]):
                return LList(o.items[:-h])
        st, ln, step = norm_slice(I, k, n)
        return SSeq(ln, lambda i: seq_at(I, o, add(st, mul(lift(step), i))), 'list')
    kk = as_int(I, k)
    if kk is None:
        if isinstance(k, tuple):
            I.raise_('TypeError', 'list indices must be integers')
        raise Unsupported('list index %r' % (k,))
    if isinstance(o, tuple) or (isinstance(o, LList) and o.concrete()):
        its = o if isinstance(o, tuple) else o.items
        if isinstance(kk, int):
            if not -len(its) <= kk < len(its):
                I.raise_('IndexError', 'index out of range')
            return its[kk]
        p = norm_index(I, kk, const(len(its)))
        if p.is_const():
            return its[int(p.const())]
        for i in range(len(its)):
            if I.branch(eq(p, const(i))):
                return its[i]
        raise Unsupported('symbolic list index')
    p = norm_index(I, kk, lift_len(I, o))
    return seq_at(I, o, p)


def lift_len(I, o):
    n = I.len_(o)
    return lift(n) if not isinstance(n, Sc) else n.p


def seq_at(I, o, p):
    """element at in-range position p"""
    if isinstance(o, SSeq):
        return o.elem(p)
    items = o.items if isinstance(o, LList) else list(o)
    if len(items) == 1 and isinstance(items[0], Seg):
        return items[0].seq.elem(p)
    off = ZERO
    for i, it in enumerate(items):
        ln = it.seq.length if isinstance(it, Seg) else ONE
        nxt = add(off, ln)
        if i == len(items) - 1 or I.branch(lt(p, nxt)):
            if isinstance(it, Seg):
                return it.seq.elem(add(p, scale(off, -1)))
            return it
        off = nxt
    raise Unsupported('list position')


# ------------------------------------------------------------ array indexing
def split_index(I, a, k):
    """normalise to a list with one entry per axis (plus None entries)"""
    ks = list(k) if isinstance(k, tuple) else [k]
    n_ax = 0
    ell = None
    for i, x in enumerate(ks):
        if x is Ellipsis:
            if ell is not None:
                I.raise_('IndexError', 'two ellipses')
            ell = i
        elif x is None:
            pass
        elif isinstance(x, SArr) and x.dtype == 'b':
            n_ax += len(x.shape)
        else:
            n_ax += 1
    nd = len(a.shape)
    if n_ax > nd:
        I.raise_('IndexError', 'too many indices for array')
    fill = [SliceV(None, None, None)] * (nd - n_ax)
    if ell is None:
        ks = ks + fill
    else:
        ks = ks[:ell] + fill + ks[ell + 1:]
    return ks


def is_fancy(x):
    return isinstance(x, (LList, tuple, SSeq)) or (isinstance(x, SArr) and (len(x.shape) > 0 or x.dtype == 'b'))


def basic_view(I, a, ks):
    shape = []
    plan = []      # per source axis: ('i', p) or ('s', start, step, outdim)
    outd = 0
    contig = a.contig
    seen_full = True
    ax = 0
    lead = True
    for x in ks:
        if x is None:
            shape.append(ONE)
            outd += 1
            continue
        n = a.shape[ax]
        if isinstance(x, SliceV):
            if x.lo is None and x.hi is None and x.step is None:
                st, ln, step = ZERO, n, 1
            else:
                st, ln, step = norm_slice(I, x, n)
                if not lead or step != 1:
                    contig = False
            plan.append(('s', st, step, outd))
            shape.append(ln)
            outd += 1
            lead = False
        else:
            kk = as_int(I, x)
            if kk is None:
                raise Unsupported('array index %r' % (x,))
            p = norm_index(I, kk, n)
            plan.append(('i', p))
            if not lead:
                contig = False
        ax += 1
    nout = outd
    shp = tuple(shape)

    def fwd(idx):
        out = []
        for pl in plan:
            if pl[0] == 'i':
                out.append(pl[1])
            else:
                out.append(add(pl[1], mul(lift(pl[2]), idx[pl[3]])))
        return tuple(out)

    def inv(s):
        cond = []
        idx = [ZERO] * nout
        for j, pl in enumerate(plan):
            if pl[0] == 'i':
                cond.append(eq(s[j], pl[1]))
            else:
                _, st, step, od = pl
                d = add(s[j], scale(st, -1))
                if step == 1:
                    q = d
                elif step == -1:
                    q = scale(d, -1)
                else:
                    q = T.idiv(d, lift(step))
                    cond.append(eq(mul(q, lift(step)), d))
                if not (st is ZERO and step == 1 and shp[od] is a.shape[j]):
                    cond.append(le(ZERO, q))
                    cond.append(lt(q, shp[od]))
                idx[od] = q
        return And(*cond), tuple(idx)
    full = all(pl[0] == 's' and pl[1] is ZERO and pl[2] == 1 and shp[pl[3]] is a.shape[j] for j, pl in enumerate(plan))
    if full and nout == len(plan):
        return SArr(a.store, a.shape, a.dtype, a.fwd, a.inv, a.contig)
    return a.view(shp, fwd, inv, contig)


def arr_getitem(I, a, k):
    if isinstance(k, SArr) and k.dtype == 'b' and len(k.shape) > 0:
        return mask_get(I, a, k)
    ks = split_index(I, a, k)
    if any(is_fancy(x) for x in ks):
        return fancy_get(I, a, ks)
    v = basic_view(I, a, ks)
    if v.shape == ():
        return mk(v.at(()), v.dtype)
    return v


def mask_get(I, a, m):
    if len(m.shape) != len(a.shape):
        if len(m.shape) == 1:
            raise Unsupported('row mask')
        I.raise_('IndexError', 'mask shape')
    for x, y in zip(m.shape, a.shape):
        if not same_dim(I, x, y):
            I.raise_('IndexError', 'boolean index did not match')
    mc = m.copy()
    c = a.content()
    return MaskSel(mc, a.shape, lambda idx: c.at(idx), a.dtype)


def index_list(I, x, n):
    """fancy index -> (length Poly, f: i -> Poly)"""
    if isinstance(x, (LList, tuple)) and (isinstance(x, tuple) or x.concrete()):
        its = list(x) if isinstance(x, tuple) else x.items
        ps = []
        for e in its:
            if isinstance(e, bool):
                raise Unsupported('boolean list index')
            e = as_int(I, e)
            if e is None:
                raise Unsupported('fancy index')
            ps.append(norm_index(I, e, n))

        def f(i):
            if i.is_const():
                return ps[int(i.const())]
            r = ps[-1]
            for j in range(len(ps) - 2, -1, -1):
                r = ite(eq(i, const(j)), ps[j], r)
            return r
        return const(len(ps)), f
    if isinstance(x, (LList, SSeq)):
        from . import npmodel
        x = npmodel.array(I, x)
    if isinstance(x, SArr) and len(x.shape) == 1:
        if x.dtype == 'f':
            I.raise_('IndexError', 'float index array')
        c = x.content()
        g = T.fresh('g')
        v = lift(c.at((g,)))
        ok = T.Forall(g, ZERO, x.shape[0], And(le(ZERO, v), lt(v, n)))
        if not I.branch(ok):
            neg = T.Forall(g, ZERO, x.shape[0], And(le(scale(n, -1), v), lt(v, n)))
            if not I.branch(neg):
                I.raise_('IndexError', 'index out of bounds')
            return x.shape[0], lambda i: ite(lt(lift(c.at((i,))), ZERO), add(lift(c.at((i,))), n), lift(c.at((i,))))
        return x.shape[0], lambda i: lift(c.at((i,)))
    raise Unsupported('fancy index')


def fancy_get(I, a, ks):
    fz = [i for i, x in enumerate(ks) if is_fancy(x)]
    if any(x is None for x in ks):
        raise Unsupported('newaxis with fancy index')
    if len(fz) > 1:
        # pointwise pairs
        if all(isinstance(x, SliceV) for i, x in enumerate(ks) if i not in fz) and fz == list(range(fz[0], fz[-1] + 1)):
            fl = [index_list(I, ks[i], a.shape[i]) for i in fz]
            n = fl[0][0]
            for l, _ in fl[1:]:
                if not same_dim(I, n, l):
                    I.raise_('IndexError', 'shape mismatch')
            if len(ks) != len(fz):
                raise Unsupported('fancy index')
            c = a.content()
            return fresh_arr((n,), lambda idx: c.at(tuple(f(idx[0]) for _, f in fl)), a.dtype)
        raise Unsupported('fancy index')
    ax = fz[0]
    ln, f = index_list(I, ks[ax], a.shape[ax])
    rest = list(ks)
    rest[ax] = SliceV(None, None, None)
    v = basic_view(I, a, rest)
    # output axis of ax after dropping integer axes before it
    oax = sum(1 for x in rest[:ax] if isinstance(x, SliceV))
    c = v.content()
    shp = v.shape[:oax] + (ln,) + v.shape[oax + 1:]

    def g(idx):
        return c.at(idx[:oax] + (f(idx[oax]),) + idx[oax + 1:])
    return fresh_arr(shp, g, a.dtype)


def arr_setitem(I, a, k, v):
    if isinstance(k, SArr) and k.dtype == 'b' and len(k.shape) > 0:
        return mask_set(I, a, k, v)
    ks = split_index(I, a, k)
    if any(is_fancy(x) for x in ks):
        return fancy_set(I, a, ks, v)
    view = basic_view(I, a, ks)
    assign_view(I, view, v)


def assign_view(I, view, v):
    if isinstance(v, MaskSel):
        raise Unsupported('assigning a masked selection to a slice')
    if isinstance(v, OArr) or isinstance(v, Obj):
        raise Unsupported('object in numeric array')
    if v is None or isinstance(v, str):
        I.raise_('TypeError', 'float() argument must be a number')
    va = to_arr(I, v)
    sh = va.shape
    # numpy allows leading 1 dims to be dropped
    while len(sh) > len(view.shape) and sh[0] is ONE:
        c0 = va.content()
        va = fresh_arr(sh[1:], lambda idx, c0=c0: c0.at((ZERO,) + idx), va.dtype)
        sh = va.shape
    if len(sh) > len(view.shape):
        I.raise_('ValueError', 'could not broadcast input array')
    off = len(view.shape) - len(sh)
    mp = []
    for i, s in enumerate(sh):
        d = view.shape[off + i]
        if s is d:
            mp.append(False)
        elif s is ONE:
            mp.append(True)
        elif same_dim(I, s, d):
            mp.append(False)
        elif I.branch(eq(s, ONE)):
            mp.append(True)
        else:
            I.raise_('ValueError', 'could not broadcast input array')
    c = va.content()
    frm, to = va.dtype, view.dtype
    view.write(lambda idx: conv_term(
        c.at(tuple(ZERO if mp[i] else idx[off + i] for i in range(len(sh)))), frm, to))


def mask_set(I, a, m, v):
    if len(m.shape) != len(a.shape):
        raise Unsupported('row mask assignment')
    for x, y in zip(m.shape, a.shape):
        if not same_dim(I, x, y):
            I.raise_('IndexError', 'boolean index did not match')
    mc = m.content()
    old = a.content()
    if isinstance(v, MaskSel):
        g, gf = generic_idx(I, a.shape)
        x, y = T.mkbool(mc.at(g)), T.mkbool(v.mask.at(g))
        if not (x is y or I.holds(T.Implies(gf, T.Iff(x, y)))):
            raise Unsupported('assignment from a different mask')
        f, dt = v.f, v.dtype
    elif scalar(v):
        t = num(v)
        f, dt = (lambda idx: t), dt_of(v)
    elif isinstance(v, SArr) and v.shape == ():
        t = v.at(())
        f, dt = (lambda idx: t), v.dtype
    else:
        raise Unsupported('mask assignment')
    to = a.dtype
    a.write(lambda idx: tite(T.mkbool(mc.at(idx)), conv_term(f(idx), dt, to), old.at(idx)))


def fancy_set(I, a, ks, v):
    fz = [i for i, x in enumerate(ks) if is_fancy(x)]
    if len(fz) != 1 or len(ks) != 1:
        raise Unsupported('fancy assignment')
    x = ks[0]
    if isinstance(x, (LList, tuple)) and (isinstance(x, tuple) or x.concrete()):
        its = list(x) if isinstance(x, tuple) else x.items
        va = to_arr(I, v) if not scalar(v) else None
        for i, e in enumerate(its):
            arr_setitem(I, a, e, v if va is None else arr_getitem(I, va, i))
        return
    # index array: every written position must be distinct or the value constant
    ln, f = index_list(I, x, a.shape[0])
    i, j = T.fresh('g'), T.fresh('g')
    const_val = scalar(v)
    if not const_val:
        inj = T.Forall(i, ZERO, ln, T.Forall(j, ZERO, i, T.ne(f(i), f(j))))
        if not I.holds(inj):
            raise Unsupported('fancy assignment with possibly repeated indices')
    va = to_arr(I, v)
    c = va.content()
    old = a.content()

    def g(idx):
        k = T.fresh('w')
        hit = T.Sum(k, ZERO, ln, ite(eq(f(k), idx[0]), ONE, ZERO))
        if const_val:
            return ite(T.ne(hit, ZERO), conv_term(c.at(()), va.dtype, a.dtype), old.at(idx))
        val = T.Sum(k, ZERO, ln, ite(eq(f(k), idx[0]), conv_term(c.at((k,)) if len(va.shape) else c.at(()),
                                                                 va.dtype, a.dtype), ZERO))
        return add(val, mul(add(ONE, scale(hit, -1)), old.at(idx)))
    a.write(g)


# ------------------------------------------------------------ object arrays
def oarr_getitem(I, o, k):
    ks = list(k) if isinstance(k, tuple) else [k]
    if all(as_int(I, x) is not None for x in ks):
        ps = [norm_index(I, as_int(I, x), n) for x, n in zip(ks, o.shape)]
        if len(ps) == len(o.shape):
            return o.get(tuple(ps))
        rest = o.shape[len(ps):]
        return OArr(rest, lambda idx: o.get(tuple(ps) + tuple(idx)))
    if len(ks) == 1 and isinstance(ks[0], SliceV) and len(o.shape) == 1:
        st, ln, step = norm_slice(I, ks[0], o.shape[0])
        return OArr((ln,), lambda idx: o.get((add(st, mul(lift(step), idx[0])),)))
    raise Unsupported('object array index')


def oarr_setitem(I, o, k, v):
    ks = list(k) if isinstance(k, tuple) else [k]
    if hasattr(o, 'd') and len(ks) == len(o.shape) and all(as_int(I, x) is not None for x in ks):
        ps = [norm_index(I, as_int(I, x), n) for x, n in zip(ks, o.shape)]
        if all(p.is_const() for p in ps):
            d = dict(o.d)
            d[tuple(int(p.const()) for p in ps)] = v
            Loc('dict', o).write(d)
            return
    raise Unsupported('object array assignment')
