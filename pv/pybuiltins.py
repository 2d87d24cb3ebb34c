"""Python builtins and methods of builtin values."""
import builtins as pyb
from . import terms as T
from .terms import (Poly, B, ZERO, ONE, TRUE, FALSE, And, Or, Not, eq, le, lt, ite, var, const, lift, add, mul,
                    scale, subst, var_atom)
from .values import *
from .arrays import SArr, OArr, MaskSel, fresh_arr, vmap
from . import ops


class TypeTag(NativeCls):
    """builtin type usable in isinstance / as a dtype / as a constructor"""


def concrete_int(p):
    return p.is_const() and p.const().denominator == 1


def seq_of(I, n, f, kind='list'):
    """n Poly: list when concrete"""
    n = lift(n)
    if concrete_int(n) and n.const() <= I.MAX_UNROLL:
        return [f(const(i)) for i in range(max(0, int(n.const())))]
    return SSeq(n, f, kind)


def arr_row(a, k):
    """a[k] without bounds branching"""
    k = lift(k)
    shp = a.shape[1:]
    if not shp:
        return mk(a.at((k,)), a.dtype)
    return a.view(shp, lambda idx: (k,) + tuple(idx),
                  lambda s: (eq(s[0], k), tuple(s[1:])), a.contig)


def iterate(I, v):
    if isinstance(v, list):
        return v
    if isinstance(v, tuple):
        return list(v)
    if isinstance(v, LList):
        if v.concrete():
            return list(v.items)
        if len(v.items) == 1:
            return v.items[0].seq
        n = length_poly(I, v)
        return SSeq(n, lambda k: ops.seq_at(I, v, k))
    if isinstance(v, (SSeq, PSeq)):
        if isinstance(v, SSeq) and concrete_int(v.length) and v.length.const() <= I.MAX_UNROLL:
            return [v.elem(const(i)) for i in range(int(v.length.const()))]
        return v
    if isinstance(v, LDict):
        return list(v.d.keys())
    if isinstance(v, LSet):
        return list(v.items)
    if isinstance(v, SArr):
        if not v.shape:
            I.raise_('TypeError', 'iteration over a 0-d array')
        return seq_of(I, v.shape[0], lambda k: arr_row(v, k))
    if isinstance(v, OArr):
        if len(v.shape) == 1:
            return seq_of(I, v.shape[0], lambda k: v.get((k,)))
        return seq_of(I, v.shape[0], lambda k: OArr(v.shape[1:], lambda idx: v.get((k,) + tuple(idx))))
    if isinstance(v, str):
        return list(v)
    if isinstance(v, Obj):
        f = v.cls.lookup('__iter__')
        if f is not UNBOUND:
            return iterate(I, I.call(I.bind(f, v, v.cls), [], {}))
        f = v.cls.lookup('__getitem__')
    h = getattr(v, 'pv_iter', None)
    if h is not None:
        return h(I)
    if isinstance(v, SeqSet):
        raise Unsupported('iteration over a symbolic set')
    if v is None or is_num(v):
        I.raise_('TypeError', 'not iterable')
    raise Unsupported('iteration over %r' % (v,))


def length_poly(I, v):
    r = length(I, v)
    return r.p if isinstance(r, Sc) else lift(r)


def length(I, v):
    if isinstance(v, (tuple, str, list)):
        return len(v)
    if isinstance(v, LList):
        n = ZERO
        for x in v.items:
            n = add(n, x.seq.length if isinstance(x, Seg) else ONE)
        return mk(n, 'i')
    if isinstance(v, SSeq):
        return mk(v.length, 'i')
    if isinstance(v, LDict):
        return len(v.d)
    if isinstance(v, LSet):
        n = ZERO
        for i, x in enumerate(v.items):
            same = Or(*[T.mkbool(ops.equal(I, x, y)) for y in v.items[:i]])
            n = add(n, ite(same, ZERO, ONE))
        return mk(n, 'i')
    if isinstance(v, SeqSet):
        s = v.seq
        k = T.fresh('k')
        alleq = T.Forall(k, ZERO, s.length, T.mkbool(ops.equal(I, s.elem(k), s.elem(ZERO))))
        many = T.fresh('setlen')
        I.assume(le(const(2), many))
        return mk(ite(eq(s.length, ZERO), ZERO, ite(alleq, ONE, many)), 'i')
    if isinstance(v, (SArr, OArr)):
        if not v.shape:
            I.raise_('TypeError', 'len() of unsized object')
        return mk(v.shape[0], 'i')
    if isinstance(v, Obj):
        f = v.cls.lookup('__len__')
        if f is not UNBOUND:
            return I.call(I.bind(f, v, v.cls), [], {})
    h = getattr(v, 'pv_len', None)
    if h is not None:
        return h(I)
    if v is None or is_num(v):
        I.raise_('TypeError', 'object has no len()')
    raise Unsupported('len of %r' % (v,))


class ObjKey:
    def __init__(self, o):
        self.o = o

    def __eq__(self, other):
        return isinstance(other, ObjKey) and self.o is other.o

    def __hash__(self):
        return hash(id(self.o))


def hkey(I, k):
    if k is None or isinstance(k, (int, str, bool, float)):
        return k
    if isinstance(k, tuple):
        return tuple(hkey(I, x) for x in k)
    if isinstance(k, Sc):
        if k.p.is_const():
            c = k.p.const()
            return int(c) if c.denominator == 1 else float(c)
        raise Unsupported('symbolic dictionary key')
    if isinstance(k, (LList, LDict, LSet, SArr)):
        I.raise_('TypeError', 'unhashable type')
    return k


def make_set(I, items):
    if isinstance(items, (LList, SSeq)):
        items = iterate(I, items)
    if isinstance(items, SSeq):
        return SeqSet(items)
    out = []
    for x in items:
        dup = False
        for y in out:
            e = ops.equal(I, x, y)
            if e is True:
                dup = True
                break
        if not dup:
            out.append(x)
    return LSet(out)


def set_op(I, op, a, b):
    x, y = a.items, b.items
    if op == 'BitOr':
        return make_set(I, x + y)
    inb = [I.truth(mk(T.mkbool(ops.contains(I, b, e)))) for e in x]
    if op == 'BitAnd':
        return LSet([e for e, f in zip(x, inb) if f])
    if op == 'Sub':
        return LSet([e for e, f in zip(x, inb) if not f])
    raise Unsupported('set operator')


def set_equal(I, a, b):
    def sub(x, y):
        if isinstance(x, LSet):
            return And(*[T.mkbool(member(y, e)) for e in x.items])
        k = T.fresh('k')
        return T.Forall(k, ZERO, x.seq.length, T.mkbool(member(y, x.seq.elem(k))))

    def member(y, e):
        if isinstance(y, LSet):
            return Or(*[T.mkbool(ops.equal(I, e, z)) for z in y.items])
        k = T.fresh('k')
        return Not(T.Forall(k, ZERO, y.seq.length, Not(T.mkbool(ops.equal(I, y.seq.elem(k), e)))))
    r = And(sub(a, b), sub(b, a))
    return True if r is TRUE else False if r is FALSE else r


# ------------------------------------------------------------------ builtin functions
def b_len(I, v):
    return length(I, v)


def b_range(I, *a):
    ps = []
    for x in a:
        k = ops.as_int(I, x)
        if k is None:
            if isinstance(x, (float, Sc)):
                I.raise_('TypeError', 'range of float')
            raise Unsupported('range argument')
        ps.append(k)
    if all(isinstance(x, int) for x in ps):
        return LList(range(*ps))
    ps = [lift(x) for x in ps]
    lo, hi, st = (ZERO, ps[0], ONE) if len(ps) == 1 else (ps[0], ps[1], ONE) if len(ps) == 2 else ps
    if st is ONE:
        n = add(hi, scale(lo, -1))
        if not I.branch(le(ZERO, n)):
            return LList()
    elif st.is_const() and st.const() < 0:
        d = add(lo, scale(hi, -1))
        if not I.branch(le(ZERO, d)):
            return LList()
        c = scale(st, -1)
        n = d if c is ONE else T.idiv(add(d, c, const(-1)), c)
    else:
        if not I.branch(lt(ZERO, st)):
            raise Unsupported('range step')
        d = add(hi, scale(lo, -1))
        if not I.branch(le(ZERO, d)):
            return LList()
        q = T.exact_div(d, st)
        n = q if q is not None and q.isint else T.idiv(add(d, st, const(-1)), st)
    r = seq_of(I, n, lambda k: mk(add(lo, mul(st, k)), 'i'), 'range')
    return LList(r) if isinstance(r, list) else r


def b_enumerate(I, v, start=0):
    it = iterate(I, v)
    s = num(start)
    if isinstance(it, list):
        return LList([(mk(add(s, const(i)), 'i'), x) for i, x in enumerate(it)])
    return SSeq(it.length, lambda k: (mk(add(s, k), 'i'), it.elem(k)))


def b_zip(I, *vs):
    from .interp import StarSeq
    if len(vs) == 1 and isinstance(vs[0], StarSeq):
        s = vs[0].seq
        e = s.elem(T.fresh('k'))
        if not isinstance(e, tuple):
            raise Unsupported('zip(*symbolic)')
        return LList([SSeq(s.length, lambda k, j=j: s.elem(k)[j], 'tuple') for j in range(len(e))])
    its = [iterate(I, v) for v in vs]
    if all(isinstance(x, list) for x in its):
        return LList(list(zip(*its)))
    conc = [len(x) for x in its if isinstance(x, list)]
    if conc:
        n = min(conc)
        for x in its:
            if isinstance(x, SSeq):
                if not I.branch(le(const(n), x.length)):
                    m = 0
                    while not I.branch(eq(x.length, const(m))):
                        m += 1
                    n = min(n, m)
        return LList([tuple(x[i] if isinstance(x, list) else x.elem(const(i)) for x in its) for i in range(n)])
    n = its[0].length
    for x in its[1:]:
        if x.length is not n and not I.branch(eq(x.length, n)):
            n = x.length if I.branch(le(x.length, n)) else n
    return SSeq(n, lambda k: tuple(x.elem(k) for x in its))


def b_map(I, f, *vs):
    if len(vs) == 1:
        it = iterate(I, vs[0])
        get = lambda x: [x]
    else:
        it = iterate(I, b_zip(I, *vs))
        get = list
    if isinstance(it, list):
        return LList([I.call(f, get(x), {}) for x in it])
    from . import loops
    return loops.map_seq(I, it, lambda x: I.call(f, get(x), {}))


def b_filter(I, f, v):
    it = iterate(I, v)
    if isinstance(it, list):
        return LList([x for x in it if I.truth(x if f is None else I.call(f, [x], {}))])
    raise Unsupported('filter of a symbolic sequence')


def b_reversed(I, v):
    it = iterate(I, v)
    if isinstance(it, list):
        return LList(reversed(it))
    n = it.length
    return SSeq(n, lambda k: it.elem(add(n, const(-1), scale(k, -1))))


def b_list(I, v=None):
    return LList(I.as_items(v)) if v is not None else LList()


def b_tuple(I, v=()):
    it = iterate(I, v)
    if isinstance(it, list):
        return tuple(it)
    return SSeq(it.length, it._elem, 'tuple')


def b_dict(I, *a, **k):
    d = LDict()
    if a:
        if isinstance(a[0], LDict):
            d.d.update(a[0].d)
        else:
            for x in iterate(I, a[0]):
                kk, vv = iterate(I, x)
                d.d[hkey(I, kk)] = vv
    d.d.update(k)
    return d


def b_set(I, v=()):
    return make_set(I, iterate(I, v))


def sum_values(I, seq, start=0):
    """sum over a symbolic-length sequence of scalars or arrays"""
    k = T.fresh('k')
    base = I.facts
    I.facts = base.plus(le(ZERO, k), lt(k, seq.length))
    try:
        e = seq.elem(k)
    finally:
        I.facts = base
    ka = var_atom(k)
    if is_num(e):
        body = num(e)
        dt = dt_of(e)
        v = mk(T.Sum(k, ZERO, seq.length, body), 'i' if dt == 'b' else dt)
        return v if start == 0 else ops.binary(I, 'Add', start, v)
    if isinstance(e, SArr):
        if any(ka.args[0] in s.fv for s in e.shape):
            raise Unsupported('sum of arrays of varying shape')
        if not I.branch(lt(ZERO, seq.length)):
            return start
        b = e.content().body()
        from .arrays import PHA

        def f(idx):
            t = subst(lift(b), {PHA[i]: idx[i] for i in range(len(idx))})
            return T.Sum(k, ZERO, seq.length, t)
        r = fresh_arr(e.shape, f, 'i' if e.dtype == 'b' else e.dtype)
        return r if start == 0 else ops.binary(I, 'Add', start, r)
    raise Unsupported('sum of %r' % (e,))


def b_sum(I, v, start=0):
    it = iterate(I, v)
    if isinstance(it, list):
        r = start
        for x in it:
            r = ops.binary(I, 'Add', r, x)
        return r
    return sum_values(I, it, start)


def b_minmax(which):
    def f(I, *a, key=None, default=None):
        if len(a) == 1:
            it = iterate(I, a[0])
            if not isinstance(it, list):
                from . import npmodel
                k = T.fresh('k')
                I.assume_or_raise(lt(ZERO, it.length), 'ValueError')
                return npmodel.extremum(I, which, it.length, lambda j: num(it.elem(j)), dt_of(it.elem(k)))
        else:
            it = list(a)
        if not it:
            if default is not None:
                return default
            I.raise_('ValueError', which + '() arg is an empty sequence')
        if key is not None:
            raise Unsupported(which + ' with key')
        r = it[0]
        for x in it[1:]:
            if not isinstance(r, (Sc, B)) and not isinstance(x, (Sc, B)) and not isinstance(r, SArr):
                r = (max if which == 'max' else min)(r, x)
            else:
                a_, b_ = num(r), num(x)
                r = mk((T.tmax if which == 'max' else T.tmin)(a_, b_), ops.join(dt_of(r), dt_of(x)))
        return r
    return f


def b_all(I, v):
    it = iterate(I, v)
    if isinstance(it, list):
        for x in it:
            if not I.truth(x):
                return False
        return True
    k = T.fresh('k')
    base = I.facts
    I.facts = base.plus(le(ZERO, k), lt(k, it.length))
    try:
        b = T.mkbool(I.tobool(it.elem(k)))
    finally:
        I.facts = base
    return mk(T.Forall(k, ZERO, it.length, b))


def b_any(I, v):
    it = iterate(I, v)
    if isinstance(it, list):
        for x in it:
            if I.truth(x):
                return True
        return False
    k = T.fresh('k')
    base = I.facts
    I.facts = base.plus(le(ZERO, k), lt(k, it.length))
    try:
        b = T.mkbool(I.tobool(it.elem(k)))
    finally:
        I.facts = base
    return mk(Not(T.Forall(k, ZERO, it.length, Not(b))))


def b_abs(I, v):
    if isinstance(v, (int, float)):
        return abs(v)
    if isinstance(v, SArr):
        return ops.elementwise(I, [v], lambda x: T.tabs(lift(x)), v.dtype)
    return mk(T.tabs(num(v)), dt_of(v))


def b_int(I, v=0):
    if isinstance(v, str):
        return int(v)
    if isinstance(v, (int, float)):
        return int(v)
    return mk(T.fn('trunc', num(v)), 'i')


def b_float(I, v=0.0):
    if isinstance(v, str):
        return float(v)
    if isinstance(v, float):
        return v
    return Sc(num(v), 'f')


def b_bool(I, v=False):
    t = I.tobool(v)
    return t if isinstance(t, bool) else mk(t)


def b_isinstance(I, v, t):
    if isinstance(t, tuple):
        return any(b_isinstance(I, v, x) for x in t)
    if t is I.builtins['int']:
        return isinstance(v, int) or (isinstance(v, Sc) and v.dt == 'i')
    if t is I.builtins['float']:
        return isinstance(v, float) or (isinstance(v, Sc) and v.dt == 'f')
    if t is I.builtins['bool']:
        return isinstance(v, (bool, B))
    if t is I.builtins['str']:
        return isinstance(v, str)
    if t is I.builtins['list']:
        return isinstance(v, LList)
    if t is I.builtins['tuple']:
        return isinstance(v, tuple)
    if t is I.builtins['dict']:
        return isinstance(v, LDict)
    if t is I.builtins['set']:
        return isinstance(v, (LSet, SeqSet))
    if t is I.builtins['property']:
        return isinstance(v, Prop)
    if isinstance(t, Cls):
        if t.name == 'function':
            return isinstance(v, Fn)
        if t.name == 'ndarray':
            return isinstance(v, (SArr, OArr))
        c = getattr(v, 'cls', None)
        return c is not None and t in c.mro
    raise Unsupported('isinstance(%r)' % (t,))


def b_type(I, v):
    c = getattr(v, 'cls', None)
    if c is not None:
        return c
    for n, p in (('bool', bool), ('int', int), ('float', float), ('str', str), ('tuple', tuple)):
        if isinstance(v, p):
            return I.builtins[n]
    raise Unsupported('type()')


def b_getattr(I, o, name, default=UNBOUND):
    if default is UNBOUND:
        return I.getattr(o, name)
    try:
        return I.getattr(o, name, default)
    except PyRaise as e:
        if I.exc_match(e.exc, I.excs['AttributeError']):
            return default
        raise


def b_hasattr(I, o, name):
    return I._getattr(o, name) is not UNBOUND


def b_sorted(I, v, key=None, reverse=False):
    it = iterate(I, v)
    if isinstance(it, list) and key is not None:
        ks = [I.call(key, (x,), {}) for x in it]
        if len(it) < 2:
            return LList(list(it))
        if all(isinstance(x, (int, str, float)) for x in ks) or all(
                isinstance(x, tuple) and all(isinstance(y, (int, str, float)) for y in x) for x in ks):
            return LList([it[i] for i in sorted(range(len(it)), key=lambda i: ks[i], reverse=bool(reverse))])
    if isinstance(it, list) and all(isinstance(x, (int, str, float)) for x in it) and key is None:
        return LList(sorted(it, reverse=bool(reverse)))
    if isinstance(it, list) and all(isinstance(x, tuple) and all(isinstance(y, (int, str)) for y in x)
                                    for x in it) and key is None:
        return LList(sorted(it, reverse=bool(reverse)))
    raise Unsupported('sorted of symbolic values')


def b_slice(I, *a):
    if len(a) == 1:
        return ops.SliceV(None, a[0], None)
    return ops.SliceV(a[0], a[1], a[2] if len(a) > 2 else None)


def b_next(I, v, *d):
    it = iterate(I, v)
    if isinstance(it, list):
        if it:
            if isinstance(v, LList):
                v.set_items(v.items[1:])
            return it[0]
        if d:
            return d[0]
        I.raise_('StopIteration')
    raise Unsupported('next of a symbolic sequence')


def b_pow(I, a, b):
    return ops.binary(I, 'Pow', a, b)


def b_divmod(I, a, b):
    return (ops.binary(I, 'FloorDiv', a, b), ops.binary(I, 'Mod', a, b))


def b_round(I, v, *a):
    raise Unsupported('round')


def b_property(I, fget=None, fset=None, fdel=None, doc=None):
    return Prop(fget, fset)


def tag(name, f):
    c = TypeTag(name, lambda I, cls, args, kw: f(I, *args, **kw), (OBJECT,))
    return c


def install(I):
    b = I.builtins
    for n, f in dict(len=b_len, range=b_range, enumerate=b_enumerate, zip=b_zip, map=b_map, filter=b_filter,
                     reversed=b_reversed, sum=b_sum, min=b_minmax('min'), max=b_minmax('max'), all=b_all, any=b_any,
                     abs=b_abs, isinstance=b_isinstance, type=b_type, getattr=b_getattr, hasattr=b_hasattr,
                     sorted=b_sorted, slice=b_slice, next=b_next, pow=b_pow, divmod=b_divmod, round=b_round,
                     iter=lambda I, v: v, print=lambda I, *a, **k: None,
                     repr=lambda I, v: Opaque('repr'), id=lambda I, v: id(v),
                     setattr=lambda I, o, n, v: I.setattr(o, n, v), vars=lambda I, o: LDict(o.attrs),
                     callable=lambda I, v: isinstance(v, (Fn, BM, Native, Cls, Partial)),
                     issubclass=lambda I, a, t: any(x in a.mro for x in (t if isinstance(t, tuple) else (t,))),
                     format=lambda I, *a: Opaque('format')).items():
        b[n] = Native(n, f)
    for n, f in dict(int=b_int, float=b_float, bool=b_bool, list=b_list, tuple=b_tuple, dict=b_dict, set=b_set,
                     frozenset=b_set,
                     str=lambda I, v='': v if isinstance(v, str) else str(v) if isinstance(v, int) else Opaque('str')
                     ).items():
        b[n] = tag(n, f)
    b['property'] = Native('property', b_property)
    b['staticmethod'] = Native('staticmethod', lambda I, f: Static(f))
    b['classmethod'] = Native('classmethod', lambda I, f: ClassM(f))
    b['object'] = OBJECT
    b['Ellipsis'] = Ellipsis
    b['NotImplemented'] = Opaque('NotImplemented')
    b['__name__'] = 'builtins'
    for n, c in I.excs.items():
        b[n] = c


# ------------------------------------------------------------------ methods
def method(I, o, name):
    if isinstance(o, (SArr, OArr, MaskSel)):
        from . import npmodel
        return npmodel.arr_attr(I, o, name)
    if isinstance(o, (Sc, int, float, B)) and not isinstance(o, str):
        return scalar_attr(I, o, name)
    tab = METHODS.get(type(o))
    if tab and name in tab:
        f = tab[name]
        return Native(name, lambda I2, *a, **k: f(I2, o, *a, **k))
    if isinstance(o, (BM, Native, Partial)):
        if isinstance(o, BM) and isinstance(o.fn, Fn):
            if name == '__name__':
                return o.fn.name
            if name == '__self__':
                return o.self
            if name in o.fn.attrs:
                v = o.fn.attrs[name]
                return v
        return UNBOUND
    if isinstance(o, Prop):
        if name == 'setter':
            return Native('setter', lambda I2, f: Prop(o.fget, f))
        if name in ('fget', 'fset'):
            return getattr(o, name)
        if name == '__doc__':
            return None
    if isinstance(o, ops.SliceV):
        return {'start': o.lo, 'stop': o.hi, 'step': o.step}.get(name, UNBOUND)
    if isinstance(o, Opaque):
        return Opaque(name)
    return UNBOUND


def scalar_attr(I, o, name):
    if name == 'bit_length':
        def f(I2):
            if isinstance(o, int):
                return o.bit_length()
            if not I2.branch(le(ZERO, num(o))):
                raise Unsupported('bit_length of a negative number')
            return mk(T.app('bitlen', (num(o),), 'i'), 'i')
        return Native('bit_length', f)
    if name == 'astype':
        return Native('astype', lambda I2, t, **k: __import__('pv.npmodel', fromlist=['x']).cast_scalar(I2, o, t))
    if name in ('item', 'copy', 'view'):
        return Native(name, lambda I2, *a: o)
    if name in ('reshape', 'ravel', 'sum', 'mean', 'max', 'min', 'dot', 'flatten', 'prod') and not isinstance(o, int):
        from . import npmodel
        return npmodel.arr_attr(I, ops.to_arr(I, o), name)
    if name == 'shape' and not isinstance(o, int):
        return ()
    if name == 'ndim':
        return 0
    if name == 'size':
        return 1
    if name == 'T':
        return o
    return UNBOUND


def l_append(I, o, x):
    o.set_items(o.items + [x])


def l_extend(I, o, xs):
    o.set_items(o.items + I.as_items(xs))


def l_pop(I, o, k=-1):
    if not o.items:
        I.raise_('IndexError', 'pop from empty list')
    its = list(o.items)
    if isinstance(its[k], Seg):
        raise Unsupported('pop from a symbolic list')
    x = its.pop(k)
    o.set_items(its)
    return x


def l_insert(I, o, k, x):
    its = list(o.items)
    if not o.concrete() and k != 0:
        raise Unsupported('insert into symbolic list')
    its.insert(k, x)
    o.set_items(its)


def l_index(I, o, x):
    for i, y in enumerate(o.items if isinstance(o, LList) else o):
        if I.truth(mk(T.mkbool(ops.equal(I, y, x)))):
            return i
    I.raise_('ValueError', 'not in list')


def l_reverse(I, o):
    o.set_items(I.as_items(b_reversed(I, o)))


def l_copy(I, o):
    return LList(o.items)


def l_sort(I, o, **k):
    o.set_items(b_sorted(I, o, **k).items)


def d_get(I, o, k, d=None):
    return o.d.get(hkey(I, k), d)


def d_setdefault(I, o, k, d=None):
    kk = hkey(I, k)
    if kk not in o.d:
        o.put(kk, d)
    return o.d[kk]


def d_update(I, o, *a, **k):
    nd = dict(o.d)
    if a:
        nd.update(a[0].d if isinstance(a[0], LDict) else b_dict(I, a[0]).d)
    nd.update(k)
    Loc('dict', o).write(nd)


def d_pop(I, o, k, *d):
    kk = hkey(I, k)
    if kk in o.d:
        nd = dict(o.d)
        v = nd.pop(kk)
        Loc('dict', o).write(nd)
        return v
    if d:
        return d[0]
    I.raise_('KeyError', k)


def s_add(I, o, x):
    o_items = make_set(I, o.items + [x]).items
    Loc('list', o).write(o_items)


def s_pop(I, o):
    if not o.items:
        I.raise_('KeyError', 'pop from an empty set')
    x = o.items[0]
    Loc('list', o).write(o.items[1:])
    return x


METHODS = {
    LList: dict(append=l_append, extend=l_extend, pop=l_pop, insert=l_insert, index=l_index, reverse=l_reverse,
                copy=l_copy, sort=l_sort,
                count=lambda I, o, x: sum(1 for y in o.items if I.truth(mk(T.mkbool(ops.equal(I, y, x)))))),
    tuple: dict(index=l_index, count=lambda I, o, x: sum(1 for y in o if I.truth(mk(T.mkbool(ops.equal(I, y, x)))))),
    LDict: dict(get=d_get, setdefault=d_setdefault, update=d_update, pop=d_pop,
                keys=lambda I, o: LList(o.d.keys()), values=lambda I, o: LList(o.d.values()),
                items=lambda I, o: LList([(k, v) for k, v in o.d.items()]), copy=lambda I, o: LDict(o.d)),
    LSet: dict(add=s_add, pop=s_pop, union=lambda I, o, x: make_set(I, o.items + I.as_items(x)),
               issubset=lambda I, o, x: mk(And(*[T.mkbool(ops.contains(I, x, e)) for e in o.items]))),
    str: dict(format=lambda I, o, *a, **k: (o.format(*a, **k) if all(isinstance(x, (int, str)) for x in
                                            list(a) + list(k.values())) else Opaque('format')),
              join=lambda I, o, v: Opaque('join'), startswith=lambda I, o, p: o.startswith(p),
              endswith=lambda I, o, p: o.endswith(p), lower=lambda I, o: o.lower(), strip=lambda I, o: o.strip(),
              split=lambda I, o, *a: LList(o.split(*a)), upper=lambda I, o: o.upper(),
              replace=lambda I, o, a, b: o.replace(a, b)),
}
