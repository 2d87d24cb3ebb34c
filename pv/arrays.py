"""Symbolic numpy arrays: storage + views."""
from . import terms as T
from .terms import (Poly, B, ZERO, ONE, TRUE, FALSE, And, Or, Not, eq, le, lt, ite, var, const, lift,
                    add, mul, scale, subst, var_atom)
from .values import (J, Loc, Sc, mk, num, dt_of, Unsupported, Obj, Env, Fn, BM, LList, LDict, LSet, SSeq, Seg,
                     Partial, Static, Cls, SeqSet, PSeq)

PH = [var('%%%d' % i) for i in range(8)]
PHA = [var_atom(p) for p in PH]


class Content:
    __slots__ = ('rank', 'f', '_body', 'memo')

    def __init__(self, rank, f, body=None):
        self.rank, self.f, self._body = rank, f, body
        self.memo = {}

    def body(self):
        if self._body is None:
            self._body = self.f(tuple(PH[:self.rank]))
            self.f = None
        return self._body

    def at(self, idx):
        if self._body is None:
            r = self.memo.get(idx)
            if r is None:
                r = self.memo[idx] = self.f(idx)
            return r
        b = self._body
        if self.rank == 0:
            return b
        return subst(b, {PHA[i]: idx[i] for i in range(self.rank)})


class Store:
    def __init__(self, shape, content):
        self.shape = shape
        self.content = content
        self.stamp = J.stamp()

    def get(self, idx):
        return self.content.at(idx)

    def set_content(self, c):
        Loc('store', self).write(c)


def row_major(idx, shape):
    p = ZERO
    for i, s in zip(idx, shape):
        p = add(mul(p, s), i)
    return p


def unravel(p, shape):
    out = []
    for k in range(len(shape) - 1, -1, -1):
        if k == 0:
            out.append(p)
        elif shape[k] is ONE:
            out.append(ZERO)
        else:
            out.append(T.imod(p, shape[k]))
            p = T.idiv(p, shape[k])
    return tuple(reversed(out))


def size_of(shape):
    p = ONE
    for s in shape:
        p = mul(p, s)
    return p


class SArr:
    """fwd: view index -> store index;  inv: store index -> (cond, view index)"""

    def __init__(self, store, shape, dtype, fwd=None, inv=None, contig=True):
        self.store, self.shape, self.dtype = store, tuple(shape), dtype
        self.fwd, self.inv, self.contig = fwd, inv, contig
        self.name = None
        if not hasattr(store, 'dtype'):
            store.dtype = dtype

    @property
    def ndim(self):
        return len(self.shape)

    def at(self, *idx):
        if len(idx) == 1 and isinstance(idx[0], tuple):
            idx = idx[0]
        idx = tuple(lift(i) for i in idx)
        return self.store.get(self.fwd(idx) if self.fwd else idx)

    def content(self):
        """pure snapshot"""
        c = self.store.content
        if self.fwd is None:
            return c
        fwd = self.fwd
        return Content(len(self.shape), lambda idx: c.at(fwd(idx)))

    def copy(self, dtype=None):
        c = self.content()
        return SArr(Store(self.shape, conv(c, self.dtype, dtype or self.dtype)), self.shape, dtype or self.dtype)

    def view(self, shape, fwd, inv, contig):
        f0, i0 = self.fwd, self.inv
        f = fwd if f0 is None else (lambda idx: f0(fwd(idx)))
        if i0 is None:
            iv = inv
        else:
            def iv(s):
                c, m = i0(s)
                c2, m2 = inv(m)
                return And(c, c2), m2
        a = SArr(self.store, shape, self.dtype, f, iv, contig)
        return a

    def write(self, val):
        """val: view idx -> term (already of this dtype)"""
        old = self.store.content
        if self.inv is None:
            self.store.set_content(Content(len(self.store.shape), val))
            return
        inv = self.inv

        def f(s):
            c, idx = inv(s)
            if c is FALSE:
                return old.at(s)
            v = val(idx)
            return tite(c, v, old.at(s))
        self.store.set_content(Content(len(self.store.shape), f))

    def as_scalar(self):
        if len(self.shape) == 0:
            return num(mk(self.at(())))
        if all(s is ONE for s in self.shape):
            return num(mk(self.at(tuple(ZERO for _ in self.shape))))
        raise Unsupported('array used as a number')

    def __repr__(self):
        return '<arr %s %s>' % (self.shape, self.dtype)


def tite(c, a, b):
    if isinstance(a, B) or isinstance(b, B):
        return T.bite(c, T.mkbool(a), T.mkbool(b))
    return ite(c, a, b)


def fresh_arr(shape, f, dtype):
    """f: idx tuple -> term"""
    shape = tuple(lift(s) for s in shape)
    return SArr(Store(shape, Content(len(shape), f)), shape, dtype)


def conv(c, frm, to):
    if frm == to or to == 'O':
        return c
    if to == 'f':
        if frm == 'b':
            return Content(c.rank, lambda idx: lift(c.at(idx)))
        return c
    if to == 'i':
        if frm == 'b':
            return Content(c.rank, lambda idx: lift(c.at(idx)))
        return Content(c.rank, lambda idx: T.fn('trunc', c.at(idx)))
    if to == 'b':
        return Content(c.rank, lambda idx: T.ne(lift(c.at(idx)), ZERO))
    raise Unsupported('conversion %s -> %s' % (frm, to))


def conv_term(t, frm, to):
    if frm == to or to == 'O':
        return t
    if to == 'f':
        return lift(t)
    if to == 'i':
        t = lift(t)
        return T.fn('trunc', t) if frm == 'f' else t
    if to == 'b':
        return T.mkbool(t) if isinstance(t, B) else T.ne(lift(t), ZERO)
    raise Unsupported('conversion %s -> %s' % (frm, to))


class MaskSel:
    """a[mask]: values of the full array restricted to a mask"""

    def __init__(self, mask, shape, f, dtype):
        self.mask, self.shape, self.f, self.dtype = mask, shape, f, dtype


class OArr:
    """object-dtype array with concrete or symbolic extent; get(idx polys)->value"""

    def __init__(self, shape, get):
        self.shape, self.get = tuple(shape), get
        self.stamp = J.stamp()


# ------------------------------------------------------------------ mapping terms through values
def vmap(v, tf, memo=None):
    memo = {} if memo is None else memo
    return _vm(v, tf, memo)


def _vm(v, tf, memo):
    if v is None or isinstance(v, (int, float, str, bool)):
        return v
    if isinstance(v, Sc):
        p = tf(v.p)
        return v if p is v.p else mk(p, v.dt)
    if isinstance(v, B):
        return mk(tf(v))
    if isinstance(v, Poly):
        return tf(v)
    if isinstance(v, tuple):
        r = tuple(_vm(x, tf, memo) for x in v)
        return v if all(a is b for a, b in zip(r, v)) else r
    k = id(v)
    if k in memo:
        return memo[k][0]
    if isinstance(v, SArr):
        return _vm_arr(v, tf, memo)
    if isinstance(v, LList):
        new = LList()
        memo[k] = (new, v)
        its = [Seg(_vm(x.seq, tf, memo)) if isinstance(x, Seg) else _vm(x, tf, memo) for x in v.items]
        same = all((a.seq is b.seq) if isinstance(a, Seg) else (a is b) for a, b in zip(its, v.items))
        if same:
            memo[k] = (v, v)
            return v
        new.items = its
        return new
    if isinstance(v, LDict):
        new = LDict()
        memo[k] = (new, v)
        d = {kk: _vm(x, tf, memo) for kk, x in v.d.items()}
        if all(d[kk] is v.d[kk] for kk in d):
            memo[k] = (v, v)
            return v
        new.d = d
        return new
    if isinstance(v, SSeq):
        ph = T.fresh('q')
        ln = tf(v.length)
        probe = None
        old = v

        def elem(kk):
            # tf must not touch the fresh index: evaluate generically, then instantiate
            nonlocal probe
            if probe is None:
                probe = _vm(old.elem(ph), tf, {})
            pa = var_atom(ph)
            return vmap(probe, lambda t: subst(t, {pa: kk}))
        r = SSeq(ln, elem, v.kind)
        memo[k] = (r, v)
        return r
    if isinstance(v, Obj):
        new = Obj(v.cls)
        memo[k] = (new, v)
        d = {kk: _vm(x, tf, memo) for kk, x in v.attrs.items()}
        if all(d[kk] is v.attrs[kk] for kk in d):
            memo[k] = (v, v)
            return v
        new.attrs = d
        return new
    if isinstance(v, BM):
        s = _vm(v.self, tf, memo)
        f = _vm(v.fn, tf, memo)
        return v if s is v.self and f is v.fn else BM(s, f)
    if isinstance(v, Partial):
        a = [_vm(x, tf, memo) for x in v.args]
        kw = {kk: _vm(x, tf, memo) for kk, x in v.kw.items()}
        return Partial(_vm(v.fn, tf, memo), a, kw)
    if isinstance(v, Fn):
        if v.env is None or v.env.parent is None and not v.env.vars:
            return v
        e = _vm_env(v.env, tf, memo)
        if e is v.env:
            return v
        f = Fn(v.node, e, v.name, v.interp, v.defaults, v.kwdefaults, v.mod, v.cls)
        f.scope = v.scope
        f._globals = v._globals
        f.attrs = v.attrs
        return f
    if isinstance(v, MaskSel):
        raise Unsupported('masked selection escaping a loop body')
    h = getattr(v, 'pv_map', None)
    if h is not None:
        r = h(lambda x: _vm(x, tf, memo), tf)
        memo[k] = (r, v)
        return r
    return v


def _vm_env(e, tf, memo):
    k = id(e)
    if k in memo:
        return memo[k][0]
    if e.fn is None and e.parent is None:
        return e
    new = Env(e.parent, e.globals, e.locals, e.nonlocals, e.globaldecl)
    memo[k] = (new, e)
    new.vars = {n: _vm(x, tf, memo) for n, x in e.vars.items()}
    if e.parent is not None:
        new.parent = _vm_env(e.parent, tf, memo)
    if new.parent is e.parent and all(new.vars[n] is e.vars[n] for n in e.vars):
        memo[k] = (e, e)
        return e
    return new


def _vm_store(s, tf, memo):
    k = id(s)
    if k in memo:
        return memo[k][0]
    b = s.content.body()
    nb = tf(b)
    shp = tuple(tf(x) for x in s.shape)
    if nb is b and all(x is y for x, y in zip(shp, s.shape)):
        memo[k] = (s, s)
        return s
    r = Store(shp, Content(s.content.rank, None, nb))
    memo[k] = (r, s)
    return r


def _vm_arr(v, tf, memo):
    k = id(v)
    shp = tuple(tf(x) for x in v.shape)
    st = _vm_store(v.store, tf, memo)
    fwd, inv = v.fwd, v.inv
    changed = st is not v.store or any(x is not y for x, y in zip(shp, v.shape))
    if v.fwd is not None:
        probe = v.fwd(tuple(PH[:len(shp)]))
        np_ = tuple(tf(x) for x in probe)
        if any(x is not y for x, y in zip(probe, np_)):
            changed = True
        if changed:
            def fwd(idx, b=np_):
                m = {PHA[i]: idx[i] for i in range(len(idx))}
                return tuple(subst(x, m) for x in b)
            r0 = len(v.store.shape)
            c, ii = v.inv(tuple(PH[:r0]))
            c, ii = tf(c), tuple(tf(x) for x in ii)

            def inv(s, c=c, ii=ii):
                m = {PHA[i]: s[i] for i in range(len(s))}
                return subst(c, m), tuple(subst(x, m) for x in ii)
    if not changed:
        memo[k] = (v, v)
        return v
    r = SArr.__new__(type(v))
    r.__dict__.update(v.__dict__)
    r.store, r.shape, r.fwd, r.inv = st, shp, fwd, inv
    memo[k] = (r, v)
    return r
