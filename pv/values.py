"""Runtime values of the symbolic interpreter, and the undo journal."""
from fractions import Fraction
from . import terms as T
from .terms import Poly, B, ZERO, ONE, const, lift, var, subst


class Unsupported(Exception):
    """construct outside the verifier's subset"""


class PyRaise(Exception):
    """a Python exception of the interpreted program"""

    def __init__(self, exc):
        super().__init__(exc)
        self.exc = exc


class Journal:
    def __init__(self):
        self.log = []
        self.serial = 0

    def stamp(self):
        self.serial += 1
        return self.serial

    def mark(self):
        return len(self.log)

    def rollback(self, mark):
        while len(self.log) > mark:
            loc, old = self.log.pop()
            loc.restore(old)


J = Journal()


class Loc:
    __slots__ = ('kind', 'obj', 'key')

    def __init__(self, kind, obj, key=None):
        self.kind, self.obj, self.key = kind, obj, key

    def ident(self):
        return (self.kind, id(self.obj), self.key)

    def read(self):
        k = self.kind
        if k == 'var':
            return self.obj.vars.get(self.key, UNBOUND)
        if k == 'attr':
            return self.obj.attrs.get(self.key, UNBOUND)
        if k == 'store':
            return self.obj.content
        if k == 'list':
            return list(self.obj.items)
        if k == 'dict':
            return dict(self.obj.d)
        if k == 'spec':
            return self.obj.fac
        raise ValueError(k)

    def restore(self, old):
        k = self.kind
        if k == 'var':
            if old is UNBOUND:
                self.obj.vars.pop(self.key, None)
            else:
                self.obj.vars[self.key] = old
        elif k == 'attr':
            if old is UNBOUND:
                self.obj.attrs.pop(self.key, None)
            else:
                self.obj.attrs[self.key] = old
        elif k == 'store':
            self.obj.content = old
        elif k == 'list':
            self.obj.items = old
        elif k == 'dict':
            self.obj.d = old
        elif k == 'spec':
            self.obj.fac = old

    def write(self, new):
        J.log.append((self, self.read()))
        self.restore(new)


class _Unbound:
    def __repr__(self):
        return '<unbound>'


UNBOUND = _Unbound()


class Poison:
    """value of a loop-carried location during loop summarisation"""

    def __init__(self, loc):
        self.loc = loc


class CarriedRead(Exception):
    def __init__(self, loc):
        self.loc = loc


class Env:
    __slots__ = ('vars', 'parent', 'globals', 'locals', 'nonlocals', 'stamp', 'fn', 'globaldecl')

    def __init__(self, parent, globals_, locals_=(), nonlocals=(), globaldecl=()):
        self.vars = {}
        self.parent, self.globals = parent, globals_
        self.locals, self.nonlocals, self.globaldecl = locals_, nonlocals, globaldecl
        self.stamp = J.stamp()
        self.fn = None

    def set(self, name, val):
        Loc('var', self, name).write(val)


class Obj:
    """instance of an interpreted class"""

    def __init__(self, cls):
        self.cls = cls
        self.attrs = {}
        self.stamp = J.stamp()

    def __repr__(self):
        return '<%s>' % self.cls.name


class Cls:
    def __init__(self, name, bases, ns, mod):
        self.name, self.bases, self.attrs, self.mod = name, bases, ns, mod
        self.stamp = J.stamp()
        self.mro = self._mro()

    def _mro(self):
        def merge(seqs):
            out = []
            seqs = [list(s) for s in seqs if s]
            while seqs:
                for s in seqs:
                    h = s[0]
                    if not any(h in t[1:] for t in seqs):
                        break
                else:
                    raise Unsupported('mro')
                out.append(h)
                seqs = [[x for x in s if x is not h] for s in seqs]
                seqs = [s for s in seqs if s]
            return out
        return [self] + merge([b.mro for b in self.bases] + [list(self.bases)])

    def lookup(self, name):
        for c in self.mro:
            if name in c.attrs:
                return c.attrs[name]
        return UNBOUND

    def __repr__(self):
        return '<class %s>' % self.name


class NativeCls(Cls):
    """class implemented by the model; construct(interp, cls, args, kw)"""

    def __init__(self, name, construct=None, bases=(), attrs=None):
        self.name, self.bases, self.attrs, self.mod = name, tuple(bases), attrs or {}, None
        self.stamp = J.stamp()
        self.construct = construct
        self.mro = self._mro()


OBJECT = NativeCls('object')


class Fn:
    def __init__(self, node, env, name, interp, defaults, kwdefaults, mod, cls=None):
        self.node, self.env, self.name, self.interp = node, env, name, interp
        self.defaults, self.kwdefaults, self.mod, self.cls = defaults, kwdefaults, mod, cls
        self.attrs = {}
        self.stamp = J.stamp()
        self.scope = None

    @property
    def qual(self):
        return '%s.%s' % (self.mod, self.name)

    def __repr__(self):
        return '<fn %s>' % self.qual


class BM:
    def __init__(self, self_, fn):
        self.self, self.fn = self_, fn

    def __repr__(self):
        return '<bound %r of %r>' % (self.fn, self.self)


class Static:
    def __init__(self, fn):
        self.fn = fn


class ClassM:
    def __init__(self, fn):
        self.fn = fn


class Prop:
    def __init__(self, fget, fset=None):
        self.fget, self.fset = fget, fset


class Native:
    """python callable of the model: f(interp, *args, **kw)"""

    def __init__(self, name, f):
        self.name, self.f = name, f

    def __repr__(self):
        return '<native %s>' % self.name


class Partial:
    def __init__(self, fn, args, kw):
        self.fn, self.args, self.kw = fn, args, kw


class Super:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class Mod:
    def __init__(self, name):
        self.name = name
        self.vars = {}
        self.stamp = J.stamp()
        self.missing_ok = False

    def __repr__(self):
        return '<module %s>' % self.name


class Opaque:
    """value about which nothing is known (log messages, formatted strings, ...)"""

    def __init__(self, what=''):
        self.what = what

    def __repr__(self):
        return '<opaque %s>' % self.what


class Sc:
    """symbolic scalar"""
    __slots__ = ('p', 'dt')

    def __init__(self, p, dt):
        self.p, self.dt = p, dt

    def __repr__(self):
        return 'Sc(%r:%s)' % (self.p, self.dt)


def mk(p, dt=None):
    """Poly -> scalar value"""
    if isinstance(p, B):
        if p is T.TRUE:
            return True
        if p is T.FALSE:
            return False
        return p
    if dt is None:
        dt = 'i' if p.isint else 'f'
    if p.is_const() and dt == 'i' and p.const().denominator == 1:
        return int(p.const())
    return Sc(p, dt)


def is_num(v):
    return isinstance(v, (int, float, Sc, B, Fraction)) and not isinstance(v, str)


def num(v):
    """scalar value -> Poly"""
    if isinstance(v, Sc):
        return v.p
    if isinstance(v, Poly):
        return v
    if isinstance(v, B):
        return T.ite(v, ONE, ZERO)
    if isinstance(v, bool):
        return const(int(v))
    if isinstance(v, (int, Fraction)):
        return const(v)
    if isinstance(v, float):
        try:
            return const(v)
        except ValueError:
            raise Unsupported('non-finite float')
    h = getattr(v, 'as_scalar', None)
    if h is not None:
        return h()
    raise Unsupported('number expected, got %r' % (v,))


def dt_of(v):
    if isinstance(v, Sc):
        return v.dt
    if isinstance(v, (bool, B)):
        return 'b'
    if isinstance(v, int):
        return 'i'
    if isinstance(v, (float, Fraction)):
        return 'f'
    if hasattr(v, 'dtype'):
        return v.dtype
    raise Unsupported('dtype of %r' % (v,))


class SSeq:
    """immutable sequence of symbolic length; elem: Poly -> value"""

    def __init__(self, length, elem, kind='list'):
        self.length, self._elem, self.kind = length, elem, kind
        self.cache = {}
        self.stamp = J.stamp()

    def elem(self, k):
        k = lift(k)
        r = self.cache.get(k)
        if r is None:
            r = self._elem(k)
            self.cache[k] = r
        return r

    def __repr__(self):
        return '<seq of %r>' % self.length


class PSeq:
    """cartesian product iteration space (itertools.product of symbolic ranges)"""

    def __init__(self, seqs):
        self.seqs = seqs


class Seg:
    """a symbolic segment inside an LList"""

    def __init__(self, seq):
        self.seq = seq


class LList:
    def __init__(self, items=()):
        self.items = list(items)
        self.stamp = J.stamp()

    def concrete(self):
        return not any(isinstance(x, Seg) for x in self.items)

    def set_items(self, items):
        Loc('list', self).write(list(items))

    def __repr__(self):
        return 'LList(%r)' % (self.items,)


class LDict:
    def __init__(self, d=None):
        self.d = dict(d or {})
        self.stamp = J.stamp()

    def put(self, k, v):
        nd = dict(self.d)
        nd[k] = v
        Loc('dict', self).write(nd)

    def __repr__(self):
        return 'LDict(%r)' % (self.d,)


class LSet:
    """set of concretely comparable elements, or of symbolic scalars/tuples"""

    def __init__(self, items=()):
        self.items = list(items)
        self.stamp = J.stamp()


class SeqSet:
    """set(seq) for a symbolic-length sequence"""

    def __init__(self, seq):
        self.seq = seq
