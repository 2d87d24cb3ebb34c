"""Term language of the verifier.

Numeric terms are canonical polynomials (class Poly) over atoms; atoms are
variables, applications of uninterpreted/specification functions, if-then-else,
integer div/mod, elementary functions and bounded sums.  Booleans are class B.
Everything is interned, so structural equality is identity.

Bound variables (sums, foralls, max) are named '#h' with h the height of the
binder, and only ever occur below their binder (locally nameless)."""
from fractions import Fraction
import math

_intern_atom = {}
_intern_poly = {}
_intern_b = {}
EMPTY = frozenset()
NumT = (int, Fraction)


class Atom:
    __slots__ = ('op', 'args', 'sort', 'id', 'height', 'fv', 'fa')

    def __repr__(self):
        return show_atom(self)


def _atom(op, args, sort):
    if op == 'app' and len(args) == 3 and args[0].startswith('inv@') and args[2].id < args[1].id:
        args = (args[0], args[2], args[1])  # inverse of a symmetric matrix
    key = (op, args, sort)
    a = _intern_atom.get(key)
    if a is not None:
        return a
    a = Atom()
    a.op, a.args, a.sort = op, args, sort
    a.id = len(_intern_atom)
    h = 0
    fv = set()
    fa = set()
    for x in args:
        if isinstance(x, (Poly, B)):
            h = max(h, x.height)
            fv |= x.fv
            fa |= x.fa
    if op == 'var':
        fv.add(args[0])
    if op == 'app':
        fa.add(args[0])
    if op in ('sum', 'max'):
        h += 1
        fv.discard('#%d' % h)
    a.height, a.fv, a.fa = h, frozenset(fv), frozenset(fa)
    _intern_atom[key] = a
    return a


class Poly:
    __slots__ = ('terms', 'id', 'height', 'fv', 'fa', '_int')

    # --- python operators so that specs read naturally
    def __add__(self, o):
        o2 = lift(o)
        return NotImplemented if o2 is None else add(self, o2)
    __radd__ = __add__

    def __neg__(self):
        return scale(self, -1)

    def __pos__(self):
        return self

    def __sub__(self, o):
        o2 = lift(o)
        return NotImplemented if o2 is None else add(self, scale(o2, -1))

    def __rsub__(self, o):
        o2 = lift(o)
        return NotImplemented if o2 is None else add(o2, scale(self, -1))

    def __mul__(self, o):
        o2 = lift(o)
        return NotImplemented if o2 is None else mul(self, o2)
    __rmul__ = __mul__

    def __truediv__(self, o):
        o2 = lift(o)
        return NotImplemented if o2 is None else div(self, o2)

    def __rtruediv__(self, o):
        return div(lift(o), self)

    def __floordiv__(self, o):
        return idiv(self, lift(o))

    def __rfloordiv__(self, o):
        return idiv(lift(o), self)

    def __mod__(self, o):
        return imod(self, lift(o))

    def __rmod__(self, o):
        return imod(lift(o), self)

    def __pow__(self, k):
        return power(self, k)

    def __lt__(self, o):
        return lt(self, lift(o))

    def __le__(self, o):
        return le(self, lift(o))

    def __gt__(self, o):
        return lt(lift(o), self)

    def __ge__(self, o):
        return le(lift(o), self)

    def __abs__(self):
        return tabs(self)

    # NB: == stays identity; use eq()
    def __repr__(self):
        return show(self)

    def is_const(self):
        return not self.terms or (len(self.terms) == 1 and not self.terms[0][0])

    def const(self):
        return self.terms[0][1] if self.terms else Fraction(0)

    @property
    def isint(self):
        return self._int

    def __bool__(self):
        raise TypeError('symbolic number used as a Python truth value: %s' % show(self))


def _poly(d):
    """d: dict mono -> Fraction"""
    items = tuple(sorted(((m, c) for m, c in d.items() if c != 0),
                         key=lambda t: tuple((a.id, e) for a, e in t[0])))
    p = _intern_poly.get(items)
    if p is not None:
        return p
    p = Poly()
    p.terms = items
    p.id = len(_intern_poly)
    h = 0
    fv = set()
    fa = set()
    isint = True
    for m, c in items:
        if c.denominator != 1:
            isint = False
        for a, e in m:
            h = max(h, a.height)
            fv |= a.fv
            fa |= a.fa
            if a.sort != 'i' or e < 0:
                isint = False
    p.height, p.fv, p._int, p.fa = h, frozenset(fv), isint, frozenset(fa)
    _intern_poly[items] = p
    return p


def const(c):
    if isinstance(c, bool):
        c = int(c)
    if isinstance(c, float):
        if c == math.pi:
            return PI
        c = Fraction(repr(c)) if math.isfinite(c) else None
        if c is None:
            raise ValueError('non-finite constant')
    return _poly({(): Fraction(c)}) if c else ZERO


def lift(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, bool):
        return const(int(x))
    if isinstance(x, (int, float, Fraction)):
        return const(x)
    if isinstance(x, B):
        return ite(x, ONE, ZERO)
    return None


def of_atom(a, e=1):
    return _poly({((a, e),): Fraction(1)})


def var(name, sort='i'):
    return of_atom(_atom('var', (name,), sort))


def app(name, args, sort='r'):
    args = tuple(lift(a) for a in args)
    return of_atom(_atom('app', (name,) + args, sort))


def bapp(name, args=()):
    """boolean-valued application"""
    args = tuple(lift(a) for a in args)
    return _b('batom', (_atom('app', (name,) + args, 'b'),))


def add(*ps):
    d = {}
    for p in ps:
        for m, c in p.terms:
            d[m] = d.get(m, 0) + c
    return _poly(d)


def scale(p, c):
    if c == 1:
        return p
    c = Fraction(c)
    return _poly({m: k * c for m, k in p.terms})


def _is_exp(a):
    return a.op == 'fn' and a.args[0] == 'exp'


def _mono_mul(m1, m2):
    """returns (coef, mono)"""
    if not m1:
        return None, m2
    if not m2:
        return None, m1
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return _mono_norm(d)


def _mono_norm(d):
    exps = [(a, e) for a, e in d.items() if _is_exp(a) and e]
    coef = None
    if len(exps) > 1 or (exps and exps[0][1] != 1):
        arg = ZERO
        for a, e in exps:
            del d[a]
            arg = add(arg, scale(a.args[1], e))
        ex = fn('exp', arg)
        if ex is not ONE:
            (m, c), = ex.terms
            for a, e in m:
                d[a] = d.get(a, 0) + e
    for a in list(d):
        e = d[a]
        if a.op == 'fn' and a.args[0] == 'sqrt' and a.args[1].is_const() and abs(e) >= 2:
            q = int(e / 2)
            k = a.args[1].const() ** q
            coef = k if coef is None else coef * k
            d[a] = e - 2 * q
    return coef, tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda t: t[0].id))


def mul(p, q):
    if not p.terms or not q.terms:
        return ZERO
    if p.is_const():
        return scale(q, p.const())
    if q.is_const():
        return scale(p, q.const())
    d = {}
    for m1, c1 in p.terms:
        for m2, c2 in q.terms:
            k, m = _mono_mul(m1, m2)
            c = c1 * c2 if k is None else c1 * c2 * k
            d[m] = d.get(m, 0) + c
    return _poly(d)


def power(p, k):
    if isinstance(k, Poly) and k.is_const():
        k = k.const()
    if isinstance(k, float) and k == int(k):
        k = int(k)
    if isinstance(k, Fraction) and k.denominator == 1:
        k = int(k)
    if isinstance(k, int):
        if k < 0:
            return div(ONE, power(p, -k))
        r = ONE
        for _ in range(k):
            r = mul(r, p)
        return r
    if isinstance(k, (float, Fraction)) and Fraction(k) * 2 == int(Fraction(k) * 2):
        n = int(Fraction(k) * 2)
        return power(fn('sqrt', p), n)
    raise ValueError('unsupported power')


def inv(p):
    if p.is_const():
        if not p.terms:
            raise ZeroDivisionError
        return const(1 / p.const())
    if len(p.terms) == 1:
        m, c = p.terms[0]
        k, mm = _mono_norm({a: -e for a, e in m})
        return _poly({mm: (1 / c) * (k or 1)})
    # common monomial factor
    lead = p.terms[0][1]
    q = scale(p, 1 / lead)
    return scale(of_atom(_atom('inv', (q,), 'r')), 1 / lead)


def div(p, q):
    if p is q and not q.is_const():
        return ONE
    if not q.is_const() and len(q.terms) > 1:
        lead = q.terms[0][1]
        if scale(q, 1 / lead) is scale(p, 1 / p.terms[0][1]) if p.terms else False:
            return const(p.terms[0][1] / lead)
    return mul(p, inv(q))


def exact_div(p, q):
    """polynomial p / q when q is a monomial-divisor of every term or p == k*q; else None"""
    if q.is_const() and q.terms:
        return scale(p, 1 / q.const())
    if len(q.terms) == 1:
        qm, qc = q.terms[0]
        d = {}
        for m, c in p.terms:
            md = dict(m)
            for a, e in qm:
                md[a] = md.get(a, 0) - e
                if md[a] < 0:
                    return None
            m2 = tuple(sorted(((a, e) for a, e in md.items() if e), key=lambda t: t[0].id))
            d[m2] = d.get(m2, 0) + c / qc
        return _poly(d)
    # multivariate division with remainder by leading term (lexicographic by ids)
    if not p.terms:
        return ZERO
    rem, quo = p, ZERO
    qm, qc = q.terms[-1]
    for _ in range(50):
        if not rem.terms:
            return quo
        done = False
        for m, c in reversed(rem.terms):
            md = dict(m)
            ok = True
            for a, e in qm:
                md[a] = md.get(a, 0) - e
                if md[a] < 0:
                    ok = False
            if ok:
                m2 = tuple(sorted(((a, e) for a, e in md.items() if e), key=lambda t: t[0].id))
                f = _poly({m2: c / qc})
                quo = add(quo, f)
                rem = add(rem, scale(mul(f, q), -1))
                done = True
                break
        if not done:
            return None
    return None


def _split_div(p, d):
    """p = d*q + r with q polynomial (monomials divisible by d)"""
    if d.is_const():
        c = d.const()
        q, r = {}, {}
        for m, k in p.terms:
            if k.denominator == 1 and c.denominator == 1:
                fl = k // c
                if m == ():
                    if fl:
                        q[m] = Fraction(fl)
                    if k - fl * c:
                        r[m] = k - fl * c
                elif k % c == 0:
                    q[m] = k / c
                else:
                    r[m] = k
            else:
                r[m] = k
        return _poly(q), _poly(r)
    if len(d.terms) == 1:
        dm, dc = d.terms[0]
        q, r = {}, {}
        for m, k in p.terms:
            md = dict(m)
            ok = k % dc == 0 if dc != 1 else True
            for a, e in dm:
                md[a] = md.get(a, 0) - e
                if md[a] < 0:
                    ok = False
            if ok:
                m2 = tuple(sorted(((a, e) for a, e in md.items() if e), key=lambda t: t[0].id))
                q[m2] = q.get(m2, 0) + k / dc
            else:
                r[m] = k
        return _poly(q), _poly(r)
    return ZERO, p


def idiv(p, d):
    if not (p.isint and d.isint):
        return fn('floor', div(p, d))
    if d.is_const() and p.is_const():
        return const(p.const() // d.const())
    if d is ONE:
        return p
    q, r = _split_div(p, d)
    if r is ZERO:
        return q
    return add(q, of_atom(_atom('div', (r, d), 'i')))


def imod(p, d):
    if not (p.isint and d.isint):
        return add(p, scale(mul(d, fn('floor', div(p, d))), -1))
    if d.is_const() and p.is_const():
        return const(p.const() % d.const())
    if d is ONE:
        return ZERO
    return add(p, scale(mul(d, idiv(p, d)), -1))


def fn(name, x):
    """elementary functions"""
    x = lift(x)
    if name == 'abs':
        return tabs(x)
    if name == 'exp':
        if x is ZERO:
            return ONE
        if len(x.terms) == 1 and x.terms[0][1] == 1 and len(x.terms[0][0]) == 1:
            a, e = x.terms[0][0][0]
            if a.op == 'fn' and a.args[0] == 'log' and e == 1:
                return a.args[1]
    elif name == 'log':
        if x is ONE:
            return ZERO
        if len(x.terms) == 1 and x.terms[0][1] == 1 and len(x.terms[0][0]) == 1:
            a, e = x.terms[0][0][0]
            if a.op == 'fn' and a.args[0] == 'exp' and e == 1:
                return a.args[1]
    elif name == 'sqrt':
        if x.is_const():
            c = x.const()
            if c >= 0:
                n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
                if n * n == c.numerator and d * d == c.denominator:
                    return const(Fraction(n, d))
    elif name == 'floor':
        if x.isint:
            return x
        if x.is_const():
            return const(math.floor(x.const()))
        # pull out integer part
        ip, rp = {}, {}
        for m, c in x.terms:
            if c.denominator == 1 and all(a.sort == 'i' and e > 0 for a, e in m):
                ip[m] = c
            else:
                rp[m] = c
        if ip:
            return add(_poly(ip), of_atom(_atom('fn', ('floor', _poly(rp)), 'i')))
        return of_atom(_atom('fn', ('floor', x), 'i'))
    elif name == 'sin':
        if x is ZERO:
            return ZERO
        if x.terms[0][1] < 0:
            return scale(fn('sin', scale(x, -1)), -1)
    elif name == 'cos':
        if x is ZERO:
            return ONE
        if x.terms[0][1] < 0:
            return fn('cos', scale(x, -1))
    elif name == 'trunc':
        if x.isint:
            return x
        return ite(le(ZERO, x), fn('floor', x), scale(fn('floor', scale(x, -1)), -1))
    return of_atom(_atom('fn', (name, x), 'r'))


def ite(c, a, b):
    if c is TRUE or c is True:
        return a
    if c is FALSE or c is False:
        return b
    if a is b:
        return a
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if b is ZERO and a.is_const() and a is not ONE:
        return scale(ite(c, ONE, ZERO), a.const())
    if a is ZERO and b.is_const() and b is not ONE:
        return scale(ite(c, ZERO, ONE), b.const())
    sort = 'i' if a.isint and b.isint else 'r'
    # |x|, min and max in one form: where the branches meet on the boundary, its side does not matter
    if sort == 'r' and c.op in ('le0', 'lt0'):
        p, d = c.args[0], add(a, scale(b, -1))
        if len(p.terms) == len(d.terms) and p.terms[0][0] == d.terms[0][0] and \
                scale(p, d.terms[0][1] / p.terms[0][1]) is d:
            q, x, y = (p, a, b) if p.terms[0][1] > 0 else (scale(p, -1), b, a)
            c, a, b = le(q, ZERO), x, y
    # normalise: common part out
    if a.terms and b.terms and len(a.terms) + len(b.terms) > 2:
        da, db = dict(a.terms), dict(b.terms)
        com = {m: k for m, k in da.items() if db.get(m) == k}
        if com:
            cp = _poly(com)
            return add(cp, ite(c, add(a, scale(cp, -1)), add(b, scale(cp, -1))))
    return of_atom(_atom('ite', (c, a, b), sort))


def tabs(x):
    if x.is_const():
        return const(abs(x.const()))
    return ite(le(ZERO, x), x, scale(x, -1))


def tmin(a, b):
    return ite(le(a, b), a, b)


def tmax(a, b):
    return ite(le(a, b), b, a)


# ---------------------------------------------------------------- booleans
class B:
    __slots__ = ('op', 'args', 'id', 'height', 'fv', 'fa')

    def __repr__(self):
        return show_b(self)

    def __and__(self, o):
        return And(self, o)

    def __or__(self, o):
        return Or(self, o)

    def __invert__(self):
        return Not(self)

    def __bool__(self):
        raise TypeError('symbolic bool used as a Python truth value: %s' % show_b(self))


def _b(op, args):
    key = (op, args)
    b = _intern_b.get(key)
    if b is not None:
        return b
    b = B()
    b.op, b.args, b.id = op, args, len(_intern_b)
    h, fv, fa = 0, set(), set()
    for x in args:
        if isinstance(x, (Poly, B, Atom)):
            h = max(h, x.height)
            fv |= x.fv
            fa |= x.fa
    if op == 'forall':
        h += 1
        fv.discard('#%d' % h)
    b.height, b.fv, b.fa = h, frozenset(fv), frozenset(fa)
    _intern_b[key] = b
    return b


TRUE = _b('true', ())
FALSE = _b('false', ())


def mkbool(x):
    if isinstance(x, B):
        return x
    if isinstance(x, Poly):
        return Not(eq(x, ZERO))
    return TRUE if x else FALSE


def _norm_lead(p, allow_neg):
    """scale so that coefficients are coprime integers; sign kept unless allow_neg"""
    den = 1
    for _, c in p.terms:
        den = den * c.denominator // math.gcd(den, c.denominator)
    g = 0
    for _, c in p.terms:
        g = math.gcd(g, int(c * den))
    f = Fraction(den, g)
    if allow_neg and p.terms[0][1] < 0:
        f = -f
    return scale(p, f)


def _le0(p):
    if p.is_const():
        return TRUE if p.const() <= 0 else FALSE
    if p.isint:
        # tighten: g*q + c <= 0
        cst = dict(p.terms).get((), Fraction(0))
        rest = add(p, const(-cst))
        den = 1
        g = 0
        for _, c in rest.terms:
            g = math.gcd(g, int(c))
        if g > 1:
            rest = scale(rest, Fraction(1, g))
            # rest <= -cst/g  -> rest <= floor(-cst/g)
            k = (-cst / g).__floor__()
            return _b('le0', (add(rest, const(-k)),))
        return _b('le0', (p,))
    return _b('le0', (_norm_lead(p, False),))


def le(a, b):
    return _le0(add(a, scale(b, -1)))


def lt(a, b):
    p = add(a, scale(b, -1))
    if p.is_const():
        return TRUE if p.const() < 0 else FALSE
    if p.isint:
        return _le0(add(p, ONE))
    return _b('lt0', (_norm_lead(p, False),))


def eq(a, b):
    a, b = lift(a), lift(b)
    p = add(a, scale(b, -1))
    if p.is_const():
        return TRUE if p.const() == 0 else FALSE
    p = _norm_lead(p, True)
    if p.isint:
        cst = dict(p.terms).get((), Fraction(0))
        g = 0
        for m, c in p.terms:
            if m:
                g = math.gcd(g, int(c))
        if g > 1 and cst % g != 0:
            return FALSE
    return _b('eq0', (p,))


def ne(a, b):
    return Not(eq(a, b))


def Not(b):
    b = mkbool(b)
    if b is TRUE:
        return FALSE
    if b is FALSE:
        return TRUE
    if b.op == 'not':
        return b.args[0]
    if b.op == 'le0':
        return lt(ZERO, b.args[0])
    if b.op == 'lt0':
        return le(ZERO, b.args[0])
    if b.op == 'and':
        return Or(*[Not(x) for x in b.args])
    if b.op == 'or':
        return And(*[Not(x) for x in b.args])
    return _b('not', (b,))


def And(*bs):
    out = []
    for b in bs:
        b = mkbool(b)
        if b is TRUE:
            continue
        if b is FALSE:
            return FALSE
        for x in (b.args if b.op == 'and' else (b,)):
            if x not in out:
                out.append(x)
    for x in out:
        if Not(x) in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return _b('and', tuple(sorted(out, key=lambda b: b.id)))


def Or(*bs):
    out = []
    for b in bs:
        b = mkbool(b)
        if b is FALSE:
            continue
        if b is TRUE:
            return TRUE
        for x in (b.args if b.op == 'or' else (b,)):
            if x not in out:
                out.append(x)
    for x in out:
        if Not(x) in out and x.op != 'or':
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return _b('or', tuple(sorted(out, key=lambda b: b.id)))


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    return Or(And(a, b), And(Not(a), Not(b)))


def bite(c, a, b):
    return Or(And(c, a), And(Not(c), b))


# ---------------------------------------------------------------- binders
def Sum(v, lo, hi, body):
    """sum over lo <= v < hi; v a variable Poly"""
    lo, hi, body = lift(lo), lift(hi), lift(body)
    va = v.terms[0][0][0][0]
    if body is ZERO:
        return ZERO
    if len(body.terms) == 1 and body.terms[0][1] != 1 and body.terms[0][0]:
        c = body.terms[0][1]
        return scale(Sum(v, lo, hi, scale(body, 1 / c)), c)
    d = add(hi, scale(lo, -1))
    if d.is_const():
        n = d.const()
        if n <= 0:
            return ZERO
        if n <= 6:
            r = ZERO
            for k in range(int(n)):
                r = add(r, subst(body, {va: add(lo, const(k))}))
            return r
    h = 1 + body.height
    bv = var('#%d' % h, 'i')
    body = subst(body, {va: bv})
    h2 = 1 + body.height
    while h2 != h:
        nb = var('#%d' % h2, 'i')
        body = subst(body, {bv.terms[0][0][0][0]: nb})
        bv, h = nb, h2
        h2 = 1 + body.height
    # h of atom = 1+max(heights of lo,hi,body): force equality with body's height
    hh = 1 + max(lo.height, hi.height, body.height)
    if hh != h:
        nb = var('#%d' % hh, 'i')
        body = subst(body, {bv.terms[0][0][0][0]: nb})
    a = _atom('sum', (lo, hi, body), 'i' if body.isint else 'r')
    return of_atom(a)


def Max(v, lo, hi, body):
    lo, hi, body = lift(lo), lift(hi), lift(body)
    va = v.terms[0][0][0][0]
    hh = 1 + max(lo.height, hi.height, body.height)
    body = subst(body, {va: var('#%d' % hh)})
    return of_atom(_atom('max', (lo, hi, body), 'i' if body.isint else 'r'))


def Forall(v, lo, hi, body):
    """forall lo <= v < hi. body"""
    lo, hi = lift(lo), lift(hi)
    va = v.terms[0][0][0][0]
    if body is TRUE:
        return TRUE
    if body.op == 'and':
        return And(*[Forall(v, lo, hi, x) for x in body.args])
    if va.args[0] not in body.fv:
        return Implies(lt(lo, hi), body)
    hh = 1 + max(lo.height, hi.height, body.height)
    body = subst(body, {va: var('#%d' % hh)})
    return _b('forall', (lo, hi, body))


_fresh = [0]


def fresh(prefix='v', sort='i'):
    _fresh[0] += 1
    return var('%s!%d' % (prefix, _fresh[0]), sort)


def fresh_name(prefix='f'):
    _fresh[0] += 1
    return '%s!%d' % (prefix, _fresh[0])


def open_binder(a):
    """a: sum/max Atom or forall B -> (v, lo, hi, body) with fresh v"""
    lo, hi, body = a.args
    v = fresh('k')
    bv = _atom('var', ('#%d' % a.height,), 'i')
    return v, lo, hi, subst(body, {bv: v})


def var_atom(v):
    return v.terms[0][0][0][0]


# ---------------------------------------------------------------- substitution
def subst(t, m, memo=None):
    """replace atoms (usually variables) by terms.  m: {Atom: Poly}"""
    if not m:
        return t
    names = set()
    only_vars = True
    for a in m:
        if a.op == 'var':
            names.add(a.args[0])
        else:
            only_vars = False
    return _subst(t, m, names, only_vars, {} if memo is None else memo)


def _subst(t, m, names, only_vars, memo):
    if isinstance(t, (Poly, B, Atom)):
        if only_vars and not (t.fv & names):
            return t if not isinstance(t, Atom) else of_atom(t) if t.sort != 'b' else t
    r = memo.get(t)
    if r is not None:
        return r
    if isinstance(t, Poly):
        r = ZERO
        acc = {}
        for mono, c in t.terms:
            if only_vars and not any(a.fv & names for a, _ in mono):
                acc[mono] = acc.get(mono, 0) + c
                continue
            q = const(c)
            for a, e in mono:
                s = _subst_atom(a, m, names, only_vars, memo)
                q = mul(q, s if e == 1 else power(s, e))
            for mm, cc in q.terms:
                acc[mm] = acc.get(mm, 0) + cc
        r = _poly(acc)
    elif isinstance(t, B):
        r = _subst_b(t, m, names, only_vars, memo)
    else:
        raise TypeError(t)
    memo[t] = r
    return r


def _subst_atom(a, m, names, only_vars, memo):
    if a in m:
        return m[a]
    if only_vars and not (a.fv & names):
        return of_atom(a)
    r = memo.get(a)
    if r is not None:
        return r
    if a.op == 'var':
        r = of_atom(a)
    elif a.op in ('sum', 'max'):
        v, lo, hi, body = open_binder(a)
        lo, hi = (_subst(x, m, names, only_vars, memo) for x in (lo, hi))
        body = _subst(body, m, names, only_vars, {})
        r = (Sum if a.op == 'sum' else Max)(v, lo, hi, body)
    else:
        r = rebuild(a, [_subst(x, m, names, only_vars, memo) if isinstance(x, (Poly, B)) else x
                        for x in a.args])
    memo[a] = r
    return r


def rebuild(a, args):
    """re-apply the smart constructor of a non-binder atom"""
    op = a.op
    if op == 'app':
        return of_atom(_atom('app', tuple(args), a.sort))
    if op == 'ite':
        return ite(*args)
    if op == 'div':
        return idiv(*args)
    if op == 'mod':
        return imod(*args)
    if op == 'inv':
        return inv(args[0])
    if op == 'fn':
        return fn(args[0], args[1])
    raise ValueError(op)


def _subst_b(t, m, names, only_vars, memo):
    op = t.op
    if op in ('true', 'false'):
        return t
    if op == 'forall':
        v, lo, hi, body = open_binder(t)
        lo, hi = (_subst(x, m, names, only_vars, memo) for x in (lo, hi))
        body = _subst(body, m, names, only_vars, {})
        return Forall(v, lo, hi, body)
    if op == 'batom':
        a = t.args[0]
        args = [_subst(x, m, names, only_vars, memo) if isinstance(x, (Poly, B)) else x for x in a.args]
        return _b('batom', (_atom('app', tuple(args), 'b'),))
    args = [_subst(x, m, names, only_vars, memo) for x in t.args]
    return rebuild_b(t, args)


def rebuild_b(t, args):
    op = t.op
    if op == 'le0':
        return le(args[0], ZERO)
    if op == 'lt0':
        return lt(args[0], ZERO)
    if op == 'eq0':
        return eq(args[0], ZERO)
    if op == 'not':
        return Not(args[0])
    if op == 'and':
        return And(*args)
    if op == 'or':
        return Or(*args)
    raise ValueError(op)


ZERO = _poly({})
ONE = _poly({(): Fraction(1)})
PI = var('pi', 'r')
EULER = None


# ---------------------------------------------------------------- derivative
def diff(p, x):
    """d p / d x for a real variable atom x (no Sum over x bounds)"""
    if isinstance(x, Poly):
        x = var_atom(x)
    r = ZERO
    for m, c in p.terms:
        for i, (a, e) in enumerate(m):
            da = diff_atom(a, x)
            if da is ZERO:
                continue
            q = const(c * e)
            for j, (b, f) in enumerate(m):
                if j == i:
                    f = f - 1
                if f:
                    q = mul(q, power(of_atom(b), f))
            r = add(r, mul(q, da))
    return r


def diff_atom(a, x):
    if a is x:
        return ONE
    if x.args[0] not in a.fv:
        return ZERO
    if a.op == 'fn':
        n, u = a.args
        du = diff(u, x)
        if n == 'exp':
            d = of_atom(a)
        elif n == 'log':
            d = inv(u)
        elif n == 'sin':
            d = fn('cos', u)
        elif n == 'cos':
            d = scale(fn('sin', u), -1)
        elif n == 'sqrt':
            d = scale(inv(of_atom(a)), Fraction(1, 2))
        else:
            raise ValueError('derivative of ' + n)
        return mul(d, du)
    if a.op == 'inv':
        return scale(mul(power(of_atom(a), 2), diff(a.args[0], x)), -1)
    if a.op == 'ite':
        if x.args[0] in a.args[0].fv:
            raise ValueError('derivative through a condition')
        return ite(a.args[0], diff(a.args[1], x), diff(a.args[2], x))
    if a.op == 'sum':
        v, lo, hi, body = open_binder(a)
        return Sum(v, lo, hi, diff(body, x))
    raise ValueError('derivative of ' + a.op)


# ---------------------------------------------------------------- traversal
def atoms(t, acc=None, under=True):
    """all atoms occurring in t (including nested); under binders too"""
    if acc is None:
        acc = {}
    stack = [t]
    seen = set()
    while stack:
        x = stack.pop()
        if isinstance(x, Atom):
            if x in acc:
                continue
            acc[x] = True
            if x.op in ('sum', 'max') and not under:
                continue
            for y in x.args:
                if isinstance(y, (Poly, B)):
                    stack.append(y)
        elif isinstance(x, Poly):
            if x in seen:
                continue
            seen.add(x)
            for m, _ in x.terms:
                for a, _e in m:
                    stack.append(a)
        elif isinstance(x, B):
            if x in seen:
                continue
            seen.add(x)
            for y in x.args:
                stack.append(y)
    return acc


# ---------------------------------------------------------------- printing
def show(p):
    if not p.terms:
        return '0'
    out = []
    for m, c in p.terms:
        s = '*'.join(show_atom(a) + ('' if e == 1 else '^%d' % e) for a, e in m)
        if not m:
            s = str(c)
        elif c == -1:
            s = '-' + s
        elif c != 1:
            s = '%s*%s' % (c, s)
        out.append(s)
    return ' + '.join(out).replace('+ -', '- ')


def show_atom(a):
    if a.op == 'var':
        return a.args[0]
    if a.op == 'app':
        return '%s(%s)' % (a.args[0], ', '.join(map(repr, a.args[1:])))
    if a.op == 'ite':
        return 'ite(%r, %r, %r)' % a.args
    if a.op in ('sum', 'max'):
        return '%s{#%d in [%r, %r)}(%r)' % ((a.op, a.height) + a.args)
    if a.op == 'div':
        return '(%r div %r)' % a.args
    if a.op == 'mod':
        return '(%r mod %r)' % a.args
    if a.op == 'inv':
        return '(1/(%r))' % a.args
    if a.op == 'fn':
        return '%s(%r)' % a.args
    return '?%s' % a.op


def show_b(b):
    if b.op in ('true', 'false'):
        return b.op
    if b.op == 'le0':
        return '(%r <= 0)' % b.args
    if b.op == 'lt0':
        return '(%r < 0)' % b.args
    if b.op == 'eq0':
        return '(%r == 0)' % b.args
    if b.op == 'not':
        return '!%r' % b.args
    if b.op == 'and':
        return '(' + ' & '.join(map(repr, b.args)) + ')'
    if b.op == 'or':
        return '(' + ' | '.join(map(repr, b.args)) + ')'
    if b.op == 'forall':
        return 'forall{#%d in [%r, %r)} %r' % ((b.height,) + b.args)
    if b.op == 'batom':
        return repr(b.args[0])
    return b.op


# ---------------------------------------------------------------- evaluation
class EvalError(Exception):
    pass


def evaluate(t, env, fenv, memo=None):
    """numeric value of t.  env: var name -> number; fenv(name, args) -> number/bool"""
    if memo is None:
        memo = {}
    return _ev(t, env, fenv, memo)


def _ev(t, env, fenv, memo):
    if isinstance(t, Poly):
        tot = 0
        for m, c in t.terms:
            v = c if c.denominator != 1 else int(c)
            for a, e in m:
                x = _ev(a, env, fenv, memo)
                if e < 0 and x == 0:
                    raise EvalError('division by zero')
                v = v * (x if e == 1 else (x ** e if e > 0 or isinstance(x, float) else Fraction(x) ** e))
            tot = tot + v
        return tot
    key = None
    if isinstance(t, Atom):
        op = t.op
        if op == 'var':
            n = t.args[0]
            if n in env:
                return env[n]
            if n == 'pi':
                return math.pi
            raise EvalError('unbound ' + n)
        if op == 'app':
            return fenv(t.args[0], tuple(_ev(x, env, fenv, memo) for x in t.args[1:]), t.sort)
        if op == 'ite':
            return _ev(t.args[1] if _ev(t.args[0], env, fenv, memo) else t.args[2], env, fenv, memo)
        if op == 'div':
            return int(_ev(t.args[0], env, fenv, memo)) // int(_ev(t.args[1], env, fenv, memo))
        if op == 'mod':
            return int(_ev(t.args[0], env, fenv, memo)) % int(_ev(t.args[1], env, fenv, memo))
        if op == 'inv':
            x = _ev(t.args[0], env, fenv, memo)
            if x == 0:
                raise EvalError('division by zero')
            return 1 / Fraction(x) if not isinstance(x, float) else 1 / x
        if op == 'fn':
            x = _ev(t.args[1], env, fenv, memo)
            n = t.args[0]
            if n == 'floor':
                return math.floor(x)
            if n in ('exp', 'log', 'sin', 'cos', 'sqrt'):
                try:
                    return getattr(math, n)(float(x))
                except (ValueError, OverflowError):
                    raise EvalError(n)
            if n == 'gammaln':
                return math.lgamma(float(x))
            return fenv('fn:' + n, (x,))
        if op in ('sum', 'max'):
            lo = int(_ev(t.args[0], env, fenv, memo))
            hi = int(_ev(t.args[1], env, fenv, memo))
            bv = '#%d' % t.height
            if hi - lo > 5000:
                raise EvalError('range too large')
            tot = 0 if op == 'sum' else None
            env2 = dict(env)
            for k in range(lo, hi):
                env2[bv] = k
                x = _ev(t.args[2], env2, fenv, memo)
                tot = tot + x if op == 'sum' else (x if tot is None else max(tot, x))
            if tot is None:
                raise EvalError('max of empty')
            return tot
        raise EvalError(op)
    op = t.op
    if op == 'true':
        return True
    if op == 'false':
        return False
    if op == 'le0':
        return _ev(t.args[0], env, fenv, memo) <= 0
    if op == 'lt0':
        return _ev(t.args[0], env, fenv, memo) < 0
    if op == 'eq0':
        return _ev(t.args[0], env, fenv, memo) == 0
    if op == 'not':
        return not _ev(t.args[0], env, fenv, memo)
    if op == 'and':
        return all(_ev(x, env, fenv, memo) for x in t.args)
    if op == 'or':
        return any(_ev(x, env, fenv, memo) for x in t.args)
    if op == 'batom':
        return bool(_ev(t.args[0], env, fenv, memo))
    if op == 'forall':
        lo = int(_ev(t.args[0], env, fenv, memo))
        hi = int(_ev(t.args[1], env, fenv, memo))
        env2 = dict(env)
        for k in range(lo, hi):
            env2['#%d' % t.height] = k
            if not _ev(t.args[2], env2, fenv, memo):
                return False
        return True
    raise EvalError(op)
