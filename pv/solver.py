"""Discharging obligations: z3 back end, context simplification, and the
normal form for bounded sums."""
import time
from fractions import Fraction
import z3
from . import terms as T
from .terms import (Poly, B, Atom, ZERO, ONE, TRUE, FALSE, And, Or, Not, eq, le, lt, ite,
                    var, const, add, scale, mul, subst, open_binder, var_atom, of_atom)

STATS = {'z3_calls': 0, 'z3_time': 0.0, 'unknown': 0, 'cvc5_calls': 0}
# name -> f(atom) -> [B]      (facts instantiated for every occurrence)
AXIOMS = {'eps': lambda a: [lt(ZERO, of_atom(a)), lt(of_atom(a), const(Fraction(1, 1000000)))]}
# name -> f(atom1, atom2) -> [B]
PAIR_AXIOMS = {}
DEADLINE = [None]


class Timeout(Exception):
    pass


def check_deadline():
    if DEADLINE[0] is not None and time.time() > DEADLINE[0]:
        raise Timeout()


class Ctx:
    """a set of hypotheses"""
    __slots__ = ('facts', 'key', '_lin')

    def __init__(self, facts=()):
        out = []
        seen = set()
        for f in facts:
            for g in (f.args if f.op == 'and' else (f,)):
                if g is TRUE or g in seen:
                    continue
                seen.add(g)
                out.append(g)
        self.facts = tuple(out)
        self.key = frozenset(b.id for b in out)
        self._lin = None

    def plus(self, *bs):
        bs = [T.mkbool(b) for b in bs]
        if all(b is TRUE or b.id in self.key for b in bs):
            return self
        return Ctx(self.facts + tuple(bs))

    def false(self):
        return FALSE in self.facts


# ------------------------------------------------------------------ z3
class Tr:
    """translation; lin=True replaces non-linear monomials by fresh constants"""

    def __init__(self, lin):
        self.lin = lin
        self.memo = {}
        self.consts = {}
        self.side = []
        self.apps = []
        self.nl = {}

    def num(self, p, real=False):
        k = (p, real)
        r = self.memo.get(k)
        if r is not None:
            return r
        r = self._num(p, real)
        self.memo[k] = r
        return r

    def _num(self, p, real):
        isr = real or not p.isint
        tot = None
        for m, c in p.terms:
            v = self.mono(m, isr)
            if v is None:
                t = z3.RealVal(c) if isr else z3.IntVal(int(c))
            elif c == 1:
                t = v
            else:
                t = (z3.RealVal(c) if isr else z3.IntVal(int(c))) * v
            tot = t if tot is None else tot + t
        if tot is None:
            return z3.RealVal(0) if isr else z3.IntVal(0)
        return tot

    def mono(self, m, isr):
        if not m:
            return None
        if len(m) == 1 and m[0][1] == 1:
            return self.coerce(self.atom(m[0][0]), isr)
        allint = all(a.sort == 'i' and e > 0 for a, e in m)
        key = ('mono', m)
        r = self.nl.get(key)
        if r is None:
            if self.lin:
                r = z3.Int('m!%d' % len(self.nl)) if allint else z3.Real('m!%d' % len(self.nl))
                self.nl[key] = r
                if all(e > 0 and e % 2 == 0 for _, e in m):
                    self.side.append(r >= 0)
                # keep sub-atoms known
                for a, e in m:
                    self.atom(a)
            else:
                r = None
                for a, e in m:
                    x = self.atom(a)
                    if not allint:
                        x = self.coerce(x, True)
                    if e < 0:
                        iv = self.nl.get(('inv', a))
                        if iv is None:
                            iv = z3.Real('inv!%d' % len(self.nl))
                            self.nl[('inv', a)] = iv
                            self.side.append(z3.Implies(self.coerce(self.atom(a), True) != 0,
                                                        iv * self.coerce(self.atom(a), True) == 1))
                        x, e = iv, -e
                    for _ in range(e):
                        r = x if r is None else r * x
                self.nl[key] = r
        return self.coerce(r, isr)

    @staticmethod
    def coerce(x, isr):
        if isr and x.sort() == z3.IntSort():
            return z3.ToReal(x)
        return x

    def atom(self, a):
        r = self.memo.get(a)
        if r is None:
            r = self._atom(a)
            self.memo[a] = r
            if a.op == 'fn' and a.args[0] in ('exp', 'log'):
                # exp(x) (1 - x) <= 1 and, for x > 0, x log(x) >= x - 1
                x, f = a.args[1], of_atom(a)
                if not x.is_const():
                    if a.args[0] == 'exp':
                        self.side.append(self.num(add(add(f, scale(mul(f, x), -1)), scale(ONE, -1)), True) <= 0)
                    else:
                        self.side.append(z3.Implies(self.num(x, True) > 0,
                                                    self.num(add(add(mul(x, f), scale(x, -1)), ONE), True) >= 0))
        return r

    def _atom(self, a):
        op = a.op
        if op == 'var':
            n = a.args[0]
            if a.sort == 'i':
                return z3.Int(n)
            if n == 'pi':
                self.side.append(z3.And(z3.Real('pi') > z3.Q(31415, 10000), z3.Real('pi') < z3.Q(31416, 10000)))
            return z3.Real(n)
        if op == 'app':
            args = [self.num(x) for x in a.args[1:]]
            sorts = [x.sort() for x in args]
            rs = {'i': z3.IntSort(), 'r': z3.RealSort(), 'b': z3.BoolSort()}[a.sort]
            self.apps.append(a)
            if not args:
                return z3.Const(a.args[0] + '$c', rs)
            f = z3.Function(a.args[0] + '$' + ''.join(str(s)[0] for s in sorts), *(sorts + [rs]))
            return f(*args)
        if op == 'ite':
            c = self.b(a.args[0])
            isr = a.sort == 'r'
            return z3.If(c, self.num(a.args[1], isr), self.num(a.args[2], isr))
        if op == 'div':
            x, d = self.num(a.args[0]), self.num(a.args[1])
            if a.args[1].is_const():
                return x / d
            return z3.Int('q!%d' % a.id)
        if op == 'inv':
            r = z3.Real('inv!a%d' % a.id)
            q = self.num(a.args[0], True)
            if not self.lin:
                self.side.append(z3.Implies(q != 0, r * q == 1))
            self.side.append(z3.Implies(q > 0, r > 0))
            self.side.append(z3.Implies(q < 0, r < 0))
            return r
        if op == 'fn':
            n, x = a.args
            xr = self.num(x, True)
            if n == 'floor':
                return z3.ToInt(xr)
            f = z3.Function('fn_' + n, z3.RealSort(), z3.RealSort())
            r = f(xr)
            if n == 'exp':
                self.side.append(r > 0)
                self.side.append(z3.And(z3.Implies(xr <= 0, r <= 1), z3.Implies(xr >= 0, r >= 1)))
                self.side.append(r >= 1 + xr)
            elif n == 'sqrt':
                self.side.append(z3.Implies(xr >= 0, r >= 0))
                self.side.append(z3.Implies(xr > 0, r > 0))
                if not self.lin:
                    self.side.append(z3.Implies(xr >= 0, r * r == xr))
                if x.is_const():
                    import math
                    c = x.const()
                    lo = Fraction(math.isqrt(int(c * 10 ** 12)), 10 ** 6)
                    self.side.append(z3.And(r >= z3.RealVal(lo), r <= z3.RealVal(lo + Fraction(2, 10 ** 6))))
            elif n in ('sin', 'cos'):
                self.side.append(z3.And(r >= -1, r <= 1))
            elif n == 'log':
                self.side.append(z3.Implies(xr > 0, r <= xr - 1))
                for t in (Fraction(1, 1000), Fraction(1, 100), Fraction(1, 10), Fraction(1, 2), Fraction(1), Fraction(2)):
                    self.side.append(z3.Implies(xr >= z3.RealVal(t), r >= z3.RealVal(1 - 1 / t)))
                for k in (-12, -9, -6, -4, -3, -2, -1, 1, 2, 3):  # 2.302585 < log 10 < 2.302586
                    t, u = Fraction(2302585, 10 ** 6) * k, Fraction(2302586, 10 ** 6) * k
                    self.side.append(z3.Implies(xr >= z3.RealVal(Fraction(10) ** k), r >= z3.RealVal(min(t, u))))
                    self.side.append(z3.Implies(z3.And(xr > 0, xr <= z3.RealVal(Fraction(10) ** k)), r <= z3.RealVal(max(t, u))))
            return r
        if op in ('sum', 'max'):
            return (z3.Int if a.sort == 'i' else z3.Real)('%s!%d' % (op, a.id))
        raise ValueError(op)

    def b(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self._b(t)
            self.memo[t] = r
        return r

    def _b(self, t):
        op = t.op
        if op == 'true':
            return z3.BoolVal(True)
        if op == 'false':
            return z3.BoolVal(False)
        if op in ('le0', 'lt0', 'eq0'):
            x = self.num(t.args[0])
            return x <= 0 if op == 'le0' else x < 0 if op == 'lt0' else x == 0
        if op == 'not':
            return z3.Not(self.b(t.args[0]))
        if op == 'and':
            return z3.And(*[self.b(x) for x in t.args])
        if op == 'or':
            return z3.Or(*[self.b(x) for x in t.args])
        if op == 'batom':
            return self.atom(t.args[0])
        if op == 'forall':
            return z3.Bool('forall!%d' % t.id)
        raise ValueError(op)


def _nlmonos(bs):
    out = set()
    for b in bs:
        for p in _polys(b):
            for m, _ in p.terms:
                if len(m) > 1 or (m and m[0][1] != 1):
                    out.add(m)
    return out


def _polys(b, acc=None, seen=None):
    acc = [] if acc is None else acc
    seen = set() if seen is None else seen
    st = [b]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if isinstance(x, Poly):
            acc.append(x)
            for m, _ in x.terms:
                for a, _e in m:
                    st.append(a)
        elif isinstance(x, (B, Atom)):
            if isinstance(x, Atom) and x.op in ('sum', 'max'):
                continue
            if isinstance(x, B) and x.op == 'forall':
                continue
            for y in x.args:
                if isinstance(y, (Poly, B, Atom)):
                    st.append(y)
    return acc


def product_lemmas(facts, goal_bs):
    """u>=0, v>=0  =>  u*v>=0 for fact pairs whose product only has known monomials"""
    monos = _nlmonos(list(facts) + list(goal_bs))
    if not monos:
        return []
    pos = []
    cands = list(facts)
    for g in goal_bs:
        for x in (g.args if g.op in ('and', 'or') else (g,)):
            cands.append(x)
            cands.append(Not(x))
    seen = set()
    for f in cands:
        if f.op == 'le0' and len(f.args[0].terms) <= 4:
            p = scale(f.args[0], -1)
            if p not in seen and p.isint:
                seen.add(p)
                pos.append((p, f))
    out = []
    simple = [(p, f) for p, f in pos]
    for i, (p, fp) in enumerate(simple):
        for q, fq in simple[i:]:
            if p is q and len(p.terms) > 1:
                continue
            r = mul(p, q)
            if len(r.terms) > 9:
                continue
            ok = True
            any_new = False
            for m, _ in r.terms:
                if len(m) > 1 or (m and m[0][1] != 1):
                    any_new = True
                    if m not in monos:
                        ok = False
                        break
            if ok and any_new:
                out.append(Or(Not(fp), Not(fq), le(ZERO, r)))
            if len(out) > 60:
                return out
    return out


def instantiate(bs):
    """axiom instances for the applications occurring in bs"""
    facts = []
    done = set()
    work = list(bs)
    for _ in range(3):
        apps = {}
        for b in work:
            for a in T.atoms(b, under=False):
                if a.op == 'app' and (a.args[0].split('@')[0] in AXIOMS or a.args[0].split('@')[0] in PAIR_AXIOMS):
                    apps[a] = True
        new = []
        for b in work:
            for a in T.atoms(b, under=False):
                if a.op == 'div' and a not in done and not a.args[1].is_const():
                    done.add(a)
                    x, d = a.args
                    q = of_atom(a)
                    r = add(x, scale(mul(d, q), -1))
                    new.append(Or(le(d, ZERO), And(le(ZERO, r), lt(r, d))))
                    new.append(Or(lt(x, ZERO), le(d, ZERO), And(le(ZERO, q), le(q, x))))
                    new.append(Or(lt(x, ZERO), le(d, x), eq(q, ZERO)))
        for a in list(apps):
            f = AXIOMS.get(a.args[0].split('@')[0])
            if f and a not in done:
                done.add(a)
                new.extend(x for x in f(a) if x is not TRUE)
        bynm = {}
        for a in apps:
            bynm.setdefault(a.args[0], []).append(a)
        for n, ls in bynm.items():
            f = PAIR_AXIOMS.get(n.split('@')[0])
            if f:
                for i in range(len(ls)):
                    for j in range(len(ls)):
                        if i != j and (ls[i], ls[j]) not in done:
                            done.add((ls[i], ls[j]))
                            new.extend(x for x in f(ls[i], ls[j]) if x is not TRUE)
        new = [x for x in new if x not in facts]
        if not new:
            break
        facts.extend(new)
        work = work + new
    return facts


_eqc = {}


def eq_conds(t):
    """polynomials compared with zero in the conditions of t (outside inner binders)"""
    r = _eqc.get(t)
    if r is None:
        out = {}

        def go(x):
            if isinstance(x, B):
                if x.op == 'eq0':
                    out[x.args[0]] = True
                if x.op == 'forall':
                    return
                for y in x.args:
                    go(y)
            elif isinstance(x, Poly):
                for m, _ in x.terms:
                    for a, _e in m:
                        if a.op not in ('sum', 'max'):
                            for y in a.args:
                                go(y)
        go(t)
        r = list(out)
        _eqc[t] = r
    return r


def match_inst(facts, goal):
    """instantiate hypothesis foralls at index terms of matching applications"""
    fas = [f for f in facts if f.op == 'forall']
    if not fas:
        return []
    out = []
    seen = set()
    pool = [goal] + [f for f in facts if f.op != 'forall']
    for rnd in range(3):
        apps, deep = {}, {}
        for b in pool:
            for a in T.atoms(b, under=False):
                if a.op == 'app' and len(a.args) > 1:
                    apps.setdefault((a.args[0], len(a.args)), []).append(a)
        for a in T.atoms(goal, under=True):
            if a.op == 'app' and len(a.args) > 1:
                deep.setdefault((a.args[0], len(a.args)), []).append(a)
        new = []
        work = [(FALSE, f) for f in fas]
        for g in out:
            if g.op == 'forall':
                work.append((FALSE, g))
            elif g.op == 'or':
                for x in g.args:
                    if x.op == 'forall':
                        work.append((Or(*[y for y in g.args if y is not x]), x))
        for guard, f in work:
            bvn = '#%d' % f.height
            lo, hi, body = f.args
            cands = {}
            for x in eq_conds(body):
                e = solve_for(x, T._atom('var', (bvn,), 'i'))
                if e is not None and not any(n.startswith('#') for n in e.fv):
                    cands[e] = True
            for pool_ in (apps, deep):
                if cands and pool_ is deep:
                    break
                for a in T.atoms(body, under=True):
                    if a.op == 'app' and bvn in a.fv:
                        for k, x in enumerate(a.args[1:], 1):
                            if isinstance(x, Poly) and bvn in x.fv:
                                d = dict(x.terms)
                                mb = ((T._atom('var', (bvn,), 'i'), 1),)
                                if mb in d and abs(d[mb]) == 1:
                                    rest = add(x, scale(T._poly({mb: d[mb]}), -1))
                                    if bvn in rest.fv or any(n.startswith('#') for n in rest.fv):
                                        continue
                                    for b2 in pool_.get((a.args[0], len(a.args)), ()):
                                        y = b2.args[k]
                                        e = scale(add(y, scale(rest, -1)), 1 / d[mb])
                                        if e.isint and not any(n.startswith('#') for n in e.fv):
                                            cands[e] = True
            if bvn not in body.fa and not cands and body.op in ('le0', 'lt0') and not any(
                    bvn in a.fv for a in T.atoms(body, under=True) if a.op != 'var'):
                # a bound on the index alone: its extreme values
                cands[add(hi, const(-1))] = cands[lo] = True
            for e in list(cands)[:12]:
                if (guard, f, e) in seen:
                    continue
                seen.add((guard, f, e))
                bv = T._atom('var', (bvn,), 'i')
                g = Or(guard, lt(e, lo), le(hi, e), subst(body, {bv: e}))
                new.append(g)
        if not new:
            break
        out.extend(new)
        pool.extend(new)
        if len(out) > 80:
            break
    return out


def _extract_sumfacts(bs):
    """cheap facts on opaque max atoms: none by default"""
    return []


def z3_unsat(bs, timeout=1500, lin=True):
    check_deadline()
    tr = Tr(lin)
    s = z3.Solver()
    s.set('timeout', int(timeout))
    zs = [tr.b(b) for b in bs]
    s.add(*zs)
    s.add(*tr.side)
    t0 = time.time()
    STATS['z3_calls'] += 1
    r = s.check()
    dt = time.time() - t0
    STATS['z3_time'] += dt
    if r == z3.unknown:
        STATS['unknown'] += 1
    if LOGZ[0] is not None and r == z3.unsat:
        LOGZ[0](s)
    return r


LOGZ = [None]
_cache = {}


def relevant(facts, goal):
    """facts sharing variables/functions (transitively) with goal"""
    names = set(goal.fv) | {('f', n) for n in goal.fa}
    pend = [(f, set(f.fv) | {('f', n) for n in f.fa}) for f in facts]
    out = []
    ch = True
    while ch:
        ch = False
        rest = []
        for f, ns in pend:
            if not ns or (ns & names):
                names |= ns
                out.append(f)
                ch = True
            else:
                rest.append((f, ns))
        pend = rest
    return out


def valid(ctx, b, timeout=1500, effort=1):
    """ctx |- b ?   True only when proved"""
    b = T.mkbool(b)
    if b is TRUE:
        return True
    if b.id in ctx.key or FALSE in ctx.facts:
        return True
    k = (ctx.key, b.id, effort)
    r = _cache.get(k)
    if r is not None:
        return r
    r = _valid(ctx, b, timeout, effort)
    _cache[k] = r
    return r


def _valid(ctx, b, timeout, effort):
    if b.op == 'and':
        return all(valid(ctx, x, timeout, effort) for x in b.args)
    if b.op == 'forall':
        v, lo, hi, body = open_binder(b)
        return valid(ctx.plus(le(lo, v), lt(v, hi)), body, timeout, effort)
    if b.op == 'not' and b.args[0].op == 'forall':
        # look for a witness among hypotheses: try bounds and negated instances
        f = b.args[0]
        if f in ctx.facts:
            return False
    facts = relevant(ctx.facts, b)
    neg = Not(b)
    # negated foralls among the facts give skolem witnesses
    base = []
    for f in facts:
        if f.op == 'not' and f.args[0].op == 'forall':
            v, lo, hi, body = open_binder(f.args[0])
            base += [le(lo, v), lt(v, hi), Not(body)]
        else:
            base.append(f)
    extra_fa = []
    if neg.op == 'forall':
        extra_fa = [neg]
    elif neg.op == 'and':
        extra_fa = [x for x in neg.args if x.op == 'forall']
    inst = match_inst(base + extra_fa, neg)
    if extra_fa:
        for f in extra_fa:   # try the bounds as witnesses
            lo, hi, body = f.args
            bv = T._atom('var', ('#%d' % f.height,), 'i')
            for e in (lo, add(hi, const(-1))):
                inst.append(Or(lt(e, lo), le(hi, e), subst(body, {bv: e})))
            for g in base:
                if g.op in ('le0', 'lt0', 'eq0', 'not'):
                    pass
    ax = instantiate(base + inst + [neg])
    allf = base + inst + ax + [neg]
    bad = False
    if z3_unsat(allf, timeout=timeout, lin=True) == z3.unsat:
        return True
    nl = _nlmonos(allf)
    if nl or any(a.op == 'div' for g in allf for a in T.atoms(g, under=False)):
        pl = product_lemmas(base + inst + ax, [neg])
        if pl and z3_unsat(allf + pl, timeout=timeout, lin=True) == z3.unsat:
            return True
        if effort >= 1:
            if z3_unsat(allf + pl, timeout=timeout if effort == 1 else timeout * 4, lin=False) == z3.unsat:
                return True
    return False


def decide(ctx, b, effort=1, timeout=1000):
    """True / False / None"""
    b = T.mkbool(b)
    if b is TRUE:
        return True
    if b is FALSE:
        return False
    if b.id in ctx.key:
        return True
    nb = Not(b)
    if nb.id in ctx.key:
        return False
    k = (ctx.key, b.id, 'd', effort)
    if k in _cache:
        return _cache[k]
    r = None
    if valid(ctx, b, timeout, effort):
        r = True
    elif valid(ctx, nb, timeout, effort):
        r = False
    _cache[k] = r
    return r


def infeasible(ctx, timeout=1000):
    return valid(ctx, FALSE_GOAL(ctx), timeout)


def FALSE_GOAL(ctx):
    return FALSE


def contradictory(ctx, timeout=1000):
    """are the hypotheses unsatisfiable?"""
    if FALSE in ctx.facts:
        return True
    k = (ctx.key, 'contra')
    r = _cache.get(k)
    if r is None:
        facts = []
        for f in ctx.facts:
            if f.op == 'not' and f.args[0].op == 'forall':
                v, lo, hi, body = open_binder(f.args[0])
                facts += [le(lo, v), lt(v, hi), Not(body)]
            else:
                facts.append(f)
        inst = match_inst(facts, TRUE)
        ax = instantiate(facts + inst)
        allf = facts + inst + ax
        r = z3_unsat(allf, timeout, True) == z3.unsat
        if not r and _nlmonos(allf):
            pl = product_lemmas(allf, [])
            r = z3_unsat(allf + pl, timeout, True) == z3.unsat
        _cache[k] = r
    return r


# ------------------------------------------------------------------ context simplification
class Simp:
    def __init__(self, ctx, effort=1):
        self.ctx = ctx
        self.effort = effort
        self.memo = {}

    def poly(self, p):
        r = self.memo.get(p)
        if r is not None:
            return r
        acc = {}
        changed = False
        for m, c in p.terms:
            if all(a.op == 'var' for a, _ in m):
                acc[m] = acc.get(m, 0) + c
                continue
            q = const(c)
            for a, e in m:
                s = self.atom(a)
                q = mul(q, s if e == 1 else T.power(s, e))
            for mm, cc in q.terms:
                acc[mm] = acc.get(mm, 0) + cc
        r = T._poly(acc)
        self.memo[p] = r
        return r

    def atom(self, a):
        r = self.memo.get(a)
        if r is None:
            r = self._atom(a)
            self.memo[a] = r
        return r

    def _atom(self, a):
        op = a.op
        if op == 'var':
            return of_atom(a)
        if op == 'ite':
            c = self.b(a.args[0])
            if c is TRUE:
                return self.poly(a.args[1])
            if c is FALSE:
                return self.poly(a.args[2])
            x = simp(self.ctx.plus(c), a.args[1], self.effort)
            y = simp(self.ctx.plus(Not(c)), a.args[2], self.effort)
            if x is not y and x.isint and y.isint and x.height + y.height == 0 and c.op in ('le0', 'lt0'):
                if valid(self.ctx.plus(c), eq(x, y), effort=0):
                    return y
            return ite(c, x, y)
        if op in ('sum', 'max'):
            v, lo, hi, body = open_binder(a)
            lo, hi = self.poly(lo), self.poly(hi)
            d = add(hi, scale(lo, -1))
            if d.is_const() and (d.const() <= 6):
                f = T.Sum if op == 'sum' else T.Max
                return self.poly(f(v, lo, hi, body)) if op == 'sum' else f(v, lo, hi, body)
            if op == 'sum' and valid(self.ctx, le(hi, lo), effort=0):
                return ZERO
            inner = self.ctx.plus(le(lo, v), lt(v, hi))
            body = simp(inner, body, self.effort)
            return (T.Sum if op == 'sum' else T.Max)(v, lo, hi, body)
        if op == 'div':
            x, d = (self.poly(y) for y in a.args)
            return self._div(T.idiv(x, d))
        args = [self.poly(x) if isinstance(x, Poly) else self.b(x) if isinstance(x, B) else x for x in a.args]
        if op == 'app':
            f = REWRITE.get(args[0].split('@')[0])
            if f is not None:
                r = f(self, args)
                if r is not None:
                    return r
        if op == 'fn' and args[0] == 'floor':
            r = T.fn('floor', args[1])
            return self._floor(r)
        return T.rebuild(a, args)

    def _floor(self, r):
        out = ZERO
        for m, c in r.terms:
            if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'fn' and m[0][0].args[0] == 'floor':
                x = m[0][0].args[1]
                near = valid(self.ctx, lt(x, const(2)), effort=0) and valid(self.ctx, le(const(-1), x), effort=0)
                for k in (0, -1, 1) if near else ():
                    if valid(self.ctx, And(le(const(k), x), lt(x, const(k + 1))), effort=0):
                        out = add(out, const(k * c))
                        break
                else:
                    out = add(out, T._poly({m: c}))
            else:
                out = add(out, T._poly({m: c}))
        return out

    def _div(self, r):
        if len(r.terms) == 0 or r.is_const():
            return r
        out = ZERO
        for m, c in r.terms:
            if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'div' and c == 1:
                a = m[0][0]
                x, d = a.args
                done = False
                if valid(self.ctx, lt(ZERO, d)):
                    for k in (ZERO, const(-1), ONE):
                        y = add(x, scale(mul(k, d), -1))
                        if valid(self.ctx, And(le(ZERO, y), lt(y, d))):
                            out = add(out, k)
                            done = True
                            break
                    if not done:
                        f = self._nested(x, d)
                        if f is not None:
                            out = add(out, f)
                            done = True
                if not done:
                    out = add(out, of_atom(a))
            else:
                out = add(out, T._poly({m: c}))
        return out

    def _nested(self, x, d):
        """(q*e + r) div (e*f)  with 0<=r<e  ->  q div f"""
        if len(d.terms) == 1 and len(d.terms[0][0]) >= 2 and d.terms[0][1] == 1:
            facs = [of_atom(b) for b, e in d.terms[0][0] for _ in range(e)]
            for e in facs:
                q, r = T._split_div(x, e)
                if q is ZERO:
                    continue
                if valid(self.ctx, And(le(ZERO, r), lt(r, e))):
                    f = T.exact_div(d, e)
                    if f is None:
                        continue
                    return self._div(T.idiv(q, f))
        return None

    def b(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self._b(t)
            self.memo[t] = r
        return r

    def _b(self, t):
        op = t.op
        if op in ('true', 'false'):
            return t
        if op in ('and', 'or', 'not', 'le0', 'lt0', 'eq0'):
            args = [self.poly(x) if isinstance(x, Poly) else self.b(x) for x in t.args]
            t = T.rebuild_b(t, args)
            if t.op in ('and', 'or'):
                return t
        elif op == 'batom':
            a = t.args[0]
            args = [self.poly(x) if isinstance(x, Poly) else x for x in a.args]
            t = T._b('batom', (T._atom('app', tuple(args), 'b'),))
        elif op == 'forall':
            v, lo, hi, body = open_binder(t)
            lo, hi = self.poly(lo), self.poly(hi)
            body = Simp(self.ctx.plus(le(lo, v), lt(v, hi)), self.effort).b(body)
            t = T.Forall(v, lo, hi, body)
        d = decide(self.ctx, t, self.effort)
        if d is True:
            return TRUE
        if d is False:
            return FALSE
        if t.op == 'eq0':
            r = self._radix(t.args[0])
            if r is not None:
                return r
        return t

    def _radix(self, p):
        """q*e + r == 0 with |r| < e  ->  q == 0 and r == 0"""
        if not p.isint or len(p.terms) < 2 or len(p.terms) > 8:
            return None
        cands = []
        for m, c in p.terms:
            if len(m) > 1:
                for a, _ in m:
                    if a not in cands and a.op == 'var':
                        cands.append(a)
        for a in cands[:4]:
            e = of_atom(a)
            q, r = T._split_div(p, e)
            if q is ZERO or r is p or a.args[0] in r.fv:
                continue
            if valid(self.ctx, And(lt(scale(e, -1), r), lt(r, e))):
                return self.b(And(eq(q, ZERO), eq(r, ZERO)))
        return None


# name -> f(simp, args) -> Poly or None
REWRITE = {}
_simp_memo = {}


def simp(ctx, t, effort=1):
    if isinstance(t, Poly) and (t.is_const() or not t.height and all(a.op == 'var' for m, _ in t.terms for a, _e in m)):
        return t
    k = (ctx.key, t, effort)
    r = _simp_memo.get(k)
    if r is None:
        s = Simp(ctx, effort)
        r = s.poly(t) if isinstance(t, Poly) else s.b(t)
        _simp_memo[k] = r
    return r


# ------------------------------------------------------------------ equality with sums
class Mono:
    """coef * sum over integer vars of [guards] * prod factors"""
    __slots__ = ('coef', 'vars', 'guards', 'fac')

    def __init__(self, coef, vars_, guards, fac):
        self.coef, self.vars, self.guards, self.fac = coef, vars_, guards, fac

    def __repr__(self):
        return '%s * SUM{%s}[%s] %r' % (self.coef, ', '.join(map(repr, self.vars)),
                                        ' & '.join(map(repr, self.guards)), self.fac)


class TooHard(Exception):
    pass


def expand(p, ctx, budget=4000):
    """Poly -> [Mono]; ites and sums multiplied out into guards"""
    out = []
    work = [Mono(c, (), (), m) for m, c in p.terms]
    n = 0
    while work:
        n += 1
        if n > budget:
            raise TooHard('sum expansion too large')
        check_deadline()
        mo = work.pop()
        hit = None
        for i, (a, e) in enumerate(mo.fac):
            if a.op in ('sum', 'ite'):
                hit = i
                break
        if hit is None:
            # conditions nested in arguments of factors (e.g. index ites)
            c = None
            for a, e in mo.fac:
                c = find_cond(a)
                if c is not None:
                    break
            if c is None:
                out.append(mo)
                continue
            for g in (c, Not(c)):
                cx = ctx.plus(*mo.guards).plus(g)
                if contradictory(cx):
                    continue
                q = ONE
                for a, e in mo.fac:
                    q = mul(q, T.power(simp(cx, of_atom(a)), e))
                for m2, c2 in q.terms:
                    work.append(Mono(mo.coef * c2, mo.vars, mo.guards + (g,), m2))
            continue
        a, e = mo.fac[hit]
        rest = mo.fac[:hit] + mo.fac[hit + 1:]
        if e < 0:
            raise TooHard('sum in denominator')
        if e > 1:
            rest = rest + ((a, e - 1),)
        if a.op == 'sum':
            v, lo, hi, body = open_binder(a)
            g = (le(lo, v), lt(v, hi))
            for m2, c2 in body.terms:
                work.append(Mono(mo.coef * c2, mo.vars + (v,), mo.guards + g, _mm(rest, m2)))
        else:
            c, x, y = a.args
            for cc, z in ((c, x), (Not(c), y)):
                if z is ZERO:
                    continue
                for alt in _disj(cc):
                    gs = alt.args if alt.op == 'and' else (alt,)
                    for m2, c2 in z.terms:
                        k, mm = T._mono_mul(rest, m2)
                        work.append(Mono(mo.coef * c2 * (k or 1), mo.vars, mo.guards + tuple(gs), mm))
    return out


def _disj(c):
    """split a condition into exclusive conjunctions"""
    if c.op == 'or':
        alts, neg = [], []
        for x in c.args:
            for y in _disj(And(x, *neg)) if (And(x, *neg)).op != 'or' else [And(x, *neg)]:
                if y is not FALSE:
                    alts.append(y)
            neg.append(Not(x))
        return alts
    if c.op == 'not' and c.args[0].op == 'eq0' and c.args[0].args[0].isint:
        p = c.args[0].args[0]
        return [lt(p, ZERO), lt(ZERO, p)]
    if c.op == 'and':
        outs = [[]]
        for x in c.args:
            ds = _disj(x) if x.op in ('or', 'not') else [x]
            outs = [o + [d] for o in outs for d in ds]
        return [And(*o) for o in outs]
    return [c]


def _mm(a, b):
    k, m = T._mono_mul(a, b)
    if k is not None:
        raise TooHard('sqrt coefficient')
    return m


def find_cond(a):
    """an ite condition inside the arguments of atom a (outside binders)"""
    for x in a.args:
        if isinstance(x, Poly):
            for m, _ in x.terms:
                for b, _e in m:
                    if b.op == 'ite':
                        return b.args[0]
                    if b.op in ('sum', 'max'):
                        continue
                    c = find_cond(b)
                    if c is not None:
                        return c
    return None


def solve_for(p, va):
    """p == 0 linear in integer variable atom va with coefficient +-1: value of va or None"""
    mb = ((va, 1),)
    d = dict(p.terms)
    c = d.get(mb)
    if c is None or abs(c) != 1:
        return None
    rest = T._poly({m: k for m, k in p.terms if m != mb})
    if va.args[0] in rest.fv:
        return None
    e = scale(rest, -1 / c)
    return e if e.isint else None


def reduce_mono(mo, ctx):
    """simplify one Mono under ctx; returns list of Monos (or [])"""
    for _ in range(60):
        check_deadline()
        # eliminate variables fixed by equality guards
        done = False
        for g in mo.guards:
            if g.op == 'eq0':
                for v in mo.vars:
                    va = var_atom(v)
                    if va.args[0] in g.fv:
                        e = solve_for(g.args[0], va)
                        if e is not None:
                            ms = sub_monos(mo, va, e)
                            for x in ms:
                                x.vars = tuple(y for y in x.vars if y is not v)
                            if len(ms) > 1:
                                return [y for x in ms for y in reduce_mono(x, ctx)]
                            mo = ms[0]
                            done = True
                            break
            if done:
                break
        if done:
            if mo.coef == 0 or FALSE in mo.guards:
                return []
            continue
        cx = ctx.plus(*mo.guards)
        if contradictory(cx):
            return []
        # block guards
        el = elim_block(mo, cx)
        if el is not None:
            mo = el
            continue
        # simplify factors
        q = const(mo.coef)
        for a, e in mo.fac:
            q = mul(q, T.power(simp(cx, of_atom(a)), e))
        if q is ZERO:
            return []
        if len(q.terms) != 1 or q.terms[0][0] != mo.fac:
            out = []
            for m2, c2 in q.terms:
                for mm in expand_one(Mono(c2, mo.vars, mo.guards, m2), ctx):
                    out += reduce_mono(mm, ctx)
            return out
        # implicit equalities  lo <= v <= lo
        hit = None
        for v in mo.vars:
            va = var_atom(v)
            for g in mo.guards:
                if g.op == 'le0' and va.args[0] in g.fv:
                    e = solve_for(g.args[0], va)
                    if e is not None and valid(cx, eq(v, e), effort=0):
                        hit = (va, e, v)
                        break
            if hit:
                break
        if hit:
            ms = sub_monos(mo, hit[0], hit[1])
            for x in ms:
                x.vars = tuple(y for y in x.vars if y is not hit[2])
            if len(ms) > 1:
                return [y for x in ms for y in reduce_mono(x, ctx)]
            mo = ms[0]
            continue
        return [mo]
    return [mo]


def expand_one(mo, ctx):
    p = T._poly({mo.fac: mo.coef})
    res = []
    for m2 in expand(p, ctx.plus(*mo.guards)):
        res.append(Mono(m2.coef, mo.vars + m2.vars, mo.guards + m2.guards, m2.fac))
    return res


def sub_mono(mo, va, e):
    ms = sub_monos(mo, va, e)
    if len(ms) != 1:
        raise TooHard('substitution produced several monomials')
    return ms[0]


def sub_monos(mo, va, e):
    mp = {va: e}
    q = const(mo.coef)
    for a, k in mo.fac:
        q = mul(q, T.power(subst(of_atom(a), mp), k))
    gs = []
    for g in mo.guards:
        g = subst(g, mp)
        if g is TRUE:
            continue
        if g.op == 'and':
            gs.extend(g.args)
        else:
            gs.append(g)
    if FALSE in gs or q is ZERO:
        return [Mono(0, mo.vars, (FALSE,), ())]
    gs = tuple(dict.fromkeys(gs))
    return [Mono(c, mo.vars, gs, m) for m, c in q.terms]


# hooks: list of f(mo, cx) -> Mono or None
BLOCK_ELIM = []


def elim_block(mo, cx):
    for f in BLOCK_ELIM:
        r = f(mo, cx)
        if r is not None:
            return r
    return None


def anchor(mo):
    """reindex bound variables so that factor arguments become plain variables"""
    vs = list(mo.vars)
    if not vs:
        return mo
    fixed = []
    todo = set(var_atom(v).args[0] for v in vs)
    byname = {var_atom(v).args[0]: v for v in vs}
    order = []
    for _ in range(len(vs)):
        best = None
        keyed = [(_fkey(a, todo), a) for a, e in mo.fac]
        mult = {}
        for k, _a in keyed:
            mult[k[:-1]] = mult.get(k[:-1], 0) + 1
        # factors that are unique among the others first: the choice does not depend on the order of factors
        for _k, a in sorted(keyed, key=lambda t: (mult[t[0][:-1]],) + t[0]):
            if a.op != 'app':
                continue
            for k, x in enumerate(a.args[1:]):
                if not isinstance(x, Poly):
                    continue
                open_ = [n for n in x.fv if n in todo]
                if len(open_) != 1:
                    continue
                n = open_[0]
                va = var_atom(byname[n])
                mb = ((va, 1),)
                c = dict(x.terms).get(mb)
                if c is None or abs(c) != 1:
                    continue
                rest = add(x, scale(of_atom(va), -c))
                if n in rest.fv or not rest.isint:
                    continue
                best = (n, c, rest)
                break
            if best:
                break
        if best is None:
            break
        n, c, rest = best
        nv = T.fresh('s')
        # x = c*v + rest = nv  ->  v = c*(nv - rest)
        e = scale(add(nv, scale(rest, -1)), c)
        mo = sub_mono(mo, var_atom(byname[n]), e)
        todo.discard(n)
        order.append(nv)
    left = [byname[n] for n in sorted(todo)]
    # canonical names
    mp = {}
    res = Mono(mo.coef, mo.vars, mo.guards, mo.fac)
    newvars = []
    for i, v in enumerate(order + left):
        cv = var('$%d' % i)
        res = sub_mono(res, var_atom(v), cv)
        newvars.append(cv)
    res.vars = tuple(newvars)
    return res


def _fkey(a, todo):
    """ordering of factors independent of bound names"""
    if a.op == 'app':
        nb = sum(1 for x in a.args[1:] if isinstance(x, Poly) and (x.fv & todo))
        return (0, -0, a.args[0], nb, tuple(0 if (isinstance(x, Poly) and x.fv & todo) else 1 for x in a.args[1:]),
                tuple(x.id if isinstance(x, Poly) and not (x.fv & todo) else 0 for x in a.args[1:]), a.id)
    return (1, 0, a.op, 0, (), (), a.id)


_ties = {}


def use_ties(ctx, p):
    """a <= b and b <= a among the facts: replace one by the other (at top level)"""
    ts = _ties.get(ctx.key)
    if ts is None:
        ts = []
        les = {f.args[0] for f in ctx.facts if f.op == 'le0'}
        for q in les:
            if not q.isint and scale(q, -1) in les:
                for m, c in q.terms:
                    if len(m) == 1 and m[0][1] == 1 and sum(1 for m2, _ in q.terms if any(a is m[0][0] for a, _e in m2)) == 1:
                        ts.append((m[0][0], scale(add(q, scale(T._poly({m: c}), -1)), -1 / c)))
                        break
        _ties[ctx.key] = ts
    for a, e in ts:
        if not any(x is a for m, _ in p.terms for x, _e in m):
            continue
        r = ZERO
        for m, c in p.terms:
            q = const(c)
            for x, k in m:
                q = mul(q, T.power(e if x is a else of_atom(x), k))
            r = add(r, q)
        p = r
    return p


def prove_zero(ctx, p, depth=0, info=None):
    """ctx |- p == 0"""
    check_deadline()
    if depth > 14:
        raise TooHard('case split depth')
    p = simp(ctx, p)
    if p is ZERO:
        return True
    if contradictory(ctx):
        return True
    p = use_ties(ctx, p)
    if p is ZERO:
        return True
    # split on a free condition
    c = free_cond(p)
    if c is not None:
        if c.op in ('le0', 'lt0') and depth < 8:
            q = unify_conds(ctx, p, c, depth)
            if q is not p:
                return prove_zero(ctx, q, depth + 1, info)
        return all(prove_zero(ctx.plus(x), p, depth + 1, info) for x in _cases(c))
    if not any(a.op in ('sum', 'max') for m, _ in p.terms for a, _e in m):
        if leaf_zero(ctx, p, depth, info):
            return True
        if info is not None:
            info.append((ctx, p))
        return False
    if has_special(p):
        q = pull(p)
        q = reduce_sqrt(ctx, q)
        q2, dens = clear_denoms(q)
        if dens and all(valid(ctx, T.ne(d, ZERO)) for d in dens):
            q = reduce_sqrt(ctx, q2)
        if q is not p:
            return prove_zero(ctx, q, depth + 1, info)
    monos = expand(p, ctx)
    red = []
    for m in monos:
        red += reduce_mono(m, ctx)
    anc = [anchor(m) for m in red]
    groups = {}
    for m in anc:
        groups.setdefault((len(m.vars), m.fac), []).append(m)
    rest = []
    for (nv, fac), ms in groups.items():
        if len(ms) == 1 and nv and False:
            rest += ms
            continue
        cx = ctx
        tot = ZERO
        for m in ms:
            tot = add(tot, scale(ite(And(*m.guards), ONE, ZERO), m.coef))
        if tot is ZERO:
            continue
        if valid(cx, eq(tot, ZERO)):
            continue
        rest += ms
    if not rest:
        return True
    r2 = []
    for m in rest:
        r2 += unused_vars(m, ctx)
    if len(r2) != len(rest) or any(a is not b for a, b in zip(rest, r2)):
        rest = unsettled(ctx, r2)
        if not rest:
            return True
    for _ in range(4):
        t2 = telescope(ctx, rest)
        if t2 is None:
            break
        rest = unsettled(ctx, t2)
        if not rest:
            return True
    if all(not m.vars for m in rest) and any(m.guards for m in rest):
        q = ZERO
        for m in rest:
            q = add(q, mul(T._poly({m.fac: m.coef}), ite(And(*m.guards), ONE, ZERO)))
        if q is not p:
            return prove_zero(ctx, q, depth + 1, info)
    mx = top_atoms(p, ('max',))
    if 2 <= len(mx) <= 5:
        for i, a in enumerate(mx):
            for b in mx[i + 1:]:
                if valid(ctx, eq(of_atom(a), of_atom(b))):
                    q = ZERO
                    for m, c in p.terms:
                        t = const(c)
                        for x, k in m:
                            t = mul(t, T.power(of_atom(b if x is a else x), k))
                        q = add(q, t)
                    return prove_zero(ctx, q, depth + 1, info)
    # second chance: try merging single-sum groups pointwise
    if pointwise(ctx, rest, depth, info):
        return True
    r2 = []
    for m in rest:
        for x in digits(m, ctx):
            r2 += unused_vars(x, ctx)
    if len(r2) != len(rest) or any(a is not b for a, b in zip(rest, r2)):
        rest = unsettled(ctx, r2)
        if not rest:
            return True
    if info is not None:
        info.append((ctx, rest))
    return False


def unsettled(ctx, monos):
    """the groups of like summands that do not cancel"""
    groups = {}
    for m in map(anchor, monos):
        groups.setdefault((len(m.vars), m.fac), []).append(m)
    rest = []
    for (nv, fac), ms in groups.items():
        tot = ZERO
        for m in ms:
            tot = add(tot, scale(ite(And(*m.guards), ONE, ZERO), m.coef))
        if tot is not ZERO and not valid(ctx, eq(tot, ZERO)):
            rest += ms
    return rest


def digits(mo, ctx):
    """0 <= v < d*Y with v div d among the factors: v = d*v1 + v2"""
    for v in mo.vars:
        va = var_atom(v)
        lo = next((g for g in mo.guards if g is le(ZERO, v)), None)
        if lo is None:
            continue
        ds = []
        for a, _ in mo.fac:
            for b in T.atoms(of_atom(a)):
                if b.op == 'div' and b.args[0] is v and va.args[0] not in b.args[1].fv and b.args[1] not in ds:
                    ds.append(b.args[1])
        for d in ds:
            for g in mo.guards:
                if g.op != 'le0' or va.args[0] not in g.fv:
                    continue
                e = solve_for(g.args[0], va)
                if e is None or g is not le(v, e):
                    continue
                Y = T.exact_div(add(e, ONE), d)
                if Y is None or not valid(ctx, lt(ZERO, d)):
                    continue
                v1, v2 = T.fresh('v'), T.fresh('v')
                gs = tuple(x for x in mo.guards if x is not g and x is not lo)
                out = []
                for x in sub_monos(Mono(mo.coef, mo.vars, gs, mo.fac), va, add(mul(d, v1), v2)):
                    x.vars = tuple(y for y in x.vars if y is not v) + (v1, v2)
                    x.guards = x.guards + (le(ZERO, v1), lt(v1, Y), le(ZERO, v2), lt(v2, d))
                    for y in reduce_mono(x, ctx):
                        out += digits(y, ctx)
                return out
    return [mo]


def unused_vars(mo, ctx):
    """a summation variable that no factor mentions: multiply by the size of its range"""
    for v in mo.vars:
        n = var_atom(v).args[0]
        if any(n in a.fv for a, _ in mo.fac):
            continue
        gs = [g for g in mo.guards if n in g.fv]
        if len(gs) != 2 or any(g.op != 'le0' for g in gs):
            continue
        lo = hi = None
        for g in gs:
            c = dict(g.args[0].terms).get(((var_atom(v), 1),))
            e = solve_for(g.args[0], var_atom(v))
            if e is None:
                break
            if c == 1:
                hi = add(e, ONE)
            else:
                lo = e
        if lo is None or hi is None:
            continue
        size = add(hi, scale(lo, -1))
        names = set(var_atom(w).args[0] for w in mo.vars)
        if size.fv & names or not valid(ctx, le(ZERO, size)):
            continue
        out = []
        rest = tuple(g for g in mo.guards if g not in gs)
        for m2, c2 in mul(T._poly({mo.fac: Fraction(mo.coef)}), size).terms:
            out += unused_vars(Mono(c2, tuple(w for w in mo.vars if w is not v), rest, m2), ctx)
        return out
    return [mo]


def _special(a, e):
    return e < 0 or a.op == 'inv' or (a.op == 'fn' and a.args[0] == 'sqrt' and abs(e) >= 2)


def root_zero(ctx, p):
    """sqrt(u) == 0 because u is"""
    for a, e in p.terms[0][0]:
        if a.op == 'fn' and a.args[0] == 'sqrt' and e > 0 and any(x.op == 'sum' for x in T.atoms(a.args[1])):
            try:
                if prove_zero(ctx, a.args[1]):
                    return True
            except TooHard:
                pass
    return False


def has_special(p):
    for m, _ in p.terms:
        for a, e in m:
            if _special(a, e):
                return True
            if a.op == 'sum' and has_special(a.args[2]):
                return True
    return False


def pull(p):
    """moves denominators and squared roots that do not depend on the summation variable out of the sums"""
    if not has_special(p):
        return p
    out = ZERO
    for m, c in p.terms:
        q = const(c)
        for a, e in m:
            if a.op == 'sum' and e > 0 and has_special(a.args[2]):
                v, lo, hi, body = open_binder(a)
                body = pull(body)
                n = var_atom(v).args[0]
                grp = {}
                for m2, c2 in body.terms:
                    fr = tuple((b, k) for b, k in m2 if _special(b, k) and n not in b.fv)
                    bd = tuple((b, k) for b, k in m2 if (b, k) not in fr)
                    grp.setdefault(fr, {})[bd] = c2
                t = ZERO
                for fr, d in grp.items():
                    t = add(t, mul(T._poly({fr: Fraction(1)}), T.Sum(v, lo, hi, T._poly(d))))
                q = mul(q, T.power(t, e))
            else:
                q = mul(q, T._poly({((a, e),): Fraction(1)}))
        out = add(out, q)
    return out


def reduce_sqrt(ctx, p):
    """sqrt(u)^2 = u where u >= 0 is provable"""
    for _ in range(20):
        hit = None
        for m, c in p.terms:
            for a, e in m:
                if a.op == 'fn' and a.args[0] == 'sqrt' and abs(e) >= 2:
                    if valid(ctx, lt(ZERO, a.args[1])) or (e > 0 and valid(ctx, le(ZERO, a.args[1]))):
                        hit = a
                        break
            if hit:
                break
        if not hit:
            return p
        a = hit
        acc = ZERO
        pos = valid(ctx, lt(ZERO, a.args[1]))
        for m, c in p.terms:
            md = dict(m)
            e = md.get(a, 0)
            if abs(e) >= 2 and (pos or e > 0):
                q = int(e / 2)
                md[a] = e - 2 * q
                if not md[a]:
                    del md[a]
                mono = T._poly({tuple(sorted(md.items(), key=lambda t: t[0].id)): c})
                acc = add(acc, mul(mono, T.power(a.args[1], q)))
            else:
                acc = add(acc, T._poly({m: c}))
        if acc is p:
            return p
        p = acc
    return p


def unify_conds(ctx, p, c, depth):
    """rewrites guards of p over sums that are provably the same comparison as c"""
    pc = c.args[0]
    if not any(a.op == 'sum' for m, _ in pc.terms for a, _e in m):
        return p
    others = []
    for m, _ in p.terms:
        for a, _e in m:
            if a.op == 'ite' and a.args[0] is not c and a.args[0].op in ('le0', 'lt0') and a.args[0] not in others and any(
                    b.op == 'sum' for m2, _ in a.args[0].args[0].terms for b, _e2 in m2):
                others.append(a.args[0])
    for o in others[:3]:
        po = o.args[0]
        if o.op == c.op and prove_zero(ctx, add(pc, scale(po, -1)), depth + 2):
            new = c
        elif o.op != c.op and prove_zero(ctx, add(pc, po), depth + 2):
            new = Not(c)
        else:
            continue
        q = ZERO
        for m, k in p.terms:
            t = const(k)
            for x, e in m:
                y = of_atom(x)
                if x.op == 'ite' and x.args[0] is o:
                    y = ite(new, x.args[1], x.args[2])
                t = mul(t, T.power(y, e))
            q = add(q, t)
        return q
    return p


def telescope(ctx, ms):
    """two sums of the same summand of opposite sign, one range inside the other: only the difference remains"""
    for i, a in enumerate(ms):
        for b in ms:
            if a is b or a.fac != b.fac or not a.vars or len(a.vars) != len(b.vars) or a.coef * b.coef > 0:
                continue
            da, db = [g for g in a.guards if g not in b.guards], [g for g in b.guards if g not in a.guards]
            if len(da) != 1 or len(db) != 1:
                continue
            com = [g for g in a.guards if g in b.guards]
            if valid(ctx.plus(*(com + da)), db[0]):  # a's range lies in b's
                out = [m for m in ms if m is not a and m is not b]
                if a.coef + b.coef:
                    out.append(Mono(a.coef + b.coef, a.vars, a.guards, a.fac))
                return out + reduce_mono(Mono(b.coef, b.vars, type(b.guards)(com + [db[0], Not(da[0])]), b.fac), ctx)
    return None


def pointwise(ctx, ms, depth, info):
    """all remaining monomials as one body over the same variables"""
    nvs = set(len(m.vars) for m in ms)
    if len(nvs) != 1:
        return False
    nv = nvs.pop()
    tot = ZERO
    for m in ms:
        tot = add(tot, ite(And(*m.guards), T._poly({m.fac: Fraction(m.coef)}), ZERO))
    if nv == 0:
        if any(a.op in ('sum', 'max') for m in ms for a, _ in m.fac):
            return False
        return leaf_zero(ctx, tot, depth, info)
    return leaf_cases(ctx, tot, depth + 1)


def leaf_cases(ctx, p, depth):
    if depth > 14:
        raise TooHard('case split depth')
    p = simp(ctx, p)
    if p is ZERO or contradictory(ctx):
        return True
    c = free_cond(p)
    if c is not None:
        return all(leaf_cases(ctx.plus(x), p, depth + 1) for x in _cases(c))
    return leaf_zero(ctx, p, depth, None)


def _cases(c):
    if c.op == 'and':
        out = []
        pos = []
        for x in c.args:
            out.append(And(*(pos + [Not(x)])))
            pos.append(x)
        out.append(c)
        return out
    if c.op == 'or':
        return [Not(x) if x is FALSE else x for x in _cases(Not(c))]
    return [c, Not(c)]


def squeeze(ctx, c, p):
    """p with integer variables of the case c that ctx pins to a constant replaced by it"""
    if c.op not in ('le0', 'lt0'):
        return p
    for m, _ in c.args[0].terms:
        for a, e in m:
            if a.op == 'var' and a.sort == 'i' and a.args[0] in p.fv:
                for k in (0, 1):
                    if valid(ctx, eq(of_atom(a), const(k))):
                        return subst(p, {a: const(k)})
    return p


def free_cond(p):
    """an undecided ite condition outside binders, else an undecided div/mod case"""
    best = None
    for m, _ in p.terms:
        for a, _e in m:
            c = _fc(a)
            if c is not None:
                return c
    return best


def _fc(a):
    if a.op == 'ite':
        c = a.args[0]
        inner = _fcb(c)
        return inner if inner is not None else c
    if a.op in ('sum', 'max'):
        for x in a.args[:2]:
            for m, _ in x.terms:
                for b, _e in m:
                    c = _fc(b)
                    if c is not None:
                        return c
        # conditions inside the body that do not depend on bound variables
        return _fcbody(a.args[2])
    for x in a.args:
        if isinstance(x, Poly):
            for m, _ in x.terms:
                for b, _e in m:
                    c = _fc(b)
                    if c is not None:
                        return c
    return None


def _fcbody(p):
    for a in T.atoms(p, under=True):
        if a.op == 'ite':
            c = a.args[0]
            for x in (c.args if c.op in ('and', 'or') else (c,)):
                if not any(n.startswith('#') for n in x.fv):
                    return x
    return None


def _fcb(c):
    for x in c.args:
        if isinstance(x, Poly):
            for m, _ in x.terms:
                for b, _e in m:
                    r = _fc(b)
                    if r is not None:
                        return r
        elif isinstance(x, B):
            r = _fcb(x)
            if r is not None:
                return r
    return None


def clear_denoms(p):
    """multiply out inverse atoms / negative powers: returns (numerator, denominators)"""
    dens = []
    for _ in range(30):
        d = None
        for m, _c in p.terms:
            for a, e in m:
                if a.op == 'inv':
                    d = (a, a.args[0], e)
                    break
                if e < 0:
                    d = (a, None, e)
                    break
            if d:
                break
        if d is None:
            return p, dens
        a, q, _ = d
        if q is not None:
            k = max((e for m, _c in p.terms for b, e in m if b is a), default=0)
            acc = ZERO
            for m, c in p.terms:
                md = dict(m)
                e = md.pop(a, 0)
                mono = T._poly({tuple(sorted(md.items(), key=lambda t: t[0].id)): c})
                acc = add(acc, mul(mono, T.power(q, k - e)))
            dens.append(q)
            p = acc
        else:
            k = -min(e for m, _c in p.terms for b, e in m if b is a)
            p = mul(p, T.power(of_atom(a), k))
            dens.append(of_atom(a))
    return p, dens


def norm_fns(ctx, p):
    """trigonometric identity cos^2 = 1 - sin^2 and sqrt(u)^2 = u"""
    for _ in range(20):
        hit = None
        for m, c in p.terms:
            for a, e in m:
                if a.op == 'fn' and a.args[0] == 'cos' and e >= 2:
                    hit = (a, add(ONE, scale(T.power(T.fn('sin', a.args[1]), 2), -1)))
                elif a.op == 'fn' and a.args[0] == 'sqrt' and e >= 2 and valid(ctx, le(ZERO, a.args[1])):
                    hit = (a, a.args[1])
                if hit:
                    break
            if hit:
                break
        if not hit:
            return p
        a, rep = hit
        acc = ZERO
        for m, c in p.terms:
            md = dict(m)
            e = md.get(a, 0)
            if e >= 2:
                md[a] = e % 2
                if not md[a]:
                    del md[a]
                mono = T._poly({tuple(sorted(md.items(), key=lambda t: t[0].id)): c})
                acc = add(acc, mul(mono, T.power(rep, e // 2)))
            else:
                acc = add(acc, T._poly({m: c}))
        p = acc
    return p


def leaf_zero(ctx, p, depth=0, info=None):
    p = simp(ctx, p)
    if p is ZERO:
        return True
    p2, dens = clear_denoms(p)
    p2 = norm_fns(ctx, p2)
    if dens:
        for d in dens:
            if not (valid(ctx, T.ne(d, ZERO))):
                # fall through to z3 on the original
                p2 = None
                break
    if p2 is ZERO:
        return True
    # equal up to provable equality of application arguments
    if valid(ctx, eq(p2 if p2 is not None else p, ZERO), effort=1):
        return True
    c = divmod_case(ctx, p)
    if c is not None and depth < 12:
        return all(leaf_cases(ctx.plus(x), p, depth + 1) for x in (c, Not(c)))
    g = int_gap(ctx, p) if depth < 12 else None
    if g is not None:
        return all(leaf_cases(cx, q, depth + 1) for cx, q in g)
    return False


def int_gap(ctx, p, w=3):
    """two integer quantities of p that are at most w apart: one case per difference"""
    ats = []
    for m, _ in p.terms:
        for a, _e in m:
            if of_atom(a).isint and a not in ats:
                ats.append(a)
    ats.sort(key=lambda a: a.op == 'var', reverse=True)
    if len(ats) > 6:
        return None
    for i, a in enumerate(ats):
        if a.op != 'var':
            continue
        for b in ats[i + 1:]:
            d = add(of_atom(a), scale(of_atom(b), -1))
            if valid(ctx, And(le(const(-w), d), le(d, const(w)))):
                return [(ctx.plus(eq(d, const(c))), subst(p, {a: add(of_atom(b), const(c))}))
                        for c in range(-w, w + 1)]
    return None


def divmod_case(ctx, p):
    for a in T.atoms(p, under=False):
        if a.op == 'div':
            x, d = a.args
            for c in (lt(x, ZERO), lt(x, d)):
                if decide(ctx, c) is None:
                    return c
    return None


def prove_eq(ctx, a, b, info=None):
    return prove_zero(ctx, add(a, scale(b, -1)), 0, info)


def prove_b(ctx, b, info=None):
    """prove a boolean goal"""
    b = T.mkbool(b)
    if b is TRUE:
        return True
    if b.op == 'and':
        return all(prove_b(ctx, x, info) for x in b.args)
    if b.op == 'forall':
        v, lo, hi, body = open_binder(b)
        return prove_b(ctx.plus(le(lo, v), lt(v, hi)), body, info)
    if valid(ctx, b):
        return True
    if b.op == 'eq0':
        return prove_zero(ctx, b.args[0], 0, info)
    b2 = simp(ctx, b)
    if b2 is TRUE:
        return True
    if b2 is not b and b2.op == 'eq0' and prove_zero(ctx, b2.args[0], 0, info):
        return True
    if b2.op in ('le0', 'lt0'):
        q = peel(ctx, b2.args[0])
        if q is not b2.args[0] and valid(ctx, _ineq(b2.op, q)):
            return True
    # case split on free conditions
    c = _fcb(b2) if b2.op in ('le0', 'lt0', 'eq0', 'not', 'and', 'or') else None
    if c is not None:
        return all(prove_b(ctx.plus(x), b2, info) for x in _cases(c))
    if b2.op in ('le0', 'lt0') and prove_ineq(ctx, b2.op, b2.args[0]):
        return True
    if valid(ctx, b2, timeout=6000, effort=2):
        return True
    if info is not None:
        info.append((ctx, b2))
    return False


# ------------------------------------------------------------------ inequalities over sums and maxima
def _ineq(op, p):
    return le(p, ZERO) if op == 'le0' else lt(p, ZERO)


def peel(ctx, p):
    """sums up to x + 1 -> sum up to x, plus the last term"""
    for a in top_atoms(p, ('sum',)):
        lr = linear_in(p, a)
        lo, hi = a.args[0], a.args[1]
        if lr is None or dict(hi.terms).get((), 0) < 1 or hi.is_const() or not valid(ctx, lt(lo, hi)):
            continue
        v, lo, hi, body = open_binder(a)
        top = add(hi, const(-1))
        p = add(mul(lr[0], add(T.Sum(v, lo, top, body), subst(body, {var_atom(v): top}))), lr[1])
    return p


def top_atoms(p, ops):
    out = []
    for m, _ in p.terms:
        for a, _e in m:
            if a.op in ops and a not in out:
                out.append(a)
    return out


def linear_in(p, a):
    """p = q*a + r, or None"""
    q, r = ZERO, ZERO
    for m, c in p.terms:
        d = dict(m)
        if a in d:
            if d[a] != 1:
                return None
            del d[a]
            q = add(q, T._poly({tuple(x for x in m if x[0] is not a): c}))
        else:
            r = add(r, T._poly({m: c}))
    return q, r


def nonneg(ctx, p, depth=0):
    """ctx |- p >= 0 for a term that may contain sums"""
    p = simp(ctx, p)
    if valid(ctx, le(ZERO, p)):
        return True
    if depth > 4:
        return False
    tot = True
    for m, c in p.terms:
        if c < 0:
            tot = False
            break
        for a, e in m:
            if e % 2 == 0:
                continue
            if a.op == 'sum':
                v, lo, hi, body = open_binder(a)
                if not nonneg(ctx.plus(le(lo, v), lt(v, hi)), body, depth + 1):
                    tot = False
                    break
            elif not valid(ctx, le(ZERO, of_atom(a))):
                tot = False
                break
        if not tot:
            break
    if tot:
        return True
    if not top_atoms(p, ('sum', 'max')):
        c = free_cond(p)
        if c is not None:
            return all(contradictory(ctx.plus(x)) or nonneg(ctx.plus(x), p, depth + 1) for x in _cases(c))
    return False


def groups_of(p):
    """p as sum over non-sum monomials of linear combinations of sums"""
    g = {}
    for m, c in p.terms:
        key = tuple(x for x in m if x[0].op != 'sum')
        sm = tuple(x for x in m if x[0].op == 'sum')
        if len(sm) > 1 or (sm and sm[0][1] != 1):
            return None
        g[key] = add(g.get(key, ZERO), T._poly({sm: c}))
    return g


def int_cands(ctx, p):
    out = []
    names = set(p.fv)
    for f in ctx.facts:
        if f.op in ('le0', 'lt0'):
            for m, _ in f.args[0].terms:
                for a, e in m:
                    if a.op == 'var' and a.sort == 'i' and a.args[0] in names and of_atom(a) not in out:
                        out.append(of_atom(a))
    return out


def prove_ineq(ctx, op, p, depth=0):
    check_deadline()
    if depth > 6:
        return False
    p = simp(ctx, p)
    if valid(ctx, _ineq(op, p)):
        return True
    if contradictory(ctx):
        return True
    for a in top_atoms(p, ('max',)):
        lr = linear_in(p, a)
        if lr is None:
            continue
        q, r = lr
        v, lo, hi, body = open_binder(a)
        if valid(ctx, le(ZERO, q)):
            return prove_ineq(ctx.plus(le(lo, v), lt(v, hi)), op, add(mul(q, body), r), depth + 1)
        if valid(ctx, le(q, ZERO)):
            for e in int_cands(ctx, p)[-4:] + [lo]:
                if not valid(ctx, And(le(lo, e), lt(e, hi))):
                    continue
                if prove_ineq(ctx, op, add(mul(q, subst(body, {var_atom(v): e})), r), depth + 1):
                    return True
            return False
    c = free_cond(p)
    if c is not None:
        return all(prove_ineq(ctx.plus(x), op, squeeze(ctx.plus(x), x, p), depth + 1) for x in _cases(c))
    g = groups_of(p)
    if g is not None and len(g) > 1:
        for key, q in list(g.items()):
            if not top_atoms(q, ('sum',)):
                continue
            try:
                z = prove_zero(ctx, q)
            except TooHard:
                z = False
            if z:
                del g[key]
                for a in top_atoms(q, ('sum',)):
                    lr = linear_in(q, a)
                    if lr and lr[0].is_const() and lr[0].const() != 0:
                        val = scale(lr[1], -1 / lr[0].const())
                        p2 = ZERO
                        for k2, q2 in g.items():
                            l2 = linear_in(q2, a)
                            q3 = add(mul(l2[0], val), l2[1]) if l2 else q2
                            p2 = add(p2, mul(T._poly({k2: Fraction(1)}), q3))
                        if prove_ineq(ctx, op, p2, depth + 1):
                            return True
                p2 = ZERO
                for k2, q2 in g.items():
                    p2 = add(p2, mul(T._poly({k2: Fraction(1)}), q2))
                return prove_ineq(ctx, op, p2, depth + 1)
    if op == 'le0' and nonneg(ctx, scale(p, -1)):
        return True
    if op == 'le0' and top_atoms(p, ('sum',)):
        try:
            return prove_zero(ctx, p)
        except TooHard:
            return False
    return False
