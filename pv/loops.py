"""Loops and comprehensions over sequences of symbolic length.

A loop is summarised by running its body once at a generic iteration k from a
havocked state (every location the body may write is an unknown function of k),
solving the resulting recurrences by templates and *checking* the templates'
side conditions with the solver.  Nothing is assumed about the body."""
import ast
from . import terms as T
from . import solver as S
from .terms import (Poly, B, ZERO, ONE, TRUE, FALSE, And, Or, Not, eq, le, lt, ite, var, const, lift, add, mul,
                    scale, subst, var_atom)
from .values import *
from .values import J
from .arrays import SArr, OArr, Content, Store, fresh_arr, vmap, tite, PH, PHA

STATS = {'loops': 0, 'max_rounds': 0}


# ------------------------------------------------------------------ fresh-symbol lifting
import os as _os
DBG = bool(_os.environ.get("PV_LOOPDBG"))


def _num_of(name):
    i = name.rfind('!')
    if i < 0:
        return -1
    j = i + 1
    while j < len(name) and name[j].isdigit():
        j += 1
    return int(name[i + 1:j]) if j > i + 1 else -1


def lifter(k, start):
    """term map turning symbols created after `start` into functions of k"""
    memo = {}

    def go(t):
        r = memo.get(t)
        if r is None:
            r = _go(t)
            memo[t] = r
        return r

    def isnew(n):
        return _num_of(n) > start

    def has_new(t):
        return any(isnew(n) for n in t.fv if n != var_atom(k).args[0] and not n.startswith(('#', '%'))) or \
            any(isnew(n) for n in t.fa)

    def _go(t):
        if isinstance(t, (Poly, B)) and not has_new(t):
            return t
        if isinstance(t, Poly):
            r = ZERO
            for m, c in t.terms:
                q = const(c)
                for a, e in m:
                    q = mul(q, T.power(goa(a), e))
                r = add(r, q)
            return r
        if t.op == 'forall':
            v, lo, hi, body = T.open_binder(t)
            # v itself is fresh: protect it by renaming to a neutral name
            pv = var('%b' + str(t.height) + '_' + str(len(memo)))
            body = subst(body, {var_atom(v): pv})
            return T.Forall(pv, go(lo), go(hi), go(body))
        if t.op == 'batom':
            a = t.args[0]
            args = [go(x) if isinstance(x, (Poly, B)) else x for x in a.args]
            if isnew(args[0]):
                args = [args[0] + '^', k] + args[1:]
            return T._b('batom', (T._atom('app', tuple(args), 'b'),))
        if t.op in ('true', 'false'):
            return t
        return T.rebuild_b(t, [go(x) for x in t.args])

    def goa(a):
        if a.op == 'var':
            n = a.args[0]
            if n != var_atom(k).args[0] and not n.startswith(('#', '%')) and isnew(n):
                return T.app(n + '^', (k,), a.sort)
            return T.of_atom(a)
        if a.op in ('sum', 'max'):
            v, lo, hi, body = T.open_binder(a)
            pv = var('%b' + str(a.height) + '_' + str(len(memo)))
            body = subst(body, {var_atom(v): pv})
            return (T.Sum if a.op == 'sum' else T.Max)(pv, go(lo), go(hi), go(body))
        args = [go(x) if isinstance(x, (Poly, B)) else x for x in a.args]
        if a.op == 'app' and isnew(args[0]):
            return T.app(args[0] + '^', (k,) + tuple(args[1:]), a.sort)
        return T.rebuild(a, args)
    return go


# ------------------------------------------------------------------ one generic pass
class Path:
    pass


def generic_pass(I, k, N, body, setup=None):
    """explore body(k); returns list of Path(cond, kind, exc/value, writes)"""
    out = []
    base = I.facts.plus(le(ZERO, k), lt(k, N))
    saved = I.facts
    I.facts = base
    stamp0 = J.serial
    start = T._fresh[0]

    def run():
        T._fresh[0] = start
        if setup:
            setup()
        mark = J.mark()
        p = Path()
        p.kind, p.val = 'normal', None
        from .interp import Return, Break, Continue
        side0 = len(I.side)
        try:
            p.val = body(k)
        except Continue:
            pass
        except Break:
            p.kind = 'break'
        except Return as r:
            p.kind, p.val = 'return', r.v
        except PyRaise as e:
            p.kind, p.val = 'raise', e.exc
        p.writes = {}
        for loc, old in J.log[mark:]:
            o = loc.obj
            if getattr(o, 'stamp', 0) > stamp0:
                continue
            idn = loc.ident()
            if idn not in p.writes:
                p.writes[idn] = [loc, old, None]
        for w in p.writes.values():
            w[2] = w[0].read()
        # contents must be frozen before rollback
        for w in p.writes.values():
            if w[0].kind == 'store':
                w[2].body()
        # what the pass itself created (a raised exception, a returned object) keeps its state
        J.log[mark:] = [(loc, old) for loc, old in J.log[mark:] if not getattr(loc.obj, 'stamp', 0) > stamp0]
        p.cond = And(*I.frames[-1].conds)
        p.assumed = [f for f in I.facts.facts if f.id not in base.key and f not in I.frames[-1].conds
                     and not (f.op != 'and' and any(f in c.args for c in I.frames[-1].conds if c.op == 'and'))]
        p.end = T._fresh[0]
        out.append(p)
    try:
        I.explore(run)
    finally:
        I.facts = saved
    if out:
        T._fresh[0] = max(p.end for p in out)
    return out, start


def mcond(p):
    return getattr(p, 'mcond', p.cond)


def weaken(I, k, N, norm, names):
    """conditions that tell the normal paths of an iteration apart, without what only says that the loop goes on"""
    ctx = I.facts.plus(le(ZERO, k), lt(k, N))
    for p in norm:
        cs = list(p.cond.args) if p.cond.op == 'and' else [p.cond]
        for c in sorted(cs, key=lambda c: not (c.fa & names)):
            rest = [d for d in cs if d is not c]
            if all(S.decide(ctx.plus(*rest), q.cond) is False for q in norm if q is not p):
                cs = rest
        p.mcond = And(*cs)


def merge_vals(I, paths, vals):
    """values of one location along the normal paths -> single value"""
    v0 = vals[0]
    if all(v is v0 for v in vals):
        return v0
    if all(isinstance(v, (Poly, B)) for v in vals):
        r = vals[-1]
        for p, v in list(zip(paths, vals))[-2::-1]:
            r = tite(mcond(p), v, r)
        return r
    if all(is_num(v) for v in vals):
        from . import ops
        dt = dt_of(v0)
        for v in vals[1:]:
            dt = ops.join(dt, dt_of(v))
        if dt == 'b':
            r = T.mkbool(vals[-1])
            for p, v in list(zip(paths, vals))[-2::-1]:
                r = T.bite(mcond(p), T.mkbool(v), r)
            return mk(r)
        r = num(vals[-1])
        for p, v in list(zip(paths, vals))[-2::-1]:
            r = ite(mcond(p), num(v), r)
        return mk(r, dt)
    if all(isinstance(v, SArr) for v in vals) and all(len(v.shape) == len(v0.shape) and v.dtype == v0.dtype
                                                     for v in vals):
        shp = []
        for d in range(len(v0.shape)):
            if all(v.shape[d] is v0.shape[d] or I.holds(eq(v.shape[d], v0.shape[d])) for v in vals[1:]):
                shp.append(v0.shape[d])
                continue
            r = vals[-1].shape[d]
            for p, v in list(zip(paths, vals))[-2::-1]:
                r = ite(mcond(p), v.shape[d], r)
            shp.append(r)
        cs = [v.content() for v in vals]

        def f(idx):
            r = cs[-1].at(idx)
            for p, c in list(zip(paths, cs))[-2::-1]:
                r = tite(mcond(p), c.at(idx), r)
            return r
        return fresh_arr(tuple(shp), f, v0.dtype)
    if all(isinstance(v, tuple) and len(v) == len(v0) for v in vals):
        return tuple(merge_vals(I, paths, [v[i] for v in vals]) for i in range(len(v0)))
    if all(isinstance(v, LList) and v.concrete() and len(v.items) == len(v0.items) for v in vals):
        return LList([merge_vals(I, paths, [v.items[i] for v in vals]) for i in range(len(v0.items))])
    if all(isinstance(v, Obj) and v.cls is v0.cls and set(v.attrs) == set(v0.attrs) for v in vals):
        o = Obj(v0.cls)
        for n in v0.attrs:
            o.attrs[n] = merge_vals(I, paths, [v.attrs[n] for v in vals])
        return o
    raise Unsupported('values differ between paths of a loop body')


def resolve(conds):
    """disjunction of path conditions, with complementary cases merged"""
    cs = [frozenset(c.args) if c.op == 'and' else frozenset([c]) for c in conds]
    ch = True
    while ch:
        ch = False
        for i in range(len(cs)):
            for j in range(len(cs)):
                if i == j:
                    continue
                hit = [x for x in cs[i] if Not(x) in cs[j]]
                if len(hit) == 1 and cs[j] - {Not(hit[0])} >= cs[i] - {hit[0]}:
                    new = cs[j] - {Not(hit[0])}
                    # (x & a) | (!x & a & b)  ->  (x & a) | (a & b)
                    cs[j] = new
                    ch = True
                    break
                if cs[i] < cs[j]:
                    del cs[j]
                    ch = True
                    break
            if ch:
                break
    return Or(*[And(*c) for c in cs])


def handle_exits(I, paths, k, N, start, closed=None):
    """raise/return/break paths: forks the caller.  closed: maps terms at iteration k (havoc -> closed form)."""
    exits = [p for p in paths if p.kind != 'normal']
    if not exits:
        return None
    lf = lifter(k, start)
    ka = var_atom(k)
    f = (lambda t: closed(lf(t))) if closed else lf
    conds = [f(p.cond) for p in exits]
    E = resolve(conds)
    if I.branch(T.Forall(k, ZERO, N, Not(E))):
        return None
    ks = T.fresh('kx')
    I.assume(And(le(ZERO, ks), lt(ks, N), subst(E, {ka: ks})))
    j = T.fresh('j')
    I.assume(T.Forall(j, ZERO, ks, Not(subst(E, {ka: j}))))
    for p, c in zip(exits, conds):
        if p is exits[-1] or I.branch(subst(c, {ka: ks})):
            p.at = ks
            return p
    raise Unsupported('exit')


def iter_sum(v, kk, body):
    """sum of body over the first kk >= 0 iterations"""
    if not (v.fv & body.fv):
        return mul(kk, body)
    return T.Sum(v, ZERO, kk, body)


def at_iter(I, v, f, k, kk):
    ka = var_atom(k)
    return vmap(v, lambda t: subst(f(t), {ka: kk}))


def _raise_exit(I, p, f, k):
    from .interp import Return
    if p.kind == 'raise':
        raise PyRaise(at_iter(I, p.val, f, k, p.at))
    if p.kind == 'return':
        raise Return(at_iter(I, p.val, f, k, p.at))


# ------------------------------------------------------------------ comprehensions
def map_seq(I, seq, fn, kind='list'):
    """[fn(x) for x in seq], evaluated once at a generic index"""
    if isinstance(seq, PSeq):
        raise Unsupported('product comprehension')
    N = seq.length
    k = T.fresh('k')
    paths, start = generic_pass(I, k, N, lambda kk: fn(seq.elem(kk)))
    if not paths:
        I.assume(le(N, ZERO))
        return LList()
    for p in paths:
        for w in p.writes.values():
            if w[2] is not w[1] and not same_value(w[1], w[2]):
                raise Unsupported('side effect in a comprehension on %s' % (w[0].key,))
    ex = handle_exits(I, paths, k, N, start)
    lf = lifter(k, start)
    if ex is not None:
        if ex.kind == 'break':
            raise Unsupported('break')
        _raise_exit(I, ex, lf, k)
    norm = [p for p in paths if p.kind == 'normal']
    if not norm:
        I.assume(le(N, ZERO))
        return LList()
    v = merge_vals(I, norm, [p.val for p in norm])
    add_assumed(I, norm, k, N, lf)
    ka = var_atom(k)
    v = vmap(v, lf)
    r = SSeq(N, lambda kk: vmap(v, lambda t: subst(t, {ka: kk})), kind)
    return r


def add_assumed(I, paths, k, N, lf):
    for p in paths:
        for f in p.assumed:
            g = T.Implies(lf(p.cond), lf(f)) if len(paths) > 1 else lf(f)
            if k.fv & g.fv:
                I.assume(T.Forall(k, ZERO, N, g))
            else:
                I.assume(T.Implies(lt(ZERO, N), g))


def same_value(a, b):
    if a is b:
        return True
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(x is y for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(a[x] is b[x] for x in a)
    if isinstance(a, Sc) and isinstance(b, Sc):
        return a.p is b.p
    if isinstance(a, Content) and isinstance(b, Content):
        return a.body() is b.body()
    return False


def comprehension(I, n, env, kind):
    gens = n.generators
    cenv = Env(env, env.globals)
    cenv.fn = 'comp'

    def rec(i):
        g = gens[i]
        it = I.iterate(I.eval(g.iter, env if i == 0 else cenv))
        last = i == len(gens) - 1
        if isinstance(it, list):
            out = []
            for x in it:
                I.assign(g.target, x, cenv)
                if all(I.truth(I.eval(c, cenv)) for c in g.ifs):
                    if last:
                        out.append(I.eval(n.elt, cenv))
                    else:
                        out += rec(i + 1)
            return out
        if isinstance(it, PSeq):
            raise Unsupported('comprehension over a product')

        def fn(x):
            e2 = Env(env, env.globals)
            e2.fn = 'comp'
            e2.vars.update(cenv.vars)
            I.assign(g.target, x, e2)
            for c in g.ifs:
                t = I.tobool(I.eval(c, e2))
                if isinstance(t, B):
                    t = I.known(t)
                if t is None:
                    raise Unsupported('filtered comprehension over a symbolic sequence')
                if not t:
                    raise _Skip()
            if not last:
                raise Unsupported('nested comprehension over a symbolic sequence')
            return I.eval(n.elt, e2)
        try:
            r = map_seq(I, it, fn)
        except _Skip:
            return []
        return list(r.items) if isinstance(r, LList) else [Seg(r)]
    return LList(rec(0))


class _Skip(Exception):
    pass


def dictcomp(I, n, env):
    gens = n.generators
    cenv = Env(env, env.globals)
    cenv.fn = 'comp'
    d = LDict()

    def rec(i):
        g = gens[i]
        it = I.iterate(I.eval(g.iter, env if i == 0 else cenv))
        if not isinstance(it, list):
            raise Unsupported('dict comprehension over a symbolic sequence')
        for x in it:
            I.assign(g.target, x, cenv)
            if all(I.truth(I.eval(c, cenv)) for c in g.ifs):
                if i == len(gens) - 1:
                    d.d[I.hkey(I.eval(n.key, cenv))] = I.eval(n.value, cenv)
                else:
                    rec(i + 1)
    rec(0)
    return d


# ------------------------------------------------------------------ loops
def for_loop(I, st, it, env):
    if isinstance(it, PSeq):
        def nest(i, vals):
            if i == len(it.seqs):
                I.assign(st.target, tuple(vals), env)
                I.run_block(st.body, env, None)
                return
            s = it.seqs[i]
            if isinstance(s, list):
                for x in s:
                    nest(i + 1, vals + [x])
            else:
                loop(I, s.length, lambda k: nest(i + 1, vals + [s.elem(k)]))
        nest(0, [])
        return

    def body(k):
        I.assign(st.target, it.elem(k), env)
        I.run_block(st.body, env, None)
    broke = loop(I, it.length, body)
    if not broke:
        I.run_block(st.orelse, env, None)


_loopid = [0]


def loop(I, N, body):
    N = lift(N)
    if N.is_const() and N.const() <= 64:
        from .interp import Break, Continue
        for i in range(int(N.const())):
            try:
                body(const(i))
            except Continue:
                pass
            except Break:
                return True
        return False
    STATS['loops'] += 1
    k = T.fresh('k')
    tag = T.fresh_name('L')
    locs = {}       # ident -> (loc, init)
    hav = {}        # ident -> havoc info
    dts = {}
    for rnd in range(8):
        def setup():
            for i, (idn, (loc, init)) in enumerate(locs.items()):
                v = havoc(I, loc, init, '%s_%d@' % (tag, i), k, dts.get(idn))
                loc.write(v)
        J_mark = J.mark()
        try:
            paths, start = generic_pass(I, k, N, body, setup)
        except CarriedRead as e:
            raise Unsupported('loop-carried value of %s %s' % (e.loc.kind, e.loc.key))
        grew = False
        for p in paths:
            for idn, (loc, old, new) in p.writes.items():
                if idn not in locs:
                    if same_value(loc.read(), new):
                        continue
                    locs[idn] = (loc, loc.read())
                    grew = True
                else:
                    init = locs[idn][1]
                    if is_num(init) and is_num(new):
                        from . import ops
                        d = ops.join(dts.get(idn) or dt_of(init), dt_of(new))
                        if d == 'b':
                            d = dts.get(idn) or dt_of(init)
                        if d != (dts.get(idn) or dt_of(init)):
                            dts[idn] = d
                            grew = True
        if not grew:
            break
    else:
        raise Unsupported('loop state does not stabilise')
    if not paths:
        I.assume(le(N, ZERO))
        return False
    lf = lifter(k, start)
    norm = [p for p in paths if p.kind == 'normal']
    names = {}
    for i, idn in enumerate(locs):
        names[idn] = '%s_%d@' % (tag, i)
    sol = Closed()      # name -> f(kk, idx) closed form at iteration start
    if norm:
        if 1 < len(norm) < len(paths):
            weaken(I, k, N, norm, set(names.values()))
        news = {}
        for idn, (loc, init) in locs.items():
            vals = [p.writes[idn][2] if idn in p.writes else None for p in norm]
            hv = havoc(I, loc, init, names[idn], k, dts.get(idn))
            vals = [hv if v is None else v for v in vals]
            news[idn] = (loc, init, vals)
        add_assumed(I, norm, k, N, lf)
        final = solve(I, k, N, norm, news, names, lf, sol, dts)
    else:
        final = None

    def closed(t):
        return substitute_apps(t, sol)
    ex = handle_exits(I, paths, k, N, start, closed)
    if ex is not None:
        for idn, (loc, old, new) in ex.writes.items():
            if loc.kind == 'store':
                b = subst(closed(lf(new.body())), {var_atom(k): ex.at})
                loc.write(Content(new.rank, None, b))
            elif loc.kind in ('var', 'attr') and idn in locs:
                try:
                    loc.write(at_iter(I, new, lambda t: closed(lf(t)), k, ex.at))
                except Unsupported:
                    loc.write(Poison(loc))
        for idn, (loc, init) in locs.items():
            if idn not in ex.writes:
                if loc.kind == 'store' and names[idn] in sol:
                    loc.write(Content(len(loc.obj.shape), lambda idx, nm=names[idn]: sol[nm](ex.at, idx)))
                elif names[idn] in sol and is_num(init):
                    loc.write(mk(sol[names[idn]](ex.at, ()), dts.get(idn) or dt_of(init)))
                else:
                    loc.write(Poison(loc))
        _raise_exit(I, ex, lambda t: closed(lf(t)), k)
        return True
    if final is None:
        I.assume(le(N, ZERO))
        return False
    for idn, v in final.items():
        locs[idn][0].write(v)
    return False


def havoc(I, loc, init, name, k, dt):
    if loc.kind == 'store':
        st = loc.obj
        d = getattr(st, 'dtype', 'f')
        if d == 'b':
            return Content(len(st.shape), lambda idx: T.bapp(name, (k,) + tuple(idx)))
        sort = 'i' if d == 'i' else 'r'
        return Content(len(st.shape), lambda idx: T.app(name, (k,) + tuple(idx), sort))
    if loc.kind in ('var', 'attr'):
        if is_num(init) and not isinstance(init, (bool, B)):
            d = dt or dt_of(init)
            return Sc(T.app(name, (k,), 'i' if d == 'i' else 'r'), d)
        return Poison(loc)
    if loc.kind == 'list':
        def bad(kk):
            raise CarriedRead(loc)
        return list(init) + [Seg(SSeq(T.app(name + 'len', (k,), 'i'), bad))]
    if loc.kind == 'dict':
        raise Unsupported('dictionary updated in a symbolic loop')
    raise Unsupported('loop effect on ' + loc.kind)


class Closed(dict):
    """name -> closed form at the start of an iteration; post: atom (value after the iteration) -> closed form"""

    def __init__(self):
        super().__init__()
        self.post = {}


def substitute_apps(t, sol):
    """replace havoc applications by closed forms, repeatedly"""
    for _ in range(6):
        names = set(sol) & set(t.fa)
        if not names:
            return t
        t = _subapps(t, sol, {})
    return t


def _subapps(t, sol, memo):
    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        if isinstance(x, Poly):
            if not (x.fa & sol.keys()):
                return x
            r = ZERO
            for m, c in x.terms:
                q = const(c)
                for a, e in m:
                    q = mul(q, T.power(goa(a), e))
                r = add(r, q)
        elif isinstance(x, B):
            if not (x.fa & sol.keys()):
                return x
            if x.op == 'forall':
                v, lo, hi, body = T.open_binder(x)
                r = T.Forall(v, go(lo), go(hi), _subapps(body, sol, {}))
            elif x.op == 'batom':
                a = x.args[0]
                args = [go(y) if isinstance(y, (Poly, B)) else y for y in a.args]
                r = sol[args[0]](args[1], tuple(args[2:])) if args[0] in sol else \
                    T._b('batom', (T._atom('app', tuple(args), 'b'),))
            else:
                r = T.rebuild_b(x, [go(y) for y in x.args])
        memo[x] = r
        return r

    def goa(a):
        if not (a.fa & sol.keys()):
            return T.of_atom(a)
        if a in sol.post:
            return sol.post[a]
        if a.op in ('sum', 'max'):
            v, lo, hi, body = T.open_binder(a)
            return (T.Sum if a.op == 'sum' else T.Max)(v, go(lo), go(hi), _subapps(body, sol, {}))
        args = [go(y) if isinstance(y, (Poly, B)) else y for y in a.args]
        if a.op == 'app' and args[0] in sol:
            return lift(sol[args[0]](args[1], tuple(args[2:])))
        return T.rebuild(a, args)
    return go(t)


class NotAffine(Exception):
    pass


def affine(t, at):
    """t = A*at + b with at not occurring in A, b"""
    nm = at.args[0]
    if isinstance(t, B):
        raise NotAffine()
    if nm not in t.fa:
        return ZERO, t
    A, b = ZERO, ZERO
    for m, c in t.terms:
        hit = [(i, a, e) for i, (a, e) in enumerate(m) if nm in a.fa]
        if not hit:
            b = add(b, T._poly({m: c}))
            continue
        if len(hit) > 1 or hit[0][2] != 1:
            raise NotAffine()
        i, a, _ = hit[0]
        rest = T._poly({m[:i] + m[i + 1:]: c})
        if a is at:
            A = add(A, rest)
        elif a.op == 'ite':
            c0, x, y = a.args
            if nm in c0.fa:
                raise NotAffine()
            ax, bx = affine(x, at)
            ay, by = affine(y, at)
            A = add(A, mul(rest, ite(c0, ax, ay)))
            b = add(b, mul(rest, ite(c0, bx, by)))
        else:
            raise NotAffine()
    return A, b


def solve(I, k, N, norm, news, names, lf, sol, dts):
    """-> ident -> final value; fills sol with closed forms at iteration start"""
    from . import ops
    final = {}
    ka = var_atom(k)
    pend = dict(news)
    ctx = I.facts.plus(le(ZERO, k), lt(k, N))
    allnames = set(names.values())
    progress = True
    while pend and progress:
        progress = False
        for idn in list(pend):
            loc, init, vals = pend[idn]
            nm = names[idn]
            if loc.kind == 'list':
                r = solve_list(I, k, N, norm, loc, init, vals, lf, sol, allnames)
                if r is None:
                    continue
                final[idn] = r
                del pend[idn]
                progress = True
                continue
            if loc.kind == 'store':
                bodies = [v.body() for v in vals]
                new = lf(merge_terms(norm, bodies))
                new = substitute_apps(new, sol)
                if (new.fa & allnames) - {nm} - set(sol):
                    continue
                new = S.simp(ctx, new) if isinstance(new, Poly) else new
                rank = len(loc.obj.shape)
                idx = tuple(PH[:rank])
                rng = And(*[And(le(ZERO, i), lt(i, s)) for i, s in zip(idx, loc.obj.shape)])
                if isinstance(new, B):
                    f = solve_bool_store(I, ctx.plus(rng), k, N, nm, new, init, idx)
                else:
                    f = solve_store(I, ctx.plus(rng), k, N, nm, new, init, idx, getattr(loc.obj, 'dtype', 'f'))
                if f is None:
                    raise Unsupported('loop recurrence on an array')
                sol[nm] = f
                final[idn] = Content(rank, lambda ix, f=f: f(N, ix))
                del pend[idn]
                progress = True
                continue
            # variables / attributes
            if all(is_num(v) for v in vals) and is_num(init) and not isinstance(init, (bool, B)):
                dt = dts.get(idn) or dt_of(init)
                new = lf(num(merge_vals(I, norm, vals)))
                new = substitute_apps(new, sol)
                if (new.fa & allnames) - {nm} - set(sol):
                    continue
                new = S.simp(ctx, new)
                at = T._atom('app', (nm, k), 'i' if dt == 'i' else 'r')
                i0 = num(init)
                if nm not in new.fa:
                    f = lambda kk, _=(), new=new, i0=i0: ite(le(kk, ZERO), i0,
                                                            subst(new, {ka: add(kk, const(-1))}))
                else:
                    try:
                        A, b = affine(new, at)
                    except NotAffine:
                        f = solve_max(I, ctx, k, N, nm, new, at, i0)
                        if f is None:
                            raise Unsupported('scalar recurrence')
                        sol.post[new.terms[0][0][0][0]] = S.simp(ctx, f(add(k, ONE)))
                    else:
                        if A is not ONE:
                            raise Unsupported('scalar recurrence')

                        def f(kk, _=(), b=b, i0=i0):
                            v = T.fresh('k')
                            return add(i0, iter_sum(v, kk, subst(b, {ka: v})))
                sol[nm] = f
                final[idn] = mk(S.simp(I.facts, f(N)), dt)
                del pend[idn]
                progress = True
                continue
            # objects: overwritten each iteration (temporaries)
            if loc.kind in ('var', 'attr'):
                if any(isinstance(v, Poison) for v in vals) and not all(isinstance(v, Poison) for v in vals):
                    final[idn] = Poison(loc)
                elif all(isinstance(v, Poison) for v in vals):
                    final[idn] = init
                else:
                    try:
                        v = merge_vals(I, norm, vals)
                        probe = vmap(v, lambda t: substitute_apps(lf(t), sol))
                        if I.holds(lt(ZERO, N)):
                            final[idn] = vmap(probe, lambda t: subst(t, {ka: add(N, const(-1))}))
                        else:
                            final[idn] = Poison(loc)
                    except Unsupported:
                        final[idn] = Poison(loc)
                del pend[idn]
                progress = True
                continue
            raise Unsupported('loop state')
    if pend:
        raise Unsupported('mutually dependent loop state')
    return final


def small(c, L):
    """truth of a comparison for every sufficiently small L, or None"""
    if c.op in ('le0', 'lt0'):
        lin = [(m, x) for m, x in c.args[0].terms if any(L.args[0] in a.fa for a, _ in m)]
        if len(lin) == 1 and len(lin[0][0]) == 1 and lin[0][0][0] == (L, 1):
            return T.TRUE if lin[0][1] > 0 else T.FALSE
    return None


def solve_max(I, ctx, k, N, nm, new, at, i0):
    """new = max(L, x), or min"""
    if len(new.terms) != 1 or len(new.terms[0][0]) != 1 or new.terms[0][1] != 1 or new.terms[0][0][0][0].op != 'ite':
        return None
    ka = var_atom(k)
    L = T.of_atom(at)
    for sign in (1, -1):
        def drop(t):
            if isinstance(t, B):
                if nm not in t.fa:
                    return t
                r = small(t, at)
                if r is not None:
                    return r if sign > 0 else Not(r)
                return T.rebuild_b(t, [drop(y) for y in t.args]) if t.op in ('and', 'or', 'not') else t
            if nm not in t.fa:
                return t
            r = ZERO
            for m, c in t.terms:
                q = const(c)
                for a, e in m:
                    q = mul(q, T.power(ite(drop(a.args[0]), drop(a.args[1]), drop(a.args[2]))
                                       if a.op == 'ite' and nm in a.fa else T.of_atom(a), e))
                r = add(r, q)
            return r
        x = drop(new)
        if nm in x.fa:
            continue
        ext = T.tmax if sign > 0 else T.tmin
        if not (new is ext(L, x) or S.decide(ctx, eq(new, ext(L, x))) is True):
            continue
        bound = S.prove_b(ctx, le(i0, x) if sign > 0 else le(x, i0))

        def f(kk, _=(), x=x, sign=sign, bound=bound):
            v = T.fresh('k')
            m = scale(T.Max(v, ZERO, kk, scale(subst(x, {ka: v}), sign)), sign)
            return ite(le(kk, ZERO), i0, m if bound else ext(i0, m))
        return f
    return None


def merge_terms(norm, bodies):
    r = bodies[-1]
    for p, b in list(zip(norm, bodies))[-2::-1]:
        r = tite(mcond(p), b, r)
    return r


def solve_store(I, ctx, k, N, nm, new, init, idx, dtype):
    ka = var_atom(k)
    sort = 'i' if dtype == 'i' else 'r'
    at = T._atom('app', (nm, k) + idx, sort)
    if nm not in new.fa:
        # completely overwritten
        def f(kk, ix):
            m = {PHA[i]: ix[i] for i in range(len(ix))}
            m[ka] = add(kk, const(-1))
            return ite(le(kk, ZERO), init.at(ix), subst(new, m))
        return f
    try:
        A, b = affine(new, at)
    except NotAffine:
        return None
    if any(nm in x.fa for x in (A, b)):
        return None
    A, b = S.simp(ctx, A), S.simp(ctx, b)
    a = S.simp(ctx, add(A, const(-1)))
    a, b = windows(ctx, a), windows(ctx, b)
    if DBG:
        print('STORE', nm, '\n  A', a, '\n  B', b)
    ch = chain(a, b, ka)
    if ch and len(ch) > 1 and apart(ctx, ch, ka, N):
        def h(kk, ix):
            m = {PHA[i]: ix[i] for i in range(len(ix))}
            i0 = init.at(ix)
            r = i0
            for c, e, X, Y in reversed(ch):
                ee = subst(e, m)
                m1 = dict(m)
                m1[ka] = ee
                r = ite(And(subst(c, m1), le(ZERO, ee), lt(ee, kk)), add(mul(add(ONE, subst(X, m1)), i0), subst(Y, m1)), r)
            return r
        return h

    if a is not ZERO:
        k1, k2 = T.fresh('ka'), T.fresh('kb')
        base = ctx.plus(le(ZERO, k1), lt(k1, k2), lt(k2, N))
        a1, a2 = subst(a, {ka: k1}), subst(a, {ka: k2})
        b1, b2 = subst(b, {ka: k1}), subst(b, {ka: k2})
        for x, y in ((a1, a2), (a1, b2), (b1, a2)):
            if x is ZERO or y is ZERO:
                continue
            if not S.prove_zero(base, mul(x, y)):
                return None

    pin = pinned(a, b, ka)
    if pin is not None:
        c, e, X, Y = pin

        def g(kk, ix):
            m = {PHA[i]: ix[i] for i in range(len(ix))}
            i0 = init.at(ix)
            ee = subst(e, m)
            m[ka] = ee
            cc = And(subst(c, m), le(ZERO, ee), lt(ee, kk))
            return ite(cc, add(mul(add(ONE, subst(X, m)), i0), subst(Y, m)), i0)
        return g

    def f(kk, ix):
        m = {PHA[i]: ix[i] for i in range(len(ix))}
        v = T.fresh('k')
        i0 = init.at(ix)
        m1 = dict(m)
        m1[ka] = v
        inc = add(mul(subst(a, m1), i0), subst(b, m1))
        return add(i0, iter_sum(v, kk, inc))
    return f


def conds_of(p):
    out = []
    for m, c in p.terms:
        for at, e in m:
            if at.op == 'ite' and at.args[0] not in out:
                out.append(at.args[0])
    return out


def under(p, c, val):
    """p with every ite on c resolved"""
    d = ZERO
    for m, co in p.terms:
        t = const(co)
        for at, e in m:
            x = T.of_atom(at)
            if at.op == 'ite' and at.args[0] is c:
                x = under(at.args[1] if val else at.args[2], c, val)
            t = mul(t, T.power(x, e))
        d = add(d, t)
    return d


def pinned(a, b, ka):
    """(c, e, X, Y): a = ite(c, X, 0), b = ite(c, Y, 0) and c implies k == e"""
    for c in conds_of(add(a, b)) + conds_of(a):
        if under(a, c, False) is not ZERO or under(b, c, False) is not ZERO:
            continue
        for g in (c.args if c.op == 'and' else (c,)):
            if g.op == 'eq0':
                e = S.solve_for(g.args[0], ka)
                if e is not None and ka.args[0] not in e.fv:
                    return c, e, under(a, c, True), under(b, c, True)
    return None


def chain(a, b, ka):
    """[(c, e, X, Y), ...]: the first c that holds decides, a = X and b = Y there; no c: a = b = 0; every c implies k == e"""
    if a is ZERO and b is ZERO:
        return []
    for c in conds_of(add(a, b)) + conds_of(a):
        for g in (c.args if c.op == 'and' else (c,)):
            if g.op == 'eq0':
                e = S.solve_for(g.args[0], ka)
                if e is not None and ka.args[0] not in e.fv:
                    rest = chain(under(a, c, False), under(b, c, False), ka)
                    if rest is not None:
                        return [(c, e, under(a, c, True), under(b, c, True))] + rest
    return None


def apart(ctx, ch, ka, N):
    """no two of the guards hold in different iterations"""
    k1, k2 = T.fresh('ka'), T.fresh('kb')
    for i, p in enumerate(ch):
        for q in ch[:i]:
            for x, y in ((p, q), (q, p)):
                base = ctx.plus(le(ZERO, k1), lt(k1, k2), lt(k2, N), subst(x[0], {ka: k1}))
                if not S.prove_b(base, Not(subst(y[0], {ka: k2}))):
                    return False
    return True


def windows(ctx, t):
    """e*m <= x < e*m + m rewritten to x // m == e"""
    if isinstance(t, B):
        if t.op == 'and':
            cs = [windows(ctx, c) if c.op in ('and', 'or', 'not') else c for c in t.args]
            out, used = [], set()
            for i, p in enumerate(cs):
                if i in used:
                    continue
                for j, q in enumerate(cs):
                    if j == i or j in used or p.op != 'le0' or q.op != 'le0':
                        continue
                    w = window(ctx, p.args[0], q.args[0])
                    if w is not None:
                        used |= {i, j}
                        out.append(w)
                        break
                if i not in used:
                    out.append(p)
            # a later partner may have consumed an earlier conjunct
            return And(*out) if used else t
        if t.op in ('or', 'not'):
            return T.rebuild_b(t, [windows(ctx, c) for c in t.args])
        return t
    r = ZERO
    for m, c in t.terms:
        x = const(c)
        for a, e in m:
            x = mul(x, T.power(ite(windows(ctx, a.args[0]), windows(ctx, a.args[1]), windows(ctx, a.args[2]))
                               if a.op == 'ite' else T.of_atom(a), e))
        r = add(r, x)
    return r


def window(ctx, P, Q):
    """P <= 0 and Q <= 0, with P = e*m - x and Q = 1 + x - e*m - m"""
    w = add(ONE, scale(add(P, Q), -1))
    if len(w.terms) != 1 or w.terms[0][1] != 1 or len(w.terms[0][0]) != 1 or w.terms[0][0][0][1] != 1:
        return None
    at = w.terms[0][0][0][0]
    if at.sort != 'i' or any(a.sort != 'i' for mm, _ in P.terms for a, _ in mm):
        return None
    e, x = ZERO, ZERO
    for mm, c in P.terms:
        hit = [n for n, (a, k) in enumerate(mm) if a is at and k >= 1]
        if hit:
            n = hit[0]
            rest = mm[:n] + (((at, mm[n][1] - 1),) if mm[n][1] > 1 else ()) + mm[n + 1:]
            e = add(e, T._poly({rest: c}))
        else:
            x = add(x, T._poly({mm: -c}))
    if e is ZERO or e.is_const() or not S.prove_b(ctx, lt(ZERO, w)):
        return None
    return eq(T.idiv(x, w), e)


def solve_bool_store(I, ctx, k, N, nm, new, init, idx):
    return None


def solve_list(I, k, N, norm, loc, init, vals, lf, sol, allnames):
    apps = []
    for v in vals:
        if not isinstance(v, list):
            return None
        n0 = len(init) + 1
        if len(v) < n0 or not isinstance(v[n0 - 1], Seg) or any(v[i] is not init[i] and not (
                isinstance(v[i], Seg)) for i in range(len(init))):
            raise Unsupported('list rewritten in a symbolic loop')
        apps.append(v[n0:])
    if len(set(len(a) for a in apps)) != 1:
        raise Unsupported('conditional append in a symbolic loop')
    c = len(apps[0])
    ka = var_atom(k)
    if c == 0:
        return list(init)
    if any(isinstance(x, Seg) for a in apps for x in a):
        raise Unsupported('extend in a symbolic loop')
    vs = [merge_vals(I, norm, [a[i] for a in apps]) for i in range(c)]
    blocked = [False]

    def tf(t):
        r = substitute_apps(lf(t), sol)
        if (r.fa & allnames) - set(sol):
            blocked[0] = True
        return r
    vs = [vmap(v, tf) for v in vs]
    if blocked[0]:
        return None
    if c == 1:
        v = vs[0]
        return list(init) + [Seg(SSeq(N, lambda kk: vmap(v, lambda t: subst(t, {ka: kk}))))]
    raise Unsupported('several appends per iteration')


def while_loop(I, st, env):
    from .interp import Break, Continue
    n = 0
    while True:
        c = I.tobool(I.eval(st.test, env))
        if isinstance(c, B):
            d = I.known(c)
            if d is None:
                raise Unsupported('while loop with a symbolic condition')
            c = d
        if not c:
            I.run_block(st.orelse, env, None)
            return
        n += 1
        if n > 64:
            raise Unsupported('while loop')
        try:
            I.run_block(st.body, env, None)
        except Continue:
            continue
        except Break:
            return
