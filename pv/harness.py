"""Symbolic contract harnesses: runs a contract `def h(cx)` of /verif/specs in the verifier.

The same contract text is executed natively on the real code by pv/native.py.
"""
import sys
import time
import traceback
import random
from . import terms as T, solver as S, interp, npmodel, ops, pybuiltins as pb
from .terms import ZERO, ONE, TRUE, FALSE, And, Or, Not, Implies, le, lt, eq, lift, const
from .values import *
from .arrays import SArr, OArr, Store, Content, MaskSel, size_of
from .interp import Infeasible

FUEL_PATHS = 1500


class Obligation:
    __slots__ = ('label', 'loc', 'status', 'facts', 'goal', 'secs', 'info', 'harness', 'model', 'inputs', 'path')

    def __init__(self, label, loc, facts, goal):
        self.label, self.loc, self.facts, self.goal = label, loc, facts, goal
        self.status, self.secs, self.info, self.model = 'unknown', 0.0, '', None
        self.inputs, self.path, self.harness = None, None, None


class Input:
    def __init__(self, kind, name, value=None, shape=(), dt='i', sort='i'):
        self.kind, self.name, self.shape, self.dt, self.value = kind, name, shape, dt, value


class SymCx:
    symbolic = True

    def __init__(self, I):
        self.I = I
        self.obls = []
        self.inputs = []
        self.assumed = []
        self.trace = []

    def pv_getattr(self, I, name):
        if name == 'symbolic':
            return True
        f = getattr(self, 'm_' + name, None)
        if f is None:
            raise Unsupported('cx.' + name)
        return Native('cx.' + name, lambda I2, *a, **k: f(*a, **k))

    # ------------------------------------------------------------ inputs
    def m_size(self, name, lo=1, hi=None, cap=None):
        v = T.var(name)
        I = self.I
        I.assume(le(num(lo), v))
        if hi is not None:
            I.assume(le(v, num(hi)))
        self.inputs.append(Input('int', name, v))
        return mk(v, 'i')

    def m_int(self, name, lo=None, hi=None):
        v = T.var(name)
        if lo is not None:
            self.I.assume(le(num(lo), v))
        if hi is not None:
            self.I.assume(le(v, num(hi)))
        self.inputs.append(Input('int', name, v))
        return mk(v, 'i')

    def m_real(self, name, lo=None, hi=None, pos=False):
        v = T.var(name, 'r')
        if pos:
            self.I.assume(lt(ZERO, v))
        if lo is not None:
            self.I.assume(le(num(lo), v))
        if hi is not None:
            self.I.assume(le(v, num(hi)))
        self.inputs.append(Input('real', name, v))
        return mk(v, 'f')

    def m_array(self, name, *shape, dt='f', pos=False, nonneg=False, lo=None, hi=None, key=(), vary=True, wide=False):
        """arbitrary array; key: extra symbolic indices the array depends on"""
        I = self.I
        shp = tuple(num(s) for s in shape)
        key = tuple(num(k) for k in key)
        dt = {'f': 'f', 'i': 'i', 'b': 'b'}[dt]

        def f(idx):
            t = T.app(name, list(key) + list(idx), 'r' if dt == 'f' else 'i')
            return t
        if pos or nonneg or lo is not None or hi is not None:
            vs = [T.fresh('q') for _ in shp]
            body = f(vs)
            c = TRUE
            if pos:
                c = And(c, lt(ZERO, body))
            if nonneg:
                c = And(c, le(ZERO, body))
            if lo is not None:
                c = And(c, le(num(lo), body))
            if hi is not None:
                c = And(c, le(body, num(hi)))
            for v, s in reversed(list(zip(vs, shp))):
                c = T.Forall(v, ZERO, s, c)
            if not shp:
                pass
            I.assume(c)
        a = SArr(Store(shp, Content(len(shp), f)), shp, dt)
        a.name = name
        self.inputs.append(Input('array', name, None, shp, dt))
        return a

    def m_choice(self, name, *opts):
        k = self.I.choose(len(opts), name)
        self.trace.append((name, k))
        self.inputs.append(Input('choice', name, k))
        return opts[k]

    def m_seq(self, n, f):
        """list of symbolic length"""
        n = num(n)
        if n.is_const():
            return LList([self.I.call(f, [k], {}) for k in range(int(n.const()))])
        from . import loops
        return loops.map_seq(self.I, SSeq(n, lambda k: mk(k, 'i')), lambda v: self.I.call(f, [v], {}))

    # ------------------------------------------------------------ logic
    def tob(self, c):
        c = self.I.tobool(c)
        return T.mkbool(c)

    def m_assume(self, c):
        b = self.tob(c)
        if S.decide(self.I.facts, b) is False:
            raise Infeasible()
        self.I.assume(b)

    def m_sum(self, n, f, lo=0):
        I = self.I
        lo, n = num(lo), num(n)
        v = T.fresh('s')
        base = I.facts
        I.assume(le(lo, v))
        I.assume(lt(v, n))
        try:
            r = I.call(f, [mk(v, 'i')], {})
        finally:
            I.facts = base
        return mk(T.Sum(v, lo, n, num(r)), dt_of(r))

    def m_max(self, n, f):
        """largest of f(0) .. f(n - 1), n > 0"""
        I = self.I
        n = num(n)
        v = T.fresh('s')
        base = I.facts
        I.assume(le(ZERO, v))
        I.assume(lt(v, n))
        try:
            r = I.call(f, [mk(v, 'i')], {})
        finally:
            I.facts = base
        return mk(T.Max(v, ZERO, n, num(r)), dt_of(r))

    def m_ite(self, c, a, b):
        return mk(T.ite(self.tob(c), num(a), num(b)), ops.join(dt_of(a), dt_of(b)))

    def m_fn(self, name, x):
        return mk(T.fn(name, num(x)), 'f')

    def m_pi(self):
        return mk(T.PI, 'f')

    def m_ppf(self, x):
        return mk(T.app('ppf', (num(x),), 'r'), 'f')

    def m_gammaln(self, x):
        return mk(T.app('gammaln', (num(x),), 'r'), 'f')

    def m_umap(self, name, x):
        """an arbitrary real function applied to every element of x"""
        if isinstance(x, SArr):
            c = x.content()
            return npmodel.fresh_arr(x.shape, lambda idx: T.app(name, (lift(c.at(tuple(idx))),), 'r'), 'f')
        return mk(T.app(name, (num(x),), 'r'), 'f')

    def m_diff(self, f, x):
        """d f(x) / dx, computed by the verifier (exact symbolic differentiation)"""
        I = self.I
        x = num(x)
        v = T.fresh('dx', 'r')
        base = I.facts
        xa = T.var_atom(x)
        extra = [T.subst(b, {xa: v}) for b in I.facts.facts]
        for b in extra:
            I.assume(b)
        if S.decide(base, lt(ZERO, x)) is True:
            I.assume(lt(ZERO, v))
        try:
            r = num(I.call(f, [mk(v, 'f')], {}))
        finally:
            I.facts = base
        d = T.diff(r, v)
        return mk(T.subst(d, {T.var_atom(v): x}), 'f')

    def m_forall(self, shape, f):
        """boolean: f holds at every index"""
        I = self.I
        shp = [num(s) for s in (shape if isinstance(shape, tuple) else (shape,))]
        vs = [T.fresh('q') for _ in shp]
        base = I.facts
        for v, s in zip(vs, shp):
            I.assume(le(ZERO, v))
            I.assume(lt(v, s))
        try:
            c = self.tob(I.call(f, [mk(v, 'i') for v in vs], {}))
        finally:
            I.facts = base
        for v, s in reversed(list(zip(vs, shp))):
            c = T.Forall(v, ZERO, s, c)
        return mk(c)

    # ------------------------------------------------------------ obligations
    def oblige(self, label, goal=None, pair=None):
        I = self.I
        t0 = time.time()
        o = Obligation(label, I.loc, I.facts, goal)
        o.inputs = list(self.inputs)
        o.path = list(self.trace)
        info = []
        try:
            if pair is not None:
                a, b = pair
                o.goal = ('eq', a, b)
                ok = S.prove_eq(I.facts, a, b, info)
            else:
                ok = goal is TRUE or S.prove_b(I.facts, goal, info)
        except S.Timeout:
            raise
        except Unsupported as e:
            ok = False
            info.append(str(e))
        except RecursionError:
            ok = False
            info.append('recursion')
        o.secs = time.time() - t0
        o.status = 'proved' if ok else 'unknown'
        if not ok:
            o.info = '; '.join(str(x)[:400] for x in info[:4])
            o.model = refute(o)
            if o.model is not None:
                o.status = 'refuted'
        self.obls.append(o)
        return ok

    def m_true(self, label, c):
        if isinstance(c, bool):
            self.oblige(label, TRUE if c else FALSE)
        else:
            self.oblige(label, self.tob(c))

    def m_eq(self, label, a, b):
        I = self.I
        if is_numlike(a) and is_numlike(b):
            self.oblige(label, pair=(num(a), num(b)))
            return
        r = ops.equal(I, a, b)
        self.oblige(label, self.tob(r))

    def m_shape(self, label, a, *shape):
        I = self.I
        shp = getattr(a, 'shape', None)
        if shp is None:
            raise Unsupported('shape of %r' % (a,))
        shp = tuple(num(s) for s in shp)
        want = tuple(num(s) for s in shape)
        if len(shp) != len(want):
            self.oblige(label + ':ndim', FALSE)
            return
        g = And(*[eq(x, y) for x, y in zip(shp, want)])
        self.oblige(label + ':shape', g)

    def m_arr(self, label, a, shape, f):
        """a has the shape and a[idx] == f(*idx) for every index"""
        I = self.I
        if not isinstance(shape, tuple):
            shape = (shape,)
        if isinstance(a, npmodel.SparseM):
            a = I.call(I.getattr(a, 'toarray'), [], {})
        if isinstance(a, (LList, tuple, SSeq)):
            a = npmodel.array(I, a)
        self.m_shape(label, a, *shape)
        if len(a.shape) != len(shape):
            return
        base = I.facts
        idx = [T.fresh('i') for _ in shape]
        for v, s in zip(idx, shape):
            I.assume(le(ZERO, v))
            I.assume(lt(v, num(s)))
        try:
            got = a.at(tuple(idx))
            want = I.call(f, [mk(v, 'i') for v in idx], {})
            if isinstance(got, T.B) or isinstance(want, (T.B, bool)):
                self.oblige(label, T.Iff(T.mkbool(got), self.tob(want)))
            else:
                self.oblige(label, pair=(got, num(want)))
        finally:
            I.facts = base

    def m_raises(self, label, excname, thunk):
        try:
            self.I.call(thunk, [], {})
        except PyRaise as e:
            names = excname if isinstance(excname, tuple) else (excname,)
            ok = any(self.I.exc_match(e.exc, self.I.excs[n]) for n in names)
            self.oblige(label, TRUE if ok else FALSE)
            return
        self.oblige(label, FALSE)

    def m_snapshot(self, *objs):
        """frame condition helper: captures the observable state reachable from objs"""
        return Snapshot(self, [reach(o) for o in objs])

    def m_unchanged(self, label, snap):
        snap.check(self, label)

    def m_with_methods(self, methods, thunk):
        """runs thunk with the named solvers of scipy.sparse.linalg replaced by the given ones"""
        return self.m_external('scipy.sparse.linalg', methods, thunk)

    def m_external(self, modname, methods, thunk):
        """runs thunk with the named functions of a dependency replaced by the given ones"""
        m = self.I.module(modname)
        new = {pb.key(k) if hasattr(pb, 'key') else k: v for k, v in methods.d.items()}
        new = {getattr(k, 'v', k): v for k, v in new.items()}
        undo = []
        for name, f in new.items():
            orig = m.vars.get(name)
            undo.append((m.vars, name, orig))
            m.vars[name] = f
            if orig is None:
                continue
            for o in list(self.I.modules.values()):
                vs = getattr(o, 'vars', None)
                if isinstance(vs, dict) and getattr(o, 'name', '').startswith('runlmc'):
                    for k, v in list(vs.items()):
                        if v is orig:
                            undo.append((vs, k, orig))
                            vs[k] = f
        try:
            return self.I.call(thunk, [], {})
        finally:
            for vs, k, v in reversed(undo):
                if v is None:
                    vs.pop(k, None)
                else:
                    vs[k] = v

    def m_replacing(self, modname, stubs, thunk):
        """runs thunk with functions of the code replaced by contracts (stubs); each must be used"""
        I = self.I
        mod = I.module(modname)
        new = {getattr(k, 'v', k): v for k, v in stubs.d.items()}
        used, undo = set(), []
        for name, f in new.items():
            orig = mod.vars.get(name)
            if orig is None:
                raise Unsupported('%s.%s is gone' % (modname, name))

            def g(I2, *a, _f=f, _n=name, **k):
                used.add(_n)
                return I2.call(_f, list(a), k)
            w = Native('stub.' + name, g)
            if isinstance(f, Obj):
                # an object standing in for a class with static methods
                w = f
                used.add(name)
            for m in list(I.modules.values()):
                vs = getattr(m, 'vars', None)
                if not isinstance(vs, dict) or getattr(m, 'name', '').startswith('specs'):
                    continue
                for k, v in list(vs.items()):
                    if v is orig:
                        undo.append((vs, k, orig))
                        vs[k] = w
        try:
            r = I.call(thunk, [], {})
        finally:
            for vs, k, o in undo:
                vs[k] = o
        if used != set(new):
            raise Unsupported('the code does not call %s' % sorted(set(new) - used))
        return r

    def m_logged(self, thunk):
        """(result, levels of the messages logged while running thunk)"""
        n = len(self.I.events)
        r = self.I.call(thunk, [], {})
        return (r, LList([e[1] for e in self.I.events[n:] if e[0] == 'log']))

    def m_find(self, arrays, y):
        """position of an array that is y, entry by entry (a search only: nothing is assumed)"""
        for k, a in enumerate(arrays.items if isinstance(arrays, LList) else arrays):
            if a is y:
                return k
            if not isinstance(a, SArr) or len(a.shape) != len(y.shape):
                continue
            idx = tuple(T.fresh('i') for _ in y.shape)
            if T.add(num(a.at(idx)), -num(y.at(idx))) == ZERO:
                return k
        return 0

    def m_note(self, *a):
        pass

    def m_dtype(self, a):
        return a.dtype

    def m_close(self, label, a, b, tol=0):
        self.m_eq(label, a, b)


def is_numlike(v):
    return is_num(v) or (isinstance(v, SArr) and (len(v.shape) == 0 or all(s is ONE for s in v.shape)))


def reach(o):
    """stores / attributes / lists / dicts reachable from a value"""
    seen, out = {}, []
    todo = [o]
    while todo:
        v = todo.pop()
        if id(v) in seen:
            continue
        if isinstance(v, SArr):
            seen[id(v)] = v
            if id(v.store) not in seen:
                seen[id(v.store)] = v.store
                out.append(('store', v.store, v.store.content))
        elif isinstance(v, Obj):
            seen[id(v)] = v
            out.append(('attrs', v, dict(v.attrs)))
            todo.extend(v.attrs.values())
        elif isinstance(v, LList):
            seen[id(v)] = v
            out.append(('list', v, list(v.items)))
            todo.extend(x for x in v.items if not isinstance(x, Seg))
        elif isinstance(v, LDict):
            seen[id(v)] = v
            out.append(('dict', v, dict(v.d)))
            todo.extend(x for x in v.d.values())
        elif isinstance(v, tuple):
            todo.extend(v)
        elif isinstance(v, npmodel.Spec):
            seen[id(v)] = v
            out.append(('spec', v, v.fac))
        elif isinstance(v, BM):
            todo.append(v.self)
        elif isinstance(v, ObjKeyT):
            pass
    return out


ObjKeyT = pb.ObjKey


class Snapshot:
    def __init__(self, cx, groups):
        self.groups = groups

    def check(self, cx, label):
        I = cx.I
        for g in self.groups:
            for kind, o, old in g:
                if kind == 'store':
                    if o.content is old:
                        continue
                    base = I.facts
                    idx = [T.fresh('i') for _ in o.shape]
                    for v, s in zip(idx, o.shape):
                        I.assume(le(ZERO, v))
                        I.assume(lt(v, s))
                    try:
                        a, b = o.content.at(tuple(idx)), old.at(tuple(idx))
                        if isinstance(a, T.B) or isinstance(b, T.B):
                            cx.oblige(label, T.Iff(T.mkbool(a), T.mkbool(b)))
                        else:
                            cx.oblige(label, pair=(a, b))
                    finally:
                        I.facts = base
                elif kind == 'attrs':
                    ok = all(k in o.attrs and same(o.attrs[k], v) for k, v in old.items())
                    if not ok:
                        cx.oblige(label + ':attribute', FALSE)
                elif kind == 'list':
                    if not (len(o.items) == len(old) and all(same(a, b) for a, b in zip(o.items, old))):
                        cx.oblige(label + ':list', FALSE)
                elif kind == 'dict':
                    if not (set(o.d) == set(old) and all(same(o.d[k], old[k]) for k in old)):
                        cx.oblige(label + ':dict', FALSE)
                elif kind == 'spec':
                    if o.fac is not old:
                        cx.oblige(label + ':spectrum', FALSE)
        cx.oblige(label, TRUE)


def same(a, b):
    if a is b:
        return True
    if isinstance(a, Sc) and isinstance(b, Sc):
        return a.p is b.p
    if isinstance(a, (int, float, str, bool)) and type(a) is type(b):
        return a == b
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return False


# ------------------------------------------------------------------ counter-models
def free_syms(ts):
    vs, fs = {}, {}
    seen = set()
    for t in ts:
        for a in T.atoms(t):
            if a.op == 'var':
                if a.args[0].startswith('#') or a.args[0] == 'pi':
                    continue
                vs[a.args[0]] = a
            elif a.op == 'app':
                fs.setdefault(a.args[0], a)
    return vs, fs


def refute(o, tries=60, seed=1):
    """search a numeric interpretation satisfying the hypotheses and falsifying the goal"""
    import z3
    rnd = random.Random(seed)
    goals = list(o.goal[1:]) if isinstance(o.goal, tuple) else [o.goal]
    facts = list(o.facts.facts)
    vs, fs = free_syms(facts + goals)
    ints = [n for n, a in vs.items() if a.sort == 'i']
    reals = [n for n, a in vs.items() if a.sort != 'i']
    hints = []
    try:
        hints = int_models(facts, o.goal, ints, rnd)
    except Exception:
        pass
    t0 = time.time()
    for k in range(tries):
        if time.time() - t0 > 20:
            break
        env = {}
        if hints and k % 2 == 0:
            env.update(hints[(k // 2) % len(hints)])
        if any(abs(v) > 40 for v in env.values()):
            env = {n: v for n, v in env.items()}
        for n in ints:
            if n not in env:
                env[n] = rnd.randint(0, 5)
        for n in reals:
            env[n] = rnd.choice([rnd.uniform(-2, 2), rnd.uniform(0.05, 2), rnd.uniform(0.05, 1)])
        sd = rnd.random()
        fenv = FEnv(sd, rnd.choice(['real', 'pos', 'int']), fs)
        try:
            if not all(T.evaluate(f, env, fenv) for f in facts):
                continue
            if isinstance(o.goal, tuple):
                a, b = (T.evaluate(g, env, fenv) for g in goals)
                bad = abs(a - b) > 1e-6 * (1 + abs(a) + abs(b))
            else:
                bad = not T.evaluate(o.goal, env, fenv)
        except (T.EvalError, ZeroDivisionError, OverflowError, ValueError, TypeError):
            continue
        except Exception:
            continue
        if bad:
            return concretise(o, env, fenv)
    return None


def concretise(o, env, fenv):
    out = {}
    for inp in o.inputs:
        try:
            if inp.kind in ('int', 'real'):
                out[inp.name] = T.evaluate(inp.value, env, fenv)
                if inp.kind == 'int':
                    out[inp.name] = int(out[inp.name])
                else:
                    out[inp.name] = float(out[inp.name])
            elif inp.kind == 'choice':
                out[inp.name] = inp.value
        except Exception:
            pass
    return out


class FEnv:
    def __init__(self, seed, mode, fs):
        self.seed, self.mode, self.memo = seed, mode, {}

    def __call__(self, name, args, sort='r'):
        if name == 'eps':
            return 2.0 ** -52
        if name == 'bitlen':
            return int(args[0]).bit_length()
        if name == 'pow2bl':
            return 2 ** int(args[0]).bit_length()
        if name.startswith('inv@'):
            args = sorted(args)
        k = (name, tuple(round(float(a), 9) for a in args), sort)
        if k not in self.memo:
            r = random.Random(repr((self.seed, k)))
            if sort == 'i':
                v = r.randint(-3, 3) if self.mode != 'pos' else r.randint(0, 4)
            elif self.mode == 'pos':
                v = r.uniform(0.05, 2)
            elif self.mode == 'int':
                v = float(r.randint(-2, 2))
            else:
                v = r.uniform(-2, 2)
            self.memo[k] = v
        return self.memo[k]


def int_models(facts, goal, ints, rnd, n=6):
    """integer models of the linear part of the hypotheses (and, if possible, of the negated goal)"""
    import z3
    tr = S.Tr(True)
    s = z3.Solver()
    s.set('timeout', 800)
    zs = []
    for f in facts:
        try:
            zs.append(tr.b(f))
        except Exception:
            pass
    s.add(*zs)
    zi = {}
    for nme in ints:
        zi[nme] = tr.num(T.var(nme))
        s.add(zi[nme] <= 40)
    out = []
    if not isinstance(goal, tuple):
        s.push()
        try:
            s.add(z3.Not(tr.b(goal)))
            if s.check() == z3.sat:
                out.append({k: s.model().eval(v, True).as_long() for k, v in zi.items()})
        except Exception:
            pass
        s.pop()
    for _ in range(n):
        s.push()
        for v in zi.values():
            if rnd.random() < .5:
                s.push()
                s.add(v == rnd.randint(0, 6))
                if s.check() != z3.sat:
                    s.pop()
        if s.check() == z3.sat:
            out.append({k: s.model().eval(v, True).as_long() for k, v in zi.items()})
        while s.num_scopes() > 0:
            s.pop()
    return out


# ------------------------------------------------------------------ running
class Result:
    def __init__(self, name):
        self.name = name
        self.obls = []
        self.paths = 0
        self.error = None
        self.kind = None
        self.secs = 0
        self.functions = {}
        self.assumed = set()

    @property
    def ok(self):
        return self.error is None and self.obls and all(o.status == 'proved' for o in self.obls)


def new_interp(root='/repo'):
    from . import pzmodel
    ov = npmodel.modules()
    ov.update(pzmodel.modules())
    return interp.Interp(root, ov)


def run_contract(modname, fname, budget=120, root='/repo', I=None):
    """verify one contract; returns a Result"""
    res = Result(modname + '.' + fname)
    t0 = time.time()
    S.DEADLINE[0] = t0 + budget
    try:
        if I is None:
            I = new_interp(root)
        I.frames = [interp.Frame([])]
        I.facts = S.Ctx()
        I.side = []
        m = I.module(modname)
        fn = m.vars[fname]
        I.functions_seen = {}
        I.natives_seen = set()

        def one():
            res.paths += 1
            I.side = []
            cx = SymCx(I)
            exc = None
            try:
                I.call(fn, [cx], {})
            except PyRaise as e:
                exc = e
            sides = list(I.side)
            I.side = []
            I.nodef += 1
            try:
                seen = set()
                for what, loc, facts, cond in sides:
                    key = (cond.id if hasattr(cond, 'id') else id(cond), facts.key)
                    if key in seen:
                        continue
                    seen.add(key)
                    sv, svl = I.facts, I.loc
                    I.facts, I.loc = facts, loc
                    try:
                        cx.oblige('defined:' + what, cond)
                    finally:
                        I.facts, I.loc = sv, svl
                if exc is not None:
                    if not S.contradictory(I.facts):
                        loc = exc.exc.attrs.get('__loc__', I.loc)
                        I.loc = loc
                        cx.oblige('no-exception:%s %s' % (exc.exc.cls.name, str(exc.exc.attrs.get('args', ''))[:120]), FALSE)
            finally:
                I.nodef -= 1
            for o in cx.obls:
                o.harness = res.name
            res.obls.extend(cx.obls)
        I.explore(one, FUEL_PATHS)
    except S.Timeout:
        res.error, res.kind = 'time budget exhausted', 'timeout'
    except Unsupported as e:
        res.error, res.kind = 'outside the verifier subset at %s:%s: %s' % (I.loc[0], I.loc[1], e), 'unsupported'
    except PyRaise as e:
        res.error, res.kind = 'exception while loading: %s %s' % (e.exc.cls.name, e.exc.attrs.get('args')), 'load'
    except CarriedRead as e:
        res.error, res.kind = 'loop-carried read', 'unsupported'
    except RecursionError:
        res.error, res.kind = 'recursion limit', 'unsupported'
    except Exception as e:
        res.error, res.kind = 'engine error %s: %s' % (type(e).__name__, traceback.format_exc()[-1500:]), 'internal'
    S.DEADLINE[0] = None
    res.natives = sorted(getattr(I, 'natives_seen', ()) or ())
    res.functions = dict(getattr(I, 'functions_seen', {}) or {})
    res.secs = time.time() - t0
    return res
