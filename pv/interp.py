"""Symbolic interpreter for the Python source of /repo (re-read on every run)."""
import ast
import builtins as pyb
import os
import sys
import time
from . import terms as T
from . import solver as S
from .terms import (Poly, B, ZERO, ONE, TRUE, FALSE, And, Or, Not, eq, le, lt, ite, var, const, lift, add, mul,
                    scale, subst, var_atom)
from .values import *
from .values import J
from .arrays import SArr, OArr, MaskSel, Content, vmap, tite, fresh_arr, PH, PHA

sys.setrecursionlimit(20000)


class Return(Exception):
    def __init__(self, v):
        self.v = v


class Break(Exception):
    pass


class Continue(Exception):
    pass


class ForkNeeded(Exception):
    """raised when a decision must be enumerated by the driver"""


class Infeasible(Exception):
    """current path condition is contradictory"""


class Frame:
    """decision script of one exploration level"""

    def __init__(self, script):
        self.script = list(script)
        self.pos = 0
        self.taken = []
        self.conds = []


EXC_NAMES = ['BaseException', 'Exception', 'ValueError', 'TypeError', 'KeyError', 'IndexError', 'AttributeError',
             'AssertionError', 'NotImplementedError', 'RuntimeError', 'ZeroDivisionError', 'StopIteration',
             'KeyboardInterrupt', 'NameError', 'UnboundLocalError', 'LookupError', 'ArithmeticError',
             'OverflowError', 'ImportError', 'OSError', 'FloatingPointError', 'DeprecationWarning', 'RuntimeWarning',
             'UserWarning', 'Warning']


class Interp:
    MAX_UNROLL = 64

    def __init__(self, root='/repo', overrides=None):
        self.root = root
        self.modules = {}
        self.overrides = overrides or {}
        self.facts = S.Ctx()
        self.frames = []
        self.excs = {}
        for n in EXC_NAMES:
            p = getattr(pyb, n).__mro__[1].__name__
            base = self.excs.get(p, OBJECT)
            self.excs[n] = NativeCls(n, self._mkexc, (base,) if base is not OBJECT else (OBJECT,))
        self.builtins = {}
        self.functions_seen = {}
        self.natives_seen = set()
        self.lines_seen = {}
        self.contracts = {}
        self.loc = ('?', 0)
        self.side = []           # definedness obligations (name, B)
        self.loop_candidates = []
        self.depth = 0
        self.events = []
        self.nodef = 0
        from . import pybuiltins
        pybuiltins.install(self)

    # ------------------------------------------------------------ facts
    def assume(self, b):
        b = T.mkbool(b)
        if b is FALSE:
            raise Infeasible()
        self.facts = self.facts.plus(b)

    def define(self, cond, what):
        """definedness obligation (real arithmetic is only meaningful under cond)"""
        if self.nodef:
            return
        cond = T.mkbool(cond)
        if cond is TRUE:
            return
        self.side.append((what, self.loc, self.facts, cond))

    def assume_or_raise(self, cond, exc, *args):
        if not self.branch(cond):
            self.raise_(exc, *args)

    def known(self, b):
        return S.decide(self.facts, b)

    def holds(self, b):
        return S.valid(self.facts, T.mkbool(b))

    def branch(self, b):
        """decide a condition, forking if both outcomes are possible"""
        b = T.mkbool(b)
        if b is TRUE:
            return True
        if b is FALSE:
            return False
        d = S.decide(self.facts, b)
        if d is not None:
            return d
        if b.op == 'eq0' and len(b.args[0].terms) == 1 and S.root_zero(self.facts, b.args[0]):
            return True
        if b.op in ('le0', 'lt0') and S.top_atoms(b.args[0], ('max',)):
            nb = Not(b)
            try:
                if S.prove_ineq(self.facts, b.op, b.args[0]):
                    return True
                if nb.op in ('le0', 'lt0') and S.prove_ineq(self.facts, nb.op, nb.args[0]):
                    return False
            except S.TooHard:
                pass
        fr = self.frames[-1]
        if fr.pos < len(fr.script):
            r = fr.script[fr.pos]
        else:
            r = True
            fr.script.append(True)
        fr.pos += 1
        fr.taken.append(r)
        c = b if r else Not(b)
        fr.conds.append(c)
        self.assume(c)
        return r

    def choose(self, n, label=''):
        """enumerate 0..n-1"""
        fr = self.frames[-1]
        if fr.pos < len(fr.script):
            r = fr.script[fr.pos]
        else:
            r = ('c', 0, n)
            fr.script.append(r)
        fr.pos += 1
        return r[1]

    @staticmethod
    def next_script(script):
        s = list(script)
        while s:
            x = s.pop()
            if x is True:
                return s + [False]
            if isinstance(x, tuple) and x[1] + 1 < x[2]:
                return s + [('c', x[1] + 1, x[2])]
        return None

    def explore(self, run, max_paths=400):
        """run() under every decision script; yields (facts_before, outcome)"""
        script = []
        base = self.facts
        out = []
        n = 0
        while script is not None:
            n += 1
            if n > max_paths:
                raise Unsupported('too many paths')
            S.check_deadline()
            fr = Frame(script)
            self.frames.append(fr)
            self.facts = base
            mark = J.mark()
            side0 = len(self.side)
            try:
                try:
                    r = run()
                    out.append(r)
                except Infeasible:
                    pass
            finally:
                self.frames.pop()
                J.rollback(mark)
                self.facts = base
            script = self.next_script(fr.script[:fr.pos])
        return out

    def delta(self, base):
        """conjunction of the facts added since base"""
        return And(*[f for f in self.facts.facts if f.id not in base.key])

    # ------------------------------------------------------------ exceptions
    def _mkexc(self, interp, cls, args, kw):
        o = Obj(cls)
        o.attrs['args'] = tuple(args)
        return o

    def raise_(self, name, *args):
        c = self.excs[name]
        o = Obj(c)
        o.attrs['args'] = tuple(args)
        o.attrs['__loc__'] = self.loc
        raise PyRaise(o)

    # ------------------------------------------------------------ modules
    def module(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        if name in self.overrides:
            v = self.overrides[name]
            m = v(self) if callable(v) else v
            self.modules[name] = m
            return m
        path = self.find(name)
        if path is None:
            self.raise_('ImportError', name)
        m = Mod(name)
        m.path = path
        m.vars['__name__'] = name
        m.vars['__file__'] = path
        self.modules[name] = m
        if os.path.isdir(path):
            init = os.path.join(path, '__init__.py')
            m.pkg = True
            path = init
        else:
            m.pkg = False
        if os.path.exists(path):
            with open(path) as f:
                src = f.read()
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                tree = ast.parse(src, path)
            m.tree = tree
            env = Env(None, m.vars)
            env.vars = m.vars
            env.fn = None
            saved = self.loc
            self.run_block(tree.body, env, m)
            self.loc = saved
        if '.' in name:
            par, _, leaf = name.rpartition('.')
            pm = self.module(par)
            pm.vars.setdefault(leaf, m)
        return m

    SEARCH = {}

    def find(self, name):
        roots = [self.root, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))]
        for r in roots:
            p = os.path.join(r, *name.split('.'))
            if os.path.isfile(p + '.py'):
                return p + '.py'
            if os.path.isdir(p):
                return p
        stub = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'stubs', name.replace('.', '_') + '.py')
        if os.path.isfile(stub):
            return stub
        return None

    # ------------------------------------------------------------ names
    def lookup(self, env, name):
        e = env
        while e is not None:
            if name in e.vars and not (name in e.globaldecl):
                v = e.vars[name]
                if isinstance(v, Poison):
                    raise CarriedRead(v.loc)
                return v
            e = e.parent
        g = env.globals
        if name in g:
            return g[name]
        if name in self.builtins:
            return self.builtins[name]
        self.raise_('NameError', name)

    def assign_name(self, env, name, val):
        if name in env.globaldecl:
            raise Unsupported('global assignment')
        if name in env.nonlocals:
            e = env.parent
            while e is not None:
                if name in e.vars:
                    e.set(name, val)
                    return
                e = e.parent
            self.raise_('NameError', name)
        env.set(name, val)

    # ------------------------------------------------------------ attributes
    def getattr(self, o, name, default=UNBOUND):
        v = self._getattr(o, name)
        if v is UNBOUND:
            if default is not UNBOUND:
                return default
            if isinstance(o, Obj) and str(getattr(o.cls, 'mod', '')).startswith('specs'):
                raise Unsupported('the stand-in %s of the contract has no %s' % (o.cls.name, name))
            if not (o is None or isinstance(o, Obj) or (isinstance(o, Mod) and str(o.vars.get('__name__', '')).startswith(
                    'runlmc'))):
                raise Unsupported('no model of %s of %r' % (name, o))
            self.raise_('AttributeError', '%r has no attribute %s' % (o, name))
        if isinstance(v, Poison):
            raise CarriedRead(v.loc)
        return v

    def _getattr(self, o, name):
        if isinstance(o, Obj):
            d = o.cls.lookup(name)
            if isinstance(d, Prop):
                return self.call(d.fget, [o], {})
            if name in o.attrs:
                return o.attrs[name]
            if name == '__class__':
                return o.cls
            if name == '__dict__':
                return LDict(o.attrs)
            if d is not UNBOUND:
                return self.bind(d, o, o.cls)
            g = o.cls.lookup('__getattr__')
            if g is not UNBOUND:
                return self.call(self.bind(g, o, o.cls), [name], {})
            return UNBOUND
        if isinstance(o, Cls):
            d = o.lookup(name)
            if d is not UNBOUND:
                if isinstance(d, Static):
                    return d.fn
                if isinstance(d, ClassM):
                    return BM(o, d.fn)
                return d
            if name == '__name__':
                return o.name
            if name == '__bases__':
                return tuple(o.bases)
            if name == '__doc__':
                return None
            return UNBOUND
        if isinstance(o, Super):
            mro = o.obj.cls.mro if isinstance(o.obj, Obj) or hasattr(o.obj, 'cls') else o.obj.mro
            i = mro.index(o.cls)
            for c in mro[i + 1:]:
                if name in c.attrs:
                    return self.bind(c.attrs[name], o.obj, None)
            if name == '__init__':
                return Native('object.__init__', lambda interp, *a, **k: None)
            return UNBOUND
        if isinstance(o, Mod):
            if name in o.vars:
                return o.vars[name]
            try:
                sub = self.module(o.name + '.' + name)
                o.vars[name] = sub
                return sub
            except PyRaise:
                return UNBOUND
        if isinstance(o, Fn):
            if name in o.attrs:
                return o.attrs[name]
            if name == '__doc__':
                return None
            if name == '__name__':
                return o.name
            if name in ('fget', 'fset'):
                return UNBOUND
            return UNBOUND
        h = getattr(o, 'pv_getattr', None)
        if h is not None:
            v = h(self, name)
            if v is not UNBOUND:
                return v
        from . import pybuiltins
        return pybuiltins.method(self, o, name)

    def bind(self, d, obj, cls):
        if isinstance(d, Fn):
            return BM(obj, d)
        if isinstance(d, Static):
            return d.fn
        if isinstance(d, ClassM):
            return BM(obj.cls if hasattr(obj, 'cls') else obj, d.fn)
        if isinstance(d, Prop):
            return self.call(d.fget, [obj], {})
        if isinstance(d, Native):
            return BM(obj, d)
        if hasattr(d, 'pv_bind'):
            return d.pv_bind(self, obj)
        return d

    def setattr(self, o, name, v):
        if isinstance(o, Obj):
            d = o.cls.lookup(name)
            if isinstance(d, Prop):
                if d.fset is None:
                    self.raise_('AttributeError', "can't set attribute")
                self.call(d.fset, [o, v], {})
                return
            s = o.cls.lookup('__setattr__')
            if s is not UNBOUND:
                self.call(self.bind(s, o, o.cls), [name, v], {})
                return
            Loc('attr', o, name).write(v)
            return
        if isinstance(o, (Cls, Fn)):
            Loc('attr', o, name).write(v)
            return
        h = getattr(o, 'pv_setattr', None)
        if h is not None:
            h(self, name, v)
            return
        if hasattr(o, 'attrs'):
            Loc('attr', o, name).write(v)
            return
        raise Unsupported('attribute assignment on %r' % (o,))

    # ------------------------------------------------------------ calls
    def call(self, f, args, kw=None):
        kw = kw or {}
        if isinstance(f, BM):
            return self.call(f.fn, [f.self] + list(args), kw)
        if isinstance(f, Fn):
            return self.call_fn(f, list(args), kw)
        if isinstance(f, Native):
            self.natives_seen.add(f.name)
            return f.f(self, *args, **kw)
        if isinstance(f, Cls):
            return self.instantiate(f, args, kw)
        if isinstance(f, Static):
            return self.call(f.fn, args, kw)
        if isinstance(f, Partial):
            k = dict(f.kw)
            k.update(kw)
            return self.call(f.fn, list(f.args) + list(args), k)
        if isinstance(f, Obj):
            c = f.cls.lookup('__call__')
            if c is not UNBOUND:
                return self.call(self.bind(c, f, f.cls), args, kw)
        h = getattr(f, 'pv_call', None)
        if h is not None:
            return h(self, *args, **kw)
        if isinstance(f, Opaque):
            return Opaque('call')
        raise Unsupported('call of %r' % (f,))

    def instantiate(self, c, args, kw):
        nat = None
        for b in c.mro:
            if isinstance(b, NativeCls) and b.construct is not None:
                nat = b
                break
        if nat is not None and (isinstance(c, NativeCls) or nat is not None):
            init = c.lookup('__init__')
            is_exc = nat.name in self.excs
            if is_exc and init is not UNBOUND:
                o = Obj(c)
                o.attrs['args'] = tuple(args)
                self.call(BM(o, init), args, kw)
                return o
            return nat.construct(self, c, args, kw)
        ck = self.contracts.get((c.mod + '.' if c.mod else '') + c.name)
        if ck is not None:
            return self.call(ck, args, kw)
        o = Obj(c)
        init = c.lookup('__init__')
        if init is not UNBOUND:
            self.call(BM(o, init), args, kw)
        elif args or kw:
            self.raise_('TypeError', '%s() takes no arguments' % c.name)
        return o

    def call_fn(self, f, args, kw):
        ck = self.contracts.get(f.qual)
        if ck is not None:
            return self.call(ck, args, kw)
        self.functions_seen[f.qual] = self.functions_seen.get(f.qual, 0) + 1
        self.depth += 1
        if self.depth > 120:
            raise Unsupported('recursion depth')
        node = f.node
        if f.scope is None:
            f.scope = scope_of(node)
        sc = f.scope
        env = Env(f.env if (f.env is not None and f.env.fn is not None) else None, f.mod_globals(self),
                  sc.locals, sc.nonlocals, sc.globals)
        env.fn = f
        saved = self.loc
        try:
            self.bind_args(f, node.args, env, args, kw)
            if isinstance(node, ast.Lambda):
                return self.eval(node.body, env)
            if sc.is_gen:
                acc = LList()
                env.vars['$yield'] = acc
                try:
                    self.run_block(node.body, env, None)
                except Return:
                    pass
                return acc
            try:
                self.run_block(node.body, env, None)
            except Return as r:
                return r.v
            return None
        finally:
            self.loc = saved
            self.depth -= 1

    def bind_args(self, f, a, env, args, kw):
        pos = [x.arg for x in a.posonlyargs] + [x.arg for x in a.args]
        kw = dict(kw)
        vals = {}
        if len(args) > len(pos) and a.vararg is None:
            self.raise_('TypeError', '%s() takes %d positional arguments' % (f.name, len(pos)))
        for n, v in zip(pos, args):
            vals[n] = v
        if a.vararg is not None:
            vals[a.vararg.arg] = tuple(args[len(pos):])
        for n in list(kw):
            if n in pos or n in [x.arg for x in a.kwonlyargs]:
                if n in vals:
                    self.raise_('TypeError', 'multiple values for %s' % n)
                vals[n] = kw.pop(n)
        if kw:
            if a.kwarg is None:
                self.raise_('TypeError', '%s() got an unexpected keyword argument %s' % (f.name, list(kw)[0]))
        if a.kwarg is not None:
            vals[a.kwarg.arg] = LDict(kw)
        nd = len(f.defaults)
        for i, n in enumerate(pos):
            if n not in vals:
                j = i - (len(pos) - nd)
                if j >= 0:
                    vals[n] = f.defaults[j]
                else:
                    self.raise_('TypeError', '%s() missing argument %s' % (f.name, n))
        for x, d in zip(a.kwonlyargs, f.kwdefaults):
            if x.arg not in vals:
                if d is UNBOUND:
                    self.raise_('TypeError', 'missing keyword argument')
                vals[x.arg] = d
        env.vars.update(vals)

    # ------------------------------------------------------------ statements
    def run_block(self, body, env, mod):
        for st in body:
            self.stmt(st, env)

    def stmt(self, st, env):
        self.loc = (env.globals.get('__name__', '?'), getattr(st, 'lineno', 0))
        m = getattr(self, 's_' + type(st).__name__, None)
        if m is None:
            raise Unsupported('statement %s' % type(st).__name__)
        m(st, env)

    def s_Expr(self, st, env):
        if isinstance(st.value, ast.Constant):
            return
        if isinstance(st.value, (ast.Yield, ast.YieldFrom)):
            self.do_yield(st.value, env)
            return
        self.eval(st.value, env)

    def do_yield(self, n, env):
        acc = self.lookup(env, '$yield')
        if isinstance(n, ast.YieldFrom):
            acc.set_items(acc.items + self.as_items(self.eval(n.value, env)))
        else:
            acc.set_items(acc.items + [self.eval(n.value, env) if n.value is not None else None])

    def s_Pass(self, st, env):
        pass

    def s_Import(self, st, env):
        for a in st.names:
            m = self.module(a.name)
            if a.asname:
                self.assign_name(env, a.asname, m)
            else:
                top = a.name.split('.')[0]
                self.assign_name(env, top, self.module(top))

    def s_ImportFrom(self, st, env):
        name = st.module or ''
        if st.level:
            cur = env.globals['__name__']
            mod = self.modules[cur]
            parts = cur.split('.')
            if not getattr(mod, 'pkg', False):
                parts = parts[:-1]
            parts = parts[:len(parts) - (st.level - 1)]
            name = '.'.join(parts + ([name] if name else []))
        if name == '__future__':
            return
        m = self.module(name)
        for a in st.names:
            if a.name == '*':
                raise Unsupported('import *')
            v = self.getattr(m, a.name, None)
            if v is None and a.name not in m.vars:
                v = self.module(name + '.' + a.name)
            self.assign_name(env, a.asname or a.name, v)

    def s_FunctionDef(self, st, env):
        f = self.make_fn(st, env)
        for d in reversed(st.decorator_list):
            dv = self.eval(d, env)
            f = self.call(dv, [f], {})
        self.assign_name(env, st.name, f)

    def make_fn(self, node, env):
        a = node.args
        defaults = [self.eval(d, env) for d in a.defaults]
        kwd = [self.eval(d, env) if d is not None else UNBOUND for d in a.kw_defaults]
        name = getattr(node, 'name', '<lambda>')
        mod = env.globals.get('__name__', '?')
        prefix = env.vars.get('$classname')
        qual = (prefix + '.' + name) if prefix else name
        e = env
        if prefix:
            e = env.vars.get('$outer')
        f = Fn(node, e, qual, self, defaults, kwd, mod)
        f._globals = env.globals
        if isinstance(node, ast.FunctionDef):
            f.attrs['__doc__'] = ast.get_docstring(node, clean=False)
        return f

    def s_ClassDef(self, st, env):
        bases = [self.eval(b, env) for b in st.bases]
        bases = [b for b in bases if isinstance(b, Cls)] or [OBJECT]
        cenv = Env(env if env.fn is not None else None, env.globals)
        cenv.vars['$classname'] = st.name
        cenv.vars['$outer'] = env if env.fn is not None else None
        cenv.fn = 'class'
        self.run_block(st.body, cenv, None)
        ns = {k: v for k, v in cenv.vars.items() if not k.startswith('$')}
        c = Cls(st.name, tuple(bases), ns, env.globals.get('__name__'))
        for v in ns.values():
            for g in (v, getattr(v, 'fn', None), getattr(v, 'fget', None), getattr(v, 'fset', None)):
                if isinstance(g, Fn):
                    g.cls = c
            h = getattr(v, 'pv_setcls', None)
            if h:
                h(c)
        r = c
        for d in reversed(st.decorator_list):
            r = self.call(self.eval(d, env), [r], {})
        self.assign_name(env, st.name, r)

    def s_Return(self, st, env):
        raise Return(self.eval(st.value, env) if st.value is not None else None)

    def s_Break(self, st, env):
        raise Break()

    def s_Continue(self, st, env):
        raise Continue()

    def s_Global(self, st, env):
        pass

    def s_Nonlocal(self, st, env):
        pass

    def s_Delete(self, st, env):
        for t in st.targets:
            if isinstance(t, ast.Name):
                Loc('var', env, t.id).write(UNBOUND)
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, env)
                k = self.eval(t.slice, env)
                if isinstance(o, LDict):
                    nd = dict(o.d)
                    if self.hkey(k) not in nd:
                        self.raise_('KeyError', k)
                    del nd[self.hkey(k)]
                    Loc('dict', o).write(nd)
                else:
                    raise Unsupported('del')
            else:
                raise Unsupported('del')

    def s_Assert(self, st, env):
        if not self.truth(self.eval(st.test, env)):
            self.raise_('AssertionError')

    def s_Raise(self, st, env):
        if st.exc is None:
            ex = env.vars.get('$exc')
            e2 = env
            while ex is None and e2 is not None:
                ex = e2.vars.get('$exc')
                e2 = e2.parent
            if ex is None:
                self.raise_('RuntimeError')
            raise PyRaise(ex)
        e = self.eval(st.exc, env)
        if isinstance(e, Cls):
            e = self.instantiate(e, [], {})
        if isinstance(e, Obj):
            e.attrs.setdefault('__loc__', self.loc)
        raise PyRaise(e)

    def s_Try(self, st, env):
        try:
            try:
                self.run_block(st.body, env, None)
            except PyRaise as e:
                for h in st.handlers:
                    if h.type is None or self.exc_match(e.exc, self.eval(h.type, env)):
                        if h.name:
                            self.assign_name(env, h.name, e.exc)
                        old = env.vars.get('$exc')
                        env.vars['$exc'] = e.exc
                        try:
                            self.run_block(h.body, env, None)
                        finally:
                            env.vars['$exc'] = old
                        return
                raise
            self.run_block(st.orelse, env, None)
        finally:
            if st.finalbody:
                self.run_block(st.finalbody, env, None)

    def exc_match(self, e, t):
        if isinstance(t, tuple):
            return any(self.exc_match(e, x) for x in t)
        return isinstance(e, Obj) and t in e.cls.mro

    def s_With(self, st, env):
        for it in st.items:
            v = self.eval(it.context_expr, env)
            if isinstance(v, Obj):
                r = self.call(self.getattr(v, '__enter__'), [], {})
            else:
                r = v
            if it.optional_vars is not None:
                self.assign(it.optional_vars, r, env)
        try:
            self.run_block(st.body, env, None)
        finally:
            for it in st.items:
                pass

    def s_If(self, st, env):
        if not st.orelse and len(st.body) == 1 and isinstance(st.body[0], ast.Assign) and self.extremum(st, env):
            return
        if self.truth(self.eval(st.test, env)):
            self.run_block(st.body, env, None)
        else:
            self.run_block(st.orelse, env, None)

    def extremum(self, st, env):
        """if e > x: x = e   (a running maximum or minimum): one value instead of two paths"""
        t, a = st.test, st.body[0]
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE))
                and len(a.targets) == 1 and isinstance(a.targets[0], ast.Name) and pure(a.value)):
            return False
        x, e = a.targets[0].id, ast.dump(a.value)
        sides = [t.left, t.comparators[0]]
        if not any(isinstance(u, ast.Name) and u.id == x and ast.dump(v) == e for u, v in (sides, sides[::-1])):
            return False
        c = self.tobool(self.eval(t, env))
        if not isinstance(c, B) or self.known(c) is not None:
            return False
        old, new = self.lookup(env, x), self.eval(a.value, env)
        if not all(isinstance(v, (int, float, Sc)) and not isinstance(v, bool) for v in (old, new)):
            return False
        dts = [v.dt if isinstance(v, Sc) else 'i' if isinstance(v, int) else 'f' for v in (old, new)]
        self.assign_name(env, x, mk(T.ite(c, num(new), num(old)), 'i' if dts == ['i', 'i'] else 'f'))
        return True

    def s_Assign(self, st, env):
        v = self.eval(st.value, env)
        for t in st.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, st, env):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, env), env)

    def s_AugAssign(self, st, env):
        t = st.target
        op = type(st.op).__name__
        from . import ops
        if isinstance(t, ast.Name):
            cur = self.lookup(env, t.id)
            new = ops.inplace(self, op, cur, self.eval(st.value, env))
            self.assign_name(env, t.id, new)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            cur = self.getattr(o, t.attr)
            new = ops.inplace(self, op, cur, self.eval(st.value, env))
            self.setattr(o, t.attr, new)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            k = self.eval_slice(t.slice, env)
            cur = ops.getitem(self, o, k)
            new = ops.inplace(self, op, cur, self.eval(st.value, env), elem=True)
            ops.setitem(self, o, k, new)
        else:
            raise Unsupported('augmented assignment')

    def assign(self, t, v, env):
        from . import ops
        if isinstance(t, ast.Name):
            self.assign_name(env, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            ops.setitem(self, o, self.eval_slice(t.slice, env), v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, env)
        else:
            raise Unsupported('assignment target')

    def unpack(self, elts, v, env):
        n = len(elts)
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        its = self.unpack_items(v, n if not star else None)
        if star:
            i = star[0]
            k = n - i - 1
            if len(its) < n - 1:
                self.raise_('ValueError', 'not enough values to unpack')
            head, mid, tail = its[:i], its[i:len(its) - k], its[len(its) - k:]
            for e, x in zip(elts[:i], head):
                self.assign(e, x, env)
            self.assign(elts[i], LList(mid), env)
            for e, x in zip(elts[i + 1:], tail):
                self.assign(e, x, env)
            return
        if len(its) != n:
            self.raise_('ValueError', 'unpack: expected %d values' % n)
        for e, x in zip(elts, its):
            self.assign(e, x, env)

    def unpack_items(self, v, n):
        it = self.iterate(v)
        if isinstance(it, list):
            return it
        if n is not None and isinstance(it, SSeq):
            if not self.branch(eq(it.length, const(n))):
                self.raise_('ValueError', 'unpack: expected %d values' % n)
            return [it.elem(const(i)) for i in range(n)]
        raise Unsupported('unpacking a symbolic sequence')

    # ------------------------------------------------------------ loops
    def s_While(self, st, env):
        from . import loops
        loops.while_loop(self, st, env)

    def s_For(self, st, env):
        it = self.iterate(self.eval(st.iter, env))
        if isinstance(it, list):
            try:
                for x in it:
                    self.assign(st.target, x, env)
                    try:
                        self.run_block(st.body, env, None)
                    except Continue:
                        continue
            except Break:
                return
            self.run_block(st.orelse, env, None)
            return
        from . import loops
        loops.for_loop(self, st, it, env)

    def iterate(self, v):
        """-> python list (concrete) or SSeq / PSeq (symbolic)"""
        from . import pybuiltins
        return pybuiltins.iterate(self, v)

    def as_items(self, v):
        """items for an LList (may contain Seg)"""
        if isinstance(v, LList):
            return list(v.items)
        it = self.iterate(v)
        if isinstance(it, list):
            return it
        if isinstance(it, SSeq):
            return [Seg(it)]
        raise Unsupported('list of %r' % (v,))

    # ------------------------------------------------------------ truth
    def truth(self, v):
        b = self.tobool(v)
        if isinstance(b, bool):
            return b
        return self.branch(b)

    def tobool(self, v):
        """python truth value as bool or B"""
        if v is None:
            return False
        if isinstance(v, (bool, int, float, str, tuple)):
            return bool(v)
        if isinstance(v, B):
            return v
        if isinstance(v, Sc):
            return T.ne(v.p, ZERO)
        if isinstance(v, LList):
            if v.concrete():
                return bool(v.items)
            n = self.len_(v)
            return T.ne(n, ZERO) if any(isinstance(x, Seg) for x in v.items) else True
        if isinstance(v, LDict):
            return bool(v.d)
        if isinstance(v, LSet):
            return bool(v.items)
        if isinstance(v, SSeq):
            return T.ne(v.length, ZERO)
        if isinstance(v, SArr):
            from .arrays import size_of
            sz = size_of(v.shape)
            if sz is not ONE:
                if sz.is_const() or not self.holds(eq(sz, ONE)):
                    if self.branch(eq(sz, ONE)) is False:
                        self.raise_('ValueError', 'truth value of an array is ambiguous')
            x = v.at(tuple(ZERO for _ in v.shape))
            return x if isinstance(x, B) else T.ne(x, ZERO)
        if isinstance(v, Obj):
            for n in ('__bool__', '__len__'):
                f = v.cls.lookup(n)
                if f is not UNBOUND:
                    return self.tobool(self.call(self.bind(f, v, v.cls), [], {}))
            return True
        if isinstance(v, Opaque):
            raise Unsupported('branch on opaque value')
        h = getattr(v, 'pv_bool', None)
        if h is not None:
            return h(self)
        return True

    def len_(self, v):
        from . import pybuiltins
        return pybuiltins.length(self, v)

    def hkey(self, k):
        from . import pybuiltins
        return pybuiltins.hkey(self, k)

    # ------------------------------------------------------------ expressions
    def eval(self, n, env):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(n).__name__)
        return m(n, env)

    def e_Constant(self, n, env):
        return n.value

    def e_Name(self, n, env):
        return self.lookup(env, n.id)

    def e_Attribute(self, n, env):
        return self.getattr(self.eval(n.value, env), n.attr)

    def e_Tuple(self, n, env):
        return tuple(self.elts(n.elts, env))

    def e_List(self, n, env):
        out = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                out += self.as_items(self.eval(e.value, env))
            else:
                out.append(self.eval(e, env))
        return LList(out)

    def e_Set(self, n, env):
        from . import pybuiltins
        return pybuiltins.make_set(self, self.elts(n.elts, env))

    def e_Dict(self, n, env):
        d = LDict()
        for k, v in zip(n.keys, n.values):
            if k is None:
                d.d.update(self.eval(v, env).d)
            else:
                kk = self.hkey(self.eval(k, env))
                d.d[kk] = self.eval(v, env)
        return d

    def elts(self, es, env):
        out = []
        for e in es:
            if isinstance(e, ast.Starred):
                it = self.iterate(self.eval(e.value, env))
                if not isinstance(it, list):
                    raise Unsupported('unpacking a symbolic sequence')
                out += it
            else:
                out.append(self.eval(e, env))
        return out

    def e_Call(self, n, env):
        if isinstance(n.func, ast.Name):
            if n.func.id == 'super' and not n.args:
                e = env
                while e is not None and not isinstance(e.fn, Fn):
                    e = e.parent
                f = e.fn
                while f.cls is None and e.parent is not None:
                    e = e.parent
                    f = e.fn
                a = f.node.args
                first = (a.posonlyargs + a.args)[0].arg
                return Super(f.cls, e.vars[first])
            if n.func.id == 'eval' and len(n.args) == 1:
                s = self.eval(n.args[0], env)
                if not isinstance(s, str):
                    raise Unsupported('eval')
                return self.eval(ast.parse(s, mode='eval').body, env)
            if n.func.id == 'locals':
                return LDict(env.vars)
        f = self.eval(n.func, env)
        args = []
        symstar = None
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, env)
                it = self.iterate(v)
                if isinstance(it, list):
                    args += it
                elif isinstance(it, SSeq):
                    args.append(StarSeq(it))
                else:
                    raise Unsupported('star argument')
            else:
                args.append(self.eval(a, env))
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                d = self.eval(k.value, env)
                kw.update({kk: vv for kk, vv in d.d.items()})
            else:
                kw[k.arg] = self.eval(k.value, env)
        saved = self.loc
        self.loc = (env.globals.get('__name__', '?'), n.lineno)
        if any(isinstance(a, StarSeq) for a in args) and not isinstance(f, Native) and not (
                isinstance(f, BM) and isinstance(f.fn, Native)):
            return self.call_star(f, args, kw)
        r = self.call(f, args, kw)
        self.loc = saved
        return r

    def call_star(self, f, args, kw):
        fn = f.fn if isinstance(f, BM) else f
        if isinstance(fn, Fn) and fn.node.args.vararg is not None:
            # *args parameter becomes a symbolic sequence
            pos = len(fn.node.args.args) + len(fn.node.args.posonlyargs) - (1 if isinstance(f, BM) else 0)
            if len(args) == pos + 1 and isinstance(args[-1], StarSeq):
                return self.call(f, args[:-1] + [], {**kw, '$star': args[-1].seq}) if False else self._call_vararg(
                    f, args[:-1], args[-1].seq, kw)
        raise Unsupported('star argument of symbolic length')

    def _call_vararg(self, f, args, seq, kw):
        fn = f.fn if isinstance(f, BM) else f
        name = fn.node.args.vararg.arg
        a2 = ([f.self] if isinstance(f, BM) else []) + list(args)
        if fn.scope is None:
            fn.scope = scope_of(fn.node)
        sc = fn.scope
        env = Env(fn.env if (fn.env is not None and fn.env.fn is not None) else None, fn.mod_globals(self),
                  sc.locals, sc.nonlocals, sc.globals)
        env.fn = fn
        self.functions_seen[fn.qual] = self.functions_seen.get(fn.qual, 0) + 1
        self.bind_args(fn, fn.node.args, env, a2, kw)
        env.vars[name] = SSeq(seq.length, seq._elem, 'tuple')
        try:
            self.run_block(fn.node.body, env, None)
        except Return as r:
            return r.v
        return None

    def e_Lambda(self, n, env):
        return self.make_fn(n, env)

    def e_IfExp(self, n, env):
        c = self.tobool(self.eval(n.test, env))
        if isinstance(c, B):
            d = self.known(c)
            if d is None:
                # try a value-level merge of pure scalars; otherwise fork
                try:
                    return self.merge_ifexp(n, c, env)
                except _NoMerge:
                    pass
                c = self.branch(c)
            else:
                c = d
        return self.eval(n.body if c else n.orelse, env)

    def merge_ifexp(self, n, c, env):
        """a if a > b else b"""
        t = n.test
        if not (pure(n.body) and pure(n.orelse) and isinstance(t, ast.Compare) and len(t.ops) == 1 and
                isinstance(t.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE)) and
                {ast.dump(t.left), ast.dump(t.comparators[0])} == {ast.dump(n.body), ast.dump(n.orelse)}):
            raise _NoMerge()
        a, b = self.eval(n.body, env), self.eval(n.orelse, env)
        if not all(isinstance(v, (int, float, Sc)) and not isinstance(v, bool) for v in (a, b)):
            raise _NoMerge()
        dts = [v.dt if isinstance(v, Sc) else 'i' if isinstance(v, int) else 'f' for v in (a, b)]
        return mk(T.ite(c, num(a), num(b)), 'i' if dts == ['i', 'i'] else 'f')

    def e_BoolOp(self, n, env):
        isand = isinstance(n.op, ast.And)
        v = None
        for i, e in enumerate(n.values):
            v = self.eval(e, env)
            if i == len(n.values) - 1:
                return v
            t = self.truth(v)
            if isand and not t:
                return v if not isinstance(v, B) else False
            if not isand and t:
                return v if not isinstance(v, B) else True
        return v

    def e_UnaryOp(self, n, env):
        from . import ops
        v = self.eval(n.operand, env)
        return ops.unary(self, type(n.op).__name__, v)

    def e_BinOp(self, n, env):
        from . import ops
        a = self.eval(n.left, env)
        b = self.eval(n.right, env)
        self.loc = (env.globals.get('__name__', '?'), n.lineno)
        return ops.binary(self, type(n.op).__name__, a, b)

    def e_Compare(self, n, env):
        from . import ops
        left = self.eval(n.left, env)
        res = None
        for op, r in zip(n.ops, n.comparators):
            right = self.eval(r, env)
            c = ops.compare(self, type(op).__name__, left, right)
            if len(n.ops) == 1:
                return c
            c = self.tobool(c)
            res = c if res is None else (And(T.mkbool(res), T.mkbool(c)))
            left = right
        return mk(T.mkbool(res))

    def e_Subscript(self, n, env):
        from . import ops
        o = self.eval(n.value, env)
        k = self.eval_slice(n.slice, env)
        self.loc = (env.globals.get('__name__', '?'), n.lineno)
        return ops.getitem(self, o, k)

    def eval_slice(self, s, env):
        return self.eval(s, env)

    def e_Slice(self, n, env):
        from .ops import SliceV
        g = lambda x: self.eval(x, env) if x is not None else None
        return SliceV(g(n.lower), g(n.upper), g(n.step))

    def e_Index(self, n, env):
        return self.eval(n.value, env)

    def e_ExtSlice(self, n, env):
        return tuple(self.eval(d, env) for d in n.dims)

    def e_Starred(self, n, env):
        raise Unsupported('starred')

    def e_JoinedStr(self, n, env):
        return Opaque('fstring')

    def e_NamedExpr(self, n, env):
        v = self.eval(n.value, env)
        self.assign_name(env, n.target.id, v)
        return v

    def e_Yield(self, n, env):
        self.do_yield(n, env)
        return None

    def e_ListComp(self, n, env):
        from . import loops
        return loops.comprehension(self, n, env, 'list')

    def e_GeneratorExp(self, n, env):
        from . import loops
        return loops.comprehension(self, n, env, 'gen')

    def e_SetComp(self, n, env):
        from . import loops, pybuiltins
        v = loops.comprehension(self, n, env, 'set')
        return pybuiltins.make_set(self, v)

    def e_DictComp(self, n, env):
        from . import loops
        return loops.dictcomp(self, n, env)


def pure(n):
    """names, constants and sums and products of them"""
    if isinstance(n, ast.BinOp):
        return isinstance(n.op, (ast.Add, ast.Sub, ast.Mult)) and pure(n.left) and pure(n.right)
    return isinstance(n, (ast.Name, ast.Constant)) or isinstance(n, ast.UnaryOp) and pure(n.operand)


class _NoMerge(Exception):
    pass


class StarSeq:
    def __init__(self, seq):
        self.seq = seq


class Scope:
    pass


def scope_of(node):
    """local / nonlocal names and generator flag of a function node"""
    sc = Scope()
    loc, nl, gl = set(), set(), set()
    gen = [False]
    if isinstance(node, ast.Lambda):
        sc.locals, sc.nonlocals, sc.globals, sc.is_gen = frozenset(), frozenset(), frozenset(), False
        return sc

    def targets(t):
        if isinstance(t, ast.Name):
            loc.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                targets(e)
        elif isinstance(t, ast.Starred):
            targets(t.value)

    def walk(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                loc.add(c.name)
                continue
            if isinstance(c, ast.Lambda):
                continue
            if isinstance(c, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                continue
            if isinstance(c, (ast.Yield, ast.YieldFrom)):
                gen[0] = True
            if isinstance(c, ast.Nonlocal):
                nl.update(c.names)
            if isinstance(c, ast.Global):
                gl.update(c.names)
            if isinstance(c, ast.Assign):
                for t in c.targets:
                    targets(t)
            if isinstance(c, (ast.AugAssign, ast.AnnAssign)):
                targets(c.target)
            if isinstance(c, ast.For):
                targets(c.target)
            if isinstance(c, (ast.Import, ast.ImportFrom)):
                for a in c.names:
                    loc.add((a.asname or a.name).split('.')[0])
            walk(c)
    for st in node.body:
        w = ast.Module(body=[st], type_ignores=[])
        walk(w)
    sc.locals, sc.nonlocals, sc.globals, sc.is_gen = frozenset(loc - nl - gl), frozenset(nl), frozenset(gl), gen[0]
    return sc


def _mod_globals(self, interp):
    return self._globals


Fn.mod_globals = _mod_globals
