"""Concrete execution of the contracts in /verif/specs on the real code (runs under the repository's interpreter).

    native.py JOBFILE      JOBFILE: {"jobs": [{"module":..., "name":..., "runs": N, "seed": S, "inputs": [..]}]}

Prints one JSON line per job.  Every obligation of the contract is evaluated on concrete inputs: this is the
replay of counterexamples, the non-vacuity witness of the hypotheses and the bounded stand-in.
"""
import json
import math
import os
import pickle
import random
import signal
import sys
import time
import traceback
import warnings

sys.path.insert(0, os.environ.get('PV_REPO', '/repo'))
sys.path.insert(1, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True

import numpy as np  # noqa: E402

TOL = 1e-7
BIG = 50  # runs with sizes beyond this are extra: slow ones are dropped


class Skip(Exception):
    pass


class Fail(Exception):
    def __init__(self, label, detail):
        super().__init__(label)
        self.label, self.detail = label, detail


class NatCx:
    symbolic = False

    def __init__(self, seed, forced=None, small=True, maxn=6, scale=None):
        self.seed = seed
        self.rnd = random.Random(seed)
        self.lay = random.Random(seed * 7 + 3)
        self.rng = np.random.RandomState(self.rnd.randrange(1 << 30))
        self.forced = forced or {}
        self.log = {}
        self.checks = 0
        self.maxn = maxn
        self.fails = []
        self.tol = TOL

    # inputs ------------------------------------------------------------
    def _in(self, name, v, ints=False):
        if name in self.log:
            v = self.log[name]
            return self.layout(v.copy(), ints) if isinstance(v, np.ndarray) else v
        self.log[name] = v
        return self.layout(v.copy(), ints) if isinstance(v, np.ndarray) else v

    def size(self, name, lo=1, hi=None, cap=None):
        if name in self.forced:
            v = int(self.forced[name])
            if v < lo or (hi is not None and v > hi):
                raise Skip()
            return self._in(name, v)
        h = lo + self.maxn if hi is None else min(hi, lo + self.maxn)
        if cap is not None:
            h = min(h, cap if self.maxn < BIG else max(cap, self.maxn // 3))
        v = self.rnd.randint(lo, h)
        if self.rnd.random() < .2:
            v = self.rnd.choice([lo, h])
        return self._in(name, v)

    def int(self, name, lo=None, hi=None):
        if name in self.forced:
            v = int(self.forced[name])
            if (lo is not None and v < lo) or (hi is not None and v > hi):
                raise Skip()
            return self._in(name, v)
        return self._in(name, self.rnd.randint(-5 if lo is None else lo, 5 + (lo or 0) if hi is None else hi))

    def real(self, name, lo=None, hi=None, pos=False):
        if name in self.forced:
            return self._in(name, float(self.forced[name]))
        l = lo if lo is not None else (0.05 if pos else -3.0)
        h = hi if hi is not None else (max(l, 0) + 3.0)
        v = self.rnd.uniform(l, h)
        if self.rnd.random() < .15:
            v = self.rnd.choice([x for x in (lo, hi, 0.0 if not pos and (lo is None or lo <= 0) else 1.0, 1.0,)
                                 if x is not None and (lo is None or x >= lo) and (hi is None or x <= hi)] or [v])
        return self._in(name, float(v))

    def array(self, name, *shape, dt='f', pos=False, nonneg=False, lo=None, hi=None, key=(), vary=True, wide=False):
        shape = tuple(int(s) for s in shape)
        nm = name + (str(tuple(int(k) for k in key)) if key else '')
        if nm in self.forced:
            v = np.array(self.forced[nm], dtype={'f': float, 'i': int, 'b': bool}[dt]).reshape(shape)
            return self._in(nm, v, vary is True)
        if dt == 'i':
            l, h = (0 if nonneg else -4), 5
            if lo is not None:
                l = int(lo)
            if hi is not None:
                h = int(hi) + 1
            v = self.rng.randint(1 if pos else l, h, size=shape)
        elif dt == 'b':
            v = self.rng.randint(0, 2, size=shape).astype(bool)
        else:
            l = 0.05 if pos else 0.0 if nonneg else -2.0
            h = 2.0
            if lo is not None:
                l = float(lo)
            if hi is not None:
                h = float(hi)
            if h < l:
                h = l
            v = self.rng.uniform(l, h, size=shape)
            mode = self.rnd.random() if vary else 1
            if mode < .2 and not pos:
                v = np.clip(np.round(v), l, h)
            elif mode < .3 and not pos and v.size:
                v = v.copy()
                v.flat[self.rnd.randrange(v.size)] = min(max(0., l), h)
            if wide and self.rnd.random() < .4:
                v = v * 10.0 ** self.rnd.choice([-15, -9, -6, -3] if wide == 'small' else [-15, -9, -6, -3, 3, 6])
        return self._in(nm, v, vary is True)

    def layout(self, v, ints=False):
        """the same values in some memory layout: contracts hold for views, strided and column-major arrays alike"""
        r = self.lay.random()
        if ints and v.dtype == float and v.size and self.lay.random() < .4 and np.all(v == np.round(v)):
            v = v.astype(int)
        if r > .35 or v.ndim == 0:
            return v
        if r < .1:
            return np.array(v, order='F')
        ax = self.lay.randrange(v.ndim)
        idx = [slice(None)] * v.ndim
        big = np.zeros(tuple(2 * s + 1 if a == ax else s for a, s in enumerate(v.shape)), dtype=v.dtype)
        if r < .2:
            idx[ax] = slice(1, v.shape[ax] + 1)
        elif r < .28:
            idx[ax] = slice(1, None, 2)
        else:
            idx[ax] = slice(v.shape[ax], 0, -1)
        w = big[tuple(idx)]
        w[...] = v
        return w

    def choice(self, name, *opts):
        if name in self.forced:
            k = int(self.forced[name])
        else:
            k = self.rnd.randrange(len(opts))
        self._in(name, k)
        return opts[k]

    def seq(self, n, f):
        return [f(k) for k in range(n)]

    # logic -------------------------------------------------------------
    def assume(self, c):
        if not c:
            raise Skip()

    def sum(self, n, f, lo=0):
        t = 0
        for k in range(int(lo), int(n)):
            t = t + f(k)
        return t

    def max(self, n, f):
        return max(f(k) for k in range(int(n)))

    def ite(self, c, a, b):
        return a if c else b

    def fn(self, name, x):
        return getattr(math, name)(x)

    def pi(self):
        return math.pi

    def ppf(self, x):
        from scipy.special import ndtri
        return float(ndtri(x))

    def gammaln(self, x):
        return math.lgamma(x)

    def umap(self, name, x):
        # positive definite functions of the distance for names k*, smooth ones of either sign otherwise
        s = sum(ord(c) * (i + 1) for i, c in enumerate(name))
        c = 0.2 + (s % 7) / 4.0
        if name.startswith('k'):
            return np.exp(-c * np.square(x))
        return np.cos((1 + s % 5) * np.asarray(x) + s % 3) * np.exp(-c * np.abs(x)) + (s % 4 - 1.5)

    def diff(self, f, x):
        # Richardson-extrapolated central differences
        h = 1e-3 * max(1.0, abs(x))
        d1 = (f(x + h) - f(x - h)) / (2 * h)
        d2 = (f(x + h / 2) - f(x - h / 2)) / h
        d3 = (f(x + h / 4) - f(x - h / 4)) / (h / 2)
        e1, e2 = (4 * d2 - d1) / 3, (4 * d3 - d2) / 3
        return Approx((16 * e2 - e1) / 15)

    def forall(self, shape, f):
        shape = shape if isinstance(shape, tuple) else (shape,)
        return all(f(*map(int, ix)) for ix in np.ndindex(*[max(int(s), 0) for s in shape]))

    # obligations -------------------------------------------------------
    def fail(self, label, detail):
        self.fails.append((label, detail))
        raise Fail(label, detail)

    def true(self, label, c):
        self.checks += 1
        if not c:
            self.fail(label, 'condition is false')

    def close(self, label, a, b, tol=1e-6):
        self.checks += 1
        if not near(a, b, tol):
            self.fail(label, '%r != %r' % (brief(a), brief(b)))

    def eq(self, label, a, b):
        self.checks += 1
        tol = 1e-5 if isinstance(a, Approx) or isinstance(b, Approx) else self.tol
        if isinstance(a, Approx):
            a = a.v
        if isinstance(b, Approx):
            b = b.v
        if isinstance(a, (list, tuple, dict, str, set)) or a is None or b is None:
            if not same(a, b, tol):
                self.fail(label, '%s != %s' % (brief(a), brief(b)))
            return
        if not near(a, b, tol):
            self.fail(label, '%s != %s' % (brief(a), brief(b)))

    def shape(self, label, a, *shape):
        self.checks += 1
        if tuple(a.shape) != tuple(int(s) for s in shape):
            self.fail(label + ':shape', '%s != %s' % (a.shape, shape))

    def arr(self, label, a, shape, f):
        if not isinstance(shape, tuple):
            shape = (shape,)
        if hasattr(a, 'toarray'):
            a = a.toarray()
        a = np.asarray(a)
        self.shape(label, a, *shape)
        cells = int(np.prod([int(s) for s in shape])) if shape else 1
        if cells <= 400:
            idx = list(np.ndindex(*[max(int(s), 0) for s in shape]))
        else:
            idx = [tuple(self.rnd.randrange(int(s)) for s in shape) for _ in range(60)]
            idx += [tuple(0 for s in shape), tuple(int(s) - 1 for s in shape)]
        scale = float(np.max(np.abs(a))) if a.size and a.dtype.kind in 'fiu' else 1.0
        for ix in idx:
            ix = tuple(int(i) for i in ix)
            want = f(*ix)
            self.checks += 1
            tol = self.tol
            if isinstance(want, Approx):
                want, tol = want.v, 1e-5
            if not near(a[ix], want, tol, scale):
                self.fail(label, 'at %s: %s, expected %s' % (ix, brief(a[ix]), brief(want)))

    def raises(self, label, excname, thunk):
        self.checks += 1
        names = excname if isinstance(excname, tuple) else (excname,)
        try:
            thunk()
        except Exception as e:
            if not any(c.__name__ in names for c in type(e).__mro__):
                self.fail(label, 'raised %s: %s' % (type(e).__name__, e))
            return
        self.fail(label, 'no exception raised')

    def snapshot(self, *objs):
        return [(o, freeze(o)) for o in objs]

    def unchanged(self, label, snap):
        for o, old in snap:
            self.checks += 1
            r = freeze(o)
            d = frozen_diff(old, r)
            if d:
                self.fail(label, d)

    def with_methods(self, methods, thunk):
        return self.external('scipy.sparse.linalg', methods, thunk)

    def external(self, modname, methods, thunk):
        import importlib
        sla = importlib.import_module(modname)
        undo = []
        for name, f in methods.items():
            orig = getattr(sla, name)
            for m in [sla] + [m for k, m in list(sys.modules.items()) if k.startswith('runlmc.') and m is not None]:
                for a, v in list(vars(m).items()):
                    if v is orig:
                        undo.append((m, a, orig))
                        setattr(m, a, f)
        try:
            return thunk()
        finally:
            for m, a, o in undo:
                setattr(m, a, o)

    def replacing(self, modname, stubs, thunk):
        import importlib
        mod = importlib.import_module(modname)
        used, undo = set(), []
        for name, f in stubs.items():
            orig = getattr(mod, name, None)
            if orig is None:
                raise Skip()

            def g(*a, _f=f, _n=name, **k):
                used.add(_n)
                return _f(*a, **k)
            if not callable(f):
                g = f
                used.add(name)
            for m in [m for k, m in list(sys.modules.items()) if k.startswith('runlmc.') and m is not None]:
                for a, v in list(vars(m).items()):
                    if v is orig:
                        undo.append((m, a, orig))
                        setattr(m, a, g)
        try:
            r = thunk()
        finally:
            for m, a, o in undo:
                setattr(m, a, o)
        if used != set(stubs):
            raise Skip()
        return r

    def logged(self, thunk):
        import logging
        out = []

        class H(logging.Handler):
            def emit(self, rec):
                out.append(rec.levelname.lower())
        h = H()
        lg = logging.getLogger('runlmc')
        old, prop = lg.level, lg.propagate
        lg.addHandler(h)
        lg.setLevel(logging.INFO)
        lg.propagate = False
        try:
            r = thunk()
        finally:
            lg.removeHandler(h)
            lg.setLevel(old)
            lg.propagate = prop
        return r, out

    def find(self, arrays, y):
        for k, a in enumerate(arrays):
            if np.array_equal(a, y):
                return k
        return 0

    def note(self, *a):
        pass

    def dtype(self, a):
        return np.asarray(a).dtype.kind


class Approx:
    def __init__(self, v):
        self.v = float(v)

    def __add__(self, o):
        return Approx(self.v + (o.v if isinstance(o, Approx) else o))
    __radd__ = __add__

    def __mul__(self, o):
        return Approx(self.v * (o.v if isinstance(o, Approx) else o))
    __rmul__ = __mul__

    def __neg__(self):
        return Approx(-self.v)

    def __sub__(self, o):
        return Approx(self.v - (o.v if isinstance(o, Approx) else o))

    def __rsub__(self, o):
        return Approx(o - self.v)


def brief(x):
    s = repr(x)
    return s if len(s) < 200 else s[:200] + '...'


def near(a, b, tol=TOL, scale=0.0):
    try:
        if isinstance(a, (bool, np.bool_)) or isinstance(b, (bool, np.bool_)):
            return bool(a) == bool(b)
        a, b = float(a), float(b)
    except (TypeError, ValueError):
        return False
    if a == b:
        return True
    if math.isnan(a) or math.isnan(b) or math.isinf(a) or math.isinf(b):
        return False
    return abs(a - b) <= tol * (1 + max(abs(a), abs(b), scale))


def same(a, b, tol):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k], tol) for k in a)
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and all(near(x, y, tol) for x, y in zip(a.ravel(), b.ravel()))
    if isinstance(a, (int, float, np.number)) and isinstance(b, (int, float, np.number)):
        return near(a, b, tol)
    return a == b


def freeze(o, seen=None, depth=0):
    """structural deep copy of observable state"""
    seen = seen if seen is not None else {}
    if id(o) in seen:
        return ('ref',)
    if isinstance(o, np.ndarray) and o.dtype != object:
        return ('nd', o.shape, str(o.dtype), o.copy())
    if isinstance(o, (int, float, str, bool, bytes, type(None), np.generic, complex)):
        return ('v', o)
    seen[id(o)] = True
    if isinstance(o, np.ndarray):
        return ('l', [freeze(x, seen, depth + 1) for x in o.ravel()])
    if isinstance(o, (list, tuple)):
        return ('l', [freeze(x, seen, depth + 1) for x in o])
    if isinstance(o, dict):
        return ('d', {repr(k): freeze(v, seen, depth + 1) for k, v in o.items()})
    if hasattr(o, 'tocsr') and hasattr(o, 'toarray'):
        return ('sp', freeze(o.toarray()))
    if hasattr(o, '__dict__') and not callable(o) and depth < 8:
        return ('o', {k: freeze(v, seen, depth + 1) for k, v in vars(o).items() if k not in ('_op',)})
    return ('x',)


def frozen_diff(a, b, path=''):
    if a[0] != b[0]:
        return path + ' changed kind'
    if a[0] == 'nd':
        if a[1] != b[1] or a[2] != b[2] or not np.array_equal(a[3], b[3], equal_nan=True):
            return path + ' array modified'
    elif a[0] == 'v':
        if a[1] != b[1] and not (a[1] != a[1] and b[1] != b[1]):
            return '%s changed from %r to %r' % (path, a[1], b[1])
    elif a[0] == 'l':
        if len(a[1]) != len(b[1]):
            return path + ' length changed'
        for i, (x, y) in enumerate(zip(a[1], b[1])):
            d = frozen_diff(x, y, '%s[%d]' % (path, i))
            if d:
                return d
    elif a[0] in ('d', 'o'):
        if not set(a[1]) <= set(b[1]):
            return path + ' lost %s' % (set(a[1]) - set(b[1]))
        if a[0] == 'd' and set(a[1]) != set(b[1]):
            return path + ' keys changed'
        for k in a[1]:
            if a[0] == 'o' and k.startswith('_') and a[1][k] == ('v', None):
                continue
            d = frozen_diff(a[1][k], b[1][k], '%s.%s' % (path, k))
            if d:
                return d
    elif a[0] == 'sp':
        return frozen_diff(a[1], b[1], path)
    return None


def jsonable(v):
    if isinstance(v, np.ndarray):
        return v.tolist()
    if isinstance(v, (np.integer,)):
        return int(v)
    if isinstance(v, (np.floating,)):
        return float(v)
    return v


def stand_in(msg):
    """the code asked a stand-in object of a contract for something it does not provide"""
    if not msg.startswith("'") or ' object has no attribute' not in msg:
        return False
    name = msg[1:].split("'")[0]
    return any(getattr(getattr(m, name, None), '__module__', '').startswith('specs.')
               for k, m in list(sys.modules.items()) if k.startswith('specs.'))


def run_once(fn, seed, forced=None, maxn=6):
    """-> (status, label, detail, inputs, checks)"""
    cx = NatCx(seed, forced, maxn=maxn)
    np.random.seed(seed & 0xffffffff)
    random.seed(seed)
    signal.signal(signal.SIGALRM, _late)
    signal.alarm(LIMIT if maxn < BIG else 20)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            with np.errstate(all='ignore'):
                fn(cx)
        return 'ok', None, None, cx.log, cx.checks
    except Skip:
        return 'skip', None, None, cx.log, cx.checks
    except Fail as e:
        return 'fail', e.label, e.detail, cx.log, cx.checks
    except Late:
        if maxn >= BIG:
            return 'skip', None, None, cx.log, cx.checks
        return 'fail', 'terminates', 'no answer within %d s' % LIMIT, cx.log, cx.checks
    except Exception as e:
        tb = traceback.extract_tb(sys.exc_info()[2])
        if isinstance(e, AttributeError) and stand_in(str(e)):
            return 'skip', None, None, cx.log, cx.checks
        return 'fail', 'no-exception:%s' % type(e).__name__, '%s at %s' % (
            str(e)[:300], ' <- '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in tb[-4:][::-1])), cx.log, cx.checks
    finally:
        signal.alarm(0)


LIMIT = 240  # seconds for one run; they take well under ten


class Late(BaseException):
    pass


def _late(*a):
    raise Late()


def run_job(job):
    import importlib
    t0 = time.time()
    out = {'module': job['module'], 'name': job['name'], 'runs': 0, 'checks': 0, 'skips': 0, 'fail': None}
    try:
        mod = importlib.import_module(job['module'])
        fn = getattr(mod, job['name'])
    except Exception as e:
        tb = traceback.extract_tb(sys.exc_info()[2])
        out['fail'] = {'label': 'import', 'detail': '%s: %s at %s' % (type(e).__name__, e, tb[-1]), 'seed': 0, 'inputs': {}}
        return out
    plan = [(job.get('seed', 1), 6, f) for f in job.get('inputs', [])] + [tuple(x) for x in job.get('exact', [])]
    n, seed = job.get('runs', 20), job.get('seed', 1)
    budget = job.get('budget', 60)
    meta = getattr(mod, 'META', {}).get(job['name'], {})
    n *= meta.get('times', 1)
    cap = meta.get('runs')
    if cap is not None:
        n = max(2, min(n, int(cap * job.get('mult', 1))))
    k = 0
    while True:
        if plan:
            sd, mx, forced = plan.pop(0)
        else:
            if out['runs'] + out['skips'] // 10 >= n or time.time() - t0 > budget:
                break
            sd, forced = seed * 100003 + k, None
            mx = (60, 60, 140)[k // 6 % 3] if job.get('big') and k % 6 == 3 else 6 if k % 5 else (2 if k % 2 else meta.get('maxn', 12))
            k += 1
        print('@>' + json.dumps([job['module'], job['name'], sd, mx, forced]), flush=True)
        st, label, detail, log, ch = run_once(fn, sd, forced, mx)
        out['checks'] += ch
        if st == 'skip':
            out['skips'] += 1
            continue
        out['runs'] += 1
        if st == 'fail':
            out['fail'] = {'label': label, 'detail': detail, 'seed': sd, 'maxn': mx, 'forced': forced,
                           'inputs': {a: jsonable(b) for a, b in log.items()}}
            break
    out['secs'] = round(time.time() - t0, 3)
    return out


def main():
    with open(sys.argv[1]) as f:
        jobs = json.load(f)['jobs']
    for job in jobs:
        r = run_job(job)
        print('@@' + json.dumps(r), flush=True)


if __name__ == '__main__':
    main()
