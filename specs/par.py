"""Contracts of the worker pool and of everything that runs through it."""
import numpy as np
from runlmc.lmc.stochastic_deriv import StochasticDerivService
from runlmc.util.inline_pool import InlinePool
from specs.approx import Inverse, form
from specs.linalg import AMat
from specs import llgp

META = {'h_predict_workers_solve': {'runs': 3}, 'h_predict_workers_grid': {'runs': 3}}


class Result:
    """contract of AsyncResult: the value, ready at any time or not"""

    def __init__(self, value, ready):
        self.value, self.done = value, ready

    def get(self, timeout=None):
        self.done = True
        return self.value

    def wait(self, timeout=None):
        self.done = True

    def ready(self):
        return self.done

    def successful(self):
        return True


class Workers:
    """contract of multiprocessing.Pool: map and starmap give their results in the order of the work list, the
    asynchronous calls finish in any order (here: every other one first, the rest in reverse)"""

    def __init__(self, processes=None):
        self.processes = processes
        self.calls, self.closed, self.asked = 0, 0, 0

    def starmap(self, func, iterable, chunksize=None):
        self.calls += 1
        return [func(*x) for x in iterable]

    def map(self, func, iterable, chunksize=None):
        self.calls += 1
        return [func(x) for x in iterable]

    def imap(self, func, iterable, chunksize=1):
        self.calls += 1
        return iter([func(x) for x in iterable])

    def imap_unordered(self, func, iterable, chunksize=1):
        self.calls += 1
        out = [func(x) for x in iterable]
        return iter(out[::-1])

    def apply(self, func, args=(), kwds={}):
        self.calls += 1
        return func(*args, **kwds)

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        self.asked += 1
        return Result(func(*args, **kwds), self.asked % 2 == 0)

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return Result(self.starmap(func, iterable), False)

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return Result(self.map(func, iterable), False)

    def close(self):
        self.closed += 1

    def join(self):
        pass

    def terminate(self):
        self.closed += 1

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.closed += 1


def work(cx):
    """two-argument jobs of any number"""
    n = cx.size('n', lo=0)
    a, b = cx.array('a', n), cx.array('b', n)
    s = cx.snapshot(a, b)
    return n, a, b, s, cx.seq(n, lambda i: (a[i], b[i]))


def h_starmap_serial(cx):
    n, a, b, s, ls = work(cx)
    out = InlinePool(None).starmap(lambda x, y: cx.umap('f', x - 2 * y), ls)
    cx.eq('one result per job', len(out), n)
    cx.true('results in order', cx.forall(n, lambda i: out[i] == cx.umap('f', a[i] - 2 * b[i])))
    cx.unchanged('jobs unchanged', s)


def h_starmap_workers(cx):
    n, a, b, s, ls = work(cx)
    p = Workers()
    out = InlinePool(p).starmap(lambda x, y: cx.umap('f', x - 2 * y), ls)
    cx.eq('one result per job', len(out), n)
    cx.true('results in order', cx.forall(n, lambda i: out[i] == cx.umap('f', a[i] - 2 * b[i])))
    cx.unchanged('jobs unchanged', s)


def h_deriv_workers(cx):
    """the gradient estimator with workers is the one without"""
    n = cx.size('n', cap=5)
    K, V, y = cx.array('K', n, n), cx.array('V', n, n), cx.array('y', n)
    it = cx.choice('probes', 1, 2)
    dK = cx.array('dK', n, n)
    meth = Inverse(V)
    sv = StochasticDerivService(None, InlinePool(Workers()), it, 1e-4)
    d = cx.with_methods({'minres': meth}, lambda: sv.generate(AMat(K), y))
    a = V.dot(y)
    k = cx.find(meth.bs, y)
    rs = meth.bs[:k] + meth.bs[k + 1:]
    cx.eq('one solve per probe', len(rs), it)
    cx.arr('solution', d.alpha, n, lambda i: a[i])
    q = form(cx, n, a, dK, a)
    t = sum([form(cx, n, V.dot(r), dK, r) for r in rs]) / it
    cx.eq('derivative', d.derivative(AMat(dK)), (q - t) / 2)


def predict(cx, method):
    """a model large enough for workers predicts what a serial one predicts"""
    procs = cx.choice('procs', 1, 2, 5)
    w = llgp.World(cx, 1, (1, 0, 0), ranks=[1], least=300)
    ts, Zs = llgp.queries(cx, w)
    made = []

    def pool(processes=None, *a, **k):
        p = Workers(processes)
        made.append(p)
        return p

    def go():
        gp = w.build(prediction=method, max_procs=procs)
        k = len(w.interps)
        mu, vr = gp.predict(Zs)
        llgp.check_mean(cx, w, mu, ts, Zs, k)
        ex = llgp.explained_solve(cx, w, ts, Zs) if method == 'on-the-fly' else llgp.explained_grid(cx, w, k)
        llgp.check_variance(cx, w, vr, ts, ex)
        for p in made:
            cx.eq('workers as requested', p.processes, procs)
        if procs == 1:
            cx.eq('no workers', len(made), 0)
    w.run(lambda: cx.external('multiprocessing', {'Pool': pool}, go))


def h_predict_workers_solve(cx):
    predict(cx, 'on-the-fly')


def h_predict_workers_grid(cx):
    predict(cx, 'precompute')
