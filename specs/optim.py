"""Contracts of the stochastic optimizer and of the worker pool."""
import numpy as np
from runlmc.models.optimization import AdaDelta


class Counter:
    def __init__(self):
        self.n = 0

    def __call__(self):
        self.n += 1


class Steps:
    """an arbitrary descent method: gradients G[0], G[1], ..., at most T steps"""

    def __init__(self, cx, T, G):
        self.cx, self.T, self.G = cx, T, G
        self.made = 0
        self.taken = 0

    def __call__(self, wrt, fprime, **kw):
        self.made += 1
        self.wrt, self.fprime, self.kw = wrt, fprime, kw
        return self

    def __iter__(self):
        G = self.G
        if self.cx.symbolic:
            return iter(self.cx.seq(self.T, lambda t: {'n_iter': t + 1, 'gradient': G[t], 'args': (), 'kwargs': {}}))
        return self.walk()

    def walk(self):
        for t in range(self.T):
            self.taken += 1
            self.wrt += 1.0
            yield {'n_iter': t + 1, 'gradient': self.G[t], 'args': (), 'kwargs': {}}


def h_adadelta(cx):
    """at most max_it steps, one callback per step, stops exactly when the permitted drops are used up"""
    # native runs draw long histories: drops, recoveries and drops again
    T = cx.size('T', lo=0) if cx.symbolic else cx.int('T', 0, 14)
    P = cx.size('P')
    G = cx.array('G', T, P)
    if not cx.symbolic:
        G = G * (10.0 ** -cx.array('fade', T, dt='i', lo=0, hi=2))[:, np.newaxis]
    x = cx.array('x', P, vary='float')
    ratio = cx.real('ratio', lo=0, hi=1)
    max_it = cx.int('max_it', 1) if cx.symbolic else cx.int('max_it', 1, 14)
    drops = cx.int('drops', 1) if cx.symbolic else cx.int('drops', 1, 4)
    steps, cb = Steps(cx, T, G), Counter()
    f = Counter()
    if cx.symbolic:
        opt = AdaDelta(min_grad_ratio=ratio, permitted_drops=drops, max_it=max_it, callback=cb, decay=0.7)
        cx.external('climin', {'Adadelta': steps}, lambda: opt.opt(x, fp=f))
    else:  # however much it prints
        import contextlib
        import io
        loud = cx.choice('verbosity', 0, 1, 2, 5, 40)
        opt = AdaDelta(min_grad_ratio=ratio, permitted_drops=drops, max_it=max_it, callback=cb, decay=0.7, verbosity=loud)
        said = io.StringIO()
        with contextlib.redirect_stdout(said):
            cx.external('climin', {'Adadelta': steps}, lambda: opt.opt(x, fp=f))
        cx.true('silent unless asked', loud or not said.getvalue())

    def g(t):
        return cx.max(P, lambda p: abs(G[t, p]))

    def top(t):
        return cx.max(t + 1, g)

    def used(t):
        return cx.sum(t + 1, lambda s: cx.ite(g(s) < ratio * top(s), 1, 0))
    cx.eq('one method', steps.made, 1)
    cx.true('on the given start and gradient', steps.wrt is x and steps.fprime is f)
    cx.eq('settings forwarded', steps.kw, {'step_rate': 1, 'decay': 0.7, 'momentum': 0.5, 'offset': 1e-4})
    cx.true('result is the last iterate', opt.x_opt is x)
    c = cb.n
    cx.true('no more steps than offered', c <= T)
    cx.true('no more steps than allowed', c <= max_it)
    if not cx.symbolic:
        cx.eq('steps taken', steps.taken, c)
    if c < T:
        cx.true('takes a step', c >= 1)
        cx.true('stops for a reason', c == max_it or used(c - 1) >= drops)
    cx.true('no reason to stop earlier', cx.forall(c - 1, lambda t: used(t) < drops))
