"""Contracts of the index and grid utilities."""
import numpy as np
from runlmc.util.numpy_convenience import (map_entries, tesselate, search_descending, symm_2d_list_map,
                                           begin_end_indices, chunks, cartesian_product)


def h_map_entries(cx):
    rank = cx.choice('rank', 1, 2, 3)
    ns = [cx.size('n%d' % k, lo=0 if rank == 1 else 1) for k in range(rank)]
    A = cx.array('A', *ns, dt=cx.choice('dt', 'f', 'i'))
    s = cx.snapshot(A)
    out = map_entries(lambda v: v * v + 1, A)
    cx.arr('map_entries', out, tuple(ns), lambda *i: A[i] * A[i] + 1)
    cx.unchanged('map_entries leaves its input alone', s)


def h_tesselate(cx):
    """K segments of arbitrary lengths (empty ones included), vectors and matrices"""
    K = cx.choice('K', 1, 2, 3, 4)
    ls = [cx.size('l%d' % k, lo=0) for k in range(K)]
    n = sum(ls)
    if cx.choice('rank', 1, 2) == 1:
        A = cx.array('A', n)
        out = tesselate(A, ls)
        cx.eq('number of segments', len(out), K)
        for k in range(K):
            o = sum(ls[:k])
            cx.arr('segment', out[k], ls[k], lambda i: A[o + i])
    else:
        m = cx.size('m')
        A = cx.array('A', n, m)
        out = tesselate(A, iter(ls))
        cx.eq('number of segments', len(out), K)
        for k in range(K):
            o = sum(ls[:k])
            cx.arr('segment rows', out[k], (ls[k], m), lambda i, j: A[o + i, j])


def h_tesselate_rejects(cx):
    K = cx.choice('K', 0, 1, 2, 3)
    ls = [cx.size('l%d' % k, lo=0) for k in range(K)]
    n = cx.size('n', lo=0)
    if K:
        cx.assume(n != sum(ls))
    A = cx.array('A', n)
    cx.raises('wrong segment lengths', 'ValueError', lambda: tesselate(A, ls))


def h_search(cx):
    n = cx.size('n', lo=1)
    xs = cx.array('xs', n)
    if not cx.symbolic:
        xs = np.sort(xs)[::-1].copy()
        if cx.choice('ties', 0, 1):
            xs = np.round(xs)
    cx.assume(cx.forall(n - 1, lambda i: xs[i] >= xs[i + 1]))
    x = cx.real('x')
    if not cx.symbolic and cx.choice('hit', 0, 1):
        x = float(xs[cx.int('at', 0, n - 1)])
    inc = cx.choice('inclusive', True, False)
    r = search_descending(x, xs, inc)
    cx.true('range', 0 <= r <= n)
    if inc:
        cx.true('everything before is large', cx.forall(r, lambda i: xs[i] >= x))
        cx.true('everything after is small', cx.forall(n - r, lambda i: xs[r + i] < x))
    else:
        cx.true('everything before is large', cx.forall(r, lambda i: xs[i] > x))
        cx.true('everything after is small', cx.forall(n - r, lambda i: xs[r + i] <= x))


def h_search_rejects(cx):
    n = cx.size('n', lo=2)
    xs = cx.array('xs', n)
    k = cx.int('k', 0, n - 2)
    cx.assume(xs[k] < xs[k + 1])
    x = cx.real('x')
    inc = cx.choice('inclusive', True, False)
    cx.raises('increasing arrays are rejected', 'ValueError', lambda: search_descending(x, xs, inc))


def h_begin_end(cx):
    K = cx.choice('K', 1, 2, 3, 4)
    ls = [cx.size('l%d' % k, lo=0) for k in range(K)]
    b, e = begin_end_indices(ls)
    cx.eq('number of begins', len(b), K)
    cx.eq('number of ends', len(e), K)
    for k in range(K):
        cx.eq('begin', b[k], sum(ls[:k]))
        cx.eq('end', e[k], sum(ls[:k + 1]))


def h_begin_end_any(cx):
    """any number of segments"""
    n = cx.size('n')
    ls = cx.array('ls', n, dt='i', nonneg=True)
    b, e = begin_end_indices(ls)
    cx.arr('begins', b, n, lambda i: cx.sum(i, lambda j: ls[j]))
    cx.arr('ends', e, n, lambda i: cx.sum(i + 1, lambda j: ls[j]))


def h_chunks(cx):
    """K full chunks of arbitrary size, possibly followed by a shorter one"""
    q = cx.size('q')
    r = cx.size('r', lo=0)
    cx.assume(r < q)
    K = cx.choice('K', 0, 1, 2, 3)
    n = K * q + r
    A = cx.array('A', n)
    out = [c for c in chunks(A, q)]
    if r > 0:
        cx.eq('number of chunks', len(out), K + 1)
        cx.arr('last chunk', out[K], r, lambda i: A[K * q + i])
    else:
        cx.eq('number of chunks', len(out), K)
    for k in range(K):
        cx.arr('chunk', out[k], q, lambda i: A[k * q + i])


def h_cartesian(cx):
    K = cx.choice('K', 1, 2, 3)
    a, b, c = cx.size('a'), cx.size('b'), cx.size('c')
    A = cx.array('A', a, dt=cx.choice('adt', 'f', 'i'))
    B = cx.array('B', b, dt=cx.choice('bdt', 'f', 'i'))
    C = cx.array('C', c)
    s = cx.snapshot(A, B, C)
    if K == 1:
        cx.arr('cartesian product', cartesian_product(A), (a, 1), lambda i, j: A[i])
    elif K == 2:
        P = cartesian_product(A, B)
        cx.arr('cartesian product', P, (a * b, 2), lambda i, j: cx.ite(j == 0, A[i // b], B[i % b]))
    else:
        P = cartesian_product(A, B, C)
        cx.shape('cartesian product', P, a * b * c, 3)
        P = P.reshape(a, b, c, 3)
        cx.arr('cartesian product', P, (a, b, c, 3),
               lambda i, j, k, l: cx.ite(l == 0, A[i], cx.ite(l == 1, B[j], C[k])))
    cx.unchanged('axes unchanged', s)


def h_symm_map(cx):
    """symmetric in its blocks, f applied to the upper triangle"""
    D = cx.choice('D', 1, 2, 3)
    A = cx.array('A', D, D)
    s = cx.snapshot(A)
    out = symm_2d_list_map(lambda v, k: v * v + k, A, D, 3, dtype=float)
    for i in range(D):
        for j in range(D):
            cx.eq('symmetric map', out[i, j], A[min(i, j), max(i, j)] * A[min(i, j), max(i, j)] + 3)
    cx.unchanged('blocks unchanged', s)


def h_symm_map_objects(cx):
    D = cx.choice('D', 1, 2, 3)
    n = cx.size('n')
    A = cx.array('A', D, D, n)
    out = symm_2d_list_map(lambda v, k: (v, k), A, D, 7)
    cx.true('shape', out.shape == (D, D))
    for i in range(D):
        for j in range(D):
            cx.arr('block', out[i, j][0], n, lambda t: A[min(i, j), max(i, j), t])
            cx.eq('argument', out[i, j][1], 7)
