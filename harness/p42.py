from vsym.runner import Case
from .common import tolist
PROPERTY = 'P42'
MODULES = ['wafo.sg_filter._core']
OUTSIDE = 'longer series than stated; the adaptive window; rounding when a value sits exactly on a bound'


def med(v):
    """median without branching on which element it is"""
    v = sorted_(v)
    n = len(v)
    return v[n // 2] if n % 2 else (v[n // 2 - 1] + v[n // 2]) / 2


def sorted_(v):
    v = list(v)
    for i in range(1, len(v)):          # insertion sort; comparisons fork
        j = i
        while j and bool(v[j] < v[j - 1]):
            v[j], v[j - 1] = v[j - 1], v[j]
            j -= 1
    return v


def run(h, y, x, dx, t):
    from wafo.sg_filter import HampelFilter
    f = HampelFilter(dx=dx, t=t, fulloutput=True)
    Y = h.arr(list(y))
    out = f(Y) if x is None else f(Y, h.arr(x))
    for i in range(len(y)):
        h.eq(Y[i], y[i], 'argument not modified')
    return out


def hampel(h, n, dx, tfix, x):
    """a value is replaced by the median of its window exactly when it is too far from it"""
    y = [h.real('y%d' % i, -3, 3) for i in range(n)]
    t = h.real('t', 0, 4) if tfix is None else tfix
    yy, res = run(h, y, x, dx, t)
    X = list(range(n)) if x is None else x
    D = dx
    if dx is None:
        d = sorted(X[i + 1] - X[i] for i in range(n - 1))
        D = 3 * (d[(n - 1) // 2] if (n - 1) % 2 else (d[(n - 1) // 2 - 1] + d[(n - 1) // 2]) / 2)
    for i in range(n):
        w = [y[j] for j in range(n) if X[i] - D <= X[j] <= X[i] + D]
        m = med(w)
        s = 1.4826 * med([abs(v - m) for v in w])
        h.eq(res['Y0'][i], m, 'median %d' % i)
        h.eq(res['UB'][i], m + t * s, 'upper bound')
        h.eq(res['LB'][i], m - t * s, 'lower bound')
        e = abs(y[i] - m) - t * s
        if h.sym:
            h.check(h.any([e <= 0, yy[i] == m]), 'outlier replaced')
            h.check(h.any([e > 0, yy[i] == y[i]]), 'the rest untouched')
        elif abs(e) > 1e-9:
            h.eq(yy[i], m if e > 0 else y[i], 'replaced exactly when outside the bounds')


def shift(h, n, dx):
    """adding a constant or changing the sign of the data does the same to the result; order of time does not matter"""
    y = [h.real('y%d' % i, -3, 3) for i in range(n)]
    c = h.real('c', -3, 3)
    a, _ = run(h, y, None, dx, 2.0)
    b, _ = run(h, [-v + c for v in y], None, dx, 2.0)
    r, _ = run(h, y[::-1], None, dx, 2.0)
    for i in range(n):
        h.eq(b[i], c - a[i], 'reflected')
        h.eq(r[n - 1 - i], a[i], 'reversed')


def const(h, n):
    """a constant series is left alone, one spike is removed, and whole numbers are accepted"""
    import numpy as np
    c = h.real('c', -3, 3)
    e = h.real('e', 0.1, 3)
    k = h.choice('k', n)
    y = [c] * n
    y[k] = c + e
    yy, res = run(h, y, None, 2, 3)
    for i in range(n):
        h.eq(yy[i], c, 'spike removed')
    h.check(int(res['outliers'].sum()) == 1, 'one outlier')
    from wafo.sg_filter import HampelFilter
    z = HampelFilter(dx=1, t=0)(np.array([1, 2, 4, 9, 3]))
    for a, b in zip(tolist(z), [1.5, 2, 4, 4, 6]):
        h.eq(a, b, 'whole numbers')


def refuse(h):
    from wafo.sg_filter import HampelFilter
    d = h.real('d', -3, 0)
    h.raises(ValueError, lambda: HampelFilter(dx=d)(h.arr([1.0, 2.0, 3.0])), 'half width must be positive')


def cases(tier):
    out = [Case('hampel-n3-dx1', hampel, '3 values, any threshold', n=3, dx=1, tfix=None, x=None),
           Case('hampel-n4-dx1', hampel, '4 values', n=4, dx=1, tfix=2.0, x=None),
           Case('hampel-n4-dx1.5-x', hampel, '4 values at uneven times', n=4, dx=1.5, tfix=3, x=[0.0, 1.0, 3.0, 3.5]),
           Case('hampel-n3-default', hampel, '3 values, default width', n=3, dx=None, tfix=3, x=[0.0, 0.25, 2.0]),
           Case('hampel-n4-t0', hampel, '4 values, median filter', n=4, dx=1, tfix=0, x=None),
           Case('shift-n3', shift, '3 values', n=3, dx=1),
           Case('spike-n5', const, '5 values', n=5),
           Case('refuse', refuse, 'any non-positive width')]
    if tier != 'quick':
        out.append(Case('hampel-n5-dx1', hampel, '5 values', n=5, dx=1, tfix=2.0, x=None))
        out.append(Case('shift-n4', shift, '4 values', n=4, dx=1))
    return out
