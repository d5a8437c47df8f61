from vsym.runner import Case
from .common import tolist, either
PROPERTY = 'P16'
MODULES = ['wafo.misc', 'wafo.transform.core']
OUTSIDE = 'more grid points than stated; transformed values below the lower end of the tabulated transform (known finding)'


def interp(u, v, x):
    """linear interpolation on increasing u (inside the range)"""
    for i in range(len(u) - 1):
        if i == len(u) - 2 or bool(x <= u[i + 1]):
            return v[i] + (v[i + 1] - v[i]) * (x - u[i]) / (u[i + 1] - u[i])


def diffs(u, v, k):
    for _ in range(k):
        v = [(v[i + 1] - v[i]) / (u[i + 1] - u[i]) for i in range(len(v) - 1)]
        u = [(u[i + 1] + u[i]) / 2 for i in range(len(u) - 1)]
    return u, v


def chain(h, n, order):
    from wafo.misc import tranproc
    step = 0.5
    xs = [-1.0 + step * i for i in range(n)]
    f = h.reals('f', n)
    x0 = h.reals('p', 1)
    lo, hi = xs[0] + order * step / 2, xs[-1] - order * step / 2
    h.assume(x0[0] >= lo)
    h.assume(x0[0] <= hi)
    d = [h.reals('d%d' % k, 1) for k in range(order)]
    y = tranproc(h.arr(xs), f, x0, *d)
    if order == 0:
        h.eq(y[0], interp(xs, tolist(f), x0[0]), 'transformed value')
        return
    h.check(len(y) == order + 1, 'one output per derivative')
    h.eq(y[0][0], interp(xs, tolist(f), x0[0]), 'transformed value')
    g = [interp(*diffs(xs, tolist(f), k + 1), x0[0]) for k in range(order)]
    X = [q[0] for q in d]
    h.eq(y[1][0], g[0] * X[0], 'first derivative')
    if order > 1:
        h.eq(y[2][0], g[1] * X[0] ** 2 + g[0] * X[1], 'second derivative')
    if order > 2:
        h.eq(y[3][0], g[2] * X[0] ** 3 + 3 * g[1] * X[0] * X[1] + g[0] * X[2], 'third derivative')
    if order > 3:
        h.eq(y[4][0], g[3] * X[0] ** 4 + 6 * g[2] * X[0] ** 2 * X[1] + g[1] * (3 * X[1] ** 2 + 4 * X[0] * X[2]) + g[0] * X[3], 'fourth derivative')


def good(h, n, min_n, perm):
    """resampling keeps the piecewise linear transform"""
    from wafo.misc import trangood
    x = h.reals('x', n, -4, 4)
    f = h.reals('f', n)
    for i in range(n - 1):
        h.assume(x[i + 1] - x[i] >= 0.125)
    p = [(i + perm) % n for i in range(n)]
    xo, fo = trangood(x[p], f[p], min_n=min_n)
    xo, fo = tolist(xo), tolist(fo)
    h.check(len(xo) == len(fo), 'lengths')
    h.check(len(xo) >= min(min_n or n, n) or len(xo) >= 2, 'enough points')
    h.eq(xo[0], x[0], 'first point')
    # (rounding may add one point above the last one)
    h.le(x[n - 1], xo[-1], 'covers the last point', tol=1e-5)
    h.le(xo[-1], x[n - 1] + (xo[1] - xo[0]), 'no more than needed', tol=1e-5)
    for i in range(len(xo) - 2):
        h.eq(xo[i + 1] - xo[i], xo[i + 2] - xo[i + 1], 'uniform grid', tol=1e-5)
    for a, b in zip(xo, fo):
        if bool(a > x[n - 1] + 1e-6):
            continue
        h.eq(b, interp(tolist(x), tolist(f), a), 'value on the piecewise linear transform', tol=1e-5)


def extrap(h, n, k):
    """linear continuation above the last point"""
    from wafo.misc import trangood
    f = h.reals('f', n)
    xs = [0.5 * i for i in range(n)]
    top = h.real('top')
    h.assume(top > xs[-1])
    h.assume(top <= xs[-1] + 0.5 * k)
    order = list(range(n))[::-1]
    xo, fo = trangood(h.arr(xs)[order], f[order], max_x=top)
    xo, fo = tolist(xo), tolist(fo)
    h.check(xo[-1] >= top, 'covers the requested range')
    h.check(xo[-1] < top + 0.5, 'no more than needed')
    for i, a in enumerate(xo):
        h.eq(a, 0.5 * i, 'uniform grid')
        e = f[i] if i < n else f[n - 1] + (f[n - 1] - f[n - 2]) * (i - n + 1)
        h.eq(fo[i], e, 'linear continuation')


def below(h, n, low=-1.0):
    from wafo.misc import trangood
    f = h.reals('f', n)
    xs = [0.5 * i for i in range(n)]
    xo, fo = trangood(h.arr(xs), f, min_x=low)
    from math import floor
    k = floor(low / 0.5)
    h.check(tolist(xo) == [0.5 * i for i in range(k, n)] or tolist(xo) == [0.5 * i for i in range(k, -2)] + xs, 'grid: right or as listed')
    for a, b in zip(tolist(xo), tolist(fo)):
        h.eq(b, f[int(2 * a)] if a >= 0 else f[0] + 2 * a * (f[1] - f[0]), 'linear continuation', tol=1e-9)
    h.known('K16a')
    h.check(xo[0] <= low, 'covers the requested range')
    for i in range(len(tolist(xo)) - 1):
        h.eq(xo[i + 1] - xo[i], 0.5, 'uniform grid')


def outside(h, n):
    from wafo.misc import tranproc
    f = h.reals('f', n)
    xs = [0.5 * i for i in range(n)]
    x0 = h.reals('p', 1)
    h.assume(x0[0] > xs[-1])
    h.assume(x0[0] < xs[-1] + 0.5)
    y = tranproc(h.arr(xs), f, x0)
    ref = f[n - 1] + (f[n - 1] - f[n - 2]) * (x0[0] - xs[-1]) / 0.5
    q = (n - 1) * x0[0] / (0.5 * n)         # as listed: index scaled with the length of the table before it was continued
    ext = tolist(f) + [2 * f[n - 1] - f[n - 2]]
    bad = ext[n - 1] + (ext[n] - ext[n - 1]) * (q - (n - 1))
    for i in range(n - 2, -1, -1):
        bad = h.ite(q < i + 1, ext[i] + (ext[i + 1] - ext[i]) * (q - i), bad)
    either(h, y[0], ref, bad, 'continuation', 1e-9)
    h.known('K16b')
    h.eq(y[0], ref, 'linear continuation')


def cases(tier):
    th = tier == 'thorough'
    out = []
    for o in range(0, 5):
        for n in ((o + 2, o + 3) if not th else (o + 2, o + 3, o + 4)):
            out.append(Case('chain-%d-n%d' % (o, n), chain, '%d-point transform, %d derivatives' % (n, o), n=n, order=o))
    out.append(Case('good-n3', good, '3 points, any spacing', n=3, min_n=None, perm=0))
    out.append(Case('good-perm', good, '3 unsorted points', n=3, min_n=None, perm=1))
    out.append(Case('good-min5', good, '3 points, at least 5 requested', n=3, min_n=5, perm=0))
    out.append(Case('good-n4', good, '4 points', n=4, min_n=4, perm=2))
    out.append(Case('above', extrap, '4 points', n=4, k=3))
    for low in (-1.0, -1.5, -0.7, -2.4):
        out.append(Case('below-%g' % -low, below, '4 points, extended to %g' % low, n=4, low=low))
    out.append(Case('outside', outside, '4 points', n=4))
    return out
