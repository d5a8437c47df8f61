from vsym.runner import Case
from .common import tolist
PROPERTY = 'P18'
MODULES = ['wafo.kdetools.gridding']
OUTSIDE = 'grids of more points per axis or more than three dimensions than stated; uneven grids (documented as evenly spaced)'


def hat(h, u):
    """linear weight of a point at distance u (in grid steps) from a node"""
    a = abs(u)
    return h.ite(a < 1, 1 - a, 0.0)


def count1(h, n, inc, weights, edge=False, shape='1d'):
    from wafo.kdetools.gridding import gridcount
    lo, dx = h.real('lo', -5, 5), h.real('dx', 0.1, 3)
    t = [h.real('t%d' % i, 0, inc - 1) for i in range(n)]
    if edge:
        t[-1] = float(inc - 1)
    else:
        for v in t:
            h.assume(v < inc - 1)
    y = {'none': [1.0] * n, 'scalar': [h.real('w', -3, 3)] * n, 'each': [h.real('w%d' % i, -3, 3) for i in range(n)]}[weights]
    X = h.arr([lo + dx * k for k in range(inc)])
    data = h.arr([lo + dx * v for v in t])
    if edge:
        data[n - 1] = X[inc - 1]
    X2, d2 = (X.reshape(1, -1), data.reshape(1, -1)) if shape == '2d' else (X, data)
    arg = {'none': (), 'scalar': (y[0],), 'each': (h.arr(y),)}[weights]
    c = gridcount(d2, X2, *arg)
    h.check(tuple(c.shape) == (inc,), 'one count per grid point')
    for k in range(inc):
        h.eq(c[k], sum(w * hat(h, v - k) for w, v in zip(y, t)), 'linear binning')
    h.eq(sum(tolist(c)), sum(y), 'total weight')
    h.eq(sum(tolist(c[k] * X[k] for k in range(inc)) if False else [c[k] * X[k] for k in range(inc)]), sum(w * data[i] for i, w in enumerate(y)), 'first moment')
    h.check(tuple(X2.shape) == ((1, inc) if shape == '2d' else (inc,)), 'the grid passed keeps its shape')
    for k in range(inc):
        h.eq(X[k], lo + dx * k, 'the grid passed is not modified')


def countd(h, n, inc, d, weights):
    from wafo.kdetools.gridding import gridcount
    import numpy as np
    lo = [h.real('lo%d' % i, -5, 5) for i in range(d)]
    dx = [h.real('dx%d' % i, 0.1, 3) for i in range(d)]
    t = [[h.real('t%d_%d' % (k, i), 0, inc - 1) for i in range(n)] for k in range(d)]
    for r in t:
        for v in r:
            h.assume(v < inc - 1)
    y = [h.real('w%d' % i, -3, 3) for i in range(n)] if weights else [1.0] * n
    X = h.arr([[lo[k] + dx[k] * j for j in range(inc)] for k in range(d)])
    data = h.arr([[lo[k] + dx[k] * v for v in t[k]] for k in range(d)])
    c = gridcount(data, X, *((h.arr(y),) if weights else ()))
    h.check(tuple(c.shape) == (inc,) * d, 'shape of the counts')
    for ix in np.ndindex(*(inc,) * d):
        e = 0.0
        for i in range(n):
            p = y[i]
            for k in range(d):
                p = p * hat(h, t[k][i] - ix[k])
            e = e + p
        # the first two dimensions are stored as in meshgrid: c[y, x, ...]
        jx = (ix[1], ix[0]) + ix[2:]
        h.eq(c[jx], e, 'multilinear binning')


def outside(h, side):
    from wafo.kdetools.gridding import gridcount
    e = h.real('e', 0.01, 5)
    x = [0.0, 1.0, 2.0]
    d = h.arr([0.5, 2.0 + e if side == 'above' else -e])
    h.raises(ValueError, lambda: gridcount(d, h.arr(x)), 'data outside the grid')


def mismatch(h):
    from wafo.kdetools.gridding import gridcount
    a = h.real('a', 0, 1)
    h.raises(ValueError, lambda: gridcount(h.arr([[a, a], [a, a]]), h.arr([0.0, 1.0, 2.0])), 'dimensions differ')


def accumulate(h, n, m, shape):
    from wafo.kdetools.gridding import accum, accumsum
    ix = [h.choice("i%d" % k, m) for k in range(n)]
    a = h.reals('a', n)
    import numpy as np
    am = np.array(ix)
    s = max(ix) + 1 if shape is None else shape
    for name, f in (('accumsum', accumsum), ('accum', accum)):
        r = f(am, a) if shape is None else f(am, a, shape=(shape,))
        h.check(tuple(r.shape) == (s,), name + ' shape')
        for k in range(s):
            h.eq(r[k], sum([a[j] for j in range(n) if ix[j] == k]) + 0.0, name)
    r = accum(am, a, func=max, shape=(m,), fill_value=-1.5)
    for k in range(m):
        v = [a[j] for j in range(n) if ix[j] == k]
        h.eq(r[k], max(v) if v else -1.5, 'accum with max')


def cases(tier):
    out = []
    for n, inc in ((1, 4), (2, 3), (3, 3)):
        for w in ('none', 'scalar', 'each'):
            out.append(Case('1d-n%d-%d-%s' % (n, inc, w), count1, '%d points, %d grid points' % (n, inc), n=n, inc=inc, weights=w))
    out.append(Case('1d-row', count1, '2 points, 3 grid points, row arrays', n=2, inc=3, weights='none', shape='2d'))
    out.append(Case('1d-edge', count1, '2 points, one at the last grid point', n=2, inc=3, weights='each', edge=True))
    out.append(Case('2d-n1', countd, '1 point, 3x3 grid', n=1, inc=3, d=2, weights=True))
    out.append(Case('2d-n2', countd, '2 points, 2x2 grid', n=2, inc=2, d=2, weights=True))
    out.append(Case('3d-n1', countd, '1 point, 2x2x2 grid', n=1, inc=2, d=3, weights=False))
    out += [Case('outside-' + s, outside, 'any point outside', side=s) for s in ('above', 'below')]
    out.append(Case('mismatch', mismatch, 'dimensions differ'))
    for s in (None, 4):
        out.append(Case('accum-%s' % s, accumulate, '3 values, 3 bins', n=3, m=3, shape=s))
    if tier != 'quick':
        out.append(Case('1d-n4-5', count1, '4 points, 5 grid points', n=4, inc=5, weights='each'))
        out.append(Case('2d-n2-3', countd, '2 points, 3x3 grid', n=2, inc=3, d=2, weights=True))
        out.append(Case('3d-n1-3', countd, '1 point, 3x3x3 grid', n=1, inc=3, d=3, weights=True))
    return out
