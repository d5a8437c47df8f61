from vsym.runner import Case
from .common import tolist
PROPERTY = 'P20'
MODULES = ['wafo.kdetools.kdetools', 'wafo.kdetools.kernels', 'wafo.kdetools.gridding', 'wafo.misc']
OUTSIDE = 'automatic bandwidth selection (iterative); more data, points or dimensions than stated; transformed fast grids in more than one dimension (scipy griddata)'
ASSUMPTIONS = ['numpy.fft computes the discrete Fourier transform', 'scipy griddata is linear interpolation in one dimension']


def kern(h, name, u):
    """normalised kernel of a list of coordinates"""
    import numpy as np
    from math import pi
    d = len(u)
    s = sum(v * v for v in u)
    if name == 'epan':
        c = {1: 0.75, 2: 2 / pi, 3: 15 / (8 * pi)}[d]
        return h.ite(s < 1, 1 - s, 0.0) * c
    if name == 'biwe':
        c = {1: 15 / 16, 2: 3 / pi}[d]
        return h.ite(s < 1, (1 - s) * (1 - s), 0.0) * c
    if name == 'gaus':
        return np.exp(-0.5 * s) / (2 * pi) ** (d / 2)
    if name == 'tria':
        p = 1.0
        for v in u:
            p = p * h.ite(abs(v) < 1, 1 - abs(v), 0.0)
        return p
    if name == 'rect':
        p = 1.0
        for v in u:
            p = p * h.ite(abs(v) <= 1, 0.5, 0.0)
        return p
    if name == 'lapl':
        return np.exp(-sum(abs(v) for v in u)) / 2.0 ** d
    raise KeyError(name)


def inverse(hs):
    """inverse and determinant of a bandwidth: list of lists"""
    d = len(hs)
    if d == 1:
        return [[1 / hs[0][0]]], hs[0][0]
    (a, b), (c, e) = hs
    det = a * e - b * c
    return [[e / det, -b / det], [-c / det, a / det]], det


def estimate(h, name, data, hs, x, y=None, r=0, lam=None):
    """kernel density estimate (moment r, weights y) at one point x"""
    d, n = len(data), len(data[0])
    inv, det = inverse(hs)
    tot = 0.0
    for i in range(n):
        dx = [x[k] - data[k][i] for k in range(d)]
        li = 1.0 if lam is None else lam[i]
        u = [sum(inv[k][j] * dx[j] for j in range(d)) / li for k in range(d)]
        w = 1.0 if y is None else y[i]
        m = 1.0 if r == 0 else sum(v ** r for v in dx)
        tot = tot + w * m * kern(h, name, u) / li ** d
    return tot / (n * det)


def setup(h, d, n, bw):
    data = [[h.real('x%d_%d' % (k, i), -3, 3) for i in range(n)] for k in range(d)]
    if bw == 'scalar':
        b = h.real('h', 0.2, 3)
        arg, hs = b, [[b if i == j else 0.0 for j in range(d)] for i in range(d)]
    elif bw == 'vector':
        b = [h.real('h%d' % k, 0.2, 3) for k in range(d)]
        arg, hs = h.arr(b), [[b[i] if i == j else 0.0 for j in range(d)] for i in range(d)]
    else:
        hs = [[1.0, 0.25], [0.25, 0.5]]
        import numpy as np
        arg = np.array(hs)
    return data, arg, hs


def make(h, cls, data, arg, name, d, **kw):
    from wafo.kdetools import kdetools
    from wafo.kdetools.kernels import Kernel
    a = h.arr(data if d > 1 else data[0])
    return getattr(kdetools, cls)(a, hs=arg, kernel=Kernel(name), xmin=-9.0, xmax=9.0, **kw)


def points(h, kn, d, n, m, bw='scalar', weights=False, r=0):
    data, arg, hs = setup(h, d, n, bw)
    p = [[h.real('p%d_%d' % (k, i), -3, 3) for i in range(m)] for k in range(d)]
    y = [h.real('y%d' % i, -3, 3) for i in range(n)] if weights else None
    k = make(h, 'KDE', data, arg, kn, d)
    kw = dict(r=r) if r else {}
    if weights:
        kw['y'] = h.arr(y)
    f = k.eval_points(h.arr(p if d > 1 else p[0]), **kw)
    h.check(tuple(f.shape) == (m,), 'one value per point')
    for j in range(m):
        e = estimate(h, kn, data, hs, [p[q][j] for q in range(d)], y, r)
        h.eq(f[j], e, 'kernel estimate')
        if not weights and not r:
            h.check(f[j] >= 0, 'a density is not negative')
    for q in range(d):
        for i in range(n):
            h.eq(k.dataset[q, i], data[q][i], 'the data are kept')


def grid(h, kn, d, n, inc):
    data, arg, hs = setup(h, d, n, 'scalar')
    g = [[h.real('g%d_%d' % (k, i), -3, 3) for i in range(inc)] for k in range(d)]
    k = make(h, 'KDE', data, arg, kn, d)
    f = k.eval_grid(*[h.arr(v) for v in g])
    h.check(tuple(f.shape) == (inc,) * d, 'shape')
    if d == 1:
        for i in range(inc):
            h.eq(f[i], estimate(h, kn, data, hs, [g[0][i]]), 'grid value')
        return
    for i in range(inc):
        for j in range(inc):
            h.eq(f[j, i], estimate(h, kn, data, hs, [g[0][i], g[1][j]]), 'grid value')


def default_grid(h):
    """without arguments the grid spans xmin..xmax with inc points"""
    from wafo.kdetools.kdetools import KDE
    from wafo.kdetools.kernels import Kernel
    x = [h.real('x%d' % i, -3, 3) for i in range(2)]
    lo, hi = h.real('lo', -9, -4), h.real('hi', 4, 9)
    k = KDE(h.arr(x), hs=1.5, kernel=Kernel('epan'), xmin=lo, xmax=hi, inc=4)
    w = k.eval_grid(output='plotobj')
    a, f = tolist(w.args), tolist(w.data)
    h.check(len(a) == 4 and len(f) == 4, 'inc grid points')
    for i in range(4):
        h.eq(a[i], lo + (hi - lo) * i / 3, 'grid point')
        h.eq(f[i], estimate(h, 'epan', [x], [[1.5]], [a[i]]), 'value on the default grid')


def one_point(h):
    """a d-vector is one point of a d-dimensional estimate"""
    data, arg, hs = setup(h, 2, 2, 'scalar')
    p = [h.real('p%d' % k, -3, 3) for k in range(2)]
    k = make(h, 'KDE', data, arg, 'epan', 2)
    f = k.eval_points(h.arr(p))
    h.check(tuple(f.shape) == (1,), 'one point')
    h.eq(f[0], estimate(h, 'epan', data, hs, p), 'value')
    h.raises(ValueError, lambda: k.eval_points(h.arr(p + p[:1])), 'wrong dimension')


def hat(h, u):
    a = abs(u)
    return h.ite(a < 1, 1 - a, 0.0)


def fast(h, kn, n, inc, hs, dx, weights=False, r=0, cls='KDE'):
    """binned estimate: the estimate of the linearly binned data"""
    from wafo.kdetools.kernels import Kernel
    from wafo.kdetools import kdetools
    t = [h.real('t%d' % i, 0, inc - 1 - 1e-3) for i in range(n)]
    y = [h.real('y%d' % i, -3, 3) for i in range(n)] if weights else [1.0] * n
    lo = -1.0
    X = [lo + dx * k for k in range(inc)]
    k = getattr(kdetools, cls)(h.arr([lo + dx * v for v in t]), hs=hs, kernel=Kernel(kn), xmin=-9.0, xmax=9.0)
    kw = dict(r=r) if r else {}
    if weights:
        kw['y'] = h.arr(y)
    f = k.eval_grid_fast(h.arr(X) if h.sym else __import__('numpy').array(X), **kw)
    h.check(tuple(f.shape) == (inc,), 'shape')
    c = [sum(w * hat(h, v - j) for w, v in zip(y, t)) for j in range(inc)]
    # the discretised kernel is renormalised when its grid sum is off by more than 5 %
    off = list(range(-inc, inc))
    tot = sum(float(kern(_num, kn, [j * dx / hs])) for j in off) * dx / hs
    scale = 1.0 if abs(tot - 1) <= 0.05 else 1 / tot
    for i in range(inc):
        e = 0.0
        for j in range(inc):
            u = (i - j) * dx
            e = e + c[j] * (u ** r if r else 1.0) * float(kern(_num, kn, [u / hs])) / hs
        h.eq(f[i], e / n * scale, 'binned estimate')


class _num(object):
    @staticmethod
    def ite(c, a, b):
        return a if c else b


def fast2(h, kn, n, inc, hs, dx):
    """two-dimensional binned estimate"""
    from wafo.kdetools.kernels import Kernel
    from wafo.kdetools.kdetools import KDE
    import numpy as np
    t = [[h.real('t%d_%d' % (k, i), 0, inc - 1 - 1e-3) for i in range(n)] for k in range(2)]
    X = [[dx[k] * j for j in range(inc)] for k in range(2)]
    k = KDE(h.arr([[dx[q] * v for v in t[q]] for q in range(2)]), hs=np.array(hs), kernel=Kernel(kn), xmin=-9.0, xmax=9.0)
    f = k.eval_grid_fast(*[np.array(v) for v in X])
    off = range(-inc, inc)
    tot = sum(float(kern(_num, kn, [a * dx[0] / hs[0], b * dx[1] / hs[1]])) for a in off for b in off) * dx[0] * dx[1] / hs[0] / hs[1]
    scale = 1.0 if abs(tot - 1) <= 0.05 else 1 / tot
    h.check(tuple(f.shape) == (inc, inc), 'shape')
    for i0 in range(inc):
        for i1 in range(inc):
            e = 0.0
            for j0 in range(inc):
                for j1 in range(inc):
                    c = sum(hat(h, t[0][q] - j0) * hat(h, t[1][q] - j1) for q in range(n))
                    e = e + c * float(kern(_num, kn, [(i0 - j0) * dx[0] / hs[0], (i1 - j1) * dx[1] / hs[1]]))
            h.eq(f[i1, i0], e / (n * hs[0] * hs[1]) * scale, 'binned estimate')


def adaptive(h, kn, alpha, m):
    """local bandwidth factors from the pilot estimate"""
    import math
    data = [[-1.0, 0.25, 1.0, 1.5]]
    hs = [[0.75]]
    p = [h.real('p%d' % i, -3, 3) for i in range(m)]
    k = make(h, 'KDE', data, 0.75, kn, 1, alpha=alpha)
    f0 = [float(estimate(_num, kn, data, hs, [v])) for v in data[0]]
    g = math.exp(sum(math.log(v) for v in f0) / len(f0))
    lam = [(v / g) ** (-alpha) for v in f0]
    f = k.eval_points(h.arr(p))
    for j in range(m):
        h.eq(f[j], estimate(h, kn, data, hs, [p[j]], lam=lam), 'adaptive estimate')


def trans(L2, x):
    import numpy as np
    if L2 is None or L2 == 1:
        return x, 1.0
    if L2 == 0:
        return np.log(x), 1 / x
    if L2 == 0.5:
        return np.sqrt(x), 0.5 / np.sqrt(x)
    if L2 == 2:
        return x * x, 2 * x
    if L2 == -1:
        return 1 / x, 1 / (x * x)
    raise KeyError(L2)


def tkde(h, L2, n, m, d=1, grid=False):
    """estimate of transformed data: density of the transformed data times the derivative of the transform"""
    from wafo.kdetools.kernels import Kernel
    from wafo.kdetools.kdetools import TKDE
    Ls = [L2] * d if not isinstance(L2, tuple) else list(L2)
    x = [[h.real('x%d_%d' % (k, i), 0.25, 3) for i in range(n)] for k in range(d)]
    p = [[h.real('p%d_%d' % (k, i), 0.25, 3) for i in range(m)] for k in range(d)]
    b = h.real('h', 0.2, 2)
    import numpy as np
    k = TKDE(h.arr(x if d > 1 else x[0]), hs=b, kernel=Kernel('epan'), xmin=0.1, xmax=9.0, L2=np.array(L2) if isinstance(L2, tuple) else L2)
    tx = [[trans(Ls[q], v)[0] for v in x[q]] for q in range(d)]
    hs = [[b if i == j else 0.0 for j in range(d)] for i in range(d)]
    if grid:
        f = k.eval_grid(*[h.arr(v) for v in p])
        f = f if d == 1 else [f[i, i] for i in range(m)]
    else:
        f = k.eval_points(h.arr(p if d > 1 else p[0]))
    h.check(len(f) == m, 'one value per point')
    for j in range(m):
        jac = 1.0
        for q in range(d):
            jac = jac * trans(Ls[q], p[q][j])[1]
        e = estimate(h, 'epan', tx, hs, [trans(Ls[q], p[q][j])[0] for q in range(d)]) * jac
        h.eq(f[j], e, 'transformed estimate')
    for q in range(d):
        for i in range(n):
            h.eq(k.dataset[q, i], x[q][i], 'the data are kept')


def tkde_grid2(h):
    from wafo.kdetools.kernels import Kernel
    from wafo.kdetools.kdetools import TKDE
    import numpy as np
    x = [h.real('x%d' % k, 0.5, 2) for k in range(2)]
    g = [[1.0, 1.5], [0.75, 1.25]]
    k = TKDE(h.arr([[x[0]], [x[1]]]), hs=2.0, kernel=Kernel('epan'), xmin=0.1, xmax=9.0, L2=np.array([1.0, 2.0]))
    f = k.eval_grid(*[np.array(v) for v in g])
    h.check(tuple(f.shape) == (2, 2), 'shape')
    for i in range(2):
        for j in range(2):
            e = estimate(h, 'epan', [[x[0]], [x[1] * x[1]]], [[2.0, 0.0], [0.0, 2.0]], [g[0][i], g[1][j] ** 2]) * 2 * g[1][j]
            h.eq(f[j, i], e, 'transformed estimate')


def tkde_int(h, L2):
    """whole numbers are data like any other"""
    from wafo.kdetools.kernels import Kernel
    from wafo.kdetools.kdetools import TKDE
    import numpy as np
    b = h.real('h', 0.2, 2)
    xs, ps = [1, 2, 4, 5], [2, 3]
    k = TKDE(np.array(xs), hs=b, kernel=Kernel('epan'), xmin=0.1, xmax=9.0, L2=L2)
    f = k.eval_points(np.array(ps))
    for j, v in enumerate(ps):
        t, jac = trans(L2, float(v))
        h.eq(f[j], estimate(h, 'epan', [[trans(L2, float(u))[0] for u in xs]], [[b]], [t]) * jac, 'estimate from whole numbers')


def cases(tier):
    out = []
    for name in ('epan', 'biwe', 'gaus', 'tria', 'rect', 'lapl'):
        out.append(Case('points-%s' % name, points, '2 data, 2 points, 1 dimension', kn=name, d=1, n=2, m=2, witnesses=2))
    out.append(Case('points-few', points, '3 data, 1 point', kn='epan', d=1, n=3, m=1))
    out.append(Case('points-many', points, '1 datum, 3 points', kn='epan', d=1, n=1, m=3))
    for r in (0, 1, 2):
        for m in (1, 2):
            out.append(Case('points-w-r%d-m%d' % (r, m), points, '2 data, %d points, weights, moment %d' % (m, r), kn='epan', d=1, n=2, m=m, weights=True, r=r))
    for bw in ('scalar', 'vector', 'matrix'):
        for m in (1, 2):
            out.append(Case('points-2d-%s-m%d' % (bw, m), points, '2 data, %d points, 2 dimensions' % m, kn='epan', d=2, n=2, m=m, bw=bw))
    out.append(Case('points-2d-gaus', points, '1 datum, 1 point, 2 dimensions', kn='gaus', d=2, n=1, m=1, bw='vector'))
    out.append(Case('points-2d-r1', points, '1 datum, 1 point, 2 dimensions, moment 1', kn='epan', d=2, n=1, m=1, r=1))
    out.append(Case('grid-1d', grid, '2 data, 3 points', kn='epan', d=1, n=2, inc=3))
    out.append(Case('grid-2d', grid, '1 datum, 2x2 points', kn='epan', d=2, n=1, inc=2))
    out.append(Case('grid-default', default_grid, 'any range'))
    out.append(Case('one-point', one_point, '2 dimensions'))
    for r in (0, 1, 2):
        out.append(Case('fast-r%d' % r, fast, '2 data, 4 points', kn='epan', n=2, inc=4, hs=0.75, dx=0.5, r=r))
    out.append(Case('fast-w', fast, '2 data, 4 points, weights', kn='gaus', n=2, inc=4, hs=0.75, dx=0.5, weights=True))
    out.append(Case('fast-coarse', fast, '2 data, 3 points, coarse grid', kn='epan', n=2, inc=3, hs=0.5, dx=0.5))
    out.append(Case('fast-tkde', fast, '2 data, 3 points', kn='epan', n=2, inc=3, hs=0.75, dx=0.5, cls='TKDE'))
    out.append(Case('fast-2d', fast2, '1 datum, 2x2 points', kn='gaus', n=1, inc=2, hs=[0.75, 0.5], dx=[0.5, 0.25]))
    for a in (0.5, 1.0):
        out.append(Case('adaptive-%g-few' % a, adaptive, '4 fixed data, 2 points', kn='gaus', alpha=a, m=2))
        out.append(Case('adaptive-%g-many' % a, adaptive, '4 fixed data, 4 points', kn='epan', alpha=a, m=4))
    for L2 in (None, 0, 0.5, 1, 2, -1):
        out.append(Case('tkde-%s' % L2, tkde, '2 data, 2 points', L2=L2, n=2, m=2))
    out.append(Case('tkde-one', tkde, '2 data, 1 point', L2=0.5, n=2, m=1))
    out.append(Case('tkde-2d', tkde, '1 datum, 1 point, 2 dimensions', L2=(0.5, 2), n=1, m=1, d=2))
    out.append(Case('tkde-grid', tkde, '1 datum, 2 points', L2=0.5, n=1, m=2, grid=True))
    out.append(Case('tkde-grid-2d', tkde_grid2, '1 datum, 2x2 points'))
    for L2 in (0.5, 0):
        out.append(Case('tkde-int-%s' % L2, tkde_int, '4 data, 2 points, whole numbers', L2=L2))
    if tier != 'quick':
        out.append(Case('points-n3', points, '3 data, 3 points', kn='epan', d=1, n=3, m=3, weights=True))
        out.append(Case('points-2d-n3', points, '3 data, 2 points', kn='epan', d=2, n=3, m=2, bw='vector'))
        out.append(Case('fast-n3', fast, '3 data, 5 points', kn='gaus', n=3, inc=5, hs=0.75, dx=0.5, weights=True))
    return out
