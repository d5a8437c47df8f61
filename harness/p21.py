from vsym.runner import Case
from .common import tolist
from .p20 import kern, _num, hat
PROPERTY = 'P21'
MODULES = ['wafo.kdetools.kdetools', 'wafo.kdetools.kernels', 'wafo.kdetools.gridding', 'wafo.misc']
OUTSIDE = 'automatic bandwidth selection and the search for the best smoothing (iterative); beta quantiles (scipy)'
ASSUMPTIONS = ['numpy.fft computes the discrete Fourier transform', 'scipy griddata is linear interpolation in one dimension']

X = [0.5, 1.0, 1.75, 2.5]
G = [0.75, 1.25, 2.0]


def weights(x0, hs, T=lambda v: v):
    return [float(kern(_num, 'gaus', [(T(x0) - T(v)) / hs])) for v in X]


def average(h, fun, L2):
    """p = 0: weighted mean of the responses, any responses"""
    from wafo.kdetools.kdetools import KRegression
    import numpy as np
    y = [h.real('y%d' % i, -5, 5) for i in range(4)]
    T = (lambda v: v) if L2 is None else (lambda v: v ** L2)
    k = KRegression(np.array(X), h.arr(y), p=0, hs=0.5, xmin=0.25, xmax=3.0, L2=L2)
    f = getattr(k, fun)(np.array(G))
    h.check(tuple(f.shape) == (3,), 'one value per grid point')
    for j, g in enumerate(G):
        w = weights(g, 0.5, T)
        h.eq(f[j], sum(a * b for a, b in zip(w, y)) / sum(w), 'kernel weighted mean')
        h.check(h.all([f[j] <= 5 + 1e-9, f[j] >= -5 - 1e-9]), 'inside the range of the responses')


def line(h):
    """p = 1: a straight line is reproduced"""
    from wafo.kdetools.kdetools import KRegression
    import numpy as np
    a, b = h.real('a', -5, 5), h.real('b', -5, 5)
    k = KRegression(np.array(X), h.arr([a + b * v for v in X]), p=1, hs=0.5, xmin=0.25, xmax=3.0)
    f = k.eval_grid(np.array(G))
    for j, g in enumerate(G):
        h.eq(f[j], a + b * g, 'local linear regression of a line')


def local(h, fun):
    """p = 1: local linear fit of any responses (data on the grid, so that binning is exact)"""
    from wafo.kdetools.kdetools import KRegression
    import numpy as np
    xs = [0.5, 1.0, 1.5, 2.0]
    y = [h.real('y%d' % i, -5, 5) for i in range(4)]
    k = KRegression(np.array(xs), h.arr(y), p=1, hs=0.75, xmin=0.0, xmax=3.0)
    g = [0.0, 0.5, 1.0, 1.5, 2.0, 2.5]
    f = getattr(k, fun)(np.array(g))
    for j, x0 in enumerate(g):
        w = [float(kern(_num, 'gaus', [(x0 - v) / 0.75])) for v in xs]
        d = [x0 - v for v in xs]
        s = [sum(a * b ** r for a, b in zip(w, d)) for r in range(3)]
        t = [sum(a * b ** r * c for a, b, c in zip(w, d, y)) for r in range(2)]
        h.eq(f[j], (s[2] * t[0] - s[1] * t[1]) / (s[2] * s[0] - s[1] ** 2), 'local linear fit')


def fast(h, L2, what):
    """binned regression"""
    from wafo.kdetools.kdetools import KRegression
    import numpy as np
    c = h.real('c', -5, 5)
    mk = lambda v: KRegression(np.array(X), h.arr(v), p=0, hs=0.75, xmin=0.25, xmax=3.0, inc=8, L2=L2)
    g = np.linspace(0.5, 2.75, 6)
    if what == 'equal':
        h.assume(abs(c) > 0.01)
        f = mk([c] * 4)(g)
        for j in range(6):
            h.eq(f[j], c, 'equal responses are reproduced', tol=1e-6)
    else:
        y = [c, -1.0, 2.0, -6.0]
        f, f2 = mk(y)(g), mk([2 * v + 1 for v in y])(g)
        for j in range(6):
            h.eq(f2[j], 2 * f[j] + 1, 'shift and scale of the responses', tol=1e-6)


def wilson(h, alpha):
    from wafo.kdetools.kdetools import BKRegression
    import numpy as np
    from scipy.special import ndtri
    n, p = h.real('n', 0, 1000), h.real('p', 0, 1)
    b = BKRegression(np.array(X), np.array([0.0, 1.0, 1.0, 0.0]), method='wilson', hs=0.5, hs_e=0.5, xmin=0.0, xmax=3.0)
    lo, up = b.prb_ci(h.arr([n]), h.arr([p]), alpha)
    lo, up = lo[0], up[0]
    z2 = float(ndtri(alpha / 2)) ** 2
    for q, s in ((lo, -1), (up, 1)):
        # ends of the interval: (p - q)**2 = z**2 q (1 - q) / n
        h.eq((p - q) * (p - q) * n, z2 * q * (1 - q), 'Wilson score equation', tol=1e-5)
        h.check((q - p) * s >= -1e-9, 'the interval covers the estimate')
    h.check(h.all([lo >= -1e-9, up <= 1 + 1e-9]), 'inside the unit interval')


def nested(h, p):
    """a higher confidence gives a wider interval"""
    from wafo.kdetools.kdetools import BKRegression
    import numpy as np
    n = h.real('n', 0.1, 50)
    b = BKRegression(np.array(X), np.array([0.0, 1.0, 1.0, 0.0]), method='wilson', hs=0.5, hs_e=0.5, xmin=0.0, xmax=3.0)
    a1 = b.prb_ci(h.arr([n]), np.array([p]), 0.05)
    a2 = b.prb_ci(h.arr([n]), np.array([p]), 0.3)
    h.check(h.all([a1[0][0] <= a2[0][0] + 1e-9, a1[1][0] >= a2[1][0] - 1e-9]), 'nested intervals')


def empirical(h, some):
    """the empirical probability is the binned fraction of successes"""
    from wafo.kdetools.kdetools import BKRegression
    import numpy as np
    t = [h.real('t0', 0, 1.99), 0.625]
    y = [1, 0] if some else [0, 0]
    b = BKRegression(h.arr(t), np.array(y), method='wilson', hs=0.5, hs_e=0.5, xmin=0.0, xmax=3.0)
    w = b.prb_empirical(xi=np.array([0.0, 1.0, 2.0]))
    for j in range(3):
        c = [hat(h, v - j) for v in t]
        n, s = sum(c), sum(a * q for a, q in zip(c, y))
        h.eq(w.count[j], n, 'number of data')
        h.eq(w.data[j] * n, s, 'fraction of successes')
        h.check(h.any([n > 0, w.data[j] == 0]), 'no data: zero')


def cases(tier):
    out = []
    for L2 in (None, 0.5):
        out.append(Case('mean-%s' % L2, average, '4 fixed data, any responses', fun='eval_grid', L2=L2))
        for w in ('equal', 'scale'):
            out.append(Case('fast-%s-%s' % (L2, w), fast, '4 fixed data, any response', L2=L2, what=w))
    out.append(Case('line', line, 'any line'))
    for f in ('eval_grid', 'eval_grid_fast'):
        out.append(Case('local-' + f, local, '4 fixed data, any responses', fun=f))
    for a in (0.05, 0.32):
        out.append(Case('wilson-%g' % a, wilson, 'any sample size and fraction', alpha=a))
    for p in (0.0, 0.3, 1.0):
        out.append(Case('nested-%g' % p, nested, 'any sample size', p=p))
    for s in (True, False):
        out.append(Case('empirical-%s' % s, empirical, '2 data', some=s))
    return out
