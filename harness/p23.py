from vsym.runner import Case
from .common import tolist, horner
PROPERTY = 'P23'
MODULES = ['wafo.polynomial']
OUTSIDE = 'degrees above the stated bounds, rational (Pade) fits, rounding'
ASSUMPTIONS = ['scipy dct is the linear discrete cosine transform', 'numpy lstsq returns a least squares solution']


def T(k, y, kind=1):
    """k-th Chebyshev polynomial"""
    a, b = 1.0, kind * y
    for _ in range(k):
        a, b = b, 2 * y * b - a
    return a


def series(ck, y, kind=1):
    """value of the Chebyshev series, highest degree first"""
    n = len(ck)
    return sum((ck[i] * T(n - 1 - i, y, kind) for i in range(n)), 0.0)


def interval(h):
    a, L = h.real('a', -5, 5), h.real('L', 0.25, 4)
    return a, a + L


def value(h, n, kind):
    from wafo.polynomial import chebval
    ck = [h.real('c%d' % i, -5, 5) for i in range(n)]
    a, b = interval(h)
    y = h.real('y', -2, 2)
    x = (y * (b - a) + (a + b)) / 2
    h.eq(chebval(h.arr([x]), h.arr(ck), a, b, kind=kind)[0], series(ck, y, kind), 'Chebyshev series')


def fill(h, f):
    from wafo.polynomial import chebval
    ck = [h.real('c%d' % i, -5, 5) for i in range(3)]
    x = [h.real('x%d' % i, -2, 4) for i in range(2)]
    for v in x:
        h.assume(h.all([abs(v) > 1e-6, abs(v - 2) > 1e-6]))
    r = tolist(chebval(h.arr(x), h.arr(ck), 0, 2, fill=f))
    for v, g in zip(x, r):
        h.eq(g, h.ite(abs(v - 1) <= 1, series(ck, v - 1), f), 'fill outside the interval')


def to_poly(h, n):
    from wafo.polynomial import cheb2poly, poly2cheb
    ck = [h.real('c%d' % i, -5, 5) for i in range(n)]
    h.assume(abs(ck[0]) > 0.1)
    a, b = interval(h)
    y = h.real('y', -2, 2)
    x = (y * (b - a) + (a + b)) / 2
    p = tolist(cheb2poly(h.arr(ck), a, b))
    h.eq(horner(p, x), series(ck, y), 'cheb2poly')


def from_poly(h, n):
    from wafo.polynomial import poly2cheb, cheb2poly
    import numpy as np
    p = [h.real('p%d' % i, -5, 5) for i in range(n)]
    h.assume(abs(p[0]) > 0.1)
    y = h.real('y', -2, 2)
    a, b = -1.5, 3.0
    x = (y * (b - a) + (a + b)) / 2
    ck = tolist(poly2cheb(h.arr(p), a, b))
    h.check(len(ck) == n, 'number of coefficients')
    h.eq(series(ck, y), horner(p, x), 'poly2cheb')


def fit(h, n):
    """the fit of n values at the Chebyshev nodes interpolates them"""
    from wafo.polynomial import chebfit, chebroot, chebval, map_to_interval
    f = h.reals('f', n, -9, 9)
    ck = chebfit(f)
    h.check(len(ck) == n, 'number of coefficients')
    x = chebroot(n)
    for i in range(n):
        h.eq(series(tolist(ck), float(x[i])), f[i], 'interpolates node %d' % i)
    a, b = -1.0, 2.5
    ck2 = chebfit(lambda t: f, n, a, b)
    v = chebval(map_to_interval(x, a, b), ck2, a, b)
    h.eq(v, f, 'interpolates on an interval')


def nodes(h, n):
    """roots and extrema are zeros of the polynomial and of its derivative"""
    from wafo.polynomial import chebroot, chebextr, chebpoly
    s = h.real('s', 0.5, 2)
    import math
    r = tolist(chebroot(n))
    h.check(r == sorted(r) and len(r) == n, 'n increasing roots')
    for v in r:
        h.eq(s * T(n, v), 0.0, 'root of the first kind')
    for v in tolist(chebroot(n, 2)):
        h.eq(s * T(n, v, 2), 0.0, 'root of the second kind')
    e = tolist(chebextr(n))
    for i, v in enumerate(e):
        h.eq(s * T(n, v), s * (-1) ** (n - i), 'extremum')


def poly_(h, n, kind):
    from wafo.polynomial import chebpoly
    x = h.real('x', -2, 2)
    c = tolist(chebpoly(n, kind=kind))
    h.check(len(c) == n + 1, 'degree')
    h.eq(horner(c, x), T(n, x, kind), 'coefficients')
    h.eq(chebpoly(n, h.arr([x]), kind=kind)[0], T(n, x, kind), 'value')


def calculus(h, n):
    from wafo.polynomial import chebder, chebint, cheb2poly
    ck = [h.real('c%d' % i, -5, 5) for i in range(n)]
    a, L = h.real('a', -5, 5), h.real('L', 0.25, 4)
    b = a + L
    y = h.real('y', -2, 2)
    d = tolist(chebder(h.arr(ck), a, b))
    # derivative of T_k is k U_(k-1); dx = L/2 dy
    e = sum((ck[i] * (n - 1 - i) * T(n - 2 - i, y, 2) for i in range(n - 1)), 0.0) * 2 / L
    h.eq(series(d, y), e, 'derivative')
    q = tolist(chebint(h.arr(ck), a, b))
    h.eq(series(q, -1.0), 0.0, 'integral vanishes at the lower limit')
    dq = sum((q[i] * (len(q) - 1 - i) * T(len(q) - 2 - i, y, 2) for i in range(len(q) - 1)), 0.0) * 2 / L
    h.eq(dq, series(ck, y), 'derivative of the integral')


def obj(h, n, m):
    from wafo.polynomial import Cheb1d
    c = [h.real('c%d' % i, -5, 5) for i in range(n)]
    d = [h.real('d%d' % i, -5, 5) for i in range(m)]
    y, s = h.real('y', -2, 2), h.real('s', -3, 3)
    a, b = 0.5, 3.0
    x = h.arr([(y * (b - a) + (a + b)) / 2])
    f, g = Cheb1d(h.arr(c), a, b), Cheb1d(h.arr(d), a, b)
    F, G = series(c, y), series(d, y)
    h.eq(f(x)[0], F, 'value')
    h.eq((-f)(x)[0], -F, 'negative')
    h.eq((+f)(x)[0], F, 'positive')
    h.eq((f + g)(x)[0], F + G, 'sum')
    h.eq((f - g)(x)[0], F - G, 'difference')
    h.eq((f + s)(x)[0], F + s, 'sum with a number')
    h.eq((s - f)(x)[0], s - F, 'difference from a number')
    h.eq(f.integ().deriv()(x)[0], F, 'derivative of the integral')
    h.eq(f.integ(2).deriv(2)(x)[0], F, 'second derivative of the second integral')
    h.eq(f(x)[0], F, 'the operand is not modified')


def zeros(h):
    """zero coefficients do not change the value"""
    from wafo.polynomial import Cheb1d
    c, y = h.real('c', -5, 5), h.real('y', -1, 1)
    for ck in ([0.0, c, 0.0], [c, 1.0, 0.0, 0.0], [0.0, 0.0], [c, 0.0]):
        h.eq(Cheb1d(h.arr(ck))(h.arr([y]))[0], series(ck, y), 'value of %d coefficients' % len(ck))


def dctfit(h, n):
    """multivariate fit of values at the Chebyshev nodes interpolates them"""
    from wafo.polynomial import chebfit_dct, chebroot, chebvalnd
    import numpy as np
    d = len(n)
    shape = (n[1], n[0]) + n[2:] if d > 1 else n       # meshgrid order
    f = h.reals('f', shape, -9, 9)
    for call in (True, False):
        c = chebfit_dct((lambda *x: f), n) if call else chebfit_dct(f)
        h.check(tuple(c.shape) == tuple(n), 'one axis per variable')
        xs = [tolist(chebroot(k)) for k in n]
        for ix in np.ndindex(*n):
            v = 0.0
            for k in np.ndindex(*n):
                w = 1.0
                for q in range(d):
                    w = w * T(k[q], float(xs[q][ix[q]]))
                v = v + c[k] * w
            jx = (ix[1], ix[0]) + ix[2:] if d > 1 else ix
            h.eq(v, f[jx], 'interpolates the nodes')


def valnd(h, d):
    from wafo.polynomial import chebvalnd, chebgridnd
    import numpy as np
    n = (2, 3, 2)[:d]
    c = h.reals('c', n, -9, 9)
    x = [h.reals('x%d' % k, 2, -2, 2) for k in range(d)]
    v = tolist(chebvalnd(c, *x))
    for i in range(2):
        e = 0.0
        for k in np.ndindex(*n):
            w = c[k]
            for q in range(d):
                w = w * T(k[q], x[q][i])
            e = e + w
        h.eq(v[i], e, 'multivariate series')


def fitnd(h, weights):
    """a function inside the space of the fit is reproduced, whatever the weights"""
    from wafo.polynomial import chebfitnd
    import numpy as np
    c = h.reals('c', (2, 3), -9, 9)
    X, Y = np.meshgrid(np.array([-1.0, 0.25, 0.75]), np.array([-0.75, -0.25, 0.5, 1.0]))
    z = np.zeros(X.shape) if not h.sym else h.arr([[0.0] * 3] * 4)
    for i in range(4):
        for j in range(3):
            z[i, j] = sum(c[k] * T(k[0], float(X[i, j])) * T(k[1], float(Y[i, j])) for k in np.ndindex(2, 3))
    kw = dict(w=1.0 + np.arange(12.0).reshape(4, 3) / 8) if weights else {}
    g = chebfitnd((X, Y), z, [1, 2], **kw)
    h.eq(g, c, 'coefficients of the fit', tol=1e-6)


def interp(h, n):
    from wafo.polynomial import chebinterpolate
    f = h.reals('f', n, -9, 9)
    c = tolist(chebinterpolate(lambda t: f, n - 1))
    from numpy.polynomial.chebyshev import chebpts1
    x = chebpts1(n)
    for i in range(n):
        h.eq(series(c[::-1], float(x[i])), f[i], 'interpolates node %d' % i)


def mapping(h):
    from wafo.polynomial import map_from_interval, map_to_interval
    a, b = interval(h)
    x = h.real('x', -9, 9)
    h.eq(map_from_interval(a, a, b), -1.0, 'lower limit')
    h.eq(map_from_interval(b, a, b), 1.0, 'upper limit')
    h.eq(map_to_interval(map_from_interval(x, a, b), a, b), x, 'inverse')
    h.eq(map_from_interval(map_to_interval(x, a, b), a, b), x, 'inverse')


def cosine(h, n):
    from wafo.polynomial import dct, idct
    x = h.reals('x', n, -9, 9)
    h.eq(idct(dct(x)), x, 'idct inverts dct')


def cases(tier):
    q = tier == 'quick'
    out = []
    N = 5 if q else 7
    for n in range(1, N + 1):
        for kind in (1, 2):
            out.append(Case('value-n%d-k%d' % (n, kind), value, '%d coefficients' % n, n=n, kind=kind))
            out.append(Case('poly-n%d-k%d' % (n, kind), poly_, 'degree %d' % n, n=n, kind=kind))
        out.append(Case('calculus-n%d' % n, calculus, '%d coefficients' % n, n=n))
        out.append(Case('nodes-n%d' % n, nodes, 'degree %d' % n, n=n))
        out.append(Case('fit-n%d' % n, fit, '%d nodes' % n, n=n))
        out.append(Case('interp-n%d' % n, interp, '%d nodes' % n, n=n))
        out.append(Case('cosine-n%d' % n, cosine, '%d values' % n, n=n))
    for n in range(1, 5 if q else 6):
        out.append(Case('to-poly-n%d' % n, to_poly, '%d coefficients' % n, n=n))
        out.append(Case('from-poly-n%d' % n, from_poly, '%d coefficients' % n, n=n))
    for f in (0, 7, -2.5):
        out.append(Case('fill%g' % f, fill, '3 coefficients, 2 points', f=f))
    for n, m in ((3, 3), (2, 4), (4, 1)):
        out.append(Case('object-%d-%d' % (n, m), obj, '%d and %d coefficients' % (n, m), n=n, m=m))
    out.append(Case('zeros', zeros, 'zero coefficients'))
    for n in ((3,), (2, 3), (3, 3), (2, 3, 4)):
        out.append(Case('dctfit-' + 'x'.join(map(str, n)), dctfit, 'nodes per axis %s' % (n,), n=n))
    for d in (1, 2, 3):
        out.append(Case('valnd-%d' % d, valnd, '%d variables' % d, d=d))
    for w in (False, True):
        out.append(Case('fitnd-%s' % w, fitnd, '3x4 points, degrees 1 and 2', weights=w))
    out.append(Case('mapping', mapping, 'any interval'))
    return out
