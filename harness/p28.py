from math import cos, pi, sqrt
from vsym.runner import Case
from .common import tolist, either
PROPERTY = 'P28'
MODULES = ['wafo.padua', 'wafo.polynomial', 'wafo.dctpack']
OUTSIDE = 'higher degrees than stated, the unfinished padua_fit2/paduavals2coefs (always raise), the example functions; rounding'

DOM = [(-1.0, 1.0, -1.0, 1.0), (0.0, 2.0, -1.0, 0.5), (1.0, 4.0, 2.0, 3.0)]


def ref_points(n, dom):
    """the Padua points of the first family: every other point of the (n+1) x (n+2) Chebyshev-Lobatto grid"""
    a, b, c, d = dom
    out = []
    for j in range(n + 1):
        for k in range(n + 2):
            if (j + k) % 2 == 1:
                t = pi if n == 0 else pi * j / n
                u, v = cos(t), cos(pi * k / (n + 1))
                out.append(((a + b) / 2 + (b - a) / 2 * u, (c + d) / 2 + (d - c) / 2 * v))
    return out


def points(h, n, free):
    from wafo.padua import padua_points
    if free:
        a = h.real('a', -3, 3)
        b = a + h.real('w', 0.1, 3)
        c = h.real('c', -3, 3)
        d = c + h.real('v', 0.1, 3)
        dom = (a, b, c, d)
    else:
        dom = (-1.0, 1.0, -1.0, 1.0)
    P = padua_points(n, dom) if free else padua_points(n)
    N = (n + 1) * (n + 2) // 2
    h.check(tuple(P.shape) == (2, N), 'number of points')
    ref = ref_points(n, dom)
    h.check(len(ref) == N, 'reference count')
    for i, (x, y) in enumerate(ref):
        h.eq(P[0, i], x, 'x of point %d' % i, tol=1e-9)
        h.eq(P[1, i], y, 'y of point %d' % i, tol=1e-9)


def interp(h, n, dom):
    """whatever the values at the points, the fitted polynomial takes them there (and has the degree)"""
    from wafo.padua import padua_points, padua_fit, padua_val
    pts = padua_points(n, dom)
    N = pts.shape[1]
    f = [h.real('f%d' % i, -5, 5) for i in range(N)]
    C, err = padua_fit(pts, lambda x, y: h.arr(f))
    h.check(tuple(C.shape) == (n + 1, n + 1), 'coefficient matrix')
    for i in range(n + 1):
        for j in range(n + 1):
            if i + j > n:
                h.eq(C[i, j], 0.0, 'total degree %d' % (i + j))
    v = padua_val(pts[0], pts[1], C, dom)
    h.check(tuple(v.shape) == (N,), 'one value per point')
    for i in range(N):
        h.eq(v[i], f[i], 'value at point %d' % i, tol=1e-9)
    h.le(0, err, 'error estimate nonnegative')


def cheb(k, x):
    t0, t1 = 1.0, x
    for _ in range(k):
        t0, t1 = t1, 2 * x * t1 - t0
    return t0


def poly(h, n):
    c = {}
    for i in range(n + 1):
        for j in range(n + 1 - i):
            c[i, j] = h.real('c%d%d' % (i, j), -3, 3)
    return c


def at(c, x, y):
    return sum(v * x ** i * y ** j for (i, j), v in c.items())


def exact(h, n, dom, deg=None):
    """polynomials of total degree up to n are reproduced at any point of the domain and integrated exactly"""
    from wafo.padua import padua_points, padua_fit, padua_val, padua_cubature
    a, b, c, d = dom
    p = poly(h, n if deg is None else deg)
    C, _ = padua_fit(padua_points(n, dom), lambda x, y: at(p, x, y))
    X = [a, a + 0.3 * (b - a), a + 0.55 * (b - a), b]
    Y = [c + 0.1 * (d - c), d, c + 0.8 * (d - c), c]
    v = padua_val(h.arr(X), h.arr(Y), C, dom)
    for i in range(4):
        h.eq(v[i], at(p, X[i], Y[i]), 'value at (%g, %g)' % (X[i], Y[i]), tol=1e-8)
    w = padua_val(X[1], Y[1], C, dom)
    h.eq(tolist(w)[0] if hasattr(w, '__len__') else w, at(p, X[1], Y[1]), 'single point', tol=1e-8)
    g = padua_val(h.arr(X[:3]), h.arr(Y[:2]), C, dom, use_meshgrid=True)
    h.check(tuple(g.shape) == (2, 3), 'meshgrid orientation')
    for i in range(3):
        for j in range(2):
            h.eq(g[j, i], at(p, X[i], Y[j]), 'mesh point', tol=1e-8)
    m = padua_val(h.arr([X[:2], X[2:]]), h.arr([Y[:2], Y[2:]]), C, dom)
    h.check(tuple(m.shape) == (2, 2), 'shape of the points')
    for i in range(2):
        for j in range(2):
            h.eq(m[i, j], at(p, X[2 * i + j], Y[2 * i + j]), 'array of points', tol=1e-8)
    I = sum(v * (b ** (i + 1) - a ** (i + 1)) / (i + 1) * (d ** (j + 1) - c ** (j + 1)) / (j + 1) for (i, j), v in p.items())
    h.eq(padua_cubature(C, dom), I, 'integral', tol=1e-8)


def args(h):
    """extra arguments reach the function, and points outside the domain take the value at the border"""
    from wafo.padua import padua_points, padua_fit, padua_val
    k, m = h.real('k', -3, 3), h.real('m', -3, 3)
    dom = (0.0, 2.0, 0.0, 1.0)
    C, _ = padua_fit(padua_points(2, dom), lambda x, y, a, b: a * x + b * y, k, m)
    h.eq(padua_val(1.5, 0.25, C, dom)[0], 1.5 * k + 0.25 * m, 'arguments passed on', tol=1e-9)
    h.eq(padua_val(5.0, 0.25, C, dom)[0], 2.0 * k + 0.25 * m, 'clipped', tol=1e-9)


def coefs(h, n):
    """padua_val and padua_cubature of any coefficient matrix are those of the orthonormal Chebyshev product series"""
    from wafo.padua import padua_val, padua_cubature
    import numpy as np
    c = [[h.real('c%d%d' % (i, j), -3, 3) for j in range(n)] for i in range(n)]
    dom = (0.0, 4.0, -1.0, 1.0)
    s = lambda k: 1.0 if k == 0 else sqrt(2.0)
    for x, y in ((1.0, 0.25), (3.0, -0.5), (4.0, 1.0)):
        v = padua_val(x, y, h.arr(c), dom)
        ref = sum(c[i][j] * s(i) * cheb(i, x / 2 - 1) * s(j) * cheb(j, y) for i in range(n) for j in range(n))
        h.eq(v[0], ref, 'series at (%g, %g)' % (x, y), tol=1e-9)
    mom = lambda k: 0.0 if k % 2 else 2.0 / (1 - k * k)
    ref = 2.0 * sum(c[i][j] * s(i) * s(j) * mom(i) * mom(j) for i in range(n) for j in range(n))
    h.eq(padua_cubature(h.arr(c), dom), ref, 'integral of the series', tol=1e-9)


def errest(h, n):
    """the error estimate is twice the sum of the coefficients (absolute values) of the three highest total degrees"""
    from wafo.padua import error_estimate
    c = [[h.real('c%d%d' % (i, j), -3, 3) if i + j <= n else 0.0 for j in range(n + 1)] for i in range(n + 1)]
    e = error_estimate(h.arr(c))
    ref = sum(abs(c[i][j]) for i in range(n + 1) for j in range(n + 1) if max(n - 2, 0) <= i + j <= n)
    estimate(h, e, ref, c, n)


def estimate(h, e, ref, c, n):
    top = sum(abs(c[i][n - i]) for i in range(n + 1))
    h.le(2 * top, e, 'at least the highest degree')
    h.le(e, 2 * ref, 'no more than the three highest degrees')
    if n:
        either(h, e, 2 * ref, 2 * top, 'error estimate', 1e-9)
        h.known('K28')
    h.eq(e, 2 * ref, 'error estimate')


def cases(tier):
    big = tier != 'quick'
    out = []
    for n in range(0, 7 if not big else 12):
        out.append(Case('points-n%d' % n, points, 'degree %d' % n, n=n, free=False))
    for n in (0, 1, 2, 3) if not big else range(7):
        out.append(Case('points-any-n%d' % n, points, 'degree %d, any domain' % n, n=n, free=True))
    for n in (0, 1, 2, 3, 4, 5) if not big else range(9):
        out.append(Case('interp-n%d' % n, interp, 'degree %d, any values' % n, n=n, dom=DOM[n % 3]))
        for k, d in enumerate(DOM):
            out.append(Case('exact-n%d-d%d' % (n, k), exact, 'any polynomial of degree %d' % n, n=n, dom=d))
    out.append(Case('exact-low', exact, 'degree 6 rule, any quadratic', n=6, dom=DOM[1], deg=2))
    out.append(Case('args', args, 'any linear function'))
    for n in (1, 2, 3, 4) if not big else range(1, 7):
        out.append(Case('coefs-n%d' % n, coefs, 'any %d x %d coefficients' % (n, n), n=n))
    for n in (0, 1, 2, 3, 4):
        out.append(Case('errest-n%d' % n, errest, 'degree %d' % n, n=n))
    return out
