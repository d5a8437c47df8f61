from vsym.runner import Case
from .common import tolist
from fractions import Fraction as Fr
PROPERTY = 'P26'
MODULES = ['wafo.interpolate', 'wafo.polynomial']
OUTSIDE = 'more data points than stated; matrix valued y (not supported by the code either); the automatic choice of p beyond being the same for every invalid p; rounding'
ASSUMPTIONS = ['scipy.sparse spdiags/spsolve build and solve the linear system they denote']

X = [-1.0, 0.5, 1.0, 3.0, 3.5, 5.0]


def cubic(h, f, a, b):
    """coefficients (in (t-a)/(b-a)) of the cubic through four values on a piece"""
    w = b - a
    q = [a + w * k / 5 for k in (1, 2, 3, 4)]
    v = [f(h.arr([t]))[0] for t in q]
    # exact inverse of the Vandermonde matrix at 1/5..4/5
    s = [Fr(k, 5) for k in (1, 2, 3, 4)]
    co = [0.0] * 4
    for i in range(4):
        p = [Fr(1)]
        den = Fr(1)
        for j in range(4):
            if j != i:
                p = [x for x in p] + [Fr(0)]
                for k in range(len(p) - 1, 0, -1):
                    p[k] -= s[j] * p[k - 1]
                den *= s[i] - s[j]
        for k in range(4):
            co[k] = co[k] + float(p[k] / den) * v[i]
    return [co[3], co[2] / w, co[1] / w ** 2, co[0] / w ** 3]     # value, slope, f''/2, f'''/6 at a


def at_end(c, w):
    return [c[0] + w * (c[1] + w * (c[2] + w * c[3])), c[1] + w * (2 * c[2] + 3 * w * c[3]), c[2] + 3 * c[3] * w, c[3]]


def spline(h, n, p, var, extrap=True):
    from wafo.interpolate import SmoothSpline
    x = X[:n]
    y = [h.real('y%d' % i, -3, 3) for i in range(n)]
    P = h.real('p', 0.01, 0.99) if p is None else p
    if var == 'fixed':
        V = [1.0, 0.5, 2.0, 1.0, 4.0, 1.0][:n]
    elif var == 'one':
        V = [h.real('v', 0.1, 4)] * n
    else:
        V = [1.0] * n
    kw = {}
    if var == 'fixed':
        kw['var'] = h.arr(V)
    elif var == 'one':
        kw['var'] = V[0]
    f = SmoothSpline(h.arr(x), h.arr(y), p=P, lin_extrap=extrap, **kw)
    c = [cubic(h, f, x[i], x[i + 1]) for i in range(n - 1)]
    e = [at_end(c[i], x[i + 1] - x[i]) for i in range(n - 1)]
    T = 1e-6
    for i in range(1, n - 1):
        for k, nm in enumerate(('value', 'slope', 'second derivative')):
            h.eq(c[i][k], e[i - 1][k], '%s continuous at knot %d' % (nm, i), tol=T)
    h.eq(c[0][2], 0.0, 'natural at the first knot', tol=T)
    h.eq(e[-1][2], 0.0, 'natural at the last knot', tol=T)
    # the smoothing functional is stationary
    for i in range(n):
        left = e[i - 1][3] if i else 0.0
        right = c[i][3] if i < n - 1 else 0.0
        fi = c[i][0] if i < n - 1 else e[-1][0]
        h.eq((1 - P) * 6 * (right - left) * V[i], P * (y[i] - fi), 'optimality at point %d' % i, tol=1e-5)
    v = tolist(f(h.arr(x)))
    for i in range(n):
        h.eq(v[i], c[i][0] if i < n - 1 else e[-1][0], 'value at the knot', tol=T)
    if extrap:
        for s in (0.25, 1.5, 7.0):
            h.eq(f(h.arr([x[0] - s]))[0], c[0][0] - s * c[0][1], 'linear to the left', tol=1e-5)
            h.eq(f(h.arr([x[-1] + s]))[0], e[-1][0] + s * e[-1][1], 'linear to the right', tol=1e-5)
    else:
        h.eq(f(h.arr([x[0] - 1.0]))[0], 0.0, 'nothing outside')
        h.eq(f(h.arr([x[-1] + 1.0]))[0], 0.0, 'nothing outside')


def through(h, n, free):
    """p=1 interpolates"""
    from wafo.interpolate import SmoothSpline
    x = X[:n]
    if free:
        x = [0.0]
        for i in range(1, n):
            x.append(x[-1] + h.real('d%d' % i, 0.25, 3))
    y = [h.real('y%d' % i, -3, 3) for i in range(n)]
    f = SmoothSpline(h.arr(x), h.arr(y), p=1)
    for i, v in enumerate(tolist(f(h.arr(x)))):
        h.eq(v, y[i], 'through point %d' % i, tol=1e-6)


def line(h, n, p):
    """data on a line are left on it"""
    from wafo.interpolate import SmoothSpline
    x = X[:n]
    a, b = h.real('a', -3, 3), h.real('b', -3, 3)
    P = h.real('p', 0.01, 0.99) if p == 'any' else p
    f = SmoothSpline(h.arr(x), h.arr([a + b * u for u in x]), p=P, var=h.real('v', 0.1, 4) if p == 'any' else 1)
    t = h.real('t', -5, 9)
    h.eq(f(h.arr([t]))[0], a + b * t, 'line', tol=1e-6)
    h.eq(f.derivative()(h.arr([t]))[0], b, 'slope', tol=1e-6)


def lsq(h, n):
    """p=0: the weighted least squares line"""
    from wafo.interpolate import SmoothSpline
    x = X[:n]
    V = [1.0, 0.5, 2.0, 1.0, 4.0, 1.0][:n]
    y = [h.real('y%d' % i, -3, 3) for i in range(n)]
    f = SmoothSpline(h.arr(x), h.arr(y), p=0, var=h.arr(V))
    v = tolist(f(h.arr(x)))
    h.eq(sum((y[i] - v[i]) / V[i] for i in range(n)), 0.0, 'residuals sum to zero', tol=1e-6)
    h.eq(sum((y[i] - v[i]) / V[i] * x[i] for i in range(n)), 0.0, 'residuals orthogonal to x', tol=1e-6)
    t = h.real('t', -5, 9)
    h.eq(f(h.arr([t]))[0], v[0] + (v[-1] - v[0]) * (t - x[0]) / (x[-1] - x[0]), 'a line', tol=1e-6)


def order(h, n, perm):
    """the order in which the points are given does not matter"""
    from wafo.interpolate import SmoothSpline
    x = X[:n]
    V = [1.0, 0.5, 2.0, 1.0, 4.0, 1.0][:n]
    y = [h.real('y%d' % i, -3, 3) for i in range(n)]
    P = 0.75
    f = SmoothSpline(h.arr(x), h.arr(y), p=P, var=h.arr(V))
    g = SmoothSpline(h.arr([x[i] for i in perm]), h.arr([y[i] for i in perm]), p=P, var=h.arr([V[i] for i in perm]))
    t = h.real('t', -5, 9)
    h.eq(f(h.arr([t]))[0], g(h.arr([t]))[0], 'order of the points', tol=1e-6)


def automatic(h, n):
    """p outside [0, 1] or missing: chosen from the data, the same every time, and still a natural spline"""
    from wafo.interpolate import SmoothSpline
    x = X[:n]
    y = [h.real('y%d' % i, -3, 3) for i in range(n)]
    fs = [SmoothSpline(h.arr(x), h.arr(y), p=q) for q in (None, -1, 2)]
    t = h.real('t', -5, 9)
    v = [f(h.arr([t]))[0] for f in fs]
    h.eq(v[0], v[1], 'same')
    h.eq(v[0], v[2], 'same')


def small(h):
    from wafo.interpolate import SmoothSpline
    y = [h.real('y%d' % i, -3, 3) for i in range(2)]
    f = SmoothSpline(h.arr([1.0, 3.0]), h.arr(y), p=h.real('p', 0, 1))
    t = h.real('t', -5, 9)
    h.eq(f(h.arr([t]))[0], y[0] + (y[1] - y[0]) * (t - 1) / 2, 'two points give their line')


def refuse(h):
    from wafo.interpolate import SmoothSpline
    x = h.real('x', -3, 3)
    y = h.reals('y', 3, -3, 3)
    h.raises(ValueError, lambda: SmoothSpline(h.arr([x, x, x + 1]), y), 'equal abscissas')
    h.raises(ValueError, lambda: SmoothSpline(h.arr([x, x + 1]), y), 'different lengths')
    h.raises(ValueError, lambda: SmoothSpline(h.arr([x]), y[:1]), 'one point')


def cases(tier):
    out = []
    for n in (3, 4, 5) + ((6,) if tier != 'quick' else ()):
        out.append(Case('spline-n%d-p1' % n, spline, '%d points, p = 1' % n, n=n, p=1, var=None))
        out.append(Case('spline-n%d-p0.5' % n, spline, '%d points, p = 0.5, given variances' % n, n=n, p=0.5, var='fixed'))
        out.append(Case('through-n%d' % n, through, '%d points' % n, n=n, free=n == 3))
        out.append(Case('lsq-n%d' % n, lsq, '%d points' % n, n=n))
    for n in (3, 4):
        out.append(Case('spline-n%d-any' % n, spline, '%d points, any p in (0, 1)' % n, n=n, p=None, var=None))
    out.append(Case('spline-n4-fill', spline, '4 points, no extrapolation', n=4, p=0.25, var=None, extrap=False))
    out.append(Case('spline-n3-var', spline, '3 points, any variance', n=3, p=0.75, var='one'))
    for p in ('any', 0, 1, None):
        out.append(Case('line-%s' % p, line, '4 points on any line', n=4, p=p))
    out.append(Case('order-n4', order, '4 points', n=4, perm=(2, 0, 3, 1)))
    out.append(Case('order-n5', order, '5 points', n=5, perm=(4, 3, 2, 1, 0)))
    out.append(Case('automatic', automatic, '4 points', n=4))
    out.append(Case('two-points', small, '2 points'))
    out.append(Case('refuse', refuse, '3 points'))
    return out
