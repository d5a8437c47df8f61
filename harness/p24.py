from vsym.runner import Case
from .common import tolist, horner
PROPERTY = 'P24'
MODULES = ['wafo.polynomial']
OUTSIDE = 'more points or higher degree than stated; automatic choice of the degree (polydeg); rounding for badly conditioned points'


def points(h, N, free):
    if free:
        x = [h.real('x%d' % i, -3, 3) for i in range(N)]
        for i in range(N):
            for j in range(i):
                h.assume(abs(x[i] - x[j]) > 0.25)
        return x
    return [-1.0, 0.5, 0.75, 2.0, 3.5, 4.0][:N]


def normal(h, N, n, free):
    """least squares: the residual is orthogonal to every power up to the degree"""
    from wafo.polynomial import orthofit, orthoval, ortho2poly
    x = points(h, N, free)
    y = [h.real('y%d' % i, -5, 5) for i in range(N)]
    p = orthofit(h.arr(x), h.arr(y), n)
    v = tolist(orthoval(p, h.arr(x)))
    h.check(len(v) == N, 'one value per point')
    for k in range(n + 1):
        h.eq(sum((y[i] - v[i]) * x[i] ** k for i in range(N)), 0.0, 'residual orthogonal to power %d' % k, tol=1e-6)
    t = h.real('t', -3, 3)
    q = tolist(ortho2poly(p))
    h.check(len(q) <= n + 1, 'degree')
    h.eq(horner(q, t), orthoval(p, h.arr([t]))[0], 'ortho2poly is the same polynomial', tol=1e-6)


def exact(h, n, free):
    """a polynomial of the degree of the fit is reproduced"""
    from wafo.polynomial import orthofit, orthoval, ortho2poly
    N = n + 2 if not free else n + 1
    x = points(h, N, free)
    c = [h.real('c%d' % i, -5, 5) for i in range(n + 1)]
    y = [horner(c, v) for v in x]
    p = orthofit(h.arr(x), h.arr(y), n)
    t = h.real('t', -3, 3)
    h.eq(orthoval(p, h.arr([t]))[0], horner(c, t), 'value of the polynomial', tol=1e-6)
    if not free:
        q = tolist(ortho2poly(p))
        for i in range(n + 1):
            h.eq(q[i], c[i], 'coefficient %d' % i, tol=1e-6)


def shape(h):
    """values keep the shape of the argument"""
    from wafo.polynomial import orthofit, orthoval
    import numpy as np
    y = h.reals('y', 4, -5, 5)
    x = np.array([0.0, 1.0, 2.0, 4.0])
    t = h.reals('t', (2, 2), -3, 3)
    for n in (0, 1, 2):
        p = orthofit(x, y, n)
        v = orthoval(p, t)
        h.check(tuple(v.shape) == (2, 2), 'shape')
        for i in range(2):
            for j in range(2):
                h.eq(v[i, j], orthoval(p, h.arr([t[i, j]]))[0], 'element by element')


def cases(tier):
    out = []
    for N, n in ((3, 1), (4, 1), (4, 2), (5, 3), (6, 4)):
        out.append(Case('normal-N%d-n%d' % (N, n), normal, '%d fixed points, any values, degree %d' % (N, n), N=N, n=n, free=False))
    out.append(Case('normal-N2-n0', normal, '3 points, any values, degree 0', N=3, n=0, free=False))
    out.append(Case('normal-free-N3-n1', normal, '3 points, degree 1', N=3, n=1, free=True))
    for n in (0, 1, 2, 3, 4):
        out.append(Case('exact-n%d' % n, exact, 'any polynomial of degree %d' % n, n=n, free=False))
    for n in (1, 2):
        out.append(Case('exact-free-n%d' % n, exact, 'any points, any polynomial of degree %d' % n, n=n, free=True))
    out.append(Case('shape', shape, '4 points'))
    return out
