from vsym.runner import Case
from .common import horner, tolist
PROPERTY = 'P22'
MODULES = ['wafo.polynomial']
OUTSIDE = 'degrees above the stated bound; rounding; poly1d objects'


def der(h, n, m):
    from wafo.polynomial import polyder
    p = h.reals('p', n)
    q = polyder(p, m)
    # definition: coefficient of x^(k-m) is p_k * k!/(k-m)!
    deg = n - 1
    exp = []
    for i in range(n - m):
        k = deg - i
        f = 1.0
        for j in range(m):
            f *= (k - j)
        exp.append(p[i] * f)
    h.eq(q, h.arr(exp), 'derivative coefficients')


def integ(h, n, m):
    from wafo.polynomial import polyint, polyder
    p = h.reals('p', n)
    k = h.reals('k', m)
    q = polyint(p, m, k=k)
    h.eq(polyder(q, m), p, 'polyder(polyint(p)) == p')
    # k[0] is the constant of the first integration, ... the m-th integral at 0 is k[m-1]
    r = q
    for j in range(m - 1, -1, -1):
        h.eq(horner(tolist(r), 0.0), k[j], 'integration constant %d' % j)
        r = polyder(r, 1)


def reloc(h, n):
    from wafo.polynomial import polyreloc
    p = h.reals('p', n)
    x0, y0, t = h.real('x0'), h.real('y0'), h.real('t')
    r = polyreloc(p, x0, y0)
    h.check(len(r) == n, 'length')
    h.eq(horner(tolist(r), t), horner(tolist(p), t - x0) + y0, 'r(t) == p(t-x0)+y0')


def rescl(h, n):
    from wafo.polynomial import polyrescl
    p = h.reals('p', n)
    s, y, t = h.real('s'), h.real('y'), h.real('t')
    h.assume(h.any([s > 0, s < 0]))
    r = polyrescl(p, s, y)
    h.check(len(r) == n, 'length')
    h.eq(horner(tolist(r), t * s), y * horner(tolist(p), t), 'r(s t) == y p(t)')


def shift(h, n):
    from wafo.polynomial import polyshift, polyishift
    p = h.reals('p', n)
    a, b, u = h.real('a'), h.real('b'), h.real('u')
    h.assume(a < b)
    x = (u * (b - a) + (a + b)) / 2
    px = polyshift(p, a, b)     # coefficients for u in [-1, 1] -> coefficients for x in [a, b]
    h.eq(horner(tolist(px), x), horner(tolist(p), u), 'polyshift')
    py = polyishift(p, a, b)
    h.eq(horner(tolist(py), u), horner(tolist(p), x), 'polyishift')
    h.eq(polyishift(px, a, b), p, 'polyishift(polyshift(p)) == p')


def trim(h, n):
    from wafo.polynomial import polytrim
    p = h.reals('p', n)
    t = h.real('t')
    q = polytrim(p)
    if len(q):
        h.check(q[0] != 0, 'leading coefficient nonzero')
    h.eq(horner(tolist(q), t), horner(tolist(p), t), 'same polynomial')


def pieces(h, n, k):
    """the columns of a matrix are polynomials of their own"""
    from wafo import polynomial as wp
    p = h.reals('p', (n, k), -5, 5)
    x0, y0, s = h.real('x0', -3, 3), h.real('y0', -3, 3), h.real('s', 0.5, 3)
    for m in (1, 2):
        d, q = wp.polyder(p, m), wp.polyint(p, m)
        for j in range(k):
            h.eq(d[:, j], wp.polyder(p[:, j], m), 'derivative of column %d' % j)
            h.eq(q[:, j], wp.polyint(p[:, j], m), 'integral of column %d' % j)
    r, c = wp.polyreloc(p, x0, y0), wp.polyrescl(p, s, y0)
    for j in range(k):
        h.eq(r[:, j], wp.polyreloc(p[:, j], x0, y0), 'relocated column %d' % j)
        h.eq(c[:, j], wp.polyrescl(p[:, j], s, y0), 'rescaled column %d' % j)
    t = h.real('t', -3, 3)
    z = wp.polytrim(p)
    for j in range(k):
        h.eq(horner(tolist(z[:, j]), t), horner(tolist(p[:, j]), t), 'trimmed column %d' % j)


def poly1(h, n):
    """polynomial objects give polynomial objects"""
    from wafo import polynomial as wp
    c = h.reals('c', n, -5, 5)
    h.assume(abs(c[0]) > 0.1)
    p = wp.poly1d(c)
    t, x0 = h.real('t', -3, 3), h.real('x0', -3, 3)
    v = horner(tolist(c), t)
    h.eq(wp.polyder(wp.polyint(p))(t), v, 'derivative of the integral')
    h.eq(wp.polyreloc(p, x0)(t + x0), v, 'relocated')
    h.eq(wp.polyrescl(p, 2.0)(t * 2.0), v, 'rescaled')
    h.eq(wp.polyder(p, 0)(t), v, 'order zero')


def negative(h):
    from wafo import polynomial as wp
    p = h.reals('p', 3)
    h.raises(ValueError, lambda: wp.polyder(p, -1), 'negative order')
    h.raises(ValueError, lambda: wp.polyint(p, -1), 'negative order')
    h.raises(ValueError, lambda: wp.polyint(p, 3, k=h.arr([1.0, 2.0])), 'too few constants')
    q = wp.polyint(p, 2, k=3.0)
    h.eq(q, wp.polyint(p, 2, k=h.arr([3.0, 3.0])), 'one constant for all')


def cases(tier):
    N = 5 if tier == 'quick' else 8
    out = []
    for n in range(1, N + 1):
        for m in range(0, min(n, 3)):
            out.append(Case('der-n%d-m%d' % (n, m), der, 'n=%d coefficients, order %d' % (n, m), n=n, m=m))
        for m in (1, 2, 3):
            out.append(Case('int-n%d-m%d' % (n, m), integ, 'n=%d coefficients, order %d' % (n, m), n=n, m=m))
        out.append(Case('reloc-n%d' % n, reloc, n=n))
        out.append(Case('rescl-n%d' % n, rescl, n=n))
        out.append(Case('shift-n%d' % n, shift, n=n))
        out.append(Case('trim-n%d' % n, trim, n=n))
    for n, k in ((2, 2), (3, 2), (4, 2)):
        out.append(Case('pieces-%dx%d' % (n, k), pieces, '%d coefficients, %d columns' % (n, k), n=n, k=k))
    for n in (1, 3):
        out.append(Case('poly1d-n%d' % n, poly1, '%d coefficients' % n, n=n))
    out.append(Case('negative', negative, 'invalid orders'))
    return out
