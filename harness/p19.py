from vsym.runner import Case
from .common import tolist
PROPERTY = 'P19'
MODULES = ['wafo.kdetools.kernels', 'wafo.kdetools.gridding', 'wafo.misc']
OUTSIDE = 'iterative bandwidth selectors (hste, hisj, hstt, hscv, hldpi); dimensions above three'

EXP = dict(epan=1, biwe=2, triw=3, p1ep=1, p1bi=2, p1tr=3)
ALL = ('epan', 'biwe', 'triw', 'p1ep', 'p1bi', 'p1tr', 'rect', 'tria', 'lapl', 'logi', 'gaus')


def raw(h, name, u):
    """documented kernel, not normalised"""
    import numpy as np
    s = sum(v * v for v in u)
    if name in ('epan', 'biwe', 'triw'):
        b = h.ite(s < 1, 1 - s, 0.0)
        p = b
        for _ in range(EXP[name] - 1):
            p = p * b
        return p
    p = 1.0
    if name == 'gaus':
        return np.exp(-0.5 * s)
    if name == 'lapl':
        return np.exp(-sum(abs(v) for v in u))
    for v in u:
        if name == 'rect':
            p = p * h.ite(abs(v) <= 1, 1.0, 0.0)
        elif name == 'tria':
            p = p * h.ite(abs(v) < 1, 1 - abs(v), 0.0)
        elif name == 'logi':
            e = np.exp(v)
            p = p * (e / ((1 + e) * (1 + e)))
        else:
            b = h.ite(v * v < 1, 1 - v * v, 0.0)
            for _ in range(EXP[name]):
                p = p * b
    return p


def mass(name, d):
    """integral of the kernel over all of R^d"""
    from math import pi, gamma, factorial
    if name in ('epan', 'biwe', 'triw'):
        p = EXP[name]
        return pi ** (d / 2) * factorial(p) / gamma(d / 2 + p + 1)
    one = dict(p1ep=4 / 3, p1bi=16 / 15, p1tr=32 / 35, rect=2.0, tria=1.0, lapl=2.0, logi=1.0, gaus=(2 * pi) ** 0.5)[name]
    return one ** d


def value(h, kn, d, m):
    from wafo.kdetools.kernels import Kernel, mkernel
    x = [[h.real('x%d_%d' % (k, i), -3, 3) for i in range(m)] for k in range(d)]
    for row in x:
        for v in row:
            h.assume(abs(abs(v) - 1) > 1e-6)
    k = Kernel(kn)
    a = h.arr(x)
    f = tolist(k(a))
    g = tolist(k(-a))
    z = tolist(k.kernel.norm_kernel(a))
    mk = tolist(mkernel(a, kn))
    h.check(len(f) == m and len(z) == m, 'one value per point')
    for i in range(m):
        u = [x[q][i] for q in range(d)]
        h.eq(f[i], raw(h, kn, u), 'kernel formula')
        h.eq(z[i], raw(h, kn, u) / mass(kn, d), 'normalised kernel integrates to one')
        h.eq(f[i], mk[i], 'mkernel')
        h.check(f[i] >= 0, 'nonnegative')
        h.eq(f[i], g[i], 'symmetric')


def norm(h, d):
    """norm_factor is the integral of the kernel; the kernel vanishes outside its effective support"""
    from wafo.kdetools.kernels import Kernel
    n = h.choice('n', 3) + 1
    t = h.real('t', 1.0, 9.0)
    for name in ALL:
        k = Kernel(name)
        h.eq(k.norm_factor(d, n), mass(name, d), 'norm factor of ' + name)
        lo, hi = k.effective_support()
        h.eq(lo, -hi, 'support')
        if name not in ('lapl', 'logi', 'gaus'):
            h.check(hi == 1, 'support of ' + name)
            u = [t] + [0.25] * (d - 1)
            h.assume(t > 1)
            h.eq(k(h.arr([[v] for v in u]))[0], 0.0, 'zero outside the support')


def integral(h, kn):
    """the integral of the real kernel over its support (exact Newton-Cotes rule for its degree)"""
    from wafo.kdetools.kernels import Kernel, _KernelMulti, _KernelProduct
    r = h.real('r', 0.2, 5)
    k = (_KernelProduct if kn.startswith('p1') else _KernelMulti)(r=r, p=EXP[kn])
    w = [41 / 140, 54 / 35, 27 / 140, 68 / 35, 27 / 140, 54 / 35, 41 / 140]       # degree 7 on 0..6
    f = tolist(k(h.arr([[r * i / 6 for i in range(7)]])))
    h.eq(2 * sum(a * b for a, b in zip(w, f)) * r / 6, k.norm_factor(1, 1), 'integral over the support')
    if not kn.startswith('p1'):
        # plane: radial integral, the integrand has one degree more
        f = tolist(k(h.arr([[r * i / 6 for i in range(7)], [0.0] * 7])))
        from math import pi
        h.eq(2 * pi * sum(a * b * i * r / 6 for i, (a, b) in enumerate(zip(w, f))) * r / 6, k.norm_factor(2, 1), 'integral over the disc')


def sphere(h):
    from wafo.kdetools.kernels import sphere_volume
    from math import pi
    r = h.real('r', 0, 5)
    for d, c in ((1, 2.0), (2, pi), (3, 4 * pi / 3), (4, pi ** 2 / 2)):
        h.eq(sphere_volume(d, r), c * r ** d, 'volume of the %d-ball' % d)


def stats(h):
    """second moment and roughness stored with the kernels: used by every bandwidth selector"""
    from wafo.kdetools.kernels import Kernel
    from math import pi, sqrt
    n = h.real('n', 2, 1000)
    ref = dict(epan=(1 / 5, 3 / 5), biwe=(1 / 7, 5 / 7), triw=(1 / 9, 350 / 429), rect=(1 / 3, 1 / 2), tria=(1 / 6, 2 / 3), lapl=(2, 1 / 4),
               logi=(pi ** 2 / 3, 1 / 6), gaus=(1, 1 / (2 * sqrt(pi))))
    for name, (mu2, R) in ref.items():
        k = Kernel(name)
        h.eq(k.stats()[0], mu2, 'second moment of ' + name)
        h.eq(k.stats()[1], R, 'roughness of ' + name)
        h.eq(k.kernel.get_ste_constant(n) * n, R / mu2 ** 2, 'constant of ' + name)


def hns(h, kn, n):
    """normal scale bandwidth: scales with the data and is unaffected by a shift"""
    from wafo.kdetools.kernels import Kernel
    import numpy as np
    x = h.reals('x', n, -5, 5)
    c, s = h.real('c', -4, 4), 2.0
    h.assume(abs(x[0] - x[1]) > 0.1)
    k = Kernel(kn)
    a = k.hns(x)
    b = k.hns(x * s + c)
    h.check(tuple(a.shape) == (1,), 'one bandwidth per dimension')
    h.eq(b[0], s * a[0], 'scale and shift', tol=1e-6)
    h.eq(k.hos(x)[0] * 0.93, a[0], 'oversmoothing')
    m = sum(tolist(x)) / n
    var = sum((v - m) ** 2 for v in tolist(x)) / (n - 1)
    mu2, R = k.stats()[:2]
    C = (8 * np.pi ** 0.5 * R / (3 * mu2 ** 2 * n)) ** 0.2
    q = sorted(tolist(x))
    at = lambda p: q[int((n - 1) * p)] + (q[min(int((n - 1) * p) + 1, n - 1)] - q[int((n - 1) * p)]) * ((n - 1) * p - int((n - 1) * p))
    r = (at(0.75) - at(0.25)) / 1.349
    s2 = r * r if bool(r > 0) and bool(r * r < var) else var
    h.eq(a[0] * a[0], s2 * C * C, 'standard deviation or interquartile range, whichever is smaller', tol=1e-6)
    h.check(a[0] * a[0] <= var * C * C * (1 + 1e-9), 'never wider than the standard deviation rule')
    h.check(a[0] > 0, 'positive')


def hmns(h, kn):
    """multivariate normal scale bandwidth: its square is the covariance times the squared constant of the kernel"""
    from wafo.kdetools.kernels import Kernel
    import numpy as np
    n, d = 3, 2
    x = [[h.real('x0', -1, 1), 1.0, -0.5], [0.25, -2.0, 2.0]]
    k = Kernel(kn)
    H = k.hmns(h.arr(x))
    h.check(tuple(H.shape) == (2, 2), 'shape')
    c = dict(gaus=(4 / (d + 2)) ** (1 / (d + 4)), epan=(8 * (d + 4) * (2 * np.pi ** 0.5) ** d / np.pi) ** (1 / (d + 4)), biwe=2.7779, triw=3.12)[kn] * n ** (-1 / (d + 4))
    m = [sum(r) / n for r in x]
    for i in range(2):
        for j in range(2):
            cov = sum((x[i][t] - m[i]) * (x[j][t] - m[j]) for t in range(n)) / (n - 1)
            h.eq(sum(H[i, t] * H[t, j] for t in range(2)), cov * c * c, 'square %d %d' % (i, j), tol=1e-6)
    h.eq(H[0, 1], H[1, 0], 'symmetric', tol=1e-9)
    h.check(H[0, 0] > 0, 'positive')
    h.check(H[0, 0] * H[1, 1] - H[0, 1] ** 2 > -1e-9, 'not negative')
    one = k.hmns(h.arr([x[0]]))
    h.eq(one[0], k.hns(h.arr([x[0]]))[0], 'one dimension: hns')


def hns2(h, kn):
    """one bandwidth per dimension, each from its own row"""
    from wafo.kdetools.kernels import Kernel
    x = [[h.real('x%d%d' % (i, j), -3, 3) for j in range(3)] for i in range(2)]
    for r in x:
        h.assume(h.any([r[0] - r[1] > 0.1, r[1] - r[0] > 0.1]))
    k = Kernel(kn)
    a = k.hns(h.arr(x))
    for i in range(2):
        h.eq(a[i], k.hns(h.arr(x[i]))[0], 'dimension %d' % i, tol=1e-9)


def gauss(h):
    """derivatives of the normal density, and their integrals for normal data"""
    import numpy as np
    from wafo.kdetools.kernels import mkernel_gaussian as g
    t = h.real('t', -4, 4)
    f = np.exp(-0.5 * t * t) / np.sqrt(2 * np.pi)
    he = [1.0, t]
    for k in range(1, 10):
        he.append(t * he[k] - k * he[k - 1])
    for m in (1, 2, 3, 4):
        out = g.deriv4_6_8_10(h.arr([t, 0.5]), numout=m)
        h.check(len(out) == m, 'number of derivatives')
        for v, k in zip(out, (4, 6, 8, 10)):
            h.eq(v[0], he[k] * f, 'derivative of order %d' % k, tol=1e-6)
    s = h.real('sigma', 0.25, 4)
    from math import factorial
    for r in (2, 4, 6, 8):
        h.eq(g.psi(r, s) * (2 * s) ** (r + 1), (-1) ** (r // 2) * factorial(r) / factorial(r // 2) / np.pi ** 0.5, 'functional of order %d' % r, tol=1e-6)


def quantiles(h, n):
    from wafo.kdetools.kernels import iqrange, qlevels2
    x = h.reals('x', n, -5, 5)
    s = sorted(tolist(x))
    q = lambda p: s[int((n - 1) * p)] + (s[min(int((n - 1) * p) + 1, n - 1)] - s[int((n - 1) * p)]) * ((n - 1) * p - int((n - 1) * p))
    h.eq(iqrange(x), q(0.75) - q(0.25), 'interquartile range')
    y = h.arr([tolist(x), [2 * v + 1 for v in tolist(x)]])
    r = tolist(iqrange(y, axis=1))
    h.eq(r[1], 2 * r[0], 'along an axis')


def levels(h, xi):
    """any percentage between tabulated masses that are evenly spaced (where the table is exact), any scale of the density"""
    from wafo.kdetools.kernels import qlevels
    import numpy as np
    s, p = h.real('s', 0.1, 5), h.real('p', 34, 99)
    if xi:
        f, kw = [1.0, 1 / 3, 0.5], dict(xi=(np.array([0.0, 2.0, 6.0]),))
        lv = [1.0, 0.5, 1 / 3]
        cdf = [1 / 3, 2 / 3, 1.0]
    else:
        f, kw = [1.0, 1.0001, 1.0002], {}
        lv, cdf = f[::-1], [1 / 3, 2 / 3, 1.0]
    got = qlevels(h.arr([s * v for v in f]), p=h.arr([p]), **kw)[0]
    q = p / 100
    e = h.ite(q < cdf[1], lv[0] + (lv[1] - lv[0]) * (q - cdf[0]) * 3, lv[1] + (lv[2] - lv[1]) * (q - cdf[1]) * 3)
    h.eq(got, s * e, 'level that encloses p percent', tol=1e-3)


def bad(h):
    from wafo.kdetools.kernels import qlevels
    a, e = h.real('a', 0, 2), h.real('e', 0.01, 3)
    h.raises(ValueError, lambda: qlevels(h.arr([a, 1.0, -e])), 'negative density')
    h.raises(ValueError, lambda: qlevels(h.arr([a, 1.0, 2.0]), p=h.arr([50.0, 100 + e])), 'percentage above 100')


def cases(tier):
    out = []
    for kn in ALL:
        out.append(Case('value-%s-1d' % kn, value, '2 points on the line', kn=kn, d=1, m=2))
        out.append(Case('value-%s-2d' % kn, value, '1 point in the plane', kn=kn, d=2, m=1))
    for kn in EXP:
        out.append(Case('integral-' + kn, integral, 'any radius', kn=kn))
    for d in (1, 2, 3):
        out.append(Case('norm-%dd' % d, norm, '%d dimensions' % d, d=d))
    out += [Case('sphere', sphere, 'any radius'), Case('stats', stats, 'any sample size')]
    for kn in ('gaus', 'epan'):
        out.append(Case('hns-' + kn, hns, '3 data', kn=kn, n=3))
    for kn in ('gaus', 'epan', 'biwe', 'triw'):
        out.append(Case('hmns-' + kn, hmns, '3 data in the plane', kn=kn))
    out.append(Case('hns2', hns2, '3 data in the plane', kn='epan'))
    out.append(Case('gauss', gauss, 'every argument'))
    out.append(Case('iqr-3', quantiles, '3 data', n=3))
    out.append(Case('iqr-4', quantiles, '4 data', n=4))
    out.append(Case('levels-xi', levels, '3 density values, uneven grid, any percentage', xi=True))
    out.append(Case('levels-bad', bad, 'any value'))
    return out
