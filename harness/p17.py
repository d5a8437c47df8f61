from vsym.runner import Case
from .common import tolist
PROPERTY = 'P17'
MODULES = ['wafo.transform.models', 'wafo.transform.core']
OUTSIDE = ('Hermite transforms that are not monotone (three real roots); the exponents of the Winterstein (1994) formula are uninterpreted powers; '
           'rounding and overflow of exp/log')
ASSUMPTIONS = ['scipy.optimize.brentq returns some root of its function in the interval, or ValueError without a change of sign']


def stats(h):
    return dict(mean=h.real('mean', -5, 5), sigma=h.real('sigma', 0.1, 5), ymean=h.real('ymean', -5, 5), ysigma=h.real('ysigma', 0.1, 5))


def linear(h, n, deriv):
    from wafo.transform.models import TrLinear
    s = stats(h)
    x = h.reals('x', n)
    d = [h.reals('d%d' % k, n) for k in range(deriv)]
    g = TrLinear(**s)
    y = g.dat2gauss(x, *d)
    z = g.gauss2dat(*y) if deriv else g.gauss2dat(y)
    if not deriv:
        y, z = [y], [z]
    h.check(len(y) == deriv + 1 and len(z) == deriv + 1, 'one output per derivative')
    for i in range(n):
        h.eq((y[0][i] - s['ymean']) * s['sigma'], (x[i] - s['mean']) * s['ysigma'], 'linear transform')
        h.eq(z[0][i], x[i], 'round trip')
        for k in range(deriv):
            h.eq(y[k + 1][i] * s['sigma'], d[k][i] * s['ysigma'], 'derivative %d' % k)
            h.eq(z[k + 1][i], d[k][i], 'round trip of derivative %d' % k)
    h.eq(g(x), g.dat2gauss(x), 'call')


def linear_var(h):
    from wafo.transform.models import TrLinear
    m, v, x = h.real('m', -5, 5), h.real('v', 0.1, 9), h.real('x', -5, 5)
    y = TrLinear(mean=m, var=v).dat2gauss(h.arr([x]))[0]
    h.eq(y * y * v, (x - m) ** 2, 'standardised value')
    h.check((y >= 0) == (x >= m), 'sign')


def par(sk):
    """a, sigma2, mean2 of the published equations (bisection)"""
    import math
    f = lambda v: math.sqrt(2 * (v - 1)) * (4 - v) - abs(sk)
    lo, hi = 1.0, 2.0
    for _ in range(200):
        mid = (lo + hi) / 2
        lo, hi = (mid, hi) if f(mid) < 0 else (lo, mid)
    v = lo
    a = math.copysign(math.sqrt((v - 1) / 2) / v, sk)
    return a, math.sqrt(v), (-1 + math.sqrt(1 - 4 * a * a * v)) / (2 * a)


def ochi(h, sk, n, absolute=False):
    from wafo.transform.models import TrOchi
    import numpy as np
    s = dict(stats(h), ymean=0.0, ysigma=1.0)
    x = h.reals('x', n, -20, 20)
    skew = sk
    g = TrOchi(skew=skew, **s)
    y = g.dat2gauss(x)
    if sk == 0:
        for i in range(n):
            h.eq((y[i] - s['ymean']) * s['sigma'], (x[i] - s['mean']) * s['ysigma'], 'linear without skewness')
    else:
        a, s2, m2 = par(sk)
        if absolute:
            import math
            v = s2 * s2
            m2k = a * v / ((-1 - math.sqrt(1 - 4 * a * a * v)) / a)
            off = []
            for m in (m2, m2k):
                xn = (x[0] - s['mean']) / s['sigma']
                gam = 1.28 * a if bool(xn >= 0) else 3 * a
                off.append((y[0] + m / s2) * s2 - (1 - np.exp(-gam * xn)) / gam)
            h.check(h.any([h.all([o <= 1e-3, o >= -1e-3]) for o in off]), 'offset is that of the equations or the one listed as known')
            h.known('K17')
            y0 = s['ymean'] - m2 / s2 * s['ysigma']
        else:
            y0 = g.dat2gauss(h.arr([s['mean']]))[0]
        for i in range(n):
            xn = (x[i] - s['mean']) / s['sigma']
            gam = 1.28 * a if bool(xn >= 0) else 3 * a
            h.eq((y[i] - y0) * s2 / s['ysigma'], (1 - np.exp(-gam * xn)) / gam, 'documented transform', tol=1e-4)
    z = g.gauss2dat(y)
    h.check(tuple(y.shape) == (n,) and tuple(z.shape) == (n,), 'shape')
    for i in range(n):
        h.assume(abs(x[i] - s['mean']) <= 8 * s['sigma'])
        h.eq(z[i], x[i], 'round trip')
    for i in range(n - 1):
        h.assume(abs(x[i] - x[i + 1]) > 1e-3)
        h.check((x[i] < x[i + 1]) == (y[i] < y[i + 1]), 'increasing')


def scale(h, way):
    """the Gaussian side is scaled with ymean and ysigma"""
    from wafo.transform.models import TrOchi
    s = stats(h)
    u = h.real('u', -0.8, 0.8)
    g, g0 = TrOchi(skew=0.6, **s), TrOchi(skew=0.6, mean=s['mean'], sigma=s['sigma'])
    if way == 'forward':
        x = h.arr([u])
        h.eq(g.dat2gauss(x)[0], s['ymean'] + s['ysigma'] * g0.dat2gauss(x)[0], 'scaled Gaussian value')
    else:
        g, g0 = TrOchi(skew=0.6, ymean=s['ymean'], ysigma=2.0), TrOchi(skew=0.6)
        h.eq(g.gauss2dat(h.arr([s['ymean'] + 2.0 * u]))[0], g0.gauss2dat(h.arr([u]))[0], 'scaled Gaussian value')
        g1 = TrOchi(skew=0.6, mean=s['mean'], sigma=s['sigma'])
        h.eq(g1.gauss2dat(h.arr([u]))[0], s['mean'] + s['sigma'] * g0.gauss2dat(h.arr([u]))[0], 'scaled value')


def ochi_limit(h):
    from wafo.transform.models import TrOchi
    sk = h.real('skew', -9, 9)
    h.assume(abs(sk) > 2.83)
    h.raises(ValueError, lambda: TrOchi(skew=sk), 'skewness out of range')


def one_changed(h, what, sk):
    from wafo.transform.models import TrOchi
    v, x = h.real('v', 0.5, 3), h.reals('x', 1, -5, 5)
    g = TrOchi(skew=sk)
    g.dat2gauss(x)
    setattr(g, what, v)
    new = TrOchi(skew=sk, **{what: v})
    h.eq(g.dat2gauss(x), new.dat2gauss(x), 'changed ' + what)
    g = TrOchi(skew=sk)
    y = h.arr([h.real('y', -0.8, 0.8)])
    g.gauss2dat(y)
    setattr(g, what, v)
    h.eq(g.gauss2dat(y), new.gauss2dat(y), 'inverse, changed ' + what)


def grid(h, given):
    """trdata tabulates the transform from 5 standard deviations below to 5 above the mean"""
    from wafo.transform.models import TrLinear, TrOchi
    m, s = h.real('m', -3, 3), h.real('s', 0.5, 3)
    g = TrOchi(mean=m, sigma=s, skew=0.5) if given else TrLinear(mean=m, sigma=s)
    kw = {} if given is None else given
    t = g.trdata(**kw)
    lo, hi, n = kw.get('xnmin', -5), kw.get('xnmax', 5), kw.get('n', 513)
    h.check(len(t.args) == n and len(t.data) == n, 'number of points')
    for i in sorted({0, 1, n // 3, n // 2, n - 2, n - 1}):
        x = m + s * (lo + (hi - lo) * i / (n - 1))
        h.eq(t.args[i], x, 'argument', tol=1e-9)
        h.eq(t.data[i], g.dat2gauss(h.arr([x]))[0], 'transform', tol=1e-6)
    h.eq(t.mean, m, 'mean')
    h.eq(t.sigma, s, 'standard deviation')


def refresh(h):
    """a changed mean or standard deviation is used by the next transformation"""
    from wafo.transform.models import TrOchi
    m, s, x = h.real('m', -3, 3), h.real('s', 0.5, 3), h.reals('x', 1, -5, 5)
    g = TrOchi(skew=0.5)
    g.dat2gauss(x)
    g.mean, g.sigma = m, s
    h.eq(g.dat2gauss(x), TrOchi(mean=m, sigma=s, skew=0.5).dat2gauss(x), 'changed statistics')


def coeffs(h, model, fixed):
    """c3, c4 of the documented parametrisations"""
    skew = h.real('skew', -0.6, 0.6) if fixed[0] is None else fixed[0]
    if model == 'hard':
        kurt = h.real('kurt', 1.5, 2.9) if fixed[1] is None else fixed[1]
        return skew, kurt, skew / 6, (kurt - 3) / 24
    if model == 'quad':
        return skew, 3.0, skew / 6, 0.0
    if fixed[1] == 'c':           # chosen so that c3 and c4 are free
        c4 = h.real('c4', 0.01, 0.25)
        c3 = h.real('c3', -0.2, 0.2)
        return 6 * c3 * (1 + 6 * c4), 3 + ((18 * c4 + 1) ** 2 - 1) / 1.5, c3, c4
    kurt = h.real('kurt', 3.1, 8) if fixed[1] is None else fixed[1]
    h.assume(skew * skew <= (kurt - 3) / 2)
    import numpy as np
    ex = kurt - 3
    if model == 'w88':
        c4 = (np.sqrt(1 + 1.5 * ex) - 1) / 18
        return skew, kurt, skew / (6 * (1 + 6 * c4)), c4
    c3 = skew / 6 * (1 - 0.015 * abs(skew) + 0.3 * skew ** 2) / (1 + 0.2 * ex)
    c41 = (1 - 1.43 * skew ** 2 / ex) ** (1 - 0.1 * (ex + 3) ** 0.8)
    return skew, kurt, c3, 0.1 * ((1 + 1.25 * ex) ** (1.0 / 3) - 1) * c41


def hermite(h, model, way, fixed=(None, None)):
    from wafo.transform.models import TrHermite
    import numpy as np
    skew, kurt, c3, c4 = coeffs(h, model, fixed)
    s = stats(h) if way == 'poly' else dict(mean=1.0, sigma=2.0, ymean=0.0, ysigma=1.0)
    x = h.real('x', -6, 6)
    if model in ('w88', 'w94'):
        h.assume(c4 > 1e-4)
        h.assume(9 * c4 * c4 + c3 * c3 - 3 * c4 < -1e-3)          # strictly increasing
    if model == 'hard':
        h.assume(c3 * c3 + 3 * c4 + 9 * c4 * c4 < -1e-3)
    g = TrHermite(skew=skew, kurt=kurt, pardef=2 if model == 'w88' else 1, **s)
    f, inv = (g.dat2gauss, g.gauss2dat) if model == 'hard' else (g.gauss2dat, g.dat2gauss)
    ain, bin_, aout, bout = [s[k] for k in (('mean', 'sigma', 'ymean', 'ysigma') if model == 'hard' else ('ymean', 'ysigma', 'mean', 'sigma'))]
    u = ain + bin_ * x
    if way == 'poly':
        got = f(h.arr([u]))[0]
        if model == 'hard':
            e = x - c3 * (x * x - 1) - c4 * (x ** 3 - 3 * x)
            h.eq(got, aout + bout * e, 'documented polynomial')
        else:
            K = np.sqrt(1 + 2 * c3 ** 2 + 6 * c4 ** 2)
            h.eq((got - aout) * K, bout * (x + c3 * (x * x - 1) + c4 * (x ** 3 - 3 * x)), 'documented polynomial')
    else:
        # the inverse, applied to any value, is a root of the polynomial
        v = inv(h.arr([aout + bout * x]))[0]
        r = (v - ain) / bin_
        if model == 'hard':
            h.eq(r - c3 * (r * r - 1) - c4 * (r ** 3 - 3 * r), x, 'inverse of the polynomial')
        else:
            K = np.sqrt(1 + 2 * c3 ** 2 + 6 * c4 ** 2)
            h.eq(r + c3 * (r * r - 1) + c4 * (r ** 3 - 3 * r), K * x, 'inverse of the polynomial')


def branches(h, skew, kurt):
    """hardening models that are not monotone everywhere: the inverse on the branch through the origin"""
    from wafo.transform.models import TrHermite
    s = stats(h)
    c3, c4 = skew / 6, (kurt - 3) / 24
    g = TrHermite(skew=skew, kurt=kurt, mean=s['mean'], sigma=s['sigma'])
    ys = [-0.4, -0.2, 0.0, 0.3]
    v = tolist(g.gauss2dat(h.arr(ys)))
    for y, x in zip(ys, v):
        r = (x - s['mean']) / s['sigma']
        h.eq(r - c3 * (r * r - 1) - c4 * (r ** 3 - 3 * r), y, 'root of the polynomial')
        h.check(abs(r) < 1.5, 'the root next to the mean')


def gaussian(h):
    """skewness 0 and kurtosis 3: the identity between the standardised worlds"""
    from wafo.transform.models import TrHermite
    s, x = stats(h), h.real('x', -6, 6)
    g = TrHermite(skew=0.0, kurt=3.0, **s)
    h.eq((g.dat2gauss(h.arr([x]))[0] - s['ymean']) * s['sigma'], (x - s['mean']) * s['ysigma'], 'forward')
    h.eq((g.gauss2dat(h.arr([x]))[0] - s['mean']) * s['ysigma'], (x - s['ymean']) * s['sigma'], 'backward')


def distance(h, n):
    """distance to the Gaussian transform"""
    from wafo.transform.models import TrLinear, TrOchi
    s = stats(h)
    x = h.arr([s['mean'] + s['sigma'] * v for v in (-2.0, -1.0, 0.5, 2.0)])
    h.eq(TrLinear(**s).dist2gauss(x), 0.0, 'a linear transform is Gaussian')
    g = TrOchi(skew=0.5, **s)
    yn = [(v - s['ymean']) / s['ysigma'] for v in tolist(g.dat2gauss(x))]
    xn = [-2.0, -1.0, 0.5, 2.0]
    e = [(a - b) ** 2 for a, b in zip(xn, yn)]
    d = 0.0
    for i in range(3):
        d = d + (e[i] + e[i + 1]) / 2 * (xn[i + 1] - xn[i])
    h.eq(g.dist2gauss(x), d, 'mean square distance')
    td = TrLinear(**s).trdata(x)
    for i in range(4):
        h.eq(tolist(td.data)[i], xn[i], 'tabulated transform')
        h.eq(tolist(td.args)[i], x[i], 'tabulated arguments')


def cases(tier):
    out = [Case('linear-n2', linear, '2 values', n=2, deriv=0), Case('linear-d2', linear, '1 value, 2 derivatives', n=1, deriv=2),
           Case('linear-var', linear_var, 'mean and variance')]
    for sk in (0, 0.16, -0.5, 1.0, 2.5):
        out.append(Case('ochi%+g' % sk, ochi, 'any value, fixed skewness', sk=sk, n=1))
    out.append(Case('ochi-n2', ochi, '2 values, fixed skewness', sk=0.7, n=2))
    out.append(Case('ochi-abs', ochi, 'offset of the transform', sk=0.7, n=1, absolute=True))
    out.append(Case('ochi-limit', ochi_limit, 'skewness beyond 2.83'))
    out.append(Case('refresh', refresh, 'changed mean and standard deviation'))
    out += [Case('refresh-' + w, one_changed, 'changed ' + w, what=w, sk=0.5) for w in ('mean', 'sigma')]
    out += [Case('grid-%d' % len(g or ()), grid, 'any mean and standard deviation', given=g) for g in (dict(n=7), dict(xnmin=-2, n=5), dict(xnmin=-1, xnmax=3, n=9))]
    out.append(Case('grid-default', grid, 'any mean and standard deviation', given=None))
    out += [Case('scale-' + w, scale, 'any scaling', way=w) for w in ('forward', 'backward')]
    for m in ('hard', 'w88'):
        out.append(Case('hermite-%s-poly' % m, hermite, 'any monotone model', model=m, way='poly'))
    for f in ((0.2, 3.5), (-0.4, 4.5), (0.0, 6.0), (0.6, 7.5)):
        out.append(Case('hermite-w94-poly%g,%g' % f, hermite, 'skewness %g, kurtosis %g, any value' % f, model='w94', way='poly', fixed=f))
    for f in ((0.0, 0.6), (0.3, 1.5), (0.6, 1.8)):
        out.append(Case('hermite-hard-inv%g,%g' % f, hermite, 'skewness %g, kurtosis %g, any value' % f, model='hard', way='inv', fixed=f, budget=100))
    for c3, c4 in ((0.0, 8 / 95), (1 / 13, 3 / 13), (-2 / 25, 4 / 25)):        # 1 + 2*c3**2 + 6*c4**2 is a square
        f = (6 * c3 * (1 + 6 * c4), 3 + ((18 * c4 + 1) ** 2 - 1) / 1.5)
        out.append(Case('hermite-w88-inv%.3g,%.3g' % f, hermite, 'skewness %g, kurtosis %g, any value' % f, model='w88', way='inv', fixed=f, budget=100))
    for f in ((1.5, 2.9), (-1.2, 2.95), (0.5, 3.0)):
        out.append(Case('branches%g,%g' % f, branches, 'fixed values, any mean and standard deviation', skew=f[0], kurt=f[1]))
    out.append(Case('hermite-gauss', gaussian, 'skewness 0, kurtosis 3'))
    out.append(Case('distance', distance, '4 points', n=4))
    return out
