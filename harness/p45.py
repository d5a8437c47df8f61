"""Distributions and start values defined by wafo.stats itself (wafo.stats.distributions)."""
from vsym.runner import Case
from .common import either
PROPERTY = 'P45'
MODULES = ['wafo.stats.distributions']
OUTSIDE = ('distributions inherited from scipy.stats; the Fourier sum for the probabilities of pbinom (here they are given); start values that come from root finding or scipy; '
           'location and scale (scipy.stats); rounding')
ASSUMPTIONS = ['exp, log, gammaln, erfcx and exp1 are the exact functions (uninterpreted apart from their algebra)']


def trunc(h, what):
    import numpy as np
    import scipy.special as sc
    from wafo.stats import distributions as d
    D = d.truncrayleigh
    exp, log = np.exp, np.log
    if what == 'density':
        c, r = h.real('c', 0, 5), h.real('r', 0.01, 5)
        g = r * (r + 2 * c) / 2
        h.eq(D._pdf(r, c), (r + c) * exp(-g), 'pdf', tol=1e-9)
        h.eq(D._logpdf(r, c), log(r + c) - g, 'logpdf', tol=1e-9)
        h.eq(D._cdf(r, c), 1 - exp(-g), 'cdf', tol=1e-9)
        h.eq(D._sf(r, c), exp(-g), 'sf', tol=1e-9)
        h.eq(D._logsf(r, c), -g, 'logsf', tol=1e-9)
    elif what == 'inverse':
        c, q = h.real('c', 0, 5), h.real('q', 0.001, 0.999)
        r = D._ppf(q, c)
        h.check(r >= 0, 'inside the support')
        h.eq(r * (r + 2 * c) / 2, -log(1 - q), 'survival at the quantile', tol=1e-7)
    elif what == 'array':
        c = h.real('c', 0, 5)
        r = [h.real('r%d' % i, 0.01, 5) for i in range(2)]
        for f in (D._pdf, D._cdf, D._sf, D._logpdf):
            v = f(h.arr(r), c)
            for i in range(2):
                h.eq(v[i], f(r[i], c), 'elementwise', tol=1e-12)
    elif what == 'support':
        c = h.real('c', -2, 2)
        h.check(bool(D._argcheck(c)) == bool(c >= 0), 'shape')
    elif what == 'moments':
        c = h.real('c', 0, 5)
        m = np.sqrt(np.pi / 2) * (E(h, 'erfcx', c / np.sqrt(2.0)))
        E2 = 2 * (1 - c * m)
        E3 = 3 * (m - c * (1 - c * m))
        E4 = 4 * (2 * (1 - c * m) - c * (m - c * (1 - c * m)))
        var = E2 - m * m
        h.assume(var > 1e-3)
        got = D._stats(c)
        if got[0] is not None:
            from math import pi, sqrt
            ray = [sqrt(pi / 2), 2 - pi / 2, 2 * (pi - 3) * sqrt(pi) / (4 - pi) ** 1.5, 6 * pi / (4 - pi) - 16 / (4 - pi) ** 2]
            either(h, got[0], m, ray[0], 'mean', 1e-9)
            either(h, got[1], var, ray[1], 'variance', 1e-9)
            if got[2] is not None:
                either(h, got[2] * var ** 1.5, E3 - 3 * m * E2 + 2 * m ** 3, ray[2] * var ** 1.5, 'skewness', 1e-7)
            if got[3] is not None:
                either(h, (got[3] + 3) * var ** 2, E4 - 4 * m * E3 + 6 * m * m * E2 - 3 * m ** 4, (ray[3] + 3) * var ** 2, 'kurtosis', 1e-7)
        h.known('K45b')
        if got[0] is None:
            mom = [None] + [D._munp(k, c) for k in (1, 2, 3, 4)]
            for k, e in ((1, m), (2, E2), (3, E3), (4, E4)):
                h.eq(mom[k], e, 'moment %d' % k, tol=1e-7)
        else:
            h.eq(got[0], m, 'mean', tol=1e-7)
            h.eq(got[1], var, 'variance', tol=1e-7)
            if got[2] is not None:
                h.eq(got[2] * var ** 1.5, E3 - 3 * m * E2 + 2 * m ** 3, 'skewness', tol=1e-6)
            if got[3] is not None:
                h.eq((got[3] + 3) * var ** 2, E4 - 4 * m * E3 + 6 * m * m * E2 - 3 * m ** 4, 'kurtosis', tol=1e-6)
    else:
        c = h.real('c', 0.1, 8)
        x = c * c / 2
        h.eq(D._entropy(c), 1 - log(c) - 0.5 * exp(x) * E(h, 'exp1', x), 'entropy', tol=1e-7)


def E(h, name, x):
    import scipy.special as sc
    if h.sym:
        from vsym import nparr as N
        return N.SPECIAL[name](x)
    return getattr(sc, name)(x)


def trunc0(h):
    """c = 0 is the Rayleigh distribution"""
    import numpy as np
    import scipy.stats as ss
    from wafo.stats import distributions as d
    r = h.real('r', 0.01, 5)
    D = d.truncrayleigh
    h.eq(D._pdf(r, 0.0), r * np.exp(-r * r / 2), 'pdf', tol=1e-9)
    h.eq(D._cdf(r, 0.0), 1 - np.exp(-r * r / 2), 'cdf', tol=1e-9)
    for a, b in zip(D.stats(0.0, moments='mvsk'), ss.rayleigh.stats(moments='mvsk')):
        h.check(abs(float(a) - float(b)) < 1e-9, 'moments')
    h.check(abs(float(D.entropy(0.0)) - float(ss.rayleigh.entropy())) < 1e-9, 'entropy')


def poisson_binomial(h, n, kind):
    """cdf, sf and pmf of given probabilities of the number of successes"""
    from wafo.stats import distributions as d
    w = [h.real('w%d' % i, 0, 1) for i in range(n)]
    w.append(1 - sum(w))
    h.assume(w[-1] >= 0)
    saved = d.pbinom._fft_pmf
    d.pbinom._fft_pmf = lambda self, m: h.arr(w)
    try:
        P = d.pbinom([0.5] * n)
    finally:
        d.pbinom._fft_pmf = saved
    if kind == 'real':
        x = h.real('x', 0, n)
        h.assume(x < n)
        k = 0
        while bool(x >= k + 1):
            k += 1
        pts = [(x, k)]
    else:
        pts = [(k, k) for k in range(n)]
    for x, k in pts:
        c = P._cdf(h.arr([x]) if kind == 'array' else x)
        s = P._sf(h.arr([x]) if kind == 'array' else x)
        if kind == 'array':
            c, s = c[0], s[0]
        h.eq(c, sum(w[:k + 1]), 'cdf at %d' % k, tol=1e-9)
        h.eq(s, sum(w[k + 1:]), 'sf at %d' % k, tol=1e-9)
        if kind != 'real':
            p = P._pmf(h.arr([x]) if kind == 'array' else x)
            h.eq(p[0] if kind == 'array' else p, w[k], 'pmf at %d' % k)


def pstats(h, n):
    """mean, variance, skewness and kurtosis of a sum of independent trials"""
    from wafo.stats import distributions as d
    p = [h.real('p%d' % i, 0.05, 0.95) for i in range(n)]
    saved = d.pbinom._fft_pmf
    d.pbinom._fft_pmf = lambda self, m: h.arr([1.0 / (n + 1)] * (n + 1))
    try:
        P = d.pbinom(h.arr(p))
    finally:
        d.pbinom._fft_pmf = saved
    m, v, g1, g2 = P._stats()
    V = sum(q * (1 - q) for q in p)
    h.eq(m, sum(p), 'mean', tol=1e-9)
    h.eq(v, V, 'variance', tol=1e-9)
    h.eq(g1 * g1 * V ** 3, sum(q * (1 - q) * (1 - 2 * q) for q in p) ** 2, 'skewness', tol=1e-7)
    k3 = sum(q * (1 - q) * (1 - 2 * q) for q in p)
    h.check(h.any([g1 * k3 > 0, h.all([k3 <= 1e-9, k3 >= -1e-9])]), 'sign of the skewness')
    h.eq(g2 * V * V, sum(q * (1 - q) * (1 - 6 * q * (1 - q)) for q in p), 'kurtosis', tol=1e-7)


def local_pmf(h, n):
    """brute force probabilities"""
    from wafo.stats import distributions as d
    import itertools
    p = [h.real('p%d' % i, 0, 1) for i in range(n)]
    saved = d.pbinom._fft_pmf
    d.pbinom._fft_pmf = lambda self, m: h.arr([1.0 / (n + 1)] * (n + 1))
    try:
        P = d.pbinom(h.arr(p))
    finally:
        d.pbinom._fft_pmf = saved
    for k in range(n + 1):
        ref = 0
        for c in itertools.product((0, 1), repeat=n):
            if sum(c) == k:
                t = 1.0
                for b, q in zip(c, p):
                    t = t * (q if b else 1 - q)
                ref = ref + t
        h.eq(P._local_pmf(k), ref, 'probability of %d' % k, tol=1e-7)


def prange(h):
    from wafo.stats import distributions as d
    q = h.real('q', -1, 2)
    h.assume(h.any([q < -0.01, q > 1.01]))
    h.raises(ValueError, lambda: d.pbinom(h.arr([0.5, q])), 'probability outside [0, 1]')


def moments(h, data):
    n = len(data)
    m = sum(data) / n
    return m, sum((v - m) ** 2 for v in data) / n


def start(h, dist, n):
    """start values by moments, without changing the data"""
    import numpy as np
    from wafo.stats import distributions as d
    lo = 1 if dist in ('weibull_min', 'lognorm') else -3
    x = [h.real('x%d' % i, lo, 4) for i in range(n)]
    a = h.arr(x)
    h.assume(h.any([x[0] - x[1] > 0.25, x[1] - x[0] > 0.25]))
    if dist == 'genextreme':
        m = sum(x) / n
        s = sort(x)
        b1 = sum(s[j] * j for j in range(n)) / (n * (n - 1.0))
        b2 = sum(s[j] * j * (j - 1) for j in range(n)) / (n * (n - 1.0) * (n - 2.0))
        h.assume(3 * b2 - m > 0.05)
        z = (2 * b1 - m) / (3 * b2 - m) - np.log(2.0) / np.log(3.0)
        h.assume(h.any([z > 0.01, h.all([z < -0.01, z > -0.1])]))
    r = getattr(d, dist)._fitstart(a)
    for i in range(n):
        h.eq(a[i], x[i], 'data not modified')
    m, v = moments(h, x)
    if dist == 'genpareto':
        c, loc, scale = r
        h.check(loc < min(x), 'location below the data')
        M = m - loc
        h.check(scale > 0, 'scale positive')
        h.eq(2 * scale * v, M * (M * M + v), 'scale', tol=1e-6)
        h.eq(4 * c * c * v * v, (M * M - v) ** 2, 'size of the shape', tol=1e-6)
        h.known('K45a')
        h.eq(scale, M * (1 - c), 'mean', tol=1e-7)
        h.eq(scale * scale, v * (1 - c) ** 2 * (1 - 2 * c), 'variance', tol=1e-6)
    elif dist == 'genextreme':
        from scipy.special import gamma
        c, loc, scale = r
        h.eq(c, 7.8590 * z + 2.9554 * z * z, 'shape', tol=1e-7)
        G = np.exp(E(h, 'gammaln', 1 + c))
        h.eq(scale, (2 * b1 - m) * c / (G * (1 - 2 ** (-c))), 'scale', tol=1e-6)
        h.eq(loc, m + scale * (G - 1) / c, 'location', tol=1e-6)
    elif dist == 'weibull_min':
        c, loc, scale = r
        h.eq(loc, min(x) - 0.01, 'location', tol=1e-9)
        L = [np.log(t - loc) for t in x]
        ml, vl = moments(h, L)
        h.eq(c * c * vl * 6, np.pi ** 2, 'spread of the logarithm', tol=1e-6)
    elif dist == 'lognorm':
        s, loc, scale = r
        h.eq(loc, min(x) - 0.001, 'location', tol=1e-9)
        L = [np.log(t - loc) for t in x]
        ml, vl = moments(h, L)
        h.eq(s * s, vl, 'spread of the logarithm', tol=1e-6)


def sort(x):
    x = list(x)
    for i in range(len(x)):
        for j in range(i, 0, -1):
            if bool(x[j] < x[j - 1]):
                x[j], x[j - 1] = x[j - 1], x[j]
    return x


def cases(tier):
    out = []
    for w in ('density', 'inverse', 'array', 'support', 'moments', 'entropy'):
        out.append(Case('truncrayleigh-' + w, trunc, 'every shape and value', what=w))
    out.append(Case('truncrayleigh-0', trunc0, 'shape 0'))
    for n in (1, 2, 4):
        for kind in ('int', 'array', 'real'):
            out.append(Case('pbinom-%d-%s' % (n, kind), poisson_binomial, '%d trials' % n, n=n, kind=kind))
    for n in (1, 2, 3):
        out.append(Case('pstats-%d' % n, pstats, '%d trials' % n, n=n))
        out.append(Case('local-%d' % n, local_pmf, '%d trials' % n, n=n))
    out.append(Case('probabilities', prange, 'every value'))
    for dist, n in (('genpareto', 2), ('genpareto', 3), ('genextreme', 3), ('weibull_min', 2), ('lognorm', 2)):
        out.append(Case('start-%s-%d' % (dist, n), start, '%d values' % n, dist=dist, n=n))
    return out
