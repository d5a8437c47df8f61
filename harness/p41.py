"""Criteria, covariance, confidence intervals and profiles of fitted distributions (wafo.stats)."""
from vsym.runner import Case
from vsym.cinterp import clib
PROPERTY = 'P41'
MODULES = ['wafo.stats.estimation', 'wafo.stats._distn_infrastructure', 'wafo.misc']
OUTSIDE = ('whether the optimiser reaches the optimum (P50: here it is either replaced by one that returns any values, or exact because the criterion is quadratic); '
           'criteria that are not quadratic (covariance and profile); the search for the end points of a profile; plots; rounding')
ASSUMPTIONS = ['optimize.minimize finds the minimum of a quadratic criterion (replaced by its vertex)', 'log and chdtrc are uninterpreted', 'numpy.linalg.pinv inverts a nonsingular matrix']


def prepare(sym):
    if sym:
        import wafo.misc
        wafo.misc.clib = None


def make(names, crit=None, start=None, mps=None):
    """a distribution whose criteria are given functions of the parameters"""
    import wafo.stats as ws
    from scipy.stats import rv_continuous

    class Dist(rv_continuous):
        def _pdf(self, x, *args):
            return x * 0 + 1.0

        def _argcheck(self, *args):
            return True
    if crit is not None:
        Dist._penalized_nnlf = lambda self, theta, x: crit(list(theta), x)
        Dist._penalized_nlogps = lambda self, theta, x: (mps or crit)(list(theta), x)
    if start is not None:
        Dist._fitstart = lambda self, data, args=None: tuple(start)
    return Dist(name='quad', shapes=', '.join(names) if names else None)


def reduced(h, names, fixed, spell, method, given):
    """fixed parameters stay, the others are what the optimiser returns, and the optimiser sees the criterion with the fixed values in place"""
    n = len(names) + 2
    data = [h.real('x%d' % i, -3, 3) for i in range(2)]
    start = [h.real('s%d' % i, 0.5, 3) for i in range(n)]
    val = [h.real('f%d' % i, -3, 3) for i in range(n)]
    res = [h.real('r%d' % i, -3, 3) for i in range(n)]
    arg = [h.real('a%d' % i, -3, 3) for i in range(n)]
    w = [2.0, 3.0, 5.0, 7.0, 11.0][:n]

    def crit(k):
        return lambda theta, x: k * sum(wi * t for wi, t in zip(w, theta)) + 13 * x[0] + 17 * x[1]
    dist = make(names, crit(1.0), start, crit(-1.0))
    key = {'num': ['f%d' % i for i in range(n - 2)], 'name': ['f' + s for s in names], 'fix': ['fix_' + s for s in names]}[spell] + ['floc', 'fscale']
    kw = {key[i]: val[i] for i in fixed}
    args = arg[:given] if given < 10 else arg[:n - 2]
    if given >= 10:
        kw.update(loc=arg[n - 2], scale=arg[n - 1])
    if method:
        kw['method'] = method
    x0 = (arg[:given] + start[given:]) if given < 10 else list(arg)
    free = [i for i in range(n) if i not in fixed]
    want = [val[i] if i in fixed else res[i] for i in range(n)]
    seen = []

    def optimizer(func, start, args=(), **opts):
        seen.append(1)
        h.check(len(start) == len(free), 'number of free parameters')
        for s, i in zip(start, free):
            h.eq(s, x0[i], 'start value of parameter %d' % i, tol=1e-12)
        k = -1.0 if method and method.lower().startswith('mps') else 1.0
        h.eq(func([res[i] for i in free], *args), crit(k)(want, data), 'criterion', tol=1e-9)
        h.eq(func([-res[i] for i in free], *args), crit(k)([val[i] if i in fixed else -res[i] for i in range(n)], data), 'criterion a second time', tol=1e-9)
        out = [res[i] for i in free]
        return tuple([out] + [0] * 4)
    r = dist.fit1(h.arr(data), *args, optimizer=optimizer, **kw)
    h.check(len(seen) >= 1, 'optimiser called')
    h.check(len(r) == n, 'number of parameters')
    for i in range(n):
        h.eq(r[i], want[i], 'parameter %d' % i, tol=1e-12)
    r = dist.fit1(h.arr(data), *args, search=False, **kw)
    for i in range(n):
        h.eq(r[i], val[i] if i in fixed else x0[i], 'parameter %d without search' % i, tol=1e-12)


def refuse(h):
    start = [h.real('s%d' % i, 0.5, 3) for i in range(3)]
    dist = make(['c'], lambda t, x: t[0] * t[0] + t[1] * t[1] + t[2] * t[2], start)
    data = h.arr([h.real('x0', -3, 3), h.real('x1', -3, 3)])
    h.raises(ValueError, lambda: dist.fit1(data, fc=1, floc=0, fscale=2), 'all parameters fixed')
    h.raises(ValueError, lambda: dist.fit1(data, fc=1, f0=1), 'parameter fixed twice')
    h.raises(TypeError, lambda: dist.fit1(data, 1, 2, 3, 4), 'too many parameters')
    h.raises(TypeError, lambda: dist.fit1(data, nonsense=1), 'unknown argument')
    h.raises(ValueError, lambda: dist.fit1(data, optimizer='nonsense'), 'unknown optimiser')


def byname(h, opt):
    """an optimiser given by its name"""
    import scipy.optimize as so
    start = [1.0, 2.0, 3.0]
    res = [h.real('r%d' % i, -3, 3) for i in range(3)]
    dist = make(['c'], lambda t, x: t[0] * t[0] + t[1] * t[1] + t[2] * t[2], start)
    name = opt if opt.startswith('fmin') else 'fmin_' + opt
    real = getattr(so, name)
    setattr(so, name, lambda func, x0, args=(), **kw: (list(res), 0, 0, 0, 0))
    try:
        r = dist.fit1(h.arr([0.5, 1.0]), optimizer=opt)
    finally:
        setattr(so, name, real)
    for i in range(3):
        h.eq(r[i], res[i], 'parameter %d' % i)


def spacing(h, n, sym):
    """minus the log product of the spacings; ties by the density, values outside the support penalised"""
    import numpy as np
    from wafo.stats import _distn_infrastructure as di
    import wafo.stats as ws
    from scipy.stats import rv_continuous
    XMIN, XMAX = np.finfo(float).tiny, np.finfo(float).max

    class Dist(rv_continuous):
        def _pdf(self, x, k):
            return k / (1 + k * x) ** 2

        def cdf(self, x, k):
            return k * x / (1 + k * x)

        def sf(self, x, k):
            return 1 / (1 + k * x)

        def _argcheck(self, k):
            return k > 0
    dist = Dist(name='hyp', shapes='k', a=0.0)
    x = [h.real('x%d' % i, -2, 6) for i in range(n)]
    for i in range(n - 1):
        h.assume(h.any([x[i] == x[i + 1], x[i] + 0.01 <= x[i + 1]]))
    k = h.real('k', 0.25, 2) if 'k' in sym else 1.0
    loc = h.real('loc', -2, 2) if 'loc' in sym else 0.5
    scale = h.real('scale', 0.25, 4) if 'scale' in sym else 2.0
    for v in x:
        h.assume(h.any([v - loc >= 0.01, v - loc <= -0.01]))
    a = h.arr(x)
    r = dist._penalized_nlogps((k, loc, scale), a)
    z = [(v - loc) / scale for v in x]
    inside = [v for v in z if v >= 0]
    F = lambda v: k * v / (1 + k * v)
    prev, tot = None, 0
    for v in inside:
        if prev is not None and bool(v == prev):
            tot = tot - np.log(k / (1 + k * v) ** 2) + np.log(scale)
        else:
            tot = tot - np.log(F(v) - (0.0 if prev is None else F(prev)) + XMIN)
        prev = v
    tot = tot - np.log(1.0 - (0.0 if prev is None else F(prev)) + XMIN)
    tot = tot + 100 * np.log(XMAX) * (n - len(inside))
    h.eq(r, tot, 'criterion', tol=1e-8)
    for i in range(n):
        h.eq(a[i], x[i], 'argument not modified')
    for bad in ((k, loc, -scale), (-k, loc, scale), (k, loc, 0.0)):
        h.check(bool(dist._penalized_nlogps(bad, a) == np.inf), 'impossible parameters')


def quad(A, p0, K):
    n = len(p0)

    def crit(theta, x):
        d = [t - p for t, p in zip(theta, p0)]
        s = K
        for i in range(n):
            for j in range(n):
                s = s + 0.5 * A[i][j] * d[i] * d[j]
        return s
    return crit


def inv(A):
    """inverse of a 1x1, 2x2 or 3x3 symmetric matrix"""
    n = len(A)
    if n == 0:
        return []
    if n == 1:
        return [[1 / A[0][0]]]

    def minor(i, j):
        return [[A[p][q] for q in range(n) if q != j] for p in range(n) if p != i]

    def det(M):
        return M[0][0] if len(M) == 1 else sum((-1) ** j * M[0][j] * det([[r[q] for q in range(len(M)) if q != j] for r in M[1:]]) for j in range(len(M)))
    d = det(A)
    return [[(-1) ** (i + j) * det(minor(j, i)) / d for j in range(n)] for i in range(n)]


def spd(h, n, lo=0.5):
    A = [[0.0] * n for _ in range(n)]
    for i in range(n):
        A[i][i] = h.real('A%d%d' % (i, i), lo, 4)
        for j in range(i):
            A[i][j] = A[j][i] = h.real('A%d%d' % (i, j), -0.2 * lo, 0.2 * lo)
    return A


def freeze(h, crit, par, fixed, method, alpha, names, data=(0.5, 0.25, 0.75), mps=None):
    dist = make(names, crit, par, mps)
    keys = ['f%d' % i for i in range(len(names))] + ['floc', 'fscale']
    kw = {keys[i]: par[i] for i in fixed}
    return dist.fit2(h.arr(list(data)), search=False, method=method, alpha=alpha, **kw)


def covariance(h, names, fixed, method, alpha):
    """covariance = inverse of the curvature of the criterion over the free parameters; normal confidence limits; scores"""
    import numpy as np
    from statistics import NormalDist
    n = len(names) + 2
    A = spd(h, n)
    p0 = [h.real('p%d' % i, 0.5, 3) for i in range(n)]
    K, K2 = h.real('K', -3, 3), h.real('K2', -3, 3)
    a, b = quad(A, p0, K), quad(A, p0, K2)
    ml = method == 'ml'
    data = [0.5, 0.25, 0.75]
    ph = freeze(h, a if ml else b, p0, fixed, method, alpha, names, data, b if ml else a)
    free = [i for i in range(n) if i not in fixed]
    C = inv([[A[i][j] for j in free] for i in free])
    z = NormalDist().inv_cdf(1 - alpha / 2)
    h.eq(ph.LLmax, -(K if ml else K2), 'log likelihood', tol=1e-7)
    h.eq(ph.LPSmax, -(K2 if ml else K), 'log product spacing', tol=1e-7)
    h.eq(ph.fitfun(p0), K, 'criterion of the method', tol=1e-7)
    for i in range(n):
        h.eq(ph.par[i], p0[i], 'parameter %d' % i)
        for j in range(n):
            want = C[free.index(i)][free.index(j)] if i in free and j in free else 0.0
            h.eq(ph.par_cov[i, j], want, 'covariance %d %d' % (i, j), tol=1e-5)
    for i in range(n):
        s = ph.par_cov[i, i]
        h.eq((ph.par_upper[i] - ph.par[i]) ** 2, z * z * s, 'upper limit', tol=1e-5)
        h.eq((ph.par_lower[i] - ph.par[i]) ** 2, z * z * s, 'lower limit', tol=1e-5)
        h.check(ph.par_upper[i] >= ph.par[i], 'order')
        h.check(ph.par_lower[i] <= ph.par[i], 'order')
    srt = sorted(data)
    for i in range(3):
        h.eq(ph.data[i], srt[i], 'data sorted')


def pvalue(h, n, names, fixed):
    """Moran's statistic of the spacings"""
    import numpy as np
    import scipy.special as sp
    m = len(names) + 2
    T = h.real('T', -5, 40)
    p0 = [h.real('p%d' % i, 0.5, 3) for i in range(m)]
    A = [[float(i == j) for j in range(m)] for i in range(m)]
    ph = freeze(h, quad(A, p0, 0.0), p0, fixed, 'ml', 0.05, names, [0.5 * i for i in range(n)], quad(A, p0, T))
    N = n + 1
    mu = N * (np.log(N) + 0.57722) - 0.5 - 1 / (12.0 * N)
    v = N * (np.pi ** 2 / 6 - 1) - 0.5 - 1 / (6.0 * N)
    c1, c2 = mu - np.sqrt(0.5 * n * v), np.sqrt(v / (2.0 * n))
    stat = (T + 0.5 * (m - len(fixed)) - c1) / c2
    if h.sym:
        from vsym import nparr as N_
        h.eq(ph.pvalue, N_.SPECIAL['chdtrc'](n, stat), 'p-value', tol=1e-9)
    else:
        h.eq(ph.pvalue, sp.chdtrc(n, stat), 'p-value', tol=1e-6)


class Opt:
    """scipy.optimize with an exact minimum of a quadratic function of one or two variables"""

    def __init__(self, real):
        self.real = real

    def __getattr__(self, name):
        return getattr(self.real, name)

    @staticmethod
    def minimize(fun, x0, args=(), **kw):
        import types
        n = len(x0)
        import numpy as np
        f = lambda *x: fun(mk(x), *args)
        mk = Opt.h.arr
        mk = (lambda m: lambda x: m([v for v in x]))(mk)
        if n == 0:
            return types.SimpleNamespace(x=mk([]), fun=None)
        c = [2.0, 2.0]
        if n == 1:
            a, b, d = f(c[0] - 1), f(c[0]), f(c[0] + 1)
            return types.SimpleNamespace(x=mk([c[0] - 0.5 * (d - a) / (a - 2 * b + d)]))
        f0 = f(*c)
        g, H = [], [[0, 0], [0, 0]]
        for i in range(2):
            up = f(*[c[k] + (k == i) for k in range(2)])
            lo = f(*[c[k] - (k == i) for k in range(2)])
            g.append(0.5 * (up - lo))
            H[i][i] = up - 2 * f0 + lo
        H[0][1] = H[1][0] = f(c[0] + 1, c[1] + 1) - f(c[0] + 1, c[1]) - f(c[0], c[1] + 1) + f0
        d = H[0][0] * H[1][1] - H[0][1] ** 2
        return types.SimpleNamespace(x=mk([c[0] - (H[1][1] * g[0] - H[0][1] * g[1]) / d, c[1] - (H[0][0] * g[1] - H[1][0] * g[0]) / d]))


def profile(h, names, fixed, i, grid, sym, alpha=0.05, ask=None):
    """profile of a quadratic criterion and its confidence bounds"""
    import numpy as np
    import wafo.stats.estimation as est
    import wafo.misc as wm
    from scipy.special import chdtri
    wm.clib = clib(h)
    n = len(names) + 2
    A = [[(3.0 if r == c else 0.5) for c in range(n)] for r in range(n)]
    if 'A' in sym:
        A[i][i] = h.real('A', 1, 4)
    if 'B' in sym:
        j = [j for j in range(n) if j != i and j not in fixed][0]
        A[i][j] = A[j][i] = h.real('B', -0.5, 0.5)
    p0 = [1.5 + 0.25 * k for k in range(n)]
    if 'p' in sym:
        p0[i] = h.real('p', 1.25, 2.25)
    K = h.real('K', -3, 3)
    ph = freeze(h, quad(A, p0, K), p0, fixed, 'ml', 0.05, names)
    free = [k for k in range(n) if k not in fixed and k != i]
    # curvature of the profile
    S = A[i][i]
    if free:
        Bi = inv([[A[r][c] for c in free] for r in free])
        S = S - sum(A[i][r] * Bi[x][y] * A[i][c] for x, r in enumerate(free) for y, c in enumerate(free))
    lo, hi, m = grid
    pv = [lo + (hi - lo) * k / (m - 1) for k in range(m)]
    want = [-K - 0.5 * S * (p - p0[i]) ** 2 for p in pv]
    start = 0
    if any(bool(p >= p0[i]) for p in pv):
        while not bool(pv[start] >= p0[i]):
            start += 1
    rng = 0.5 * chdtri(1, alpha)
    first = start
    while first > 0:
        first -= 1
        if bool(want[first] < want[start] - rng):
            break
    last = start
    while last < m - 1:
        last += 1
        if bool(want[last] < want[start] - rng):
            break
    real = est.optimize
    Opt.h = h
    est.optimize = Opt(real)
    try:
        pr = est.Profile(ph, i=i, pmin=lo, pmax=hi, n=m, alpha=alpha)
    finally:
        est.optimize = real
    h.check(len(pr.args) == last - first + 1, 'stops where the profile is below the level')
    h.check(len(pr.data) == len(pr.args), 'lengths')
    for k in range(last - first + 1):
        h.eq(pr.args[k], pv[first + k], 'argument', tol=1e-9)
        h.eq(pr.data[k], want[first + k], 'profile', tol=1e-6)
    h.eq(pr.alpha_cross_level, -K - rng, 'level', tol=1e-6)
    q = alpha if ask is None else ask
    level = -K - 0.5 * chdtri(1, q)
    w, a = want[first:last + 1], pv[first:last + 1]
    for v in w:
        h.assume(h.any([v - level > 1e-3, level - v > 1e-3]))
    got = pr.get_bounds(q)
    ups = [k for k in range(len(w) - 1) if bool(w[k] < level) and bool(w[k + 1] > level)]
    dns = [k for k in range(len(w) - 1) if bool(w[k] > level) and bool(w[k + 1] < level)]
    cross = lambda k: a[k] + (a[k + 1] - a[k]) * (level - w[k]) / (w[k + 1] - w[k])
    h.check(len(got) == 2, 'two bounds')
    h.eq(got[0], cross(ups[0]) if ups else lo, 'lower bound', tol=1e-6)
    h.eq(got[1], cross(dns[-1]) if dns else hi, 'upper bound', tol=1e-6)


def link(h, kind, i, sym, grid):
    """profiles of a quantile and of a probability of an exponential distribution with a quadratic criterion"""
    import numpy as np
    import wafo.stats.estimation as est
    import wafo.misc as wm
    from scipy.special import chdtri
    from scipy.stats import rv_continuous
    wm.clib = clib(h)
    A = [[3.0, 0.5], [0.5, 2.0]]
    if sym == 'A':
        A[i][i] = h.real('A', 3 if kind == 'quantile' and i == 1 else 1, 4)
    if sym == 'B':
        A[0][1] = A[1][0] = h.real('B', -0.5, 0.5)
    p0 = [0.5, 1.5]
    K = h.real('K', -3, 3)
    crit = quad(A, p0, K)

    class Dist(rv_continuous):
        def _logsf(self, x):
            return -x

        def _sf(self, x):
            return np.exp(-x)

        def _isf(self, q):
            return -np.log(q)

        def _cdf(self, x):
            return -np.expm1(-x)

        def _penalized_nnlf(self, theta, x):
            return crit(list(theta), x)

        def _penalized_nlogps(self, theta, x):
            return crit(list(theta), x)

        def _fitstart(self, data, args=None):
            return tuple(p0)
    ph = Dist(name='expon', a=0.0).fit2(h.arr([0.75, 0.5, 1.0]), search=False)
    x0 = 3.5
    l0 = -(x0 - p0[0]) / p0[1]
    lo, hi, m = grid
    pv = [lo + (hi - lo) * k / (m - 1) for k in range(m)]
    Ci = inv(A)
    want = []
    for p in pv:
        x, L = (p, -l0) if kind == 'quantile' else (x0, -p)
        g = [1.0, L]
        var = sum(g[r] * Ci[r][c] * g[c] for r in range(2) for c in range(2))
        want.append(-K - 0.5 * (x - p0[0] - L * p0[1]) ** 2 / var)
    p_opt = x0 if kind == 'quantile' else l0
    start = [k for k in range(m) if pv[k] >= p_opt - 1e-12][0]
    rng = 0.5 * chdtri(1, 0.05)
    first = last = start
    while first > 0:
        first -= 1
        if bool(want[first] < want[start] - rng):
            break
    while last < m - 1:
        last += 1
        if bool(want[last] < want[start] - rng):
            break
    real = est.optimize
    Opt.h = h
    est.optimize = Opt(real)
    try:
        if kind == 'quantile':
            pr = ph.profile_quantile(x0, i=i, pmin=lo, pmax=hi, n=m)
        else:
            pr = ph.profile_probability(l0, i=i, pmin=lo, pmax=hi, n=m)
    finally:
        est.optimize = real
    h.check(len(pr.args) == last - first + 1, 'stops where the profile is below the level')
    for k in range(last - first + 1):
        h.eq(pr.args[k], pv[first + k], 'argument', tol=1e-9)
        h.eq(pr.data[k], want[first + k], 'profile', tol=1e-6)


def interval(h, which):
    """confidence intervals are those of the profile of that quantity, index and level"""
    import types
    import numpy as np
    p0 = [1.0, 2.0, 3.0]
    A = [[float(r == c) for c in range(3)] for r in range(3)]
    ph = freeze(h, quad(A, p0, 0.0), p0, (), 'ml', 0.05, ['c'])
    vals = [h.real('v%d' % k, 0.1, 0.9) for k in range(2)]
    for alpha, i in ((None, None), (0.01, 1), (0.2, 0)):
        kw = {}
        if alpha is not None:
            kw = dict(alpha=alpha, i=i)
        a, idx = alpha or 0.05, 2 if i is None else i

        def prof(tag):
            def f(value, **k):
                h.check(k.get('i') == idx, 'index')
                h.check(k.get('alpha', 0.05) <= a, 'profile reaches the level')

                def bounds(alpha=0.05):
                    h.check(alpha == a, 'level')
                    return value * 2 + tag, value * 3 + tag
                return types.SimpleNamespace(get_bounds=bounds)
            return f
        ph.profile_quantile, ph.profile_probability = prof(0.0), prof(100.0)
        r = getattr(ph, which)(h.arr(vals), **kw)
        h.check(np.shape(r) == (2, 2), 'shape')
        for k, v in enumerate(vals):
            if which == 'ci_quantile':
                lo, hi = v * 2, v * 3
            elif which == 'ci_logsf':
                lo, hi = v * 2 + 100, v * 3 + 100
            else:
                lo, hi = np.exp(2 * np.log(v) + 100.0), np.exp(3 * np.log(v) + 100.0)
            h.eq(r[k, 0], lo, 'lower', tol=1e-9)
            h.eq(r[k, 1], hi, 'upper', tol=1e-9)
        one = getattr(ph, which)(vals[0], **kw)
        h.eq(one[0, 0], r[0, 0], 'scalar', tol=1e-9)


def automatic(h, which, i, n, alpha):
    """without pmin and pmax the profile reaches the level on both sides of the optimum; the default level is 5 per cent"""
    import numpy as np
    import wafo.stats.estimation as est
    import wafo.misc as wm
    from scipy.special import chdtri
    wm.clib = clib(h)
    A = [[3.0, 0.5], [0.5, 2.0]] if which != 'flat' else [[0.002, 0.0], [0.0, 2.0]]
    if which == 'sharp':
        A = [[5e4, 0.0], [0.0, 2.0]]
    p0 = [h.real('p', -3, 3), 1.5] if i == 0 else [0.5, h.real('p', 1.25, 2.25)]
    K = h.real('K', -3, 3)
    ph = freeze(h, quad(A, p0, K), p0, (), 'ml', 0.05, [])
    C = inv(A)
    real = est.optimize
    Opt.h = h
    est.optimize = Opt(real)
    try:
        kw = {} if alpha is None else dict(alpha=alpha)
        pr = ph.profile(i=i, n=n, **kw) if which != 'class' else est.Profile(ph, i=i, n=n, **kw)
    finally:
        est.optimize = real
    a = alpha or 0.05
    rng = 0.5 * chdtri(1, a)
    h.check(pr.alpha == a, 'confidence coefficient')
    h.eq(pr.alpha_cross_level, -K - rng, 'level', tol=1e-6)
    for k in range(len(pr.args)):
        if k:
            h.check(pr.args[k] > pr.args[k - 1], 'arguments increase')
        h.eq(pr.data[k], -K - 0.5 * (pr.args[k] - p0[i]) ** 2 / C[i][i], 'profile', tol=1e-6)
    h.check(h.any([h.all([v - p0[i] <= 1e-9, p0[i] - v <= 1e-9]) for v in list(pr.args)]), 'optimum among the arguments')
    got = pr.get_bounds() if alpha is None else pr.get_bounds(a)
    half = np.sqrt(2 * rng * C[i][i])
    for g, s in zip(got, (-1, 1)):
        h.le(s * (g - p0[i]), half * 1.001, 'bound inside the exact one (a chord of a concave function)')
        h.le(half * 0.85, s * (g - p0[i]), 'bound close to the exact one')


def crossings(h, n):
    """bounds of any profile: first up-crossing and last down-crossing of the level"""
    import numpy as np
    import wafo.stats.estimation as est
    import wafo.misc as wm
    from scipy.special import chdtri
    wm.clib = clib(h)
    A = [[3.0, 0.5], [0.5, 2.0]]
    ph = freeze(h, quad(A, [0.5, 1.5], 0.0), [0.5, 1.5], (), 'ml', 0.05, [])
    real = est.optimize
    Opt.h = h
    est.optimize = Opt(real)
    try:
        pr = est.Profile(ph, i=0, pmin=-1.0, pmax=2.0, n=4)
    finally:
        est.optimize = real
    rng = 0.5 * chdtri(1, 0.05)
    y = [h.real('y%d' % k, -6, 0) for k in range(n)]
    level = pr.profile_max - rng
    for v in y:
        h.assume(h.any([v - level > 0.01, level - v > 0.01]))
    h.assume(h.all([y[0] < level, y[-1] < level]))
    x = [-1.0 + 0.5 * k for k in range(n)]
    pr.data, pr.args = h.arr(y), h.arr(x)
    up = [k for k in range(n - 1) if bool(y[k] < level) and bool(y[k + 1] > level)]
    dn = [k for k in range(n - 1) if bool(y[k] > level) and bool(y[k + 1] < level)]
    got = pr.get_bounds()
    c = lambda k: x[k] + (x[k + 1] - x[k]) * (level - y[k]) / (y[k + 1] - y[k])
    if up:
        h.eq(got[0], c(up[0]), 'lower bound: first crossing', tol=1e-6)
        h.eq(got[1], c(dn[-1]), 'upper bound: last crossing', tol=1e-6)
    else:
        h.eq(got[0], -1.0, 'no crossing: pmin')
        h.eq(got[1], 2.0, 'no crossing: pmax')


def cases(tier):
    out = []
    for names, fixed in (([], ()), ([], (0,)), ([], (1,)), (['c'], ()), (['c'], (0,)), (['c'], (1,)), (['c'], (2,)), (['c'], (0, 2)), (['c'], (0, 1)), (['c'], (1, 2)), (['c', 'd'], (1,)), (['c', 'd'], (0, 3))):
        t = '%d-%s' % (len(names), ''.join(map(str, fixed)) or 'none')
        for spell, method, given in (('num', None, 0), ('name', 'mps', 1), ('fix', 'ML', 10), ('num', 'MPS', len(names) + 2)):
            out.append(Case('fixed-%s-%s-%s' % (t, spell, method), reduced, 'every value', names=names, fixed=fixed, spell=spell, method=method, given=given))
    out.append(Case('refuse', refuse, 'every value'))
    for nm in ('fmin_powell', 'powell', 'bfgs'):
        out.append(Case('byname-' + nm, byname, 'one criterion', opt=nm))
    for n in (2, 3):
        for sym in (('loc',), ('scale',), ('k',)):
            if n == 3 and tier == 'quick':
                continue
            out.append(Case('spacing-%d-%s' % (n, sym[0]), spacing, '%d values and %s' % (n, sym[0]), n=n, sym=sym))
    out.append(Case('spacing-3', spacing, '3 values', n=3, sym=()))
    for names, fixed in (([], ()), ([], (0,)), (['c'], (0,)), (['c'], (1,)), (['c'], (2,)), (['c'], (0, 2)), (['c'], ())):
        for method in ('ml', 'mps'):
            if names and not fixed and tier == 'quick':
                continue
            out.append(Case('cov-%d-%s-%s' % (len(names), ''.join(map(str, fixed)) or 'none', method), covariance, 'every quadratic criterion', names=names, fixed=fixed, method=method, alpha=0.05 if method == 'ml' else 0.1))
    for n in (1, 2, 5):
        out.append(Case('pvalue-%d' % n, pvalue, '%d values' % n, n=n, names=['c'], fixed=()))
    out.append(Case('pvalue-fixed', pvalue, '3 values', n=3, names=['c'], fixed=(1,)))
    for i in (0, 1):
        for g in ((-0.5, 4.0, 7), (1.0, 2.5, 4)):
            out.append(Case('profile-%d-%d' % (i, g[2]), profile, 'every optimum', names=[], fixed=(), i=i, grid=g, sym='pK'))
        out.append(Case('profile-A-%d' % i, profile, 'every curvature', names=[], fixed=(), i=i, grid=(-0.5, 4.0, 7), sym='A'))
        out.append(Case('profile-B-%d' % i, profile, 'every correlation', names=[], fixed=(), i=i, grid=(-0.5, 4.0, 7), sym='B'))
    out.append(Case('profile-fixed', profile, 'every optimum', names=['c'], fixed=(1,), i=0, grid=(-0.5, 4.0, 7), sym='p'))
    out.append(Case('profile-3', profile, 'every optimum', names=['c'], fixed=(), i=2, grid=(-0.5, 4.0, 7), sym='p'))
    out.append(Case('profile-ask', profile, 'another level', names=[], fixed=(), i=1, grid=(-0.5, 4.0, 7), sym='p', alpha=0.01, ask=0.1))
    for kind, g in (('quantile', (1.0, 7.0, 7)), ('probability', (-5.0, -0.5, 7))):
        for i in (0, 1):
            for sym in 'AB':
                out.append(Case('%s-%d-%s' % (kind, i, sym), link, 'every curvature' if sym == 'A' else 'every correlation', kind=kind, i=i, sym=sym, grid=g))
    for which, i, n, alpha in (('plain', 0, 20, None), ('plain', 1, 20, 0.1), ('plain', 0, 21, 0.01), ('class', 0, 20, None), ('flat', 0, 20, None), ('sharp', 0, 20, None)):
        out.append(Case('auto-%s-%d-%d-%s' % (which, i, n, alpha), automatic, 'every optimum', which=which, i=i, n=n, alpha=alpha))
    out += [Case('crossings-%d' % n, crossings, '%d points' % n, n=n) for n in (5, 7)]
    for w in ('ci_quantile', 'ci_logsf', 'ci_sf'):
        out.append(Case(w.replace('_', '-'), interval, 'every value', which=w))
    return out
