from vsym.runner import Case
from .common import tolist, horner
PROPERTY = 'P44'
MODULES = ['wafo.sg_filter._core', 'wafo.interpolate', 'wafo.dctpack']
OUTSIDE = 'longer series, wider windows and higher degrees than stated; automatic choice of the smoothing parameter and robust smoothing (numerical minimisation); rounding'
ASSUMPTIONS = ['scipy savgol_coeffs gives the least squares weights', 'scipy dct/idct are the orthonormal cosine transforms', 'sparse solver solves']


def lsq_weights(n, deg, deriv, delta=1.0, at=0):
    """weights (per sample -n..n) of the deriv-th derivative at `at` of the least squares polynomial"""
    import numpy as np
    from math import factorial
    k = np.arange(-n, n + 1.0)
    Q = np.linalg.pinv(np.vander(k, deg + 1, increasing=True))     # coefficients from samples
    w = np.zeros(2 * n + 1)
    for j in range(deriv, deg + 1):
        w = w + Q[j] * factorial(j) / factorial(j - deriv) * float(at) ** (j - deriv)
    return (w / delta ** deriv).tolist()


def extend(y, n, mode, cval):
    N = len(y)
    if mode == 'mirror':
        return [y[n - i] for i in range(n)] + y + [y[N - 2 - i] for i in range(n)]
    if mode == 'nearest':
        return [y[0]] * n + y + [y[-1]] * n
    if mode == 'constant':
        return [cval] * n + y + [cval] * n
    if mode == 'wrap':
        return y[-n:] + y + y[:n]


def savgol(h, N, n, deg, deriv, mode, axis2):
    """the filtered value is that of the least squares polynomial in the window"""
    from wafo.sg_filter import SavitzkyGolay
    y = [h.real('y%d' % i, -3, 3) for i in range(N)]
    delta = 0.5
    cval = h.real('cval', -3, 3) if mode == 'constant' else 0.0
    f = SavitzkyGolay(n, degree=deg, diff_order=deriv, delta=delta, mode=mode, cval=cval, axis=0 if axis2 else -1)
    if axis2:
        r = f(h.arr([[v, -v] for v in y]))
        for i in range(N):
            h.eq(r[i, 1], -r[i, 0], 'columns are filtered separately')
        r = [r[i, 0] for i in range(N)]
    else:
        r = tolist(f.smooth(h.arr(y)))
    h.check(len(r) == N, 'length')
    if mode == 'interp':
        for i in range(N):
            c = min(max(i, n), N - 1 - n)
            w = lsq_weights(n, deg, deriv, delta, at=i - c)
            h.eq(r[i], sum(w[k] * y[c - n + k] for k in range(2 * n + 1)), 'value %d' % i, tol=1e-6)
    else:
        e = extend(y, n, mode, cval)
        w = lsq_weights(n, deg, deriv, delta)
        for i in range(N):
            h.eq(r[i], sum(w[k] * e[i + k] for k in range(2 * n + 1)), 'value %d' % i, tol=1e-6)
    if axis2:
        return
    w = lsq_weights(n, deg, deriv, delta)
    for k in range(n, N - n):
        v = f.smooth_last(h.arr(y), k=k)
        c = N - 1 - k
        h.eq(v, sum(w[j] * y[c - n + j] for j in range(2 * n + 1)), 'smooth_last')


def savgol_poly(h, N, n, deg, deriv):
    """polynomials of the degree of the filter pass unchanged (derivatives are exact)"""
    from wafo.sg_filter import SavitzkyGolay
    from wafo.interpolate import savitzky_golay
    c = [h.real('c%d' % i, -2, 2) for i in range(deg + 1)]
    d = list(c)
    for _ in range(deriv):
        d = [(len(d) - 1 - i) * d[i] for i in range(len(d) - 1)] or [0.0]
    y = [horner(c, i - 2.0) for i in range(N)]
    r = tolist(SavitzkyGolay(n, degree=deg, diff_order=deriv)(h.arr(y)))
    for i in range(N):
        h.eq(r[i], horner(d, i - 2.0), 'SavitzkyGolay %d' % i, tol=1e-6)
    s = tolist(savitzky_golay(h.arr(y), 2 * n + 1, deg, deriv))
    h.check(len(s) == N, 'length')
    for i in range(n, N - n):
        h.eq(s[i], horner(d, i - 2.0), 'savitzky_golay %d' % i, tol=1e-6)


def savfun(h, N, n, deg, deriv):
    """savitzky_golay: least squares weights on the signal reflected about its end points"""
    from wafo.interpolate import savitzky_golay
    y = [h.real('y%d' % i, -3, 3) for i in range(N)]
    r = tolist(savitzky_golay(h.arr(y), 2 * n + 1, deg, deriv))
    e = [y[0] - abs(y[n - i] - y[0]) for i in range(n)] + y + [y[-1] + abs(y[N - 2 - i] - y[-1]) for i in range(n)]
    w = lsq_weights(n, deg, deriv)
    h.check(len(r) == N, 'length')
    for i in range(N):
        h.eq(r[i], sum(w[k] * e[i + k] for k in range(2 * n + 1)), 'value %d' % i, tol=1e-6)


def savbad(h):
    from wafo.interpolate import savitzky_golay
    y = h.reals('y', 7, -3, 3)
    h.raises(TypeError, lambda: savitzky_golay(y, 4, 2), 'even window')
    h.raises(TypeError, lambda: savitzky_golay(y, 3, 2), 'window too small')


def savpiece(h, up):
    """piecewise: each monotone stretch of the abscissa is smoothed by itself"""
    from wafo.interpolate import savitzky_golay, savitzky_golay_piecewise
    x = [0.0, 1.0, 2.0, 3.0, 4.0, 3.5, 3.0, 2.5]
    if not up:
        x = [-v for v in x]
    y = [h.real('y%d' % i, -3, 3) for i in range(8)]
    a = tolist(savitzky_golay_piecewise(h.arr(x), h.arr(y), 3, 1))
    b = tolist(savitzky_golay(h.arr(y[:5]), 3, 1)) + tolist(savitzky_golay(h.arr(y[5:]), 3, 1))
    h.check(len(a) == 8, 'length')
    for i in range(8):
        h.eq(a[i], b[i], 'stretches by themselves')
    c = tolist(savitzky_golay_piecewise(h.arr([-2.0 * v if not up else v for v in range(8)]), h.arr(y), 3, 1))
    d = tolist(savitzky_golay(h.arr(y), 3, 1))
    for i in range(8):
        h.eq(c[i], d[i], 'one stretch')


def plane(h, deriv):
    """2-D: the polynomial surface of the order of the filter passes unchanged"""
    from wafo.interpolate import sgolay2d
    c = [h.real('c%d' % i, -2, 2) for i in range(6)]
    m = 5
    f = lambda i, j: c[0] + c[1] * i + c[2] * j + c[3] * i * i + c[4] * i * j + c[5] * j * j
    z = h.arr([[f(float(i), float(j)) for j in range(m)] for i in range(m)])
    r = sgolay2d(z, 3, 2, deriv)
    want = [[lambda i, j: f(i, j)], [lambda i, j: c[1] + 2 * c[3] * i + c[4] * j], [lambda i, j: c[2] + c[4] * i + 2 * c[5] * j]]
    if deriv is None:
        outs = [(r, 0)]
    elif deriv == 'both':
        outs = [(r[0], 1), (r[1], 2)]
    else:
        outs = [(r, 1 if deriv == 'col' else 2)]
    for a, k in outs:
        h.check(tuple(a.shape) == (m, m), 'shape')
        for i in range(1, m - 1):
            for j in range(1, m - 1):
                h.eq(a[i, j], want[k][0](float(i), float(j)), 'surface (%d, %d)' % (i, j), tol=1e-6)


def hodrick(h, n, wfix):
    """Hodrick-Prescott: minimises sum (y-x)^2 + w sum (second differences of x)^2"""
    from wafo.sg_filter import HodrickPrescott
    y = [h.real('y%d' % i, -3, 3) for i in range(n)]
    w = h.real('w', 0, 50) if wfix is None else wfix
    x = tolist(HodrickPrescott(w=w)(h.arr(y)))
    h.check(len(x) == n, 'length')
    d = [x[i] - 2 * x[i + 1] + x[i + 2] for i in range(n - 2)] if n > 3 else [0.0] * n
    g = [0.0] * n
    if n > 3:
        for i in range(n - 2):
            g[i] = g[i] + d[i]
            g[i + 1] = g[i + 1] - 2 * d[i]
            g[i + 2] = g[i + 2] + d[i]
    for i in range(n):
        h.eq(x[i] + w * g[i], y[i], 'stationary in x%d' % i, tol=1e-6)


def laplace(z, shape):
    """second differences with the ends repeated"""
    import itertools
    out = {}
    for i in itertools.product(*[range(k) for k in shape]):
        t = 0.0
        for d in range(len(shape)):
            for s in (-1, 1):
                j = list(i)
                j[d] = min(max(j[d] + s, 0), shape[d] - 1)
                t = t + z[tuple(j)] - z[i]
        out[i] = t
    return out


def smooth(h, shape, sfix, full):
    """smoothn with given s: (I + s L^2) z = y, L the discrete Laplacian"""
    from wafo.sg_filter import smoothn
    import itertools
    y = h.reals('y', shape, -3, 3)
    idx = list(itertools.product(*[range(k) for k in shape]))
    keep = {i: y[i] for i in idx}
    s = h.real('s', 0.01, 50) if sfix is None else sfix
    z = smoothn(y, s=s, fulloutput=full)
    if full:
        z, s1 = z
        h.eq(s1, s, 's returned')
    h.check(tuple(z.shape) == tuple(shape), 'shape')
    L = laplace(laplace(z, shape), shape)
    for i in idx:
        h.eq(z[i] + s * L[i], keep[i], 'normal equation', tol=1e-5)
        h.eq(y[i], keep[i], 'data untouched')


def weighted(h, n, s, gap):
    """with weights (zero = missing) the minimiser of the weighted criterion is a fixed point"""
    from wafo.sg_filter import SmoothNd
    import numpy as np
    W = [1.0, 0.5, 0.25, 1.0, 0.75, 1.0][:n]
    if gap:
        W[2] = 0.0
    y = [h.real('y%d' % i, 1, 3) for i in range(n)]
    L = np.zeros((n, n))
    for i in range(n):
        for d in (-1, 1):
            j = min(max(i + d, 0), n - 1)
            L[i, j] += 1
            L[i, i] -= 1
    A = np.linalg.inv(np.diag(W) + s * L.dot(L)).dot(np.diag(W))
    z0 = [sum(float(A[i, j]) * y[j] for j in range(n)) for i in range(n)]
    z = SmoothNd(s=s, weight=np.array(W), z0=h.arr(z0), maxiter=1, tolz=1e-3)(h.arr(y))
    for i in range(n):
        h.eq(z[i], z0[i], 'fixed point', tol=1e-6)


def missing(h, shape):
    """missing values of the caller are not overwritten"""
    from wafo.sg_filter import SmoothNd
    import numpy as np
    y = np.arange(1.0, 1.0 + np.prod(shape)).reshape(shape)
    y.ravel()[2] = np.nan
    k = y.copy()
    z = SmoothNd(s=1.0)(y)
    h.check(bool(np.all(np.isfinite(np.asarray(z, dtype=float)))), 'finite')
    same = (y == k) | (np.isnan(y) & np.isnan(k))
    h.check(bool(np.all(same | np.isnan(k))), 'values that are present are untouched')
    h.check(bool(np.all(same)) or bool(np.all(y == np.where(np.isnan(k), 0.0, k))), 'missing values: untouched or as listed')
    h.known('K44')
    h.check(bool(np.all(same)), 'missing values are untouched')


def cases(tier):
    out = []
    for N, n, deg, dv in ((6, 1, 1, 0), (7, 2, 2, 0), (7, 2, 3, 1), (7, 2, 2, 2)):
        out.append(Case('savgol-interp-n%d-d%d-%d' % (n, deg, dv), savgol, '%d samples' % N, N=N, n=n, deg=deg, deriv=dv, mode='interp', axis2=False))
    for mode in ('mirror', 'nearest', 'constant', 'wrap'):
        for dv in (0, 1):
            out.append(Case('savgol-%s-%d' % (mode, dv), savgol, '7 samples', N=7, n=2, deg=2, deriv=dv, mode=mode, axis2=False))
    out.append(Case('savgol-axis', savgol, '6 x 2 samples', N=6, n=2, deg=1, deriv=1, mode='interp', axis2=True))
    for deg, dv in ((1, 0), (1, 1), (2, 1), (2, 2), (3, 0), (3, 1), (3, 3)):
        out.append(Case('poly-d%d-%d' % (deg, dv), savgol_poly, '9 samples of any polynomial of degree %d' % deg, N=9, n=3, deg=deg, deriv=dv))
    for n, deg, dv in ((1, 1, 0), (2, 2, 0), (2, 2, 1), (2, 3, 0), (2, 2, 2)):
        out.append(Case('savfun-n%d-d%d-%d' % (n, deg, dv), savfun, '6 samples', N=6, n=n, deg=deg, deriv=dv))
    out.append(Case('savbad', savbad, '7 samples'))
    for up in (True, False):
        out.append(Case('piecewise-%s' % up, savpiece, '8 samples', up=up))
    for d in (None, 'col', 'row', 'both'):
        out.append(Case('plane-%s' % d, plane, '5 x 5 surface of order 2', deriv=d))
    for n in (4, 5, 6):
        out.append(Case('hodrick-n%d' % n, hodrick, '%d samples, w = 100' % n, n=n, wfix=100))
    out.append(Case('hodrick-n4-any', hodrick, '4 samples, any w', n=4, wfix=None))
    out.append(Case('hodrick-n3', hodrick, '3 samples', n=3, wfix=10))
    for sh in ((4,), (5,), (7,), (3, 3), (2, 4)) + (((2, 2, 2), (4, 4)) if tier != 'quick' else ()):
        out.append(Case('smoothn-%s' % 'x'.join(map(str, sh)), smooth, 'data of shape %s' % (sh,), shape=sh, sfix=2.0, full=len(sh) == 1, fork_ms=300))
    for gap in (False, True):
        out.append(Case('weighted-%s' % gap, weighted, '5 samples', n=5, s=0.5, gap=gap, fork_ms=300))
    for sh in ((6,), (3, 4)):
        out.append(Case('missing-%d' % len(sh), missing, 'one missing value', shape=sh))
    return out
