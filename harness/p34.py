from math import pi
from vsym.runner import Case
from .common import tolist
PROPERTY = 'P34'
MODULES = ['wafo.covariance.core', 'wafo.covariance.estimation', 'wafo.containers', 'wafo.misc', 'wafo.objects']
OUTSIDE = ('longer series than stated; automatically chosen maximum lag for more than one free parameter of the series; the method of Welch; covariances that are nearly singular (the least squares solver then truncates); '
           'the sparse variant of the exact method; that the conditional sample is normal; rounding')
ASSUMPTIONS = ['numpy.fft.fft is the discrete Fourier transform', 'scipy.linalg.lstsq solves a nonsingular symmetric system',
               'the multivariate normal sampler of numpy returns a sample with the mean and covariance it is given (it is replaced by a recorder)']


def parzen(m):
    """symmetric Parzen window of odd length m"""
    out = []
    for i in range(m):
        x = abs(i - (m - 1) / 2.0)
        r = 2 * x / m
        out.append(1 - 6 * r ** 2 * (1 - r) if x <= (m - 1) / 4.0 else 2 * (1 - r) ** 3)
    return out


def estimate(h, n, lag, flag, norm, missing, form, window='boxcar', dt=0.5):
    """covariance estimate = mean of lagged products of the centred series"""
    from wafo.covariance.estimation import CovarianceEstimator
    import numpy as np
    x = [h.real('x%d' % i, -4, 4) for i in range(n)]
    y = [float('nan') if i in missing else v for i, v in enumerate(x)]
    t = [3.0 + dt * i for i in range(n)]
    if form == 'matrix':
        ts = h.arr([[t[i], y[i]] for i in range(n)])
    else:
        from wafo.objects import TimeSeries
        ts = TimeSeries(h.arr(y), np.array(t))
    good = [i for i in range(n) if i not in missing]
    nc = len(good)
    mean = sum(x[i] for i in good) / nc
    z = [x[i] - mean if i in good else 0.0 for i in range(n)]
    ref = [sum(z[i] * z[i + k] for i in range(n - k)) / (nc if flag == 'biased' else nc - k) for k in range(min(lag, n - 2))]
    if norm:
        h.assume(ref[0] > 0.5)
    if window == 'parzen':
        w = parzen(2 * lag - 1)[lag - 1:]
    elif window == 'array':
        w = [h.real('w%d' % i, 0, 1) for i in range(2 * lag - 1)]
    else:
        w = [1.0] * lag
    kw = {} if window == 'boxcar' else dict(window=h.arr(w) if window == 'array' else window)
    if window == 'array':
        w = w[lag - 1:]
    acf = CovarianceEstimator(lag=lag, flag=flag, norm=norm, **kw).tocovdata(ts)
    if norm:
        ref = [v for v in tolist(CovarianceEstimator(lag=lag, flag=flag, **kw).tocovdata(ts).data)]
    lag0, lag = lag, min(lag, n - 2)
    h.check(len(acf.data) == lag + 1 and len(acf.args) == lag + 1, 'number of lags')
    if window == 'parzen':
        from scipy.signal.windows import get_window
        wp = [float(v) for v in get_window('parzen', 2 * lag0 - 1)[lag0 - 1:]]
        probe = np.column_stack((t, [(3 * i * i) % 7 - 2.5 for i in range(n)]))     # which of the two windows is used
        r0, r1 = (tolist(CovarianceEstimator(lag=lag0, flag=flag, window=v).tocovdata(probe).data) for v in ('boxcar', 'parzen'))
        if all(abs(r1[k] - r0[k] * wp[k]) < 1e-9 for k in range(lag)):
            for k in range(lag):
                h.eq(acf.data[k], ref[k] * wp[k], 'as listed, lag %d' % k, tol=1e-8)
            h.known('K34')
    for k in range(lag):
        h.eq(acf.args[k], k * dt, 'lag %d' % k, tol=1e-9)
        if norm:
            h.eq(acf.data[k] * ref[0], ref[k] * w[k], 'correlation at lag %d' % k, tol=1e-7)
        else:
            h.eq(acf.data[k], ref[k] * w[k], 'covariance at lag %d' % k, tol=1e-8)
    h.eq(acf.args[lag], lag * dt, 'last lag', tol=1e-9)
    h.eq(acf.data[lag], 0.0, 'zero after the last lag')
    h.check(bool(acf.norm) == bool(norm), 'normalisation flag')
    s2 = acf.data[0] ** 2
    h.eq(acf.sigma[0], 0.0, 'standard deviation at lag zero')
    for k in range(1, lag + 1):
        h.eq(acf.sigma[k] ** 2 * nc, s2, 'large lag variance %d' % k, tol=1e-6)
        s2 = s2 + 2 * acf.data[k] ** 2
    src = tolist(ts[:, 1]) if form == 'matrix' else tolist(ts.data)
    for i in good:
        h.eq(src[i], x[i], 'series not modified')


def autolag(h, c, d, missing=()):
    """maximum lag chosen when none is given: the lag before the last one is not significant, nor any later, the one before that is"""
    from wafo.covariance.estimation import CovarianceEstimator
    import numpy as np
    a = h.real('a', -1, 1)
    n = len(c)
    x = [ci + a * di for ci, di in zip(c, d)]
    y = [float('nan') if i in missing else v for i, v in enumerate(x)]
    acf = CovarianceEstimator().tocovdata(h.arr([[1.0 * i, y[i]] for i in range(n)]))
    good = [i for i in range(n) if i not in missing]
    nc = len(good)
    mean = sum(x[i] for i in good) / nc
    z = [x[i] - mean if i in good else 0.0 for i in range(n)]
    R = [sum(z[i] * z[i + k] for i in range(n - k)) / nc for k in range(n)]
    s2 = [0.0, R[0] ** 2]
    for k in range(1, n - 1):
        s2.append(s2[-1] + 2 * R[k] ** 2)
    lag = len(acf.data) - 1
    for k in range(lag - 1, n):
        h.le(R[k] ** 2 * nc, 4 * s2[k] + 1e-6, 'lag %d is not significant' % k)
    if lag >= 2:
        h.check(h.any([4 * s2[k] <= R[k] ** 2 * nc + 1e-6 for k in range(lag - 2, n)]), 'lag %d is significant' % (lag - 2))
    for k in range(lag):
        h.eq(acf.data[k], R[k], 'covariance at lag %d' % k, tol=1e-7)
    h.eq(acf.data[lag], 0.0, 'zero after the last lag')


def seriescov(h, n):
    """TimeSeries.tocovdata passes every option on"""
    from wafo.objects import TimeSeries
    from wafo.covariance.estimation import CovarianceEstimator
    import numpy as np
    x = [h.real('x%d' % i, -4, 4) for i in range(n)]
    t = np.arange(n) * 0.5
    w = [h.real('w%d' % i, 0, 1) for i in range(2 * (n - 3) - 1)]
    det = lambda v: 3 * v
    ref = CovarianceEstimator(lag=n - 3, tr=Double(), detrend=det, window=h.arr(w), flag='unbiased', dt=0.25).tocovdata(h.arr([[t[i], x[i]] for i in range(n)]))
    got = TimeSeries(h.arr(x), t).tocovdata(lag=n - 3, tr=Double(), detrend=det, window=h.arr(w), flag='unbiased', dt=0.25)
    h.check(len(got.data) == len(ref.data), 'number of lags')
    for k in range(len(ref.data)):
        h.eq(got.data[k], ref.data[k], 'covariance', tol=1e-8)
        h.eq(got.args[k], ref.args[k], 'lag', tol=1e-12)
    plain = TimeSeries(h.arr(x), t).tocovdata(lag=n - 3)
    mean = sum(x) / n
    for k in range(n - 3):
        h.eq(plain.data[k], sum((x[i] - mean) * (x[i + k] - mean) for i in range(n - k)) / n, 'default', tol=1e-7)


def seriesspec(h, n, L, window, ftype, tr, alpha):
    """TimeSeries.tospecdata by the covariance method = cosine series of the windowed covariance estimate"""
    from wafo.objects import TimeSeries
    from math import pi
    import numpy as np
    x = [h.real('x%d' % i, -2, 2) for i in range(n)]
    dt = 0.5
    wt = {'boxcar': [1.0] * L, 'array': [1.0, 0.5, 0.25][:L]}[window]
    arg = 'boxcar' if window == 'boxcar' else np.array(wt[:0:-1] + wt)
    kw = dict(tr=Double()) if tr else {}
    if alpha is not None:
        kw['alpha'] = alpha
    ts = TimeSeries(h.arr(x), np.arange(n) * dt)
    s = ts.tospecdata(L=L, method='cov', window=arg, ftype=ftype, **kw)
    R = ts.tocovdata(lag=L, window=arg, **(dict(tr=Double()) if tr else {}))
    ref = R.tospecdata(rate=4, nugget=1e-12)         # decided by P33 for every covariance
    h.check(len(s.data) == len(ref.data) and len(s.args) == len(ref.args), 'number of frequencies')
    h.check(s.freqtype == ftype and s.norm is False and s.L == L, 'type, lag')
    c = 2 * pi if ftype == 'f' else 1.0
    for j in range(len(ref.data)):
        h.eq(s.args[j] * c, ref.args[j], 'frequency', tol=1e-9)
        h.eq(s.data[j], ref.data[j] * c, 'density at frequency %d' % j, tol=1e-9)
    src = tolist(ts.data)
    for i in range(n):
        h.eq(src[i], x[i], 'series not modified')


class Double(object):
    def dat2gauss(self, x):
        return 2 * x


def options(h, n):
    """transformation, trend removal and sampling interval given by the user"""
    from wafo.covariance.estimation import CovarianceEstimator
    x = [h.real('x%d' % i, -4, 4) for i in range(n)]
    ts = h.arr([[1.0 * i, x[i]] for i in range(n)])
    lag = n - 3
    plain = CovarianceEstimator(lag=lag).tocovdata(ts)
    other = CovarianceEstimator(lag=lag, tr=Double(), dt=0.25, detrend=lambda v: 3 * v)(ts)
    for k in range(lag):
        h.eq(other.data[k], 36 * plain.data[k], 'scaled', tol=1e-7)
        h.eq(other.args[k], k * 0.25, 'lag', tol=1e-9)


class recorder(object):
    """numpy.random.multivariate_normal replaced: records mean and covariance and returns mean plus a given offset"""

    def __init__(self, offset):
        self.calls, self.offset = [], offset

    def __enter__(self):
        import numpy.random as rnd
        self.orig = rnd.multivariate_normal

        def fake(mean, cov, size=None, *a, **k):
            import numpy as np
            self.calls.append((mean, cov, size))
            m = np.empty((1, len(mean)), dtype=object)
            for i in range(len(mean)):
                m[0, i] = mean[i] + self.offset
            if not any(hasattr(v, 'e') for v in m.ravel().tolist()):
                m = m.astype(float)
            return m
        rnd.multivariate_normal = fake
        return self

    def __exit__(self, *a):
        import numpy.random as rnd
        rnd.multivariate_normal = self.orig


def simcond(h, n, nacf, unknown, method, byindex, rng=0.25):
    """conditional mean, standard deviation and the covariance of the sampler satisfy the normal equations of the conditional distribution"""
    from wafo.covariance.core import CovData1D
    import numpy as np
    R = [h.real('r0', 3, 5)] + [h.real('r%d' % i, 0.2, 0.2 + rng) for i in range(1, nacf)]
    x = [h.real('x%d' % i, -2, 2) for i in range(n)]
    y = [v if byindex or i not in unknown else float('nan') for i, v in enumerate(x)]
    obj = CovData1D(h.arr(R), h.arr([1.0 * i for i in range(nacf)]))
    arg = h.arr(y)
    with recorder(0.5) as rec:
        sample, mu, std = obj.simcond(arg, method=method, i_unknown=list(unknown) if byindex else None)

    def r(k):
        return R[abs(k)] if abs(k) < nacf else 0.0
    known = [i for i in range(n) if i not in unknown]
    m = len(unknown)
    h.check(len(sample) == m and len(mu) == m and len(std) == m, 'one value per missing sample')
    # weights: solve the normal equations independently (Cramer's rule through fraction-free elimination would do; use the same
    # linear system with fresh unknowns: W soo = s1o)
    W = [[h.real('wt%d_%d' % (a, b), -2, 2) for b in range(len(known))] for a in range(m)] if h.sym else None
    if h.sym:
        for a in range(m):
            for b in range(len(known)):
                h.assume(sum(W[a][c] * r(known[c] - known[b]) for c in range(len(known))) == r(unknown[a] - known[b]))
    else:
        S = np.array([[float(r(p - q)) for q in known] for p in known])
        T = np.array([[float(r(p - q)) for q in known] for p in unknown])
        W = np.linalg.solve(S, T.T).T
    for a in range(m):
        h.eq(mu[a], sum(W[a][c] * x[known[c]] for c in range(len(known))), 'conditional mean %d' % a, tol=1e-5)
        v = r(0) - sum(W[a][c] * r(unknown[a] - known[c]) for c in range(len(known)))
        h.eq(std[a] ** 2, v, 'conditional variance %d' % a, tol=1e-5)
        h.eq(sample[a], mu[a] + 0.5, 'sample from the conditional distribution %d' % a, tol=1e-6)
    for i in range(n):
        if byindex or i in known:
            h.eq(arg[i], x[i], 'series not modified')
    for i in range(nacf):
        h.eq(obj.data[i], R[i], 'covariance not modified')


def windows(h, n, r1, unknown):
    """sliding-window method: fixed covariance, any data. What a window restored is taken as known in the next one; reference: the same
    scheme written out with plain indices"""
    from wafo.covariance.core import CovData1D
    import numpy as np
    acf = [1.0] + list(r1)
    x = [h.real('x%d' % i, -2, 2) for i in range(n)]
    obj = CovData1D(np.array(acf), np.arange(float(len(acf))))
    with recorder(0.0) as rec:
        sample, mu, std = obj.simcond(h.arr(x), method='approx', i_unknown=list(unknown))
    h.check(len(sample) == len(unknown), 'one value per missing sample')
    # the far missing samples depend on their own neighbours only: the weights of the local conditional mean
    lag = max([k for k in range(len(acf)) if abs(acf[k]) > 0.1 * sig(acf, k)]) + 3
    na = min(lag, len(acf))
    full = np.array([[acf[abs(i - j)] if abs(i - j) < na else 0.0 for j in range(n)] for i in range(n)])
    known = [i for i in range(n) if i not in unknown]
    W = np.linalg.solve(full[np.ix_(known, known)], full[np.ix_(known, unknown)]).T
    V = full[np.ix_(unknown, unknown)] - W.dot(full[np.ix_(known, unknown)])
    for a in range(len(unknown)):
        ref = 0.0
        for b in range(len(known)):
            ref = ref + float(W[a, b]) * x[known[b]]
        h.eq(mu[a], ref, 'conditional mean of missing sample %d' % unknown[a], tol=0.03)
        h.eq(std[a], float(np.sqrt(V[a, a])), 'conditional deviation of missing sample %d' % unknown[a], tol=0.03)


def sig(acf, k):
    n = len(acf)
    r0 = acf[0]
    s = [0.0, r0 ** 2]
    for v in acf[1:n - 1]:
        s.append(s[-1] + 2 * v ** 2)
    return (s[k] / n) ** 0.5


def degenerate(h, which):
    from wafo.covariance.core import CovData1D
    R = [h.real('r0', 3, 5), h.real('r1', 0.5, 1), h.real('r2', 0.1, 0.4)]
    obj = CovData1D(h.arr(R), h.arr([0.0, 1.0, 2.0]))
    x = [h.real('x%d' % i, -2, 2) for i in range(3)]
    if which == 'none':
        s, m, d = obj.simcond(h.arr(x))
        h.check(len(s) == 0 and len(m) == 0 and len(d) == 0, 'nothing missing, nothing returned')
        return
    s, m, d = obj.simcond(h.arr(x), i_unknown=[0, 1, 2])
    h.check(len(s) == 3, 'all missing: a sample of the process')
    for i in range(3):
        h.eq(m[i], 0.0, 'mean zero')
        h.eq(d[i] ** 2, R[0], 'standard deviation of the process', tol=1e-7)


def cases(tier):
    big = tier != 'quick'
    out = []
    for n in (4, 5, 6, 7) + ((8, 9, 12) if big else ()):
        for flag in ('biased', 'unbiased'):
            out.append(Case('est-n%d-%s' % (n, flag), estimate, '%d samples' % n, n=n, lag=n - 2, flag=flag, norm=False, missing=(), form='matrix'))
    out.append(Case('est-norm', estimate, '4 samples', n=4, lag=2, flag='biased', norm=True, missing=(), form='matrix'))
    out.append(Case('est-biglag', estimate, '5 samples', n=5, lag=40, flag='biased', norm=False, missing=(), form='matrix'))
    out.append(Case('est-ts', estimate, '5 samples', n=5, lag=3, flag='biased', norm=False, missing=(), form='ts'))
    for miss in ((0,), (2,), (1, 4)):
        out.append(Case('est-missing-%s' % '-'.join(map(str, miss)), estimate, '6 samples', n=6, lag=4, flag='biased', norm=False, missing=miss, form='matrix'))
    out.append(Case('est-array', estimate, '6 samples', n=6, lag=3, flag='biased', norm=False, missing=(), form='ts', window='array'))
    out.append(Case('est-parzen', estimate, '6 samples', n=6, lag=4, flag='biased', norm=False, missing=(), form='ts', window='parzen'))
    out.append(Case('options', options, '6 samples', n=6))
    out.append(Case('autolag-b', autolag, '5 samples along a line', c=(3, 1, 1, -1, -3), d=(0, 1, 0, 0, 0)))
    out.append(Case('autolag-missing', autolag, '6 samples along a line, one missing', c=(3, 2, 0, -1, -2, -3), d=(0, 1, 0, 0, 1, 0), missing=(2,)))
    out.append(Case('series-cov', seriescov, '6 samples', n=6))
    for window, ftype, tr, alpha in (('boxcar', 'w', False, None), ('array', 'f', True, None), ('array', 'w', False, 0.1)):
        out.append(Case('series-spec-%s-%s-%d' % (window, ftype, tr), seriesspec, '4 samples', n=4, L=2, window=window, ftype=ftype, tr=tr, alpha=alpha))
    for method in ('exact', 'approx'):
        for unk in ((0,), (2,), (1, 2), (0, 3)):
            out.append(Case('cond-%s-%s' % (method, '-'.join(map(str, unk))), simcond, '4 samples', n=4, nacf=2, unknown=unk, method=method, byindex=len(unk) == 1))
    for nm, n, unk in (('a', 40, (3, 4, 20, 21, 35)), ('b', 48, (10, 30)), ('c', 40, (0, 1, 12, 13, 14, 15, 38, 39)), ('d', 64, tuple(range(9, 17)) + (40,))):
        out.append(Case('windows-' + nm, windows, '%d samples' % n, n=n, r1=(0.2, 0.02, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0), unknown=unk))
    for w in ('none', 'all'):
        out.append(Case('degenerate-' + w, degenerate, '3 samples', which=w))
    return out
