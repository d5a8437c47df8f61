from math import pi, cos, sin
from vsym.runner import Case
from .common import tolist, normals
PROPERTY = 'P47'
MODULES = ['wafo.spectrum.core', 'wafo.covariance.core', 'wafo.containers', 'wafo.misc']
OUTSIDE = 'that the pseudo random numbers are independent and standard normal; spectra resampled to another time step; longer series than stated; rounding'
ASSUMPTIONS = ['the random numbers drawn are independent standard normal: a simulated series is linear in them, so its covariance is the sum over unit draws of products '
               'of the responses', 'numpy.fft.fft is the discrete Fourier transform']


def pow2(n):
    k = 1
    while k < n:
        k *= 2
    return k


def units(total, shapes):
    """draws: column d of all of them stacked is the d-th unit vector"""
    import numpy as np
    out, at = [], 0
    for r in shapes:
        m = np.zeros((r, total))
        for i in range(r):
            m[i, at + i] = 1.0
        at += r
        out.append(m)
    assert at == total
    return out


def dot(X, i, Y, j, cols, cols2=None):
    s = 0.0
    for a, b in zip(cols, cols2 or cols):
        p = X[i, a]
        q = Y[j, b]
        if isinstance(p, float) and p == 0 or isinstance(q, float) and q == 0:
            continue
        s = s + p * q
    return s


def covsim(h, n, ns, last, derivative, dt=0.5):
    """every pair of simulated values has the covariance asked for; different series are uncorrelated"""
    from wafo.covariance.core import CovData1D
    R = [h.real('r0', 3, 5)] + [h.real('r%d' % i, -0.25 if i > 1 else 0.1, 0.25) for i in range(1, n)]
    if last == 'zero':
        R[-1] = 0.0
    else:
        h.assume(R[-1] > 0.01)
    obj = CovData1D(h.arr(R), h.arr([dt * i for i in range(n)]))
    nfft = pow2(max(2 * n - 1 if last != 'zero' else 2 * n - 2, 2 * ns))
    total = 2 * nfft
    with normals(units(total, (nfft, nfft))):
        res = obj.sim(ns=ns, cases=2 * total, derivative=derivative)
    x = res[0] if derivative else res
    h.check(tuple(x.shape) == (ns, 2 * total + 1), 'shape')
    A, B = range(1, total + 1), range(total + 1, 2 * total + 1)

    def r(k):
        k = abs(k)
        return R[k] if k < n else 0.0
    circ = [r(k) if k <= nfft // 2 else r(nfft - k) for k in range(nfft)]
    for i in range(ns):
        h.eq(x[i, 0], i * dt, 'time %d' % i, tol=1e-9)
        for j in range(i + 1):
            h.eq(dot(x, i, x, j, A), r(i - j), 'covariance of samples %d and %d' % (i, j), tol=1e-8)
            h.eq(dot(x, i, x, j, B), r(i - j), 'covariance of samples %d and %d of the second kind of series' % (i, j), tol=1e-8)
            h.eq(dot(x, i, x, j, A, B), 0.0, 'series uncorrelated (%d, %d)' % (i, j), tol=1e-8)
    if derivative:
        d = res[1]
        h.check(tuple(d.shape) == tuple(x.shape), 'shape of derivative')
        for i in range(ns):
            h.eq(d[i, 0], i * dt, 'time of derivative', tol=1e-9)
            for j in range(ns):
                # covariance of x(j) and the derivative at i = derivative of the (band limited) covariance function
                ref, ref2 = 0.0, 0.0
                for k in range(nfft):
                    kk = k if k <= nfft // 2 else k - nfft
                    sp = sum(circ[m] * cos(2 * pi * k * m / nfft) for m in range(nfft)) / nfft
                    w = 2 * pi * kk / nfft / dt
                    ref = ref - sp * w * sin(w * (i - j) * dt)
                    ref2 = ref2 + sp * w * w * cos(w * (i - j) * dt)
                for c in (A, B):
                    h.eq(dot(d, i, x, j, c), ref, 'covariance of derivative %d and sample %d' % (i, j), tol=1e-7)
                    h.eq(dot(d, i, d, j, c), ref2, 'covariance of derivatives %d and %d' % (i, j), tol=1e-7)
    for i in range(n):
        h.eq(obj.data[i], R[i], 'covariance object not modified')


def cases_n(h, ncases):
    """odd and even numbers of series; the default length is that of the covariance"""
    from wafo.covariance.core import CovData1D
    n, nfft = 3, 8
    R = [h.real('r0', 3, 5), h.real('r1', 0.1, 0.25), h.real('r2', 0.01, 0.25)]
    obj = CovData1D(h.arr(R), h.arr([0.0, 1.0, 2.0]))
    c2 = (ncases + 1) // 2
    import numpy as np
    re, im = np.zeros((nfft, c2)), np.zeros((nfft, c2))
    for c in range(c2):
        re[c + 1, c] = 1.0
        im[c, c] = 1.0
    with normals([re, im]):
        x = obj.sim(ns=3, cases=ncases)
    h.check(tuple(x.shape) == (3, ncases + 1), 'shape')
    sp = [R[0] + 2 * R[1] * cos(2 * pi * k / nfft) + 2 * R[2] * cos(4 * pi * k / nfft) for k in range(nfft)]
    import math
    for c in range(ncases):
        # energy of a series under its two unit draws: parallelogram identity avoids square roots
        if c < c2:
            for i in range(3):
                v = x[i, 1 + c]
                a2, b2 = sp[c + 1] / nfft * cos(2 * pi * (c + 1) * (i + 2) / nfft) ** 2, sp[c] / nfft * sin(2 * pi * c * (i + 2) / nfft) ** 2
                h.le(v * v, 2 * a2 + 2 * b2 + 1e-6, 'size of series %d' % c)


def valid(h, n):
    """a covariance whose largest value is not at lag zero is refused"""
    from wafo.covariance.core import CovData1D
    R = [h.real('r%d' % i, 0, 4) for i in range(n)]
    top = R[1]
    for v in R[2:]:
        top = h.ite(v > top, v, top)
    h.assume(top > R[0])
    obj = CovData1D(h.arr(R), h.arr([1.0 * i for i in range(n)]))
    h.raises(ValueError, lambda: obj.sim(ns=2), 'refused')


def interp(x, xs, ys):
    for i in range(len(xs) - 1):
        if xs[i] <= x <= xs[i + 1]:
            return ys[i] + (ys[i + 1] - ys[i]) * ((x - xs[i]) / (xs[i + 1] - xs[i]))
    raise AssertionError


def specsim(h, nf, ns, freqtype, derivative, wn=2.0):
    """simulation in the frequency domain: the simulated covariance is that of the spectrum sampled at the frequencies of the series"""
    from wafo.spectrum.core import SpecData1D
    w = [wn * i / (nf - 1) for i in range(nf)]
    S = [h.real('s%d' % i, 0.1, 4) for i in range(nf)]
    if freqtype == 'f':
        obj = SpecData1D(h.arr([s * (2 * pi) for s in S]), h.arr([v / (2 * pi) for v in w]), freqtype='f')
    else:
        obj = SpecData1D(h.arr(S), h.arr(w))
    n2 = (ns + ns % 2) // 2
    nn = 2 * n2
    total = 2 * n2
    with normals(units(total, (n2 + 1, n2 - 1))):
        res = obj.sim(ns=ns, cases=total, method='random', derivative=derivative)
    x = res[0] if derivative else res
    h.check(tuple(x.shape) == (nn, total + 1), 'shape')
    dt = pi / wn
    df = 2 * pi / (nn * dt)                              # in rad/s
    comp = [(k * df, interp(k * df, w, [0.0] + S[1:-1] + [0.0]) * df) for k in range(1, n2)]
    cols = range(1, total + 1)
    for i in range(nn):
        h.eq(x[i, 0], i * dt, 'time', tol=1e-9)
        for j in range(nn):
            if j <= i:
                h.eq(dot(x, i, x, j, cols), sum(e * cos(v * (i - j) * dt) for v, e in comp), 'covariance of samples %d and %d' % (i, j), tol=1e-8)
            if derivative:
                d = res[1]
                h.eq(d[i, 0], i * dt, 'time of derivative', tol=1e-9)
                h.eq(dot(d, i, x, j, cols), sum(-e * v * sin(v * (i - j) * dt) for v, e in comp), 'covariance of derivative and sample', tol=1e-7)
                h.eq(dot(d, i, d, j, cols), sum(e * v * v * cos(v * (i - j) * dt) for v, e in comp), 'covariance of derivatives', tol=1e-7)
    for i in range(nf):
        h.eq(obj.data[i], S[i] * (2 * pi if freqtype == 'f' else 1), 'spectrum not modified', tol=1e-9)


def specexact(h, nf, ns, wn=2.0):
    """exact simulation from a spectrum uses its covariance function"""
    from wafo.spectrum.core import SpecData1D
    w = [wn * i / (nf - 1) for i in range(nf)]
    S = [h.real('s%d' % i, 1.0, 1.25) for i in range(nf)]
    obj = SpecData1D(h.arr(S), h.arr(w))
    R = tolist(obj.tocovdata().data)
    n = len(R)
    h.assume(h.any([R[-1] > 1e-9, R[-1] < -1e-9]))
    nfft = pow2(max(2 * n - 1, 2 * ns))
    total = 2 * nfft
    spec = [R[0] + sum(2 * R[m] * cos(2 * pi * k * m / nfft) for m in range(1, n)) for k in range(nfft)]
    for k in range(nfft // 2 + 1):
        h.assume(spec[k] > 0.001)
    with normals(units(total, (nfft, nfft))):
        x = obj.sim(ns=ns, cases=2 * total, method='exact')
    for i in range(ns):
        for j in range(i + 1):
            h.eq(dot(x, i, x, j, range(1, total + 1)), R[i - j] if i - j < n else 0.0, 'covariance (%d, %d)' % (i, j), tol=1e-8)


class Shift(object):
    """a transformation as the simulation sees it"""

    def gauss2dat(self, x, *der):
        if der:
            return 2 * x + 1, 2 * der[0]
        return 2 * x + 1


def transformed(h, which, derivative):
    """a transformed process is the transformation of the simulated gaussian one"""
    from wafo.covariance.core import CovData1D
    from wafo.spectrum.core import SpecData1D
    import numpy as np
    out = []
    for tr in (None, Shift()):
        if which == 'cov':
            obj = CovData1D(h.arr([h.real('r0', 3, 5), h.real('r1', 0.1, 0.25), h.real('r2', 0.01, 0.25)]), h.arr([0.0, 1.0, 2.0]))
            obj.tr = tr
            draws = [np.arange(16.).reshape(8, 2) - 5, 3 - np.arange(16.).reshape(8, 2)]
            kw = dict(ns=3, cases=3)
        else:
            obj = SpecData1D(h.arr([h.real('s%d' % i, 0.1, 4) for i in range(4)]), h.arr([0.0, 0.5, 1.0, 1.5]))
            obj.tr = tr
            draws = [np.arange(9.).reshape(3, 3) - 5, 3 - np.arange(3.).reshape(1, 3)]
            kw = dict(ns=4, cases=3, method='random')
        with normals(draws):
            out.append(obj.sim(derivative=derivative, **kw))
    if not derivative:
        out = [(v,) for v in out]
    for i in range(out[0][0].shape[0]):
        for c in range(1, 4):
            h.eq(out[1][0][i, c], 2 * out[0][0][i, c] + 1, 'transformed', tol=1e-9)
            if derivative:
                h.eq(out[1][1][i, c], 2 * out[0][1][i, c], 'transformed derivative', tol=1e-9)
        h.eq(out[1][0][i, 0], out[0][0][i, 0], 'time')


def cases(tier):
    big = tier != 'quick'
    out = []
    for n, ns, last in ((2, 2, 'x'), (3, 3, 'x'), (3, 2, 'zero'), (3, 4, 'zero'), (4, 4, 'x'), (4, 4, 'zero'), (5, 4, 'zero')):
        out.append(Case('cov-n%d-ns%d-%s' % (n, ns, last), covsim, '%d lags, %d samples' % (n, ns), n=n, ns=ns, last=last, derivative=False))
    for n, ns, last in ((3, 2, 'x'), (3, 3, 'zero')):
        out.append(Case('covder-n%d-ns%d-%s' % (n, ns, last), covsim, '%d lags, %d samples' % (n, ns), n=n, ns=ns, last=last, derivative=True))
    if big:
        for n, ns, last in ((5, 8, 'x'), (6, 8, 'zero'), (8, 8, 'x')):
            out.append(Case('cov-n%d-ns%d-%s' % (n, ns, last), covsim, '%d lags, %d samples' % (n, ns), n=n, ns=ns, last=last, derivative=False))
        out.append(Case('covder-n4-ns4-x', covsim, '4 lags, 4 samples', n=4, ns=4, last='x', derivative=True))
    for c in (1, 2, 3):
        out.append(Case('cases-%d' % c, cases_n, '3 lags', ncases=c))
    out.append(Case('valid', valid, '4 lags', n=4))
    for nf, ns, ft, der in ((4, 4, 'w', False), (5, 6, 'w', False), (5, 5, 'f', False), (6, 8, 'w', True), (4, 4, 'f', True)) + (((9, 12, 'w', True), (7, 10, 'f', True)) if big else ()):
        out.append(Case('spec-n%d-ns%d-%s-%d' % (nf, ns, ft, der), specsim, '%d frequencies, %d samples' % (nf, ns), nf=nf, ns=ns, freqtype=ft, derivative=der))
    out.append(Case('exact', specexact, '3 frequencies', nf=3, ns=2))
    for which in ('cov', 'spec'):
        for der in (False, True):
            out.append(Case('tr-%s-%d' % (which, der), transformed, '3 or 4 samples', which=which, derivative=der))
    return out
