from math import pi, cos, sin
from vsym.runner import Case
from .common import tolist
PROPERTY = 'P33'
MODULES = ['wafo.spectrum.core', 'wafo.covariance.core', 'wafo.containers', 'wafo.misc', 'wafo.interpolate']
OUTSIDE = 'more frequencies or lags than stated; the automatic choice of the density of the grid when resampling (fixed here), several free values in a resampled spectrum with stineman interpolation; plotting; rounding'
ASSUMPTIONS = ['numpy.fft.fft is the discrete Fourier transform']


def pow2(n):
    k = 1
    while k < n:
        k *= 2
    return k


def spectrum(h, nf, freqtype, wn, lo=0.0, depth=None, one=None, **kw):
    from wafo.spectrum.core import SpecData1D
    w = [wn * i / (nf - 1) for i in range(nf)]
    S = [h.real('s%d' % i, lo, 4) if one in (None, i) else 1.0 + (i * i) % 3 for i in range(nf)]
    if freqtype == 'f':
        obj = SpecData1D(h.arr([s * (2 * pi) for s in S]), h.arr([v / (2 * pi) for v in w]), freqtype='f', **kw)
    elif freqtype == 'k':
        obj = SpecData1D(h.arr(S), h.arr(w), type='k1d', freqtype='k', **kw)
    else:
        obj = SpecData1D(h.arr(S), h.arr(w), **kw)
    if depth is not None:
        obj.h = depth
    return obj, w, S


def dcos(k, x):
    """k-th derivative of cos"""
    return (cos(x), -sin(x), -cos(x), sin(x))[k % 4]


def tocov(h, nf, freqtype, rate, nr, nt):
    """covariance function = trapezoid integral of S(w) cos(w t), and its derivatives"""
    wn = 2.0
    obj, w, S = spectrum(h, nf, freqtype, wn, depth=25.0, norm=False, tr='tr')
    keep = tolist(obj.data), tolist(obj.args)
    kw = {}
    if rate is not None:
        kw['rate'] = rate
    if nt is not None:
        kw['nt'] = nt
    if nr:
        kw['nr'] = nr
    acf = obj.tocovdata(**kw)
    r = 1 if rate is None else min(pow2(rate), 16)
    N = r * pow2(2 * nf - 2)
    dt = pi / wn * (2 * nf - 2) / N
    last = r * (nf - 1)
    n = (last if nt is None else min(nt, last)) + 1
    h.check(len(acf.data) == n and len(acf.args) == n, 'number of lags')
    h.check(acf.lagtype == ('x' if freqtype == 'k' else 't'), 'kind of lag')
    h.check(acf.h == 25.0 and acf.tr == 'tr' and acf.norm is False, 'depth, transform and normalisation are kept')
    dw = wn / (nf - 1)
    letter = 'x' if freqtype == 'k' else 't'
    for j in range(n):
        h.eq(acf.args[j], j * dt, 'lag %d' % j, tol=1e-9)
        for k in range(nr + 1):
            ref = sum((0.5 if i in (0, nf - 1) else 1.0) * dw * S[i] * w[i] ** k * dcos(k, w[i] * j * dt) for i in range(nf))
            v = acf.data[j] if k == 0 else getattr(acf, 'R' + letter * k)[j]
            h.eq(v, ref, 'derivative %d at lag %d' % (k, j), tol=1e-9)
    for i in range(nf):
        h.eq(obj.data[i], keep[0][i], 'spectrum not modified')
        h.eq(obj.args[i], keep[1][i], 'frequencies not modified')


def even(h, nf):
    """R(0) is the variance and the largest value; R is real"""
    obj, w, S = spectrum(h, nf, 'w', 2.0)
    acf = obj.tocovdata()
    for j in range(1, len(acf.data)):
        h.le(abs(acf.data[j]), acf.data[0] + 1e-9, 'maximum at zero lag')


def roundtrip(h, nf, freqtype, fast, rate=None):
    """spectrum -> covariance -> spectrum"""
    wn = 2.0
    obj, w, S = spectrum(h, nf, freqtype, wn, lo=0.01, depth=25.0, tr='tr')
    acf = obj.tocovdata() if rate is None else obj.tocovdata(rate=rate)
    back = acf.tospecdata() if fast else acf.tospecdata(fast=False)
    r = 1 if rate is None else rate
    h.check(len(back.data) == r * (nf - 1) + 1, 'number of frequencies')
    h.check(back.freqtype == ('k' if freqtype == 'k' else 'w') and back.type == ('k1d' if freqtype == 'k' else 'freq'), 'type')
    h.check(back.h == 25.0 and back.tr == 'tr', 'depth and transform are kept')
    for i in range(nf):
        h.eq(back.args[i], w[i], 'frequency %d' % i, tol=1e-9)
        f = 2.0 if r > 1 and i == nf - 1 else 1.0         # the last ordinate of the first one is split to both sides
        h.eq(back.data[i] * f, S[i], 'density %d' % i, tol=1e-8)
    for i in range(nf, len(back.data)):
        h.eq(back.data[i], 0.0, 'nothing above', tol=1e-8)


def tospec(h, n, dt, rate, nugget, fast, lag='t'):
    """spectrum = dt / pi * sum of R(k dt) cos(w k dt), nugget added to the variance once; negative values are set to zero"""
    from wafo.covariance.core import CovData1D
    R = [h.real('r0', 3, 4)] + [h.real('r%d' % i, -0.25, 0.25) for i in range(1, n)]
    a = h.arr(R)
    obj = CovData1D(a, h.arr([dt * i for i in range(n)]), lagtype=lag)
    kw = dict(rate=rate) if rate is not None else {}
    if nugget:
        nug = h.real('nugget', 0, 1)
        kw['nugget'] = nug
    else:
        nug = 0.0
    if not fast:
        kw['fast'] = False
    for time in range(2):
        s = obj.tospecdata(**kw)
        N = (pow2(2 * n - 2) if fast else 2 * n - 2) * (1 if rate is None else pow2(rate))
        nf = N // 2
        h.check(len(s.data) == nf + 1 and len(s.args) == nf + 1, 'number of frequencies')
        for j in range(nf + 1):
            w = pi / dt * j / nf
            h.eq(s.args[j], w, 'frequency', tol=1e-9)
            ref = R[0] + nug + sum((1 if k == n - 1 else 2) * R[k] * cos(w * k * dt) for k in range(1, n))
            h.eq(s.data[j] * pi / dt, ref, 'density at frequency %d, call %d' % (j, time + 1), tol=1e-8)
    for i in range(n):
        h.eq(obj.data[i], R[i], 'covariance not modified')
    h.check(s.freqtype == ('w' if lag == 't' else 'k'), 'kind of spectrum')
    h.eq(obj.sampling_period(), dt, 'sampling period')


def clipped(h, n):
    """any covariance values: the spectrum is never negative, and equals the transform where that is not negligible"""
    from wafo.covariance.core import CovData1D
    R = [h.real('r%d' % i, -2, 2) for i in range(n)]
    obj = CovData1D(h.arr(R), h.arr([0.5 * i for i in range(n)]))
    s = obj.tospecdata(trunc=0.25)
    N = pow2(2 * n - 2)
    ref = []
    for j in range(N // 2 + 1):
        w = 2 * pi / N * j
        ref.append(R[0] + sum((1 if k == n - 1 else 2) * R[k] * cos(w * k) for k in range(1, n)))
    top = ref[0]
    for v in ref[1:]:
        top = v if bool(v > top) else top
    for j, v in enumerate(ref):
        got = s.data[j] * pi / 0.5
        h.le(0, got, 'not negative')
        if bool(v > 0.2501 * top) and bool(v > 0):
            h.eq(got, v, 'kept', tol=1e-8)
        elif bool(v < 0.2499 * top) or bool(v < 0):
            h.eq(got, 0.0, 'truncated')


def quiet(h, spacing):
    """the automatic discretisation of the spectrum replaced by a grid of the given spacing"""
    import wafo.spectrum.core as wsc
    import numpy as np
    old = wsc.discretize
    seen = []

    def fake(fun, a, b, *args, **kw):
        seen.append((float(a), float(b)))
        n = int(round((b - a) / spacing)) + 1
        return np.linspace(a, b, n), None
    wsc.discretize = fake

    def undo():
        wsc.discretize = old
    return seen, undo


def matrix(h, nf, freqtype, div, nr, nt):
    """tocov_matrix: the columns are the covariance function and its derivatives, with the time step asked for"""
    wn = 2.0
    obj, w, S = spectrum(h, nf, freqtype, wn, lo=0.01, one=1 + nr % (nf - 1))
    keep = tolist(obj.data), tolist(obj.args)
    dw = wn / (nf - 1)
    dt = None if div is None else pi / wn / div
    r = 1 if div is None else div
    seen, undo = quiet(h, dw if freqtype != 'f' else dw / (2 * pi))
    type(obj)._check_cov_matrix, warn = staticmethod(lambda *a: None), type(obj)._check_cov_matrix
    try:
        kw = {} if dt is None else dict(dt=dt)
        if nt is not None:
            kw['nt'] = nt
        R = obj.tocov_matrix(nr=nr, **kw)
    finally:
        type(obj)._check_cov_matrix = staticmethod(warn)        # it only warns
        undo()
    m = r * (nf - 1) if nt is None else min(nt, r * (nf - 1))
    h.check(R.shape == (m + 1, nr + 1), 'shape')
    for j in range(m + 1):
        t = j * pi / wn / r
        for k in range(nr + 1):
            ref = sum((0.5 if i == 0 or (i == nf - 1 and r == 1) else 1.0) * dw * S[i] * w[i] ** k * dcos(k, w[i] * t) for i in range(nf))
            h.eq(R[j, k], ref, 'derivative %d at lag %d' % (k, j), tol=1e-8)
    for i in range(nf):
        h.eq(obj.data[i], keep[0][i], 'spectrum not modified')
        h.eq(obj.args[i], keep[1][i], 'frequencies not modified')


def resample(h, grid, freqtype, fac, method, how, var):
    """resampled spectrum: equidistant from zero to the new Nyquist frequency, the given values at shared frequencies, zero outside, never negative"""
    from wafo.spectrum.core import SpecData1D
    w = [float(v) for v in grid]
    c = 2 * pi if freqtype == 'f' else 1.0
    S = [h.real('s%d' % i, 0, 4) if method or i == var else 1.0 + (i * i) % 3 for i in range(len(w))]
    obj = SpecData1D(h.arr(S), h.arr([v / c for v in w]), freqtype=freqtype, **(dict(type='k1d') if freqtype == 'k' else {}))
    dw = min(b - a for a, b in zip(w, w[1:]))
    dt = pi / w[-1] / fac
    seen, undo = quiet(h, dw / c)
    try:
        if how == 'interp':
            new = obj.interp(dt)
            h.check(new is not obj and len(obj.args) == len(w), 'a copy')
            for i in range(len(w)):
                h.eq(obj.data[i], S[i], 'spectrum not modified')
        else:
            new = obj
            kw = {} if method is None else dict(method=method)
            if fac != 1:
                kw['dt'] = dt
            new.resample(**kw)
    finally:
        undo()
    top = w[-1] * fac
    n = len(new.args)
    h.check(len(new.data) == n, 'lengths')
    h.check(pow2(n - 1) == n - 1, 'number of frequencies is a power of two plus one')
    h.check(top / (n - 1) <= dw * (1 + 1e-9), 'at least as dense')
    h.eq(new.sampling_period(), dt, 'time step', tol=1e-9)
    h.check(new.freqtype == freqtype, 'kind of frequency')
    for j in range(n):
        v = top * j / (n - 1)
        h.eq(new.args[j] * c, v, 'frequency %d' % j, tol=1e-9)
        h.le(0, new.data[j], 'not negative')
        if method != 'cubic' and (v >= w[-1] + dw - 1e-9 or v <= w[0] - dw + 1e-9):       # a cubic spline rings
            h.eq(new.data[j], 0.0, 'zero outside', tol=1e-9)
        for i, x in enumerate(w):
            if abs(x - v) < 1e-9:
                h.eq(new.data[j], S[i], 'value at a shared frequency', tol=1e-7)


def freqswitch(h, first):
    """changing the kind of frequency keeps the variance"""
    obj, w, S = spectrum(h, 4, first, 2.0)
    a, d = tolist(obj.args), tolist(obj.data)
    other = 'w' if first == 'f' else 'f'
    k = 2 * pi if first == 'f' else 1 / (2 * pi)
    obj.freqtype = other
    h.check(obj.freqtype == other, 'kind')
    for i in range(4):
        h.eq(obj.args[i], a[i] * k, 'frequency', tol=1e-9)
        h.eq(obj.data[i] * k, d[i], 'density', tol=1e-9)
    obj.freqtype = other
    obj.freqtype = first
    for i in range(4):
        h.eq(obj.args[i], a[i], 'frequency back', tol=1e-9)
        h.eq(obj.data[i], d[i], 'density back', tol=1e-9)


def refuse(h):
    from wafo.spectrum.core import SpecData1D
    S = [h.real('s%d' % i, 0, 4) for i in range(4)]
    a = h.real('a', 0.01, 1)
    h.raises(ValueError, lambda: SpecData1D(h.arr(S), h.arr([a, a + 1, a + 2, a + 3])).tocovdata(), 'spectrum must start at zero')
    d = h.real('d', 0.01, 0.9)
    h.raises(ValueError, lambda: SpecData1D(h.arr(S), h.arr([0.0, 1.0, 2.0 + d, 3.0])).tocovdata(), 'equidistant frequencies')


def cases(tier):
    big = tier != 'quick'
    out = []
    for nf in (3, 4, 5, 6) if not big else (3, 4, 5, 6, 7, 9):
        out.append(Case('tocov-n%d' % nf, tocov, '%d frequencies' % nf, nf=nf, freqtype='w', rate=None, nr=0, nt=None))
    for ft in ('w', 'f', 'k'):
        out.append(Case('tocov-nr4-' + ft, tocov, '5 frequencies', nf=5, freqtype=ft, rate=None, nr=4, nt=None))
        out.append(Case('tocov-nr2-rate-' + ft, tocov, '4 frequencies', nf=4, freqtype=ft, rate=2, nr=2, nt=4))
    for rate in (1, 2, 3, 4, 8, 16, 32) if big else (1, 3, 4, 32):
        out.append(Case('tocov-rate%d' % rate, tocov, '3 frequencies', nf=3, freqtype='w', rate=rate, nr=1, nt=None))
    out.append(Case('tocov-nt', tocov, '5 frequencies', nf=5, freqtype='w', rate=None, nr=1, nt=2))
    out.append(Case('tocov-nt-large', tocov, '5 frequencies', nf=5, freqtype='w', rate=None, nr=0, nt=100))
    out.append(Case('even', even, '5 frequencies', nf=5))
    for nf in (3, 5) + ((9,) if big else ()):
        for ft in ('w', 'f', 'k'):
            out.append(Case('roundtrip-n%d-%s' % (nf, ft), roundtrip, '%d frequencies' % nf, nf=nf, freqtype=ft, fast=True))
    out.append(Case('roundtrip-rate2', roundtrip, '5 frequencies', nf=5, freqtype='w', fast=True, rate=2))
    for n, dt, rate, nug, fast in ((2, 1.0, None, False, True), (3, 0.5, None, False, True), (4, 0.5, None, True, True), (4, 0.5, None, False, False), (3, 2.0, 2, True, True),
                                   (5, 0.25, None, True, True), (3, 1.0, 3, False, True), (6, 1.0, None, False, False)):
        out.append(Case('tospec-n%d-r%s-%d-%d' % (n, rate, nug, fast), tospec, '%d lags' % n, n=n, dt=dt, rate=rate, nugget=nug, fast=fast))
    out.append(Case('tospec-x', tospec, '3 lags', n=3, dt=1.5, rate=None, nugget=False, fast=True, lag='x'))
    out.append(Case('clipped-n2', clipped, '2 lags', n=2))
    out.append(Case('clipped-n3', clipped, '3 lags', n=3))
    for nf, ft, div, nr, nt in ((5, 'w', None, 3, None), (5, 'w', 2, 2, None), (5, 'k', None, 1, 2), (3, 'w', 4, 2, 5), (5, 'w', 1, 1, 100)):
        out.append(Case('matrix-n%d-%s-%s-%d' % (nf, ft, div, nr), matrix, '%d frequencies' % nf, nf=nf, freqtype=ft, div=div, nr=nr, nt=nt))
    for name, grid in (('even', (0, 0.5, 1.0, 1.5, 2.0)), ('start', (0.5, 1.0, 1.5, 2.0)), ('far', (1.0, 1.25, 1.5, 1.75, 2.0)), ('uneven', (0, 0.5, 1.0, 2.0))):
        for ft, fac, method, how in (('w', 1, None, 'resample'), ('f', 2, 'linear', 'resample'), ('w', 4, 'linear', 'resample'), ('k', 0.5, 'cubic', 'resample'), ('w', 0.5, None, 'interp')):
            out.append(Case('resample-%s-%s-%s-%s' % (name, ft, fac, method or how), resample, '%d frequencies' % len(grid), grid=grid, freqtype=ft, fac=fac, method=method, how=how, var=1 + len(out) % 3))
    for ft in 'wf':
        out.append(Case('freqtype-' + ft, freqswitch, '4 frequencies', first=ft))
    out.append(Case('refuse', refuse, '4 frequencies'))
    return out
