from math import pi, cos, sin, tanh, sqrt
from vsym.runner import Case
from .common import tolist, normals, either
PROPERTY = 'P48'
MODULES = ['wafo.spectrum.core', 'wafo._misc_numba', 'wafo.misc', 'wafo.containers', 'wafo.objects', 'wafo.wave_theory.dispersion_relation', 'wafo.covariance.core']
OUTSIDE = 'more wave components than stated; finite water depths and frequencies other than the stated ones; spectra resampled to another time step; rounding'
ASSUMPTIONS = ['the compiled disufq equals the Python one (P02)']
G = 9.81


def wavenumber(w, d, g=G):
    if d > 1e4:
        return w * w / g
    k = w * w / g
    for _ in range(200):
        f = g * k * tanh(k * d) - w * w
        k -= f / (g * tanh(k * d) + g * k * d * (1 - tanh(k * d) ** 2))
    return k


def kernels(w1, w2, d, g=G):
    """second order sum and difference kernels of a pair of waves (Sharma and Dean): amplitude of the second order wave per a1 a2"""
    k1, k2 = wavenumber(w1, d, g), wavenumber(w2, d, g)
    if d > 1e4:
        return 0.5 * (k1 + k2), -0.5 * abs(k1 - k2)
    R1, R2 = w1 * w1 / g, w2 * w2 / g
    a, b = sqrt(R1), sqrt(R2)
    kp, km = k1 + k2, abs(k1 - k2)
    D = ((a + b) * (b * (k1 ** 2 - R1 ** 2) + a * (k2 ** 2 - R2 ** 2)) + 2 * (a + b) ** 2 * (k1 * k2 - R1 * R2)) / ((a + b) ** 2 - kp * tanh(kp * d))
    Ep = .5 * ((D - (k1 * k2 - R1 * R2)) / (a * b) + R1 + R2)
    if w1 == w2:            # limit: mean of both sides
        e = 1e-4 * w1
        return Ep, 0.5 * (kernels(w1, w1 + e, d, g)[1] + kernels(w1, w1 - e, d, g)[1])
    D = ((a - b) * (b * (k1 ** 2 - R1 ** 2) - a * (k2 ** 2 - R2 ** 2)) + 2 * (a - b) ** 2 * (k1 * k2 + R1 * R2)) / ((a - b) ** 2 - km * tanh(km * d))
    return Ep, .5 * ((D - (k1 * k2 + R1 * R2)) / (a * b) + R1 + R2)


def listed(w1, w2, d, g=G):
    """Winterstein's form with g*h*k*tanh(k) in place of g*k*tanh(k*h), as the finding K48 describes"""
    k1, k2 = wavenumber(w1, d, g), wavenumber(w2, d, g)
    t, r = 2 * g * k1 * k2 / (w1 * w2), (w1 ** 2 + w2 ** 2) / g
    q = w1 * w2 / g
    s = w1 + w2
    p = 0.25 * ((t - r - q + g * (w1 * k2 ** 2 + w2 * k1 ** 2) / (w1 * w2 * s)) / (1 - g * d * (k1 + k2) * tanh(k1 + k2) / s ** 2) + r + q - 0.5 * t)
    if w1 == w2:
        return p, None
    s = w1 - w2
    m = 0.25 * ((t - r + q - g * (w1 * k2 ** 2 - w2 * k1 ** 2) / (w1 * w2 * s)) / (1 - g * d * abs(k1 - k2) * tanh(abs(k1 - k2)) / s ** 2) + r - q - 0.5 * t)
    return p, m


def second(re, im, w, d, lo, hi, size):
    """complex amplitudes of the second order wave by direct summation over all pairs"""
    r, s = [0.0] * size, [0.0] * size
    for i in range(lo, hi):
        for j in range(lo, hi):
            Ep, Em = kernels(w[i], w[j], d)
            # sum: 2 A_i A_j E+ at i + j
            r[i + j] = r[i + j] + 2 * Ep * (re[i] * re[j] - im[i] * im[j])
            s[i + j] = s[i + j] + 2 * Ep * (re[i] * im[j] + im[i] * re[j])
            # difference: 2 A_i conj(A_j) E-; negative frequencies are folded to the positive side
            if i > j:
                r[i - j] = r[i - j] + 4 * Em * (re[i] * re[j] + im[i] * im[j])
                s[i - j] = s[i - j] + 4 * Em * (im[i] * re[j] - re[i] * im[j])
            elif i == j:
                r[0] = r[0] + 2 * Em * (re[i] * re[i] + im[i] * im[i])
    return r, s


def direct(h, ns, nmin, nmax, depth, m):
    from wafo._misc_numba import disufq
    import numpy as np
    half = ns // 2 + 1
    w = [0.3 * i for i in range(half)]
    kw = [0.0] + [wavenumber(v, depth) for v in w[1:]]
    re = [[h.real('re%d_%d' % (i, c), -1, 1) if i < nmax + 1 else 0.0 for i in range(ns)] for c in range(m)]
    im = [[h.real('im%d_%d' % (i, c), -1, 1) if i < nmax + 1 else 0.0 for i in range(ns)] for c in range(m)]
    flat = lambda a: h.arr([a[c][i] for i in range(ns) for c in range(m)])       # noqa: E731
    A, B = flat(re), flat(im)
    r, s = disufq(A, B, np.array(w), np.array(kw), depth, G, nmin, nmax, m, ns)
    h.check(len(r) == ns * m and len(s) == ns * m, 'length')
    for c in range(m):
        rr, ss = second(re[c], im[c], w, depth, nmin - 1, nmax, ns)
        for i in range(ns):
            h.eq(r[i * m + c], rr[i], 'second order amplitude %d of series %d' % (i, c), tol=1e-4 if i == 0 and depth < 1e4 else 1e-8)
            h.eq(s[i * m + c], ss[i], 'second order amplitude %d of series %d, imaginary' % (i, c), tol=1e-8)
    for i in range(ns * m):
        h.eq(A[i], flat(re)[i], 'amplitudes not modified')


def transfer(h, depth, method, n=3):
    """quadratic transfer functions are half the kernels of the second order wave"""
    from wafo.spectrum.core import qtf
    import numpy as np
    if depth == float('inf'):
        w = [h.real('w%d' % i, 0, 3) for i in range(n)]
        hs, hd, hdi = qtf(h.arr(w), h=depth, g=G)
        for i in range(n):
            h.eq(hdi[i], 0.0, 'mean effect')
            for j in range(n):
                h.eq(hs[i, j], (w[i] ** 2 + w[j] ** 2) / (4 * G), 'sum effect %d %d' % (i, j), tol=1e-9)
                h.eq(hd[i, j], -abs(w[i] ** 2 - w[j] ** 2) / (4 * G), 'difference effect %d %d' % (i, j), tol=1e-9)
        return
    w = [0.5, 0.8, 1.2][:n]
    hs, hd, hdi = qtf(np.array(w), h=depth, g=G, method=method)
    if method == 'winterstein':
        for i in range(n):
            for j in range(n):
                ep, em = kernels(w[i], w[j], depth)
                bp, bm = listed(w[i], w[j], depth)
                either(h, hs[i, j], 0.5 * ep, bp, 'sum effect %d %d' % (i, j), 1e-6)
                if i != j:
                    either(h, hd[i, j], 0.5 * em, bm, 'difference effect %d %d' % (i, j), 1e-5)
                else:
                    h.eq(hd[i, j], 0.5 * em, 'mean effect', tol=1e-4)
        h.known('K48')
    a = [h.real('a%d' % i, -1, 1) for i in range(n)]
    for i in range(n):
        h.eq(hdi[i] * a[i] ** 2, hd[i, i] * a[i] ** 2, 'diagonal', tol=1e-9)
        for j in range(n):
            Ep, Em = kernels(w[i], w[j], depth)
            h.eq(hs[i, j] * a[i] * a[j], 0.5 * Ep * a[i] * a[j], 'sum effect %d %d' % (i, j), tol=1e-6)
            h.eq(hd[i, j] * a[i] * a[j], 0.5 * Em * a[i] * a[j], 'difference effect %d %d' % (i, j), tol=1e-4)


def stats(h, freqtype, moments):
    """mean, variance, skewness and kurtosis of second order waves in deep water"""
    from wafo.spectrum.core import SpecData1D
    w = [0.0, 0.5, 1.0, 1.5, 2.0]
    S = [h.real('s%d' % i, 0.5, 4) for i in range(5)]
    if freqtype == 'f':
        obj = SpecData1D(h.arr([s * (2 * pi) for s in S]), h.arr([v / (2 * pi) for v in w]), freqtype='f')
    else:
        obj = SpecData1D(h.arr(S), h.arr(w))
    out = obj.stats_nl(moments=moments)
    h.check(len(out) == len(moments), 'one value per moment')
    m0 = 0.5 / 3 * (S[0] + 4 * S[1] + 2 * S[2] + 4 * S[3] + S[4])
    q = [0.25 if i in (0, 4) else 0.5 for i in range(5)]
    I2 = sum(q[i] * q[j] * S[i] * S[j] * 2 * min(w[i], w[j]) ** 2 / (4 * G) for i in range(5) for j in range(5))
    from .common import root as _root
    root = _root(h, obj.stats_nl(moments='v')[0])
    for name, v in zip([c for c in 'mvsk' if c in moments], out):
        if name == 'm':
            h.eq(v, 0.0, 'mean')
        elif name == 'v':
            h.eq(v, m0, 'variance', tol=1e-8)
        elif name == 's':
            h.le(0, v, 'positive skewness')
            h.eq(v * m0 * root, 6 * I2, 'skewness', tol=1e-5)
        else:
            skew = obj.stats_nl(moments='s')[0]
            h.eq(v - 3, 16 * skew ** 2 / 9, 'kurtosis', tol=1e-7)


def simnl(h, ns, depth, cases):
    """simulated second order series = linear series + direct sum over the pairs of its components inside the frequency limits"""
    import numpy as np
    import wafo.spectrum.core as sc
    from wafo._misc_numba import disufq
    nf = ns // 2 + 1
    wn = 2.0
    w = [wn * i / (nf - 1) for i in range(nf)]
    S = [0.0] + [0.2 + 0.1 * i for i in range(nf - 2)] + [0.0]
    obj = sc.SpecData1D(np.array(S), np.array(w), h=depth)
    n2 = ns // 2
    zr = [[h.real('zr%d_%d' % (i, c), -2, 2) for c in range(cases)] for i in range(n2 + 1)]
    zi = [[h.real('zi%d_%d' % (i, c), -2, 2) for c in range(cases)] for i in range(n2 - 1)]
    old = sc.c_library
    lib = type('lib', (), dict(disufq=staticmethod(disufq)))
    sc.c_library = lib
    try:
        with normals([h.arr(zr), h.arr(zi)]):
            x2, x = obj.sim_nl(ns=ns, cases=cases, output='data', fnlimit=100.0, reltol=1e-3)
    finally:
        sc.c_library = old
    dt = pi / wn
    df = 2 * pi / (ns * dt)
    amp = [sqrt(S[i] / 2 * df / 2) for i in range(nf)]
    h.check(tuple(x.shape) == (ns, cases + 1) and tuple(x2.shape) == (ns, cases + 1), 'shape')
    for c in range(cases):
        re = [0.0] + [amp[i] * zr[i][c] for i in range(1, n2)] + [0.0] * n2
        im = [0.0] + [-amp[i] * zi[i - 1][c] for i in range(1, n2)] + [0.0] * n2
        rr, ss = second(re, im, w + [0.0] * n2, depth, 1, n2, ns)
        for t in range(ns):
            h.eq(x[t, 0], t * dt, 'time', tol=1e-9)
            h.eq(x2[t, 0], t * dt, 'time', tol=1e-9)
            lin = sum(2 * (re[i] * cos(2 * pi * i * t / ns) + im[i] * sin(2 * pi * i * t / ns)) for i in range(1, n2))
            h.eq(x[t, 1 + c], lin, 'linear series at %d' % t, tol=1e-8)
            quad = sum(rr[i] * cos(2 * pi * i * t / ns) + ss[i] * sin(2 * pi * i * t / ns) for i in range(ns))
            h.eq(x2[t, 1 + c], lin + quad, 'second order series at %d' % t, tol=1e-4 if depth < 1e4 else 1e-8)


def cases(tier):
    big = tier != 'quick'
    out = []
    for depth in (10.0, 40.0, 1e5):
        for ns, a, b, m in ((6, 2, 3, 1), (8, 2, 4, 1), (8, 3, 4, 1), (8, 2, 3, 2)) + (((12, 2, 6, 1), (12, 2, 5, 2)) if big else ()):
            out.append(Case('direct-%g-%d-%d-%d-%d' % (depth, ns, a, b, m), direct, '%d frequencies, %d series' % (ns, m), ns=ns, nmin=a, nmax=b, depth=depth, m=m))
    out.append(Case('qtf-deep', transfer, '3 frequencies', depth=float('inf'), method='winterstein'))
    for d in (5.0, 10.0, 40.0):
        for method in ('langley', 'winterstein'):
            out.append(Case('qtf-%s-%g' % (method, d), transfer, '3 frequencies', depth=d, method=method))
    for ft in ('w', 'f'):
        for mom in ('mvsk', 'sk', 'mv'):
            out.append(Case('stats-%s-%s' % (ft, mom), stats, '5 frequencies', freqtype=ft, moments=mom))
    for ns, d, c in ((6, 1e5, 1), (8, 1e5, 1), (6, 20.0, 1), (6, 1e5, 2)) + (((12, 30.0, 1),) if big else ()):
        out.append(Case('sim-%d-%g-%d' % (ns, d, c), simnl, '%d samples' % ns, ns=ns, depth=d, cases=c))
    return out
