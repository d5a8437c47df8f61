from math import pi, sqrt, cos, sin
from vsym.runner import Case
from .common import tolist, either
PROPERTY = 'P32'
MODULES = ['wafo.spectrum.core', 'wafo.containers', 'wafo.misc']
OUTSIDE = 'more frequencies than stated, frequencies as unknowns, plotting, conversion between frequency and wave number spectra; rounding'
ASSUMPTIONS = ['scipy simps is Simpson integration (its weights are read off by integrating unit vectors)']

GRIDS = {'w5': [0.0, 0.5, 1.0, 1.5, 2.0], 'w6': [0.0, 0.4, 0.8, 1.2, 1.6, 2.0], 'w7': [0.0, 0.25, 0.5, 0.75, 1.0, 1.25, 1.5],
         'u5': [0.0, 0.25, 1.0, 1.5, 2.5], 'p5': [0.25, 0.5, 0.75, 1.0, 1.25], 'w3': [0.0, 1.0, 2.0], 'w4': [0.0, 1.0, 2.0, 3.0]}


def weights(x):
    import numpy as np
    from scipy.integrate import simpson
    return [float(v) for v in simpson(np.eye(len(x)), x=np.array(x), axis=-1)]


def integ(x, y):
    return sum(w * v for w, v in zip(weights(x), y))


def spec(h, grid, freqtype='w', lo=0.0, fixed=None, hi=4, **kw):
    """spectrum object with any density on the grid (rad/s; converted when another type is asked for); returns it with
    angular frequencies and density in them"""
    from wafo.spectrum.core import SpecData1D
    w = GRIDS[grid]
    S = [h.real('s%d' % i, lo, hi) if fixed is None or fixed[i] is None else fixed[i] for i in range(len(w))]
    if freqtype == 'f':
        obj = SpecData1D(h.arr([s * (2 * pi) for s in S]), h.arr([v / (2 * pi) for v in w]), freqtype='f', **kw)
    elif freqtype == 'k':
        obj = SpecData1D(h.arr(S), h.arr(w), type='k1d', freqtype='k', **kw)
    else:
        obj = SpecData1D(h.arr(S), h.arr(w), **kw)
    return obj, w, S


def moments(h, grid, freqtype, nr, even, j):
    obj, w, S = spec(h, grid, freqtype)
    m, txt = obj.moment(nr=nr, even=even, j=j)
    step = 2 if even else 1
    orders = list(range(0, nr + 1, step))
    h.check(len(m) == len(orders) and len(txt) == len(orders), 'one moment per order')
    letter = 'x' if freqtype == 'k' else 't'
    for k, o in enumerate(orders):
        h.eq(m[k], integ(w, [v ** o * s ** (j + 1) for v, s in zip(w, S)]), 'moment %d' % o, tol=1e-9)
        h.check(txt[k] == 'm%d%s' % (j, letter * o), 'name of moment %d' % o)
    h.check(tuple(obj.data.shape) == (len(w),), 'shape')


def convert(h, grid):
    """switching between Hz and rad/s keeps the spectrum: same moments, same sampling, back and forth is the identity"""
    from wafo.spectrum.core import SpecData1D
    w = GRIDS[grid]
    S = [h.real('s%d' % i, 0, 4) for i in range(len(w))]
    a, b = h.arr(S), h.arr(w)
    obj = SpecData1D(a, b)
    dt = obj.sampling_period()
    h.eq(dt, pi / w[-1], 'sampling period')
    h.eq(obj.nyquist_freq(), w[-1], 'Nyquist')
    obj.freqtype = 'f'
    h.check(obj.freqtype == 'f', 'type')
    for i in range(len(w)):
        h.eq(obj.args[i], w[i] / (2 * pi), 'Hz', tol=1e-12)
        h.eq(obj.data[i], S[i] * 2 * pi, 'density per Hz', tol=1e-9)
    h.eq(obj.sampling_period(), dt, 'same sampling period', tol=1e-12)
    obj.freqtype = 'f'
    h.eq(obj.args[1], w[1] / (2 * pi), 'no second conversion', tol=1e-12)
    obj.freqtype = 'w'
    for i in range(len(w)):
        h.eq(obj.args[i], w[i], 'back', tol=1e-12)
        h.eq(obj.data[i], S[i], 'density back', tol=1e-9)


def normal(h, grid, freqtype):
    """after normalize variance and second moment are one, and the shape is that of the original"""
    obj, w, S = spec(h, grid, freqtype, lo=0.1)
    m0 = integ(w, S)
    m2 = integ(w, [v ** 2 * s for v, s in zip(w, S)])
    n = obj.copy()
    n.normalize()
    m, _ = n.moment(2)
    h.eq(m[0], 1.0, 'unit variance', tol=1e-8)
    h.eq(m[1], 1.0, 'unit second moment', tol=1e-8)
    h.check(bool(n.norm), 'flag')
    h.eq(n.A ** 2 * m2, m0, 'scale', tol=1e-8)
    A = n.A
    for i in range(len(w)):
        h.eq(n.args[i], obj.args[i] * A, 'frequency scaled', tol=1e-8)
        h.eq(n.data[i] * A * m0, obj.data[i], 'density scaled', tol=1e-8)
    old, _, _ = spec(h, grid, freqtype, lo=0.1)
    for i in range(len(w)):
        h.eq(obj.data[i], old.data[i], 'copy is independent')


def band(h, grid, freqtype, some):
    obj, w, S = spec(h, grid, freqtype, lo=0.1, fixed=some)
    m = [integ(w, [v ** k * s for v, s in zip(w, S)]) for k in range(5)]
    b = obj.bandwidth([0, 1, 2, 3])
    h.eq(b[0] ** 2 * m[0] * m[4], m[2] ** 2, 'alpha', tol=1e-8)
    h.le(0, b[0], 'alpha positive')
    h.eq(b[1] ** 2 * m[1] ** 2, m[0] * m[2] - m[1] ** 2, 'eps2', tol=1e-8)
    h.eq(b[2] ** 2 * m[0] * m[4], m[0] * m[4] - m[2] ** 2, 'eps4', tol=1e-8)
    h.eq(b[3] * m[0] ** 2, 2 * integ(w, [v * s ** 2 for v, s in zip(w, S)]), 'Qp', tol=1e-8)
    for names, idx in ((['alpha', 'eps2', 'eps4', 'Qp'], [0, 1, 2, 3]), ('eps4', [2]), ('eps2', [1]), ('alpha', [0]), ('qp', [3]), ([3, 'alpha'], [3, 0]), (0, [0]), (2, [2])):
        c = tolist(obj.bandwidth(names))
        h.check(len(c) == len(idx), 'factors asked for')
        for v, i in zip(c, idx):
            h.eq(v, b[i], 'factor %s' % (names,), tol=1e-9)
    h.check(len(tolist(obj.bandwidth())) == 1, 'default')


NAMES = ['Hm0', 'Tm01', 'Tm02', 'Tm24', 'Tm_10', 'Tp', 'Ss', 'Sp', 'Ka', 'Rs', 'Tp1', 'Alpha', 'Eps2', 'Eps4', 'Qp']


def char(h, grid, freqtype, some=None, rng=(0.1, 4)):
    """spectral characteristics by their definitions, whichever frequency unit"""
    obj, w, S = spec(h, grid, freqtype, lo=rng[0], hi=rng[1], fixed=some)
    g = 9.81
    m = [integ(w, [v ** k * s for v, s in zip(w, S)]) for k in range(5)]
    ch, R, txt = obj.characteristic(list(range(15)))
    h.check(list(txt) == NAMES, 'names')
    h.check(len(ch) == 15 and tuple(R.shape) == (15, 15), 'sizes')
    h.eq(ch[0] ** 2, 16 * m[0], 'Hm0', tol=1e-8)
    h.eq(ch[1] * m[1], 2 * pi * m[0], 'Tm01', tol=1e-8)
    h.eq(ch[2] ** 2 * m[2], 4 * pi ** 2 * m[0], 'Tm02', tol=1e-8)
    h.eq(ch[3] ** 2 * m[4], 4 * pi ** 2 * m[2], 'Tm24', tol=1e-8)
    pos = [i for i, v in enumerate(w) if v > 0]
    wp = [w[i] for i in pos]
    h.eq(ch[4] * m[0], 2 * pi * integ(wp, [S[i] / w[i] for i in pos]), 'Tm_10', tol=1e-8)
    top = 0
    for i in range(len(w)):
        if bool(S[i] > S[top]):
            top = i
    if top:
        h.eq(ch[5], 2 * pi / w[top], 'Tp', tol=1e-8)
        h.eq(ch[7] * g * ch[5] ** 2, 2 * pi * ch[0], 'Sp', tol=1e-7)
    h.eq(ch[6] * g * ch[2] ** 2, 2 * pi * ch[0], 'Ss', tol=1e-7)
    h.eq(ch[10] * integ(w, [v * s ** 4 for v, s in zip(w, S)]), 2 * pi * integ(w, [s ** 4 for s in S]), 'Tp1', tol=1e-6)
    h.eq(ch[11] ** 2 * m[0] * m[4], m[2] ** 2, 'alpha', tol=1e-7)
    h.eq(ch[12] ** 2 * m[1] ** 2, m[0] * m[2] - m[1] ** 2, 'eps2', tol=1e-7)
    h.eq(ch[13] ** 2 * m[0] * m[4], m[0] * m[4] - m[2] ** 2, 'eps4', tol=1e-7)
    h.eq(ch[14] * m[0] ** 2, 2 * integ(w, [v * s ** 2 for v, s in zip(w, S)]), 'Qp', tol=1e-7)

    def lin(x):
        for i in range(len(w) - 1):
            if w[i] <= x <= w[i + 1]:
                return S[i] + (S[i + 1] - S[i]) * (x - w[i]) / (w[i + 1] - w[i])
        return S[0] if x < w[0] else S[-1]
    h.eq(ch[9] * 3 * S[top], sum(lin(2 * pi * f) for f in (0.0146, 0.0195, 0.0244)), 'Rs', tol=1e-7)
    c2, R2, t2 = obj.characteristic(['Hm0', 'tm02', 'Eps2'])
    for v, i in zip(tolist(c2), (0, 2, 12)):
        h.eq(v, ch[i], 'by name', tol=1e-9)
    h.check(list(t2) == ['Hm0', 'Tm02', 'Eps2'] and tuple(R2.shape) == (3, 3), 'names asked for')
    c3 = tolist(obj.characteristic('Tm24')[0])
    h.check(len(c3) == 1, 'one factor')
    h.eq(c3[0], ch[3], 'one factor by name', tol=1e-9)
    h.raises(ValueError, lambda: obj.characteristic('nonsense'), 'unknown factor')
    h.raises(ValueError, lambda: obj.characteristic(15), 'factor out of range')


def groupy(h, grid, freqtype):
    """groupiness parameter, with the density at one frequency unknown"""
    fixed = [0.0, 1.0, None, 0.5, 0.25]
    obj, w, S = spec(h, grid, freqtype, lo=0.1, fixed=fixed)
    if h.sym:
        return
    import cmath
    ch = obj.characteristic(list(range(15)))[0]
    z = sum(a * s * cmath.exp(1j * v * ch[2]) for a, v, s in zip(weights(w), w, S))
    h.eq(ch[8], abs(z) / integ(w, S), 'Ka', tol=1e-9)


def variances(h, grid, freqtype, T, shape):
    """variances of the characteristics by the delta method, cov(m_i, m_j) = 1/T int f^(i+j) S(f)^2 df"""
    c = h.real('scale', 0.5, 2)
    obj, w, S = spec(h, grid, freqtype, fixed=[c * v for v in shape])
    if T is None:
        T = h.real('T', 100, 2000)
    ch, R, txt = obj.characteristic(list(range(15)), T=T) if not (isinstance(T, int) and T == 1200) else obj.characteristic(list(range(15)))
    g = 9.81
    f = [v / (2 * pi) for v in w]
    Sf = [s * 2 * pi for s in S]
    m = [integ(f, [x ** k * s for x, s in zip(f, Sf)]) for k in range(5)]
    c = [integ(f, [x ** k * s ** 2 for x, s in zip(f, Sf)]) / T for k in range(9)]
    pos = [i for i, v in enumerate(f) if v > 0]
    fp = [f[i] for i in pos]
    m_1 = integ(fp, [Sf[i] / f[i] for i in pos])
    c_10 = integ(fp, [Sf[i] ** 2 / f[i] for i in pos]) / T
    c_11 = integ(fp, [Sf[i] ** 2 / f[i] ** 2 for i in pos]) / T

    def cov(i, j):
        return c[i + j]

    def delta(grad, grad2=None):
        grad2 = grad if grad2 is None else grad2
        return sum(a * b * cov(i, j) for i, a in grad.items() for j, b in grad2.items())
    # squared quantities q with q = p(moments); var(sqrt q) = var(q) / (4 q)
    h.eq(R[0, 0] * m[0], 4 * c[0], 'var Hm0', tol=1e-7)
    gT1 = {0: 1 / m[1], 1: -m[0] / m[1] ** 2}
    h.eq(R[1, 1], delta(gT1), 'var Tm01', tol=1e-7)
    gT2 = {0: 1 / m[2], 2: -m[0] / m[2] ** 2}           # of Tm02 ** 2
    h.eq(R[2, 2] * 4 * m[0] / m[2], delta(gT2), 'var Tm02', tol=1e-7)
    gT4 = {2: 1 / m[4], 4: -m[2] / m[4] ** 2}
    h.eq(R[3, 3] * 4 * m[2] / m[4], delta(gT4), 'var Tm24', tol=1e-7)
    h.eq(R[4, 4], c_11 / m[0] ** 2 + m_1 ** 2 / m[0] ** 4 * c[0] - 2 * m_1 / m[0] ** 3 * c_10, 'var Tm_10', tol=1e-7)
    # Ss^2 = (8 pi / g)^2 m2^2 / m0
    k = (8 * pi / g) ** 2
    gS = {0: -m[2] ** 2 / m[0] ** 2, 2: 2 * m[2] / m[0]}
    h.eq(R[6, 6] * 4 * m[2] ** 2 / m[0], k * delta(gS), 'var Ss', tol=1e-7)
    # alpha^2 = m2^2 / (m0 m4)
    gA = {0: -m[2] ** 2 / m[0] ** 2 / m[4], 2: 2 * m[2] / m[0] / m[4], 4: -m[2] ** 2 / m[0] / m[4] ** 2}
    a2 = m[2] ** 2 / m[0] / m[4]
    h.eq(R[11, 11] * 4 * a2, delta(gA), 'var alpha', tol=1e-6)
    h.eq(R[13, 13] * 4 * (1 - a2), delta(gA), 'var eps4', tol=1e-6)
    e2 = m[0] * m[2] / m[1] ** 2 - 1
    gE = {0: m[2] / m[1] ** 2, 2: m[0] / m[1] ** 2, 1: -2 * m[0] * m[2] / m[1] ** 3}
    h.eq(R[12, 12] * 4 * e2, delta(gE), 'var eps2', tol=1e-6)
    # covariances
    H2 = {0: 16.0}                                        # of Hm0 ** 2
    h.eq(R[1, 2] * 2 * ch[2], delta(gT1, gT2), 'cov Tm01, Tm02', tol=1e-6)
    h.eq(R[2, 1], R[1, 2], 'symmetric')
    a, b, c, d = (delta(H2, q) for q in (gT1, gT2, gT4, gT2))
    ok = [h.all([R[0, 2] * s <= e + 1e-6, e <= R[0, 2] * s + 1e-6]) for s, e in ((4 * ch[0] * ch[2], b), (2 * ch[0], a))]
    h.check(h.any(ok), 'cov Hm0, Tm02: right or as listed')
    h.known('K32a')
    h.eq(R[0, 1] * 2 * ch[0], delta(H2, gT1), 'cov Hm0, Tm01', tol=1e-6)
    h.eq(R[0, 2] * 4 * ch[0] * ch[2], delta(H2, gT2), 'cov Hm0, Tm02', tol=1e-6)


def two(h, freqs, nt, vari, nr, phi):
    """moments of a directional spectrum: integrals of k1^j k2^k w^l"""
    from wafo.spectrum.core import SpecData2D
    w = GRIDS[freqs]
    th = [-pi + 2 * pi * i / (nt - 1) for i in range(nt)]
    S = [[h.real('s%d_%d' % (i, j), 0, 3) for j in range(len(w))] for i in range(nt)]
    obj = SpecData2D(h.arr(S), (h.arr(w), h.arr(th)), phi=phi) if phi else SpecData2D(h.arr(S), (h.arr(w), h.arr(th)))
    m, txt = obj.moment(nr=nr, vari=vari) if vari else obj.moment(nr=nr)
    from wafo.misc import gravity
    g = float(gravity())
    Wt, Ww = weights(th), weights(w)

    def mom(j, k, l):
        t = 0.0
        for a in range(nt):
            for b in range(len(w)):
                K = w[b] ** 2 / g
                t = t + Wt[a] * Ww[b] * S[a][b] * (K * cos(th[a] - phi)) ** j * (K * sin(th[a] - phi)) ** k * w[b] ** l
        return t
    v = sorted(vari or 'xt')
    h.check(txt[0] == 'm0' and len(txt) == len(m) == len(set(txt)), 'names are distinct')
    want = {'m0'}
    import itertools
    for o in ([1, 2] if nr > 1 else [1]) + ([4] if nr > 3 else []):
        for c in itertools.combinations_with_replacement(v, o):
            want.add('m' + ''.join(sorted(c, key='xyt'.index)))
    if nr == 0:
        want = {'m0'}
    h.check(set(txt) == want, 'the moments of the model: %s' % sorted(want ^ set(txt)))
    for name, val in zip(txt, tolist(m)):
        if name == 'myt':
            continue
        n = name[1:] if name != 'm0' else ''
        h.eq(val, mom(n.count('x'), n.count('y'), n.count('t')), name, tol=1e-9)
    if 'myt' in txt:
        either(h, tolist(m)[txt.index('myt')], mom(0, 1, 1), mom(1, 0, 1), 'myt', 1e-9)
        h.known('K32b')
        h.eq(tolist(m)[txt.index('myt')], mom(0, 1, 1), 'myt', tol=1e-9)


def nonlinear(h, grid, freqtype):
    """skewness and kurtosis of second order waves on deep water"""
    obj, w, S = spec(h, grid, freqtype, lo=0.1)
    out = obj.stats_nl(moments='mvsk')
    h.check(len(out) == 4, 'all four')
    m0 = integ(w, S)
    h.eq(out[0], 0.0, 'mean')
    h.eq(out[1], m0, 'variance', tol=1e-9)
    g = 9.81
    n = len(w)
    tw = [0.0] * n
    for i in range(n - 1):
        tw[i] += (w[i + 1] - w[i]) / 2
        tw[i + 1] += (w[i + 1] - w[i]) / 2
    H = sum(tw[i] * tw[j] * S[i] * S[j] * 0.5 * min(w[i], w[j]) ** 2 / g for i in range(n) for j in range(n))
    h.eq(out[2] ** 2 * m0 ** 3, (6 * H) ** 2, 'skewness', tol=1e-7)
    h.le(0, out[2], 'positive skewness')
    h.eq((out[3] - 3) * m0 ** 3, (8 * H) ** 2, 'kurtosis', tol=1e-7)
    a = obj.stats_nl(moments='sk')
    h.check(len(a) == 2, 'two')
    h.eq(a[0], out[2], 'skewness only')
    h.eq(obj.stats_nl(moments='v')[0], m0, 'variance only', tol=1e-9)


def refuse(h):
    from wafo.spectrum.core import SpecData1D, SpecData2D
    S = [h.real('s%d' % i, 0.1, 4) for i in range(3)]
    obj = SpecData1D(h.arr(S), h.arr([0.0, 1.0, 2.0]))
    obj.type = 'dir'
    h.raises(ValueError, lambda: obj.moment(), 'type')
    h.raises(ValueError, lambda: SpecData1D(h.arr(S), h.arr([0.0, 1.0, 2.0])).stats_nl(method='exact'), 'method')


def cases(tier):
    big = tier != 'quick'
    out = []
    for grid in ('w5', 'w6', 'u5', 'w3', 'w4'):
        for ft in ('w', 'f', 'k'):
            out.append(Case('moment-%s-%s' % (grid, ft), moments, 'any density at %d frequencies' % len(GRIDS[grid]), grid=grid, freqtype=ft, nr=4, even=False, j=0))
    for nr, even, j in ((2, True, 0), (4, True, 0), (0, True, 0), (1, False, 0), (3, False, 0), (5, True, 0), (2, False, 1), (4, True, 1)):
        out.append(Case('moment-n%d-%d-%d' % (nr, even, j), moments, 'any density', grid='w5', freqtype='w', nr=nr, even=even, j=j))
    out.append(Case('moment-f-j1', moments, 'any density', grid='w3', freqtype='f', nr=2, even=False, j=1))
    out.append(Case('convert', convert, 'any density', grid='w5'))
    for ft in ('w', 'f', 'k'):
        out.append(Case('normalize-' + ft, normal, 'any density at 3 frequencies', grid='w3', freqtype=ft))
        out.append(Case('bandwidth-' + ft, band, 'any density at 1 of 5 frequencies', grid='w5', freqtype=ft, some=[0.25, 1.0, None, 0.75, 0.5]))
        out.append(Case('bandwidth2-' + ft, band, 'any density at 1 of 5 frequencies', grid='w5', freqtype=ft, some=[0.25, None, 1.5, 0.75, 0.5]))
    for ft in ('w', 'f'):
        for k, rng in enumerate([(0.1, 0.3), (0.9, 1.1), (2.5, 2.75)] if not big else [(0.1 + i / 5, 0.3 + i / 5) for i in range(15)]):
            out.append(Case('char-%s-%d' % (ft, k), char, 'density from %g to %g at 1 of 5 frequencies' % rng, grid='w5', freqtype=ft, some=[0.25, 1.0, None, 0.75, 0.5], rng=rng))
            out.append(Case('char2-%s-%d' % (ft, k), char, 'density from %g to %g at 1 of 5 frequencies' % rng, grid='w5', freqtype=ft, some=[0.5, None, 0.5, 1.5, 0.5], rng=rng))
        out.append(Case('groupiness-' + ft, groupy, 'concrete', grid='w5', freqtype=ft))
        for k, shape in enumerate(([0.0, 1.0, 2.0, 0.75, 0.25], [0.5, 0.25, 0.5, 3.0, 1.0])):
            out.append(Case('var-%s-%d' % (ft, k), variances, 'any scale of a fixed shape', grid='w5', freqtype=ft, T=1200, shape=shape))
    out.append(Case('var-T', variances, 'any scale of a fixed shape, any duration', grid='w5', freqtype='w', T=None, shape=[0.0, 1.0, 2.0, 0.75, 0.25]))
    for vari, nr in ((None, 2), ('x', 1), ('xyt', 2), ('yx', 2), ('t', 2), ('xyt', 4), ('xt', 0)):
        out.append(Case('dir-%s-%d' % (vari, nr), two, 'any density on 5 directions x 3 frequencies', freqs='w3', nt=5, vari=vari, nr=nr, phi=0.0))
    out.append(Case('dir-phi', two, 'any density, rotated', freqs='w3', nt=5, vari='xyt', nr=2, phi=0.5))
    for ft in ('w', 'f'):
        out.append(Case('stats_nl-' + ft, nonlinear, 'any density at 3 frequencies', grid='w3', freqtype=ft))
    out.append(Case('refuse', refuse, ''))
    return out
