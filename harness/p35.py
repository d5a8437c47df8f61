"""The model spectra at symbolic frequency, significant wave height and peak period (and peakedness, depth where the model has them) against
the published formulas. exp, log, powers, gamma functions are uninterpreted up to exp(a+b) = exp(a)exp(b), log(ab) = log a + log b and
monotonicity, so equality of the two sides must follow from algebra alone. Integrals (scipy.integrate.quad) are unknown numbers: the check is
that the pieces integrated cover (0, wnc) with the published integrand. Wave numbers are any numbers that satisfy the dispersion relation."""
from vsym.runner import Case
from .common import tolist
import math
PROPERTY = 'P35'
MODULES = ['wafo.spectrum.models', 'wafo.spectrum.core', 'wafo.containers', 'wafo.objects']
OUTSIDE = ('the numerical value of the integral behind Ag and of the minimisation in McCormick; overflow of exp; the moments of the spectra '
           '(analytic consequences of the formulas)')
ASSUMPTIONS = ['scipy.integrate.quad returns the integral', 'w2k solves the dispersion relation (P31)']


def gamma_spec(h, wn, N, M):
    """generalised gamma spectrum of unit area with its peak at 1"""
    import numpy as np
    import scipy.special as sp
    if h.sym:
        from vsym.nparr import _gammaln as gl
    else:
        gl = sp.gammaln
    B, C = N / M, (N - 1.0) / M
    return np.exp(C * np.log(B) + np.log(M) - gl(C) - N * np.log(wn) - B * np.exp(-M * np.log(wn)))


def sea(h):
    return h.real('Hm0', 0.1, 20), h.real('Tp', 1, 25)


def omega(h, Tp, n=1):
    """frequencies relative to the peak, away from the corner cases"""
    import numpy as np
    wn = [h.real('wn%d' % i, 0.05, 8) for i in range(n)]
    return wn, h.arr([v * (2 * math.pi) / Tp for v in wn])


def bret(h, N, M, n):
    from wafo.spectrum.models import Bretschneider
    Hm0, Tp = sea(h)
    wn, w = omega(h, Tp, n)
    S = Bretschneider(Hm0=Hm0, Tp=Tp, N=N, M=M)(w)
    h.check(tuple(S.shape) == (n,), 'one value per frequency')
    for i in range(n):
        h.eq(S[i] * 16 * 2 * math.pi, Hm0 ** 2 * Tp * gamma_spec(h, wn[i], N, M), 'Bretschneider spectrum')
        h.le(0.0, S[i], 'not negative')


def dead(h, model):
    """no energy at frequencies that are not positive, none at all without waves"""
    import wafo.spectrum.models as m
    cls, kw = {'bret': (m.Bretschneider, {}), 'jon': (m.Jonswap, dict(gamma=3.3, Ag=0.7)), 'tma': (m.Tmaspec, dict(gamma=3.3, Ag=0.7, h=50.0)),
               'wal': (m.Wallop, {}), 'och': (m.OchiHubble, {}), 'mcc': (m.McCormick, {}), 'tor': (m.Torsethaugen, {})}[model]
    Hm0, Tp = h.real('Hm0', 1, 5), h.real('Tp', 5, 10)
    w0 = h.real('w', -5, 0)
    if model != 'och':
        kw = dict(kw, Tp=Tp if model not in ('mcc', 'tor') else 8.0)
    if model in ('tor', 'mcc'):
        Hm0 = 4.0
    if model == 'tma':
        w0 = [0.0, -1.0, -0.25][h.choice('wc', 3)]
    S = cls(Hm0=Hm0, **kw)(h.arr([w0, 0.0]))
    for i in range(2):
        h.eq(S[i], 0.0, 'no energy at frequency <= 0')
    w = h.real('w1', 0.2, 4) if model != 'tma' else [0.3, 1.0, 2.0][h.choice('w1c', 3)]
    S = cls(Hm0=0, **kw)(h.arr([w, 0.0]))
    for i in range(2):
        h.eq(S[i], 0.0, 'no energy when Hm0 is zero')


def peak_factor(h, wn, gam, sa, sb):
    import numpy as np
    s = sb if bool(wn > 1) else sa
    return gam ** np.exp(-((wn - 1) / s) ** 2 / 2)


def spec_par(h, free):
    if free:
        return h.real('gam', 1.1, 7), h.real('sa', 0.02, 0.2), h.real('sb', 0.02, 0.2)
    return 3.3, 0.07, 0.09


def jon(h, N, M, free=True):
    """given normalisation Ag"""
    from wafo.spectrum.models import Jonswap
    Hm0, Tp = sea(h)
    gam, sa, sb = spec_par(h, free)
    Ag = h.real('Ag', 0.1, 2)
    wn, w = omega(h, Tp)
    m = Jonswap(Hm0=Hm0, Tp=Tp, gamma=gam, sigmaA=sa, sigmaB=sb, Ag=Ag, N=N, M=M, chk_seastate=False)
    S = m(w)
    h.eq(S[0] * 16 * 2 * math.pi, Hm0 ** 2 * Tp * Ag * gamma_spec(h, wn[0], N, M) * peak_factor(h, wn[0], gam, sa, sb), 'JONSWAP spectrum')
    h.eq(m.peak_e_factor(h.arr(wn))[0], peak_factor(h, wn[0], gam, sa, sb), 'peak enhancement')


def jon_int(h, N, M, wnc, free):
    """normalisation by integration: Ag times the area over (0, wnc) is one"""
    from wafo.spectrum.models import Jonswap
    Hm0, Tp = h.real('Hm0', 0.1, 20), h.real('Tp', 1, 25)
    gam, sa, sb = h.real('gam', 1.1, 7), 0.07, 0.09
    if free:
        sa, sb = h.real('sa', 0.03, 0.2), h.real('sb', 0.03, 0.2)
    wnc = h.real('wnc', 1.5, 9) if wnc is None else wnc
    m = Jonswap(Hm0=Hm0, Tp=Tp, gamma=gam, sigmaA=sa, sigmaB=sb, N=N, M=M, wnc=wnc, method='integration', chk_seastate=False)
    x = h.real('x', 0.05, 9)
    h.assume(x < wnc)
    f = lambda t: gamma_spec(h, t, N, M) * peak_factor(h, t, gam, sa, sb)
    if h.sym:
        from vsym import core
        Q = core.ctx().quads
        tot, at, cover = 0.0, 0.0, []
        for g, a, b, v in Q:
            tot = tot + v
            cover.append((a, b))
            if bool((x > a) & (x < b)):
                y = g(x)
                h.eq(tolist(y)[0] if getattr(y, 'shape', ()) else y, f(x), 'integrand')
        cover.sort(key=lambda p: 0 if (p[0] == 0) is True or not hasattr(p[0], 'e') and p[0] == 0 else 1)
        for a, b in cover:
            h.eq(a, at, 'pieces of the integration range are contiguous')
            at = b
        h.eq(at, wnc, 'integration up to the cut off')
        h.assume(tot > 0.01)
        Ag = m.Ag
        h.eq(Ag * tot, 1.0, 'area one')
        h.eq(m(h.arr([x * 2 * math.pi / Tp]))[0] * 16 * 2 * math.pi, Hm0 ** 2 * Tp * Ag * f(x), 'spectrum')
    else:
        from scipy.integrate import quad
        area = quad(f, 1e-9, 1)[0] + quad(f, 1, wnc)[0]
        h.eq(float(m.Ag) * area, 1.0, 'area one', tol=1e-5)
        h.eq(m(h.arr([x * 2 * math.pi / Tp]))[0] * 16 * 2 * math.pi, Hm0 ** 2 * Tp / area * f(x), 'spectrum', tol=1e-5)


def jon_par(h, N, M):
    """parametric normalisation of the documented formula"""
    from wafo.spectrum.models import Jonswap
    import numpy as np
    gam = h.real('gam', 1.1, 7)
    m = Jonswap(gamma=gam, N=N, M=M, method='parametric', chk_seastate=False)
    f1 = 4.1 * (N - 2 * M ** 0.28 + 5.3) ** (-1.45 * M ** 0.1 + 0.96)
    f2 = (2.2 * M ** -3.3 + 0.57) * N ** (-0.58 * M ** 0.37 + 0.53) - 1.04 * M ** -1.9 + 0.94
    h.eq(m.Ag * gam, 1 + f1 * np.log(gam) ** f2, 'parametric normalisation')


def jon_reject(h):
    """the parametric normalisation is refused outside the range it was fitted on"""
    from wafo.spectrum.models import Jonswap
    gam = h.real('gam', 1.1, 30)
    N, M = [2.0, 5.0, 60.0][h.choice('N', 3)], [1.5, 4.0, 10.0][h.choice('M', 3)]
    f = lambda: Jonswap(gamma=gam, N=N, M=M, method='parametric', chk_seastate=False)
    if 3 <= N <= 50 and 2 <= M <= 9.5 and bool(gam <= 20):
        f()
    else:
        h.raises(ValueError, f, 'parameters out of bounds')


def jon_defaults(h):
    from wafo.spectrum.models import Jonswap, Bretschneider
    Hm0, Tp = sea(h)
    wn, w = omega(h, Tp)
    a, b = Jonswap(Hm0=Hm0, Tp=Tp, gamma=1, chk_seastate=False)(w), Bretschneider(Hm0=Hm0, Tp=Tp)(w)
    h.eq(a[0], b[0], 'gamma=1 is the Bretschneider spectrum')
    h.raises(ValueError, lambda: Jonswap(gamma=2.0, Ag=h.real('Ag', -3, 0)), 'Ag must be positive')
    h.raises(ValueError, lambda: Jonswap(gamma=2.0, wnc=h.real('wnc', 0, 0.99)), 'cut off below the peak')


def peakfact(h):
    from wafo.spectrum.models import jonswap_peakfact
    import numpy as np
    Hm0, Tp = sea(h)
    g = tolist(jonswap_peakfact(Hm0, Tp))[0]
    x = Tp / np.sqrt(Hm0)
    h.check((g >= 1) & (g <= 7), 'between 1 and 7')
    if bool(x <= 5.14285714):
        D = 0.036 - 0.0056 * x
        e = np.exp(3.484 * (1 - 0.1975 * D * x ** 4))
        h.eq(g, h.ite(e > 7, 7.0, e), 'peakedness', tol=1e-5)
    elif bool(x > 5.1428572):
        h.eq(g, 1.0, 'fully developed')


def seastate(h, method):
    from wafo.spectrum.models import jonswap_seastate
    import numpy as np
    u, F, g = h.real('u10', 2, 40), h.real('fetch', 1e3, 1e6), h.real('g', 9.7, 9.9)
    z = g * F / u ** 2
    d = jonswap_seastate(u, F, method=method, g=g)
    l = jonswap_seastate(u, F, method=method, g=g, output='list')
    for a, k in zip(l, ('Hm0', 'Tp', 'gamma', 'sigmaA', 'sigmaB', 'Ag')):
        h.eq(a, d[k], 'list and dict agree on ' + k)
    if method == 'hasselman73':
        A, ny, e1, gam, sa, sb = 0.076 * z ** -0.22, 3.5 * z ** -0.33, 9.91e-8 * z ** 1.1, 3.3, 0.07, 0.09
    elif method == 'hasselman76':
        A, ny, e1, gam, sa, sb = 0.0662 * z ** -0.2, 2.84 * z ** -0.3, 1.6e-7 * z, 3.3, 0.07, 0.09
    else:
        A, ny = 0.074 * z ** -0.22, 3.57 * z ** -0.33
        e1 = 3.512e-4 * A * ny ** -4.0 * z ** -0.1
        sa, sb = 0.05468 * ny ** -0.32, 0.078314 * ny ** -0.16
        gam = 17.54 * z ** -0.28384
        gam = h.ite(gam < 1, 1.0, gam)
    h.eq(d['Ag'], A, 'Ag')
    h.eq(d['Tp'] * ny * g, u, 'Tp')
    h.eq((d['Hm0'] * g) ** 2, 16 * e1 * u ** 4, 'Hm0')
    h.le(0.0, d['Hm0'], 'Hm0 is not negative')
    h.eq(d['gamma'], gam, 'gamma')
    h.eq(d['sigmaA'], sa, 'sigmaA')
    h.eq(d['sigmaB'], sb, 'sigmaB')


class wavenumbers(object):
    """within the block w2k returns given wave numbers for finite depth, w**2/g for infinite depth"""

    def __init__(self, h, table):
        self.h, self.table, self.undo = h, table, []

    def __enter__(self):
        import sys
        import numpy as np
        if not self.h.sym:
            return self
        import wafo.wave_theory.dispersion_relation as dr
        orig = dr.w2k

        def w2k(w, theta=0.0, h=np.inf, g=9.81, *a, **k):
            w = np.atleast_1d(w)
            if not hasattr(h, 'e') and h == np.inf:
                r = w ** 2 / g
            else:
                for hh, kk in self.table:
                    if hh is h:
                        r = kk
                        break
                else:
                    raise AssertionError('wave number of another depth')
            return r, 0 * r
        for n, m in list(sys.modules.items()):
            if n.startswith('wafo.') and m is not None:
                for k, v in list(vars(m).items()):
                    if v is orig:
                        self.undo.append((m, k, v))
                        setattr(m, k, w2k)
        return self

    def __exit__(self, *a):
        for m, n, v in self.undo:
            setattr(m, n, v)


def depth_limit(h, w, k, d, g):
    """ratio of k^-3 dk/dw in finite and infinite water"""
    import numpy as np
    t, c = np.tanh(k * d), np.cosh(k * d)
    return (w * w / g / k) ** 3, t + k * d / c ** 2


def tma(h, via):
    import numpy as np
    from wafo.spectrum.models import phi1, Tmaspec, Jonswap
    g = h.real('g', 9.7, 9.9)
    d = h.real('h', 2, 30)
    k = h.real('k', 0.01, 1)
    w = h.real('w', 0.2, 3)
    if h.sym:
        h.assume(w * w == g * k * np.tanh(k * d))
    else:
        w = math.sqrt(g * k * math.tanh(k * d))
    with wavenumbers(h, [(d, h.arr([k]))]):
        if via == 'phi1':
            p = phi1(h.arr([w]), d, g)[0]
        else:
            Hm0, Tp = 3.0, 8.0
            T = Tmaspec(Hm0=Hm0, Tp=Tp, gamma=2.0, Ag=0.6, h=d if via == 'spec' else 77.0, g=g if via == 'spec' else 5.0, chk_seastate=False)
            wa = h.arr([w])
            S = T(wa)[0] if via == 'spec' else T(wa, h=d, g=g)[0]
            J = Jonswap(Hm0=Hm0, Tp=Tp, gamma=2.0, Ag=0.6, chk_seastate=False)(h.arr([w]))[0]
            num, den = depth_limit(h, w, k, d, g)
            h.eq(S * den, J * num, 'TMA spectrum')
            return
    num, den = depth_limit(h, w, k, d, g)
    h.eq(p * den, num, 'depth limitation')
    h.eq(phi1(h.arr([w]), np.inf, g)[0], 1.0, 'one in deep water')


def ochi(h, par):
    """sum of two generalised gamma spectra with the parameters of the published table"""
    from wafo.spectrum.models import OchiHubble
    import numpy as np
    T = [(.84, .54, .70, 1.15, .046, .039, 3.00, 1.54, -.062), (.84, .54, .93, 1.50, .056, .046, 3.00, 2.77, -.112),
         (.84, .54, .41, .88, .016, .026, 2.55, 1.82, -.089), (.84, .54, .74, 1.30, .052, .039, 2.65, 3.90, -.085),
         (.84, .54, .62, 1.03, .039, .030, 2.60, .53, -.069), (.95, .31, .70, 1.50, .046, .046, 1.35, 2.48, -.102),
         (.65, .76, .61, .94, .039, .036, 4.95, 2.48, -.102), (.90, .44, .81, 1.60, .052, .033, 1.80, 2.95, -.105),
         (.77, .64, .54, .61, .039, .000, 4.50, 1.95, -.082), (.73, .68, .70, .99, .046, .039, 6.40, 1.78, -.069),
         (.92, .39, .70, 1.37, .046, .039, .70, 1.78, -.069)][par]
    Hm0, w = h.real('Hm0', 0.1, 20), h.real('w', 0.2, 3)
    m = OchiHubble(Hm0=Hm0, par=par)
    tot = 0.0
    for j, part in ((0, m.swell), (1, m.wind)):
        H = T[j] * Hm0
        wp = T[2 + j] * np.exp(-T[4 + j] * Hm0)
        L = T[6] if j == 0 else T[7] * np.exp(T[8] * Hm0)
        s = H ** 2 / 16 / wp * gamma_spec(h, w / wp, 4 * L + 1, 4)
        tot = tot + s
        h.eq(part(h.arr([w]))[0], s, ('swell', 'wind')[j])
    h.eq(m(h.arr([w]))[0], m.swell(h.arr([w]))[0] + m.wind(h.arr([w]))[0], 'both parts')


def ochi_par(h):
    from wafo.spectrum.models import OchiHubble
    p = [-2, -1, 11, 12][h.choice('par', 4)]
    h.raises(ValueError, lambda: OchiHubble(Hm0=3.0, par=p), 'unknown parametrisation')


def tors(h, kind, H=None):
    """energy is shared between wind sea and swell as published"""
    from wafo.spectrum.models import Torsethaugen, Jonswap
    import numpy as np
    import scipy.special as sp
    Hm0, Tp = h.real('Hm0', 0.5, 11) if H is None else H, h.real('Tp', 3, 20)
    g = h.real('g', 9.7, 9.9)
    Tf, Tl, Tu = 6.6 * Hm0 ** (1.0 / 3), 2 * np.sqrt(Hm0), 25.0
    h.assume(Tf - Tp > 0.01 if kind == 'wind' else Tp - Tf > 0.01)
    made = []
    import wafo.spectrum.models as sm
    orig = sm.Jonswap

    class Rec(object):
        def __init__(self, Hm0=7.0, Tp=11.0, gamma=None, sigmaA=0.07, sigmaB=0.09, Ag=None, N=5, M=4, method='integration', wnc=6.0, chk_seastate=True):
            self.p = dict(Hm0=Hm0, Tp=Tp, gamma=gamma, sigmaA=sigmaA, sigmaB=sigmaB, Ag=Ag, N=N, M=M, method=method, wnc=wnc)

        def __call__(self, w):
            return self.p['v']
    wnc = h.real('wnc', 2, 9)
    sm.Jonswap = Rec
    try:
        m = Torsethaugen(Hm0=Hm0, Tp=Tp, gravity=g, wnc=wnc, method='parametric', chk_seastate=False)
    finally:
        sm.Jonswap = orig
    wi, sw = m.wind.p, m.swell.p
    a, b = h.real('a', 0, 9), h.real('b', 0, 9)
    wi['v'], sw['v'] = a, b
    h.eq(m(h.arr([1.0])), a + b, 'sum of wind sea and swell')
    for p in (wi, sw):
        h.check(p['sigmaA'] == 0.07 and p['sigmaB'] == 0.09 and p['Ag'] is None, 'standard shape')
        h.check(p['method'] == 'parametric', 'method of normalisation is passed on')
        h.eq(p['wnc'], wnc, 'cut off is passed on')
    h.eq(wi['Hm0'] ** 2 + sw['Hm0'] ** 2, Hm0 ** 2, 'all energy is in the two parts')
    N = 0.5 * np.sqrt(Hm0) + 3.2
    for p in (wi, sw):
        h.eq(p['N'], N, 'high frequency exponent')
    kg = 35 * (1 + 3.5 * np.exp(-Hm0))
    if kind == 'wind':
        El = (Tf - Tp) / (Tf - Tl)
        El = h.ite(El > 1, 1.0, El)
        R = 0.3 * np.exp(-(El / 0.5) ** 2) + 0.7
        h.eq(wi['Hm0'], R * Hm0, 'wind sea height')
        h.eq(wi['Tp'], Tp, 'wind sea period')
        h.eq(sw['Tp'], Tf + 2, 'swell period')
        gm = kg * (2 * math.pi / g * R * Hm0 / Tp ** 2) ** 0.857
        h.eq(wi['gamma'], h.ite(gm < 1, 1.0, gm), 'wind sea peakedness')
        h.eq(sw['gamma'], 1.0, 'swell peakedness')
        h.eq(wi['M'], 4, 'width')
        h.eq(sw['M'], 4, 'width')
    else:
        Eu = (Tp - Tf) / (Tu - Tf)
        R = 0.4 * np.exp(-(Eu / 0.3) ** 2) + 0.6
        h.eq(sw['Hm0'], R * Hm0, 'swell height')
        h.eq(sw['Tp'], Tp, 'swell period')
        gm = kg * (2 * math.pi / g * Hm0 / Tf ** 2) ** 0.857 * (1 + 6 * Eu)
        h.eq(sw['gamma'], h.ite(gm < 1, 1.0, gm), 'swell peakedness')
        h.eq(wi['gamma'], 1.0, 'wind sea peakedness')
        M = 4 * (1 - 0.7 * np.exp(-Hm0 / 3))
        h.eq(wi['M'], M, 'width')
        h.eq(sw['M'], 4, 'width')
        if not h.sym or H is not None:      # gamma functions of symbolic powers otherwise
            B, C = N / M, (N - 1) / M
            if h.sym:
                N, M = float(N), float(M)
                B, C = N / M, (N - 1) / M
            G0 = B ** C * M / sp.gamma(C)
            q = 16 * 0.08 * (1 - math.exp(-Hm0 / 3)) * 0.4 ** N / G0       # Tp = (q / Hw**2) ** (-1 / (N - 1))
            h.eq(np.log(wi['Tp']) * (N - 1), 2 * np.log(wi['Hm0']) - math.log(q), 'wind sea period')


def wallop(h):
    from wafo.spectrum.models import Wallop
    import numpy as np
    Hm0, Tp = sea(h)
    m = Wallop(Hm0=Hm0, Tp=Tp)
    kp = (2 * math.pi / Tp) ** 2 / 9.81
    slope = Hm0 / 4 * kp / (2 * math.pi)                     # sqrt(m0) / Lp
    N = abs((np.log(2 * math.pi ** 2) + 2 * np.log(slope)) / np.log(2))
    n = tolist(m.N)[0] if getattr(m.N, 'shape', ()) else m.N
    h.eq(n, N, 'exponent')
    h.eq(m.M, 4, 'width')
    h.eq(m.Tp, Tp, 'period')
    h.eq(m.Hm0, Hm0, 'height')


def wallop_spec(h, N):
    from wafo.spectrum.models import Wallop, McCormick
    Hm0, Tp = sea(h)
    wn, w = omega(h, Tp)
    h.eq(Wallop(Hm0=Hm0, Tp=Tp, N=N)(w)[0] * 32 * math.pi, Hm0 ** 2 * Tp * gamma_spec(h, wn[0], N, 4), 'Wallop spectrum')
    h.eq(McCormick(Hm0=Hm0, Tp=Tp, M=N)(w)[0] * 32 * math.pi, Hm0 ** 2 * Tp * gamma_spec(h, wn[0], N + 1.0, N), 'McCormick spectrum')


def mcc(h):
    """the function minimised is zero where the mean period of the spectrum is Tz"""
    from wafo.spectrum.models import McCormick
    import numpy as np
    import scipy.special as sp
    Tp, Tz = h.real('Tp', 4, 15), h.real('Tz', 3, 14)
    m = McCormick(Hm0=3.0, Tp=Tp, Tz=Tz, M=4.0)
    m._TpdTz = Tp / Tz
    x = h.real('x', 0.05, 4)
    # Tp/Tz = (1 + 1/M)**(1/M) / gamma(1 + 1/M), x = 1/M
    if h.sym:
        from vsym.nparr import _gamma
    else:
        _gamma = sp.gamma
    v = np.exp(x * np.log(1 + x)) / _gamma(1 + x) - Tp / Tz
    h.eq(m._localoptfun(x), v * v, 'mean period criterion')
    h.eq(McCormick(Hm0=3.0, Tp=Tp, M=4.0).Tz, 0.8143 * Tp, 'default mean period')


def reject(h):
    import wafo.spectrum.models as m
    bad, Tp = h.real('bad', -9, -0.01), h.real('Tpbad', -9, 0)
    for c in (m.Bretschneider, m.Wallop, m.McCormick, m.Jonswap, m.Tmaspec, m.Torsethaugen):
        kw = {'Wallop': dict(N=5), 'McCormick': dict(M=4.0), 'Jonswap': dict(gamma=2.0, Ag=0.5), 'Tmaspec': dict(gamma=2.0, Ag=0.5)}.get(c.__name__, {})
        h.raises(ValueError, lambda: c(Hm0=bad, Tp=8.0, **kw), c.__name__ + ': negative height')
        h.raises(ValueError, lambda: c(Hm0=3.0, Tp=Tp, **kw), c.__name__ + ': period not positive')
    h.raises(ValueError, lambda: m.OchiHubble(Hm0=bad), 'OchiHubble: negative height')


def spec(h, model, given):
    """the spectrum object holds the model evaluated at its frequencies"""
    import wafo.spectrum.models as m
    import numpy as np
    Hm0, Tp = h.real('Hm0', 0.5, 9), h.real('Tp', 4, 15)
    if model == 'tma':
        M = m.Tmaspec(Hm0=3.0, Tp=8.0, gamma=2.0, Ag=0.5, h=20.0)
        Tp = 8.0
    else:
        M = m.Bretschneider(Hm0=Hm0, Tp=Tp)
    kw, n = {}, 257
    if given == 'w':
        w = h.arr([0.0] + [h.real('w%d' % i, 0.1, 3) if model != 'tma' else 0.5 + i for i in range(2)])
        kw, want = dict(w=w), w
    elif given == 'wc':
        wc = h.real('wc', 1, 5) if model != 'tma' else 3.0
        n = 5
        kw, want = dict(wc=wc, nw=n), [wc * i / (n - 1) for i in range(n)]
    else:
        n = 4
        kw, want = dict(nw=n), [33.0 / Tp * i / (n - 1) for i in range(n)]
    S = M.tospecdata(**kw)
    h.check(S.type == 'freq' and S.freqtype == 'w', 'frequency spectrum of angular frequency')
    h.check(len(S.args) == len(want), 'number of frequencies')
    for i in range(len(want)):
        h.eq(S.args[i], want[i], 'frequency')
    ref = M(S.args)
    for i in range(len(want)):
        h.eq(S.data[i], ref[i], 'spectral density')
    h.eq(S.h if model == 'tma' else (1.0 if S.h == np.inf else 0.0), 20.0 if model == 'tma' else 1.0, 'water depth')


def cases(tier):
    NM = [(5, 4), (4, 4), (5, 3), (6.5, 3.7)]
    out = []
    for N, M in NM:
        out.append(Case('bret-%g-%g' % (N, M), bret, 'any Hm0, Tp, frequency; N, M fixed', exp_split=True, N=N, M=M, n=2 if (N, M) == (5, 4) else 1))
        out.append(Case('jon-%g-%g' % (N, M), jon, 'any Hm0, Tp, gamma, sigmaA, sigmaB, Ag, frequency', exp_split=True, N=N, M=M))
        out.append(Case('jonpar-%g-%g' % (N, M), jon_par, 'any gamma', exp_split=True, N=N, M=M))
        out.append(Case('wallop-%g' % N, wallop_spec, 'any Hm0, Tp, frequency', exp_split=True, N=N)) if M == 4 or N > 5 else None
    for N, M in NM[:1] + NM[3:]:
        out.append(Case('jonint-%g-%g' % (N, M), jon_int, 'any gamma, cut off', exp_split=True, N=N, M=M, wnc=None, free=False))
        out.append(Case('jonintfree-%g-%g' % (N, M), jon_int, 'any gamma, sigmaA, sigmaB', exp_split=True, N=N, M=M, wnc=6.0, free=True))
    out += [Case('dead-' + m, dead, 'frequency <= 0, or Hm0 = 0', exp_split=True, model=m) for m in ('bret', 'jon', 'tma', 'wal', 'och', 'mcc', 'tor')]
    out += [Case('jonreject', jon_reject, 'any gamma, N and M inside and outside the fitted range'),
            Case('jondef', jon_defaults, 'any Hm0, Tp, frequency', exp_split=True),
            Case('peakfact', peakfact, 'any Hm0, Tp'),
            Case('ochipar', ochi_par, 'unknown tables'),
            Case('wallopN', wallop, 'any Hm0, Tp'),
            Case('mccormick', mcc, 'any Tp, Tz, shape', exp_split=True),
            Case('reject', reject, 'any negative height or period')]
    out += [Case('seastate-' + m, seastate, 'any wind speed, fetch, gravity', exp_split=True, method=m) for m in ('hasselman73', 'hasselman76', 'lewis')]
    out += [Case('tma-' + v, tma, 'any depth, gravity, frequency', exp_split=True, via=v) for v in ('phi1', 'spec', 'call')]
    out += [Case('ochi%d' % p, ochi, 'any Hm0, frequency', exp_split=True, par=p) for p in (range(11))]
    out += [Case('tors-' + k, tors, 'any Hm0, Tp, gravity', kind=k) for k in ('wind', 'swell')]
    out += [Case('tors-swell-%g' % H, tors, 'any Tp, gravity; Hm0 fixed', kind='swell', H=H) for H in (2.5, 4.0)]
    out += [Case('spec-%s-%s' % (m, g), spec, 'any Hm0, Tp, frequencies', exp_split=True, model=m, given=g) for m in ('bret', 'tma') for g in ('w', 'wc', 'nw')]
    return out
