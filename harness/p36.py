"""The directional spreading functions at symbolic angle, main direction, frequency and spreading parameter against the documented densities
(cos, exp, gamma and Bessel functions uninterpreted up to their algebra); the parameters are tied to the first Fourier coefficient: root finders
are taken to return any root of the equation they are given. The wrapped normal series is decided for fixed spreading and every angle."""
from vsym.runner import Case
from .common import tolist
import math
PROPERTY = 'P36'
MODULES = ['wafo.spectrum.models', 'wafo.spectrum.core', 'wafo.containers', 'wafo.objects']
OUTSIDE = ('angles outside [-7, 7]; the iteration that solves sin(A)/A = R1 for the box (decided for fixed spreading only); integrals over angle, which are '
           'analytic consequences of the documented densities')
ASSUMPTIONS = ['scipy.optimize.fsolve returns a root', 'values exactly on the limits wn_lo, wn_c, wn_up are excluded: the documentation leaves them open']
PI = math.pi


def wrap_angle(h, t):
    """t modulo 2 pi in [-pi, pi)"""
    for k in (0, 1, -1, 2, -2, 3, -3):
        if bool((t - 2 * PI * k >= -PI) & (t - 2 * PI * k < PI)):
            return t - 2 * PI * k
    raise AssertionError('angle out of range')


def gl(h, x):
    if h.sym:
        from vsym.nparr import _gammaln
        return _gammaln(x)
    import scipy.special as sp
    return sp.gammaln(x)


def ive(h, n, x):
    if h.sym:
        from vsym.nparr import _ive
        return _ive(n, x)
    import scipy.special as sp
    return sp.ive(n, x)


def density(h, typ, s, th):
    """documented density for spreading S = s, angle th in [-pi, pi) from the main direction; for types with an implicit parameter the
    parameter p is a root of the documented equation"""
    import numpy as np
    if typ == 'cos2s':
        return np.exp(gl(h, s + 1) - gl(h, s + 0.5)) / (2 * math.sqrt(PI)) * np.cos(th / 2) ** (2 * s)
    r = s / (s + 1)
    if typ == 'poisson':
        return (1 - r * r) / (1 - 2 * r * np.cos(th) + r * r) / (2 * PI)
    if typ == 'wrap_norm':
        t = 1.0
        for n in range(1, 400):
            c = r ** (n * n)
            if c < 1e-18:
                break
            t = t + 2 * c * np.cos(n * th)
        return h.ite(t < 0, 0.0, t / (2 * PI))
    if typ == 'box':
        lo, hi = 0.0, PI
        for _ in range(200):
            m = (lo + hi) / 2
            lo, hi = (m, hi) if math.sin(m) / m > r else (lo, m)
        h.assume((abs(th) - lo > 1e-6) | (abs(th) - lo < -1e-6))
        return h.ite(abs(th) < lo, 1 / (2 * lo), 0.0)


def shape(h, typ, method, s=None, two=False):
    from wafo.spectrum.models import Spreading
    th, t0 = h.real('theta', -3, 6.2), h.real('theta0', -2, 2)
    S = h.real('S', 0.5, 40) if s is None else s
    kw = {}
    w = 1.0
    D = Spreading(typ, theta0=t0, method=method, s_a=S)
    arg = h.arr([th])
    d, phi0 = D(arg, h.arr([w]), 1.0)
    h.check(tuple(d.shape) == (1, 1), 'one value per angle and frequency')
    h.eq(arg[0], th, 'angles are not modified')
    a = wrap_angle(h, th - t0)
    h.assume((a > -PI + 1e-6) & (a < PI - 1e-6))
    h.eq(d[0, 0], density(h, typ, S, a), 'documented density')
    h.eq(phi0, 0.0, 'principal direction')


def implicit(h, typ):
    """mises and sech2: the density with a parameter that solves the documented equation"""
    from wafo.spectrum.models import Spreading
    import numpy as np
    th, t0, S = h.real('theta', -3, 6.2), h.real('theta0', -2, 2), h.real('S', 0.5, 40)
    D = Spreading(typ, theta0=t0, method=None, s_a=S)
    p = D.spread_parameter_s(h.arr([1.0]))
    h.check(tuple(p.shape) == (1, 1), 'parameter shape')
    p = p[0, 0]
    h.assume(p > 0.05)
    r = S / (S + 1)
    if typ == 'mises':
        h.eq(ive(h, 1, p), r * ive(h, 0, p), 'first Fourier coefficient')
    else:
        x = PI / (2 * p)
        h.eq(x * 2, r * (np.exp(x) - np.exp(-x)), 'first Fourier coefficient', tol=1e-5)
    fake = Spreading(typ, theta0=t0, method=None, s_a=S)
    P = h.real('P', 0.1, 20)
    fake.spread_parameter_s = lambda wn: h.arr([[P]])
    d = fake(h.arr([th]), h.arr([1.0]), 1.0)[0]
    a = wrap_angle(h, th - t0)
    if typ == 'mises':
        h.eq(d[0, 0] * 2 * PI * ive(h, 0, P), np.exp(P * np.cos(a) - P), 'documented density')
    else:
        c = (np.exp(P * a) + np.exp(-P * a)) / 2
        h.eq(d[0, 0] * 2 * np.tanh(PI * P) * c * c, P, 'documented density')


def fixed(h, typ, s):
    """at fixed spreading, every angle: the density with the parameter found by bisection here"""
    from wafo.spectrum.models import Spreading
    import numpy as np
    import scipy.special as sp
    th, t0 = h.real('theta', -3, 6.2), 0.3
    D = Spreading(typ, theta0=t0, method=None, s_a=float(s))
    d = D(h.arr([th]), h.arr([1.0]), 1.0)[0][0, 0]
    a = wrap_angle(h, th - t0)
    r = s / (s + 1.0)
    f = (lambda p: sp.ive(1, p) / sp.ive(0, p)) if typ == 'mises' else (lambda p: PI / (2 * p) / np.sinh(min(PI / (2 * p), 700.0)))
    lo, hi = 1e-6, 1e5
    for _ in range(300):
        m = math.sqrt(lo * hi)
        lo, hi = (m, hi) if f(m) < r else (lo, m)
    p = float(tolist(D.spread_parameter_s(h.arr([1.0])))[0][0])
    h.check(s == 0 or abs(p - lo) <= 1e-6 * lo, 'parameter of the first Fourier coefficient')
    if s == 0:
        h.eq(d * 2 * PI, 1.0, 'uniform without spreading parameter')
    elif s > 100 and typ == 'sech2':
        h.le(0.0, d, 'not negative')
    elif typ == 'mises':
        h.eq(d * 2 * PI * sp.ive(0, p), np.exp(p * np.cos(a) - p), 'documented density', tol=1e-5)
    else:
        c = (np.exp(p * a) + np.exp(-p * a)) / 2
        h.eq(d * 2 * math.tanh(PI * p) * c * c, p, 'documented density', tol=1e-4)


def coef(h, typ):
    """first Fourier coefficient to parameter of the explicit types"""
    from wafo.spectrum.models import Spreading
    import numpy as np
    r = h.real('r', 0.001, 0.999)
    D = Spreading(typ)
    p = D.fourier2distpar(h.arr([r]))[0]
    if typ == 'poisson':
        h.eq(p, r, 'parameter')
        h.raises(ValueError, lambda: D.fourier2distpar(h.arr([h.real('big', 1, 3)])), 'X must be below one')
    else:
        h.eq(np.exp(-p ** 2 / 2), r, 'parameter')
        h.le(0.0, p, 'positive')


def sech_coef(h):
    from wafo.spectrum.models import Spreading
    import numpy as np
    B = h.real('B', 0.1, 49)
    x = PI / (2 * B)
    h.eq(Spreading._r1ofsech2(h.arr([B]))[0] * (np.exp(x) - np.exp(-x)), 2 * x, 'first Fourier coefficient')
    B2 = h.real('B2', 51, 200)
    y = PI / (2 * B2)
    h.eq(Spreading._r1ofsech2(h.arr([B2]))[0] * (np.exp(y) - np.exp(-y)), 2 * y, 'first Fourier coefficient, large')


def spread(h, method, region, typ='cos2s'):
    """the spreading parameter as function of the normalised frequency"""
    from wafo.spectrum.models import Spreading
    import numpy as np
    sa, sb = h.real('sa', 1, 20), h.real('sb', 1, 20)
    lo, c, up = h.real('lo', 0.1, 0.5), h.real('c', 0.6, 1.2), h.real('up', 1.4, 3)
    ma, mb = 5.0, -2.5
    wn = h.real('wn', -1, 6)
    h.assume({'below': wn < lo, 'a': (wn > lo) & (wn < c), 'b': (wn > c) & (wn < up), 'above': wn > up}[region])
    D = Spreading(typ, method=method, s_a=sa, s_b=sb, m_a=ma, m_b=mb, wn_lo=lo, wn_c=c, wn_up=up)
    if h.sym:
        base = {}
        orig = D._r1ofsech2
        u = h.real('R1', 0.01, 0.99)

        def rec(B):
            base['B'] = np.array(B)
            return 0 * B + u
        D._r1ofsech2 = rec
    s = D.spread_parameter_s(h.arr([wn]))
    h.check(tuple(s.shape) == (1, 1), 'shape')
    s = s[0, 0]
    F = lambda v: 10.0 ** (-0.4 + 0.8393 * np.exp(-0.567 * np.log(v ** 2)))
    if region == 'below':
        want = 0.0
    elif region == 'a':
        want = sa * wn ** ma
    elif region == 'b':
        want = sb * wn ** mb
    elif method == 'mitsuyasu':
        want = 0.0
    elif method == 'donelan':
        want = sb * up ** mb
    else:
        want = sb * up ** mb / F(up) * F(wn)
    if method == 'mitsuyasu':
        h.eq(s, want, 'spreading parameter S')
    elif h.sym:
        h.eq(base['B'][0], want, 'spreading parameter B')
        h.eq(s * (1 - u), u, 'S from the first Fourier coefficient')
    else:
        B = float(want)
        x = PI / (2 * B) if B > 0 else 800.0
        r = x / math.sinh(min(x, 700.0))
        h.eq(float(s) * (1 - r), r, 'S from the first Fourier coefficient', tol=1e-5)


def grid(h, typ, callable_dir):
    """every angle with every frequency; frequency dependent direction; frequency relative to the cut over frequency"""
    from wafo.spectrum.models import Spreading
    import numpy as np
    th = [h.real('t%d' % i, -1.5, 2.0) for i in range(2)]
    w, wc = [0.8, 1.0, 1.5], 1.0
    wc = 0.5 if not callable_dir else 1.0
    dirs = [h.real('d%d' % i, -1, 1) for i in range(3)]
    seen = []

    def direction(wn):
        seen.append(wn)
        return h.arr(dirs)
    kw = dict(method='mitsuyasu', s_a=2.0, s_b=3.0, m_a=1.0, m_b=-1.0)
    D = Spreading(typ, theta0=direction if callable_dir else h.arr(dirs), **kw)
    d = D(h.arr(th), h.arr([v * wc for v in w]), wc)[0]
    h.check(tuple(d.shape) == (2, 3), 'one value per angle and frequency')
    if callable_dir:
        h.check(len(seen) == 1 and list(np.asarray(seen[0]).shape) == [3], 'direction is asked for all frequencies')
        for i in range(3):
            h.eq(seen[0][i], w[i], 'direction of the normalised frequency')
    for i in range(2):
        for j in range(3):
            s = 2.0 * w[j] if w[j] <= 1 else 3.0 / w[j]
            a = wrap_angle(h, th[i] - dirs[j])
            h.eq(d[i, j], density(h, typ, s, a), 'density of each pair')


def spec2d(h, nt):
    """the directional spectrum is the frequency spectrum times the spreading"""
    from wafo.spectrum.models import Spreading
    from wafo.spectrum.core import SpecData1D
    import numpy as np
    import warnings
    S = [h.real('S%d' % i, 0, 9) for i in range(2)]
    w = [0.4, 1.3]
    s = h.real('s', 1, 9)
    one = SpecData1D(h.arr(S), np.array(w))
    one.h = 23.0
    D = Spreading('poisson', method='mitsuyasu', s_a=s, s_b=s)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        two = D.tospecdata2d(one, nt=nt, wc=0.8)
    th = np.linspace(-PI, PI, nt)
    ref = D(th, np.array(w), 0.8)[0]
    h.check(tuple(np.shape(two.data)) == (nt, 2), 'angles by frequencies')
    for i in range(nt):
        for j in range(2):
            h.eq(two.data[i, j], ref[i, j] * S[j], 'product')
    h.check(two.type == 'dir' and two.freqtype == 'w', 'directional spectrum')
    h.eq(two.h, 23.0, 'depth is kept')
    for i in range(2):
        h.eq(two.args[0][i], w[i], 'frequencies')
    for i in range(nt):
        h.eq(two.args[1][i], th[i], 'angles')


def reject(h):
    from wafo.spectrum.models import Spreading
    from wafo.spectrum.core import SpecData1D
    import numpy as np
    h.raises(ValueError, lambda: Spreading(method='x'), 'unknown method')
    s = h.real('s', -9, -0.01)
    h.raises(ValueError, lambda: Spreading(s_a=s, method=None)(h.arr([0.0]), h.arr([1.0]), 1.0), 'negative spreading')
    h.raises(ValueError, lambda: Spreading(theta0=np.array([0.1, 0.2]))(h.arr([0.0]), h.arr([1.0, 1.5, 2.0]), 1.0), 'directions')
    L = h.real('L', 0, 6)
    one = SpecData1D(np.array([1.0, 2.0]), np.array([0.4, 1.3]))
    h.raises(ValueError, lambda: Spreading(method=None).tospecdata2d(one, theta=h.arr([-1.0, 0.0, L - 1.0])), 'incomplete circle')
    for k, n in ((0, 'frequency_independent'), (1, 'mitsuyasu'), (2, 'donelan'), (3, 'banner'), (None, 'frequency_independent'), ('Mit', 'mitsuyasu'),
                 ('don', 'donelan'), ('Ban', 'banner'), ('none', 'frequency_independent')):
        h.check(Spreading(method=k).method == n, 'method %s' % k)


def cases(tier):
    out = []
    b = 'any angle and main direction'
    for typ in ('cos2s', 'poisson'):
        out.append(Case('shape-' + typ, shape, b + ', any spreading', exp_split=True, trig_range=True, typ=typ, method=None))
    for s in (3.0, 15.0):
        out.append(Case('wrap-%g' % s, shape, b, trig_range=True, typ='wrap_norm', method=None, s=s))
        out.append(Case('box-%g' % s, shape, b, typ='box', method=None, s=s))
        out.append(Case('cosfix-%g' % s, shape, b, trig_range=True, typ='cos2s', method=None, s=s))
    out += [Case('implicit-' + t, implicit, b + ', any spreading', exp_split=False, typ=t) for t in ('mises', 'sech2')]
    out += [Case('fixed-%s-%g' % (t, s), fixed, b, typ=t, s=s) for t in ('mises', 'sech2') for s in (0, 2, 15, 1000)]
    out += [Case('coef-' + t, coef, 'any coefficient', exp_split=True, typ=t) for t in ('poisson', 'wrap_norm')]
    out.append(Case('coef-sech', sech_coef, 'any parameter', exp_split=True))
    out += [Case('spread-%s-%s' % (m, r), spread, 'any frequency, limits and maximum spreading', exp_split=True, method=m, region=r)
            for m in ('mitsuyasu', 'donelan', 'banner') for r in ('below', 'a', 'b', 'above')]
    out += [Case('grid-%s-%s' % (t, 'call' if c else 'array'), grid, 'two angles, three frequencies', trig_range=True, typ=t, callable_dir=c)
            for t, c in (('poisson', True), ('poisson', False), ('cos2s', True))]
    out.append(Case('spec2d', spec2d, 'any spectrum', nt=5))
    out.append(Case('reject', reject, 'any invalid value'))
    return out
