from vsym.runner import Case
from .common import tolist
import math
PROPERTY = 'P31'
MODULES = ['wafo.wave_theory.dispersion_relation']
OUTSIDE = 'convergence of more than two Newton steps for symbolic finite depth; overflow; depths beyond 1e25 are infinite by definition of the code'


def k2w(h, n, depth, current):
    from wafo.wave_theory.dispersion_relation import k2w as f
    import numpy as np
    k1, k2 = h.reals('k1', n, -5, 5), h.reals('k2', n, -5, 5)
    g = h.real('g', 1, 20)
    hh = h.real('h', 0.5, 50) if depth else np.inf
    u1, u2 = (h.real('u1', -3, 3), h.real('u2', -3, 3)) if current else (0.0, 0.0)
    w, th = f(k1, k2, hh, g, u1, u2)
    h.check(np.shape(w) == (n,) and np.shape(th) == (n,), 'shapes')
    for i in range(n):
        k = np.sqrt(k1[i] ** 2 + k2[i] ** 2)
        t = np.tanh(k * hh) if depth else h.ite(k > 0, 1.0, 0.0)
        s = np.sqrt(g * k * t)
        e = k1[i] * u1 + k2[i] * u2 + s
        h.eq(w[i], h.ite(k > 0, h.ite(e < 0, 0.0, e), 0.0), 'frequency')
        h.le(0.0, w[i], 'not negative')
        c, sn = np.cos(th[i]), np.sin(th[i])
        h.eq(k * c, k1[i], 'direction, x')
        h.eq(k * sn, k2[i], 'direction, y')


def defaults(h):
    """waves along the x axis in deep water with g = 9.81 unless told otherwise"""
    from wafo.wave_theory.dispersion_relation import k2w as f, w2k
    import numpy as np
    k = h.real('k', 0.01, 5)
    w, th = f(h.arr([k]))
    h.eq(w[0] * w[0], 9.81 * k, 'frequency', tol=1e-8)
    h.check(w[0] > 0, 'positive')
    h.eq(k * np.cos(th[0]), k, 'direction')
    k1, k2 = w2k(w)
    h.eq(k1[0], k, 'wave number', tol=1e-8)
    h.eq(k2[0], 0.0, 'second component')


def deep(h, n, gz):
    from wafo.wave_theory.dispersion_relation import w2k
    import numpy as np
    w, th = h.reals('w', n, -5, 5), h.reals('th', n, -4, 4)
    g = h.real('g', 1, 20)
    if gz:
        g2 = h.real('g2', 1, 20)
        k1, k2 = w2k(w, th, np.inf, [g, g2])
    else:
        g2 = g
        k1, k2 = w2k(w, th, g=g)
    for i in range(n):
        s = h.ite(w[i] < 0, -1.0, 1.0)
        h.eq(k1[i] * g, s * w[i] ** 2 * np.cos(th[i]), 'x component')
        h.eq(k2[i] * g2, s * w[i] ** 2 * np.sin(th[i]), 'y component')


def roundtrip(h):
    from wafo.wave_theory.dispersion_relation import w2k, k2w as f
    import numpy as np
    k = h.real('k', 0.01, 5)
    g = h.real('g', 1, 20)
    w, th = f(h.arr([k]), 0.0, np.inf, g)
    k1, k2 = w2k(w, 0.0, np.inf, g)
    h.eq(k1[0], k, 'wave number to frequency and back')
    h.eq(k2[0], 0.0, 'no lateral component')


def newton(h, n, steps):
    """each Newton step solves the linearised dispersion relation of its own element"""
    from wafo.wave_theory.dispersion_relation import w2k
    import numpy as np
    w, hh = h.reals('w', n, 0.3, 3), h.reals('h', n, 1, 20)
    g = h.real('g', 9, 10)
    th = h.real('th', -3, 3)
    k1, k2 = w2k(w, th, hh, g, count_limit=steps)
    for i in range(n):
        k = w[i] ** 2 / g
        for _ in range(steps):
            t = np.tanh(k * hh[i])
            den = t + k * hh[i] / np.cosh(k * hh[i]) ** 2
            step = (k * t - w[i] ** 2 / g) / den
            if bool(k - step == 0):
                step = k - k / 10
            k = k - step
            if bool(abs(step) <= 1e-7 * abs(k)) or bool(abs(step) <= 1e-14):
                break
        h.eq(k1[i], k * np.cos(th), 'x component after %d step(s)' % steps)
        h.eq(k2[i], k * np.sin(th), 'y component after %d step(s)' % steps)


def pair(h):
    """elements do not influence one another"""
    from wafo.wave_theory.dispersion_relation import w2k
    w = h.real('w', 0.3, 3)
    both = w2k(h.arr([w, 0.7]), 0.0, h.arr([8.0, 15.0]), count_limit=1)
    a = w2k(h.arr([w]), 0.0, 8.0, count_limit=1)
    b = w2k(h.arr([0.7]), 0.0, 15.0, count_limit=1)
    h.eq(both[0][0], a[0][0], 'first element')
    h.eq(both[0][1], b[0][0], 'second element')


GRID = [(0.3, 5.0), (0.8, 10.0), (2.0, 30.0), (-0.6, 12.0), (1.1, 3.0), (0.05, 40.0), (3.0, 2.0)]


def tolerance(h, pick):
    """iteration of every element continues until its own step is within the tolerance, and the limit solves the dispersion relation"""
    from wafo.wave_theory.dispersion_relation import w2k
    import numpy as np
    rt = h.real('rtol', 1e-10, 1)
    el = [GRID[i] for i in pick]
    g = 9.81
    k1, k2 = w2k(h.arr([e[0] for e in el]), 0.0, h.arr([e[1] for e in el]), rtol=rt)
    for i, (w, d) in enumerate(el):
        k = (1 if w > 0 else -1) * w * w / g
        while True:
            t = math.tanh(k * d)
            c = math.cosh(k * d) ** 2 if abs(k * d) < 350 else math.inf
            step = (k * t - w * w / g) / (t + k * d / c)
            k = k - step
            h.assume(abs(abs(step) - rt * abs(k)) > 1e-9 * abs(k))     # no tie with the tolerance
            if abs(step) <= 1e-14 or bool(abs(step) <= rt * abs(k)):
                break
        h.eq(k1[i], k, 'element %d' % i)
        if bool(rt < 1e-6):
            h.eq(k1[i] * math.tanh(float(k) * d), w * w / g, 'dispersion relation')
            h.check(k * w > 0, 'sign of the wave number')


def zero(h):
    from wafo.wave_theory.dispersion_relation import w2k
    hh = h.real('h', 1, 20)
    k1, k2 = w2k(h.arr([0.0, 0.0]), 0.0, hh)
    h.eq(k1, h.arr([0.0, 0.0]), 'zero frequency')
    h.eq(k2, h.arr([0.0, 0.0]), 'zero frequency')


def cases(tier):
    th = tier == 'thorough'
    out = []
    for d in (False, True):
        for c in (False, True):
            out.append(Case('k2w-%s%s' % ('finite' if d else 'deep', '-current' if c else ''), k2w, '1 wave vector', n=1, depth=d, current=c))
    out.append(Case('k2w-n2', k2w, '2 wave vectors', n=2, depth=True, current=True))
    out += [Case('w2k-deep', deep, '2 frequencies', n=2, gz=False), Case('w2k-deep-g2', deep, '2 frequencies', n=2, gz=True),
            Case('roundtrip', roundtrip, 'deep water'), Case('defaults', defaults, 'deep water'), Case('zero', zero, 'zero frequency')]
    out.append(Case('newton-1', newton, '1 frequency, one step', n=1, steps=1))
    out.append(Case('pair', pair, 'one symbolic and one fixed frequency, one step'))
    out.append(Case('tol-3', tolerance, 'fixed frequencies and depths, any relative tolerance', pick=(0, 1, 2)))
    out.append(Case('tol-4', tolerance, 'fixed frequencies and depths, any relative tolerance', pick=(3, 4, 5, 6)))
    if th:
        out.append(Case('newton-2', newton, '1 frequency, two steps', n=1, steps=2))
    return out
