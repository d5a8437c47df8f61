from vsym.runner import Case
from .common import tolist, horner
from math import gamma, pi, sqrt, factorial
PROPERTY = 'P27'
MODULES = ['wafo.integrate', 'numdifftools.extrapolation']
OUTSIDE = 'integrands other than polynomials (adaptive convergence), more nodes than stated, plotting; rounding of nodes and weights below the tolerance'


def beta(a, b):
    return gamma(a) * gamma(b) / gamma(a + b)


def moment(k, wfun, al=0, be=0):
    """integral of x^k times the weight function"""
    even = 1.0 if k % 2 == 0 else 0.0
    if wfun == 1:
        return even * 2.0 / (k + 1)
    if wfun == 2:
        return even * gamma((k + 1) / 2)
    if wfun == 3:
        return gamma(al + k + 1)
    if wfun == 4:        # (1-x)^al (1+x)^be, x = 2u - 1
        s = 0.0
        for j in range(k + 1):
            c = factorial(k) / factorial(j) / factorial(k - j)
            s += c * 2 ** j * (-1) ** (k - j) * beta(be + 1 + j, al + 1)
        return s * 2 ** (al + be + 1)
    if wfun == 5:
        return even * beta((k + 1) / 2, 0.5)
    if wfun == 6:
        return even * beta((k + 1) / 2, 1.5)
    if wfun == 7:        # sqrt(x/(1-x)) on (0, 1)
        return beta(k + 1.5, 0.5)
    if wfun == 8:        # 1/sqrt(1-x)
        return beta(k + 1, 0.5)
    if wfun == 9:        # sqrt(1-x)
        return beta(k + 1, 1.5)


def rule(h, n, wfun, al, be, how):
    """an n point rule integrates every polynomial of degree 2n-1 against its weight"""
    from wafo import integrate as wi
    if how == 'qrule':
        x, w = wi.qrule(n, wfun, al, be)
    elif how == 'newton1':
        x, w = wi.p_roots(n, 'newton1')
    elif how == 'scipy':
        x, w = {1: lambda: wi.p_roots(n, 'eigen'), 2: lambda: wi.h_roots(n, 'eigen'), 3: lambda: wi.la_roots(n, al, 'eigen'),
                4: lambda: wi.j_roots(n, al, be, 'eigen')}[wfun]()
    import numpy as np
    x, w = np.ravel(x).tolist(), np.ravel(w).tolist()
    h.check(len(x) == n and len(w) == n, '%d nodes and weights' % n)
    c = [h.real('c%d' % i, -3, 3) for i in range(2 * n)]      # lowest power first
    s = 0.0
    for xi, wi_ in zip(x, w):
        s = s + horner(c[::-1], xi) * wi_
    scale = max(1.0, max(abs(moment(k, wfun, al, be)) for k in range(2 * n)))
    h.eq(s / scale, sum(c[k] * moment(k, wfun, al, be) for k in range(2 * n)) / scale, 'exact for degree %d' % (2 * n - 1), tol=1e-7)
    for v in w:
        h.check(v > 0, 'weights are positive')


def interval(h, n):
    """Gauss-Legendre on any interval"""
    from wafo.integrate import p_roots
    a, b = h.real('a', -3, 3), h.real('b', -3, 3)
    h.assume(b - a > 0.01)
    x, w = p_roots(n, a=a, b=b)
    c = [h.real('c%d' % i, -3, 3) for i in range(2 * n)]
    s = sum(horner(c[::-1], x[i]) * w[i] for i in range(n))
    h.eq(s, sum(c[k] * (b ** (k + 1) - a ** (k + 1)) / (k + 1) for k in range(2 * n)), 'integral', tol=1e-7)


def integral(c, a, b):
    """integral of the polynomial (lowest power first)"""
    return sum(c[k] * (b ** (k + 1) - a ** (k + 1)) / (k + 1) for k in range(len(c)))


def limits(h, free):
    if free:
        a, b = h.real('a', -3, 3), h.real('b', -3, 3)
        h.assume(b - a > 0.01)
        return a, b
    return -0.5, 2.0


def clen(h, n, free, vec, tab=False):
    """Clenshaw-Curtis with 2n+1 points is exact up to degree 2n+1"""
    from wafo.integrate import clencurt
    import numpy as np
    deg = 2 * n + 1 if not free else 2
    c = [h.real('c%d' % i, -3, 3) for i in range(deg + 1)]
    if tab:
        x = np.cos(np.pi * np.arange(2 * n + 1) / (2 * n)) * 1.25 + 0.75
        q, e = clencurt(h.arr([[float(v), horner(c[::-1], float(v))] for v in x[::-1]]), -0.5, 2.0, n)
        h.eq(q[0], integral(c, -0.5, 2.0), 'tabulated', tol=1e-6)
        return
    if vec:
        a, b = [-0.5, 1.0, 3.0], [2.0, 0.0, 3.0]
    else:
        a, b = limits(h, free)
        a, b = [a], [b]
    q, e = clencurt(lambda t: horner(c[::-1], t), h.arr(a) if vec else a[0], h.arr(b) if vec else b[0], n)
    h.check(tuple(q.shape) == (len(a),), 'shape')
    for i in range(len(a)):
        h.eq(q[i], integral(c, a[i], b[i]), 'integral', tol=1e-6)


def adaptive(h, which, deg, lim, wfun=1, al=0, be=0):
    """gaussq / quadgr / romberg return the integral of a low degree polynomial (reversed limits: minus it)"""
    from wafo import integrate as wi
    c = [h.real('c%d' % i, -3, 3) for i in range(deg + 1)]
    if lim == 'free':
        a, b = limits(h, True)
    elif lim == 'rev':
        a, b = 2.0, -0.5
    else:
        a, b = -0.5, 2.0
    f = lambda t: horner(c[::-1], t) + 0 * t
    if which == 'gaussq':
        q, e = wi.gaussq(f, a, b, wfun=wfun, alpha=al, beta=be)
    elif which == 'quadgr':
        q, e = wi.quadgr(f, a, b)
    else:
        q, e = wi.romberg(f, a, b)
    import numpy as np
    q = np.ravel(q)[0] if isinstance(q, np.ndarray) else q
    e = np.ravel(e)[0] if isinstance(e, np.ndarray) else e
    if wfun == 1:
        want = integral(c, a, b)
    elif wfun in (2, 3):
        want = sum(c[k] * moment(k, wfun, al, be) for k in range(deg + 1))
    else:
        # weight written in the variable scaled to the interval
        from math import comb
        if wfun in (4, 5, 6):
            mid, half = (a + b) / 2, (b - a) / 2
            fac = {4: half ** (al + be + 1), 5: 1.0, 6: half ** 2}[wfun]
        else:
            mid, half = a, b - a
            fac = {7: half, 8: sqrt(half), 9: half ** 1.5}[wfun]
        want = 0.0
        for k in range(deg + 1):
            for j in range(k + 1):
                want = want + c[k] * comb(k, j) * mid ** (k - j) * half ** j * moment(j, wfun, al, be)
        want = want * fac
    h.eq(q, want, 'integral', tol=1e-6)
    h.check(e <= 1e-2 + 1e-2 * abs(want), 'error estimate within the tolerance')


def several(h):
    """array limits and parameters: every integral by itself"""
    from wafo.integrate import gaussq
    import numpy as np
    p = h.reals('p', 2, -3, 3)
    a, b = [0.0, -1.0], [1.0, 0.5]
    q, e = gaussq(lambda x, s: s * x ** 2 + x, h.arr(a), h.arr(b), args=(p,))
    for i in range(2):
        h.eq(q[i], p[i] * (b[i] ** 3 - a[i] ** 3) / 3 + (b[i] ** 2 - a[i] ** 2) / 2, 'integral %d' % i, tol=1e-6)


def equal(h):
    from wafo.integrate import quadgr
    a = h.real('a', -3, 3)
    q, e = quadgr(lambda t: t + 1, a, a)
    h.eq(q, 0.0, 'empty interval')


def newton_cotes(h, n):
    """Boole's rule is exact up to degree 5"""
    from wafo.integrate import boole
    a, b = h.real('a', -3, 3), h.real('b', -3, 3)
    c = [h.real('c%d' % i, -3, 3) for i in range(6)]
    x = [a + (b - a) * i / (n - 1) for i in range(n)]
    h.eq(boole(h.arr([horner(c[::-1], v) for v in x]), h.arr(x)), integral(c, a, b), 'integral', tol=1e-6)


def cases(tier):
    out = []
    top = 6 if tier == 'quick' else 12
    for wfun in range(1, 10):
        pars = {3: ((0, 0), (0.5, 0)), 4: ((0, 0), (0.5, 0.25), (-0.5, 1))}.get(wfun, ((0, 0),))
        for al, be in pars:
            for n in range(1, top + 1):
                if wfun in (2, 3) and n > 8:
                    continue
                out.append(Case('rule-%d-n%d-%g-%g' % (wfun, n, al, be), rule, '%d nodes, any polynomial of degree %d' % (n, 2 * n - 1), n=n, wfun=wfun, al=al, be=be, how='qrule'))
    for n in (1, 2, 3, 5):
        out.append(Case('newton1-n%d' % n, rule, '%d nodes' % n, n=n, wfun=1, al=0, be=0, how='newton1'))
    for w, al, be in ((1, 0, 0), (2, 0, 0), (3, 0.5, 0), (4, 0.5, 0.25)):
        out.append(Case('scipy-%d' % w, rule, '3 nodes', n=3, wfun=w, al=al, be=be, how='scipy'))
    for n in (1, 2, 3):
        out.append(Case('interval-n%d' % n, interval, '%d nodes, any interval' % n, n=n))
    for n in (1, 2, 3, 5):
        out.append(Case('clencurt-n%d' % n, clen, 'degree %d' % (2 * n + 1), n=n, free=False, vec=False))
    out.append(Case('clencurt-any', clen, 'any interval, degree 2', n=2, free=True, vec=False))
    out.append(Case('clencurt-vec', clen, 'three intervals', n=3, free=False, vec=True))
    out.append(Case('clencurt-tab', clen, 'tabulated', n=3, free=False, vec=False, tab=True))
    out.append(Case('gaussq', adaptive, 'any cubic', which='gaussq', deg=3, lim='fixed'))
    out.append(Case('gaussq-rev', adaptive, 'any cubic', which='gaussq', deg=3, lim='rev'))
    out.append(Case('gaussq-any', adaptive, 'any interval, any line', which='gaussq', deg=1, lim='free'))
    for w, al, be in ((2, 0, 0), (3, 0, 0), (3, 0.5, 0), (4, 0.5, 0.25), (4, 0, 1), (5, 0, 0), (6, 0, 0), (7, 0, 0), (8, 0, 0), (9, 0, 0)):
        out.append(Case('gaussq-w%d-%g-%g' % (w, al, be), adaptive, 'any cubic', which='gaussq', deg=3, lim='fixed', wfun=w, al=al, be=be))
    out.append(Case('gaussq-several', several, 'two integrals'))
    out.append(Case('quadgr', adaptive, 'any polynomial of degree 7', which='quadgr', deg=7, lim='fixed'))
    out.append(Case('quadgr-rev', adaptive, 'any cubic', which='quadgr', deg=3, lim='rev'))
    out.append(Case('quadgr-any', adaptive, 'any interval, any line', which='quadgr', deg=1, lim='free'))
    out.append(Case('quadgr-empty', equal, 'any point'))
    for lim in ('fixed', 'rev'):
        out.append(Case('romberg-' + lim, adaptive, 'any line', which='romberg', deg=1, lim=lim))
    for n in (5, 9, 13):
        out.append(Case('boole-n%d' % n, newton_cotes, '%d points, any polynomial of degree 5, any interval' % n, n=n))
    return out
