from vsym.runner import Case
from vsym.cinterp import clib
from .common import tolist
import math
PROPERTY = 'P02'
MODULES = ['wafo.misc', 'wafo._misc_numba']
OUTSIDE = ('sequences longer than the stated bound; equal neighbouring turning points; amplitudes are symbolic but the finite-depth frequencies, wave numbers and depths are the stated ones; '
           'overflow of sinh and of 32-bit indices')
ASSUMPTIONS = ['the C source is executed through clang\'s AST (vsym/cinterp.py); replay compiles it with gcc -fsanitize=address,undefined']


def ints(a):
    return [int(v) for v in tolist(a)]


def alternating(h, n, name='y'):
    y = h.reals(name, n)
    up = h.choice('up', 2) if n > 1 else 0
    for i in range(n - 1):
        h.assume(y[i] < y[i + 1] if (i + up) % 2 else y[i] > y[i + 1])
    return y


def cross(h, n):
    import wafo.misc as wm
    c = clib(h)
    x, v = h.reals('x', n), h.real('v')
    ind, m = c.findcross(x, v)
    m = int(tolist(m)[0])
    wm.clib = None
    ref = ints(wm.findcross(x, v))
    h.check(0 <= m <= n and ints(ind)[:m] == ref, 'crossings from C %r, from Python %r' % (ints(ind)[:m], ref))
    h.check(ints(wm._findcross(x - v, method='python')) == ref, 'python method')


def rfc(h, n):
    import wafo._misc_numba as wn
    c = clib(h)
    y, t = alternating(h, n), h.real('hmin', 0)
    h.assume(y[0] < y[1])        # the Python routine is given sequences that start with a minimum
    ind, m = c.findrfc(y, t)
    m = int(tolist(m)[0])
    ref = ints(wn.findrfc(y, t, method=2))
    h.check(0 <= m <= n and ints(ind)[:m] == ref, 'rainflow points from C %r, from Python %r' % (ints(ind)[:m], ref))


def misc_rfc(h, n):
    import wafo.misc as wm
    y, t = alternating(h, n), h.real('hmin', 0)
    wm.clib = clib(h)
    a = ints(wm.findrfc(y, t, method='clib'))
    b = ints(wm.findrfc(y, t, method='python'))
    wm.clib = None
    h.check(a == b, 'findrfc with the compiled library %r, without %r' % (a, b))


def notp(h):
    """monotone data are refused"""
    c = clib(h)
    y = h.reals('y', 3)
    h.assume(y[0] < y[1])
    h.assume(y[1] < y[2])
    ind, m = c.findrfc(y, 0.0)
    h.check(int(tolist(m)[0]) == -1, 'not a sequence of turning points')


def astm(h, n, timed):
    import wafo._misc_numba as wn
    c = clib(h)
    y = alternating(h, n)
    if timed:
        t = h.reals('t', n)
        out, no = c.findrfc5_astm(y, t)
        ref = wn.findrfc_astm(y, t)
    else:
        out, no = c.findrfc3_astm(y)
        ref = wn.findrfc_astm(y)
    rows = n - int(tolist(no)[0])
    h.check(ref.shape[0] == rows, 'number of cycles from C %d, from Python %d' % (rows, ref.shape[0]))
    for i in range(rows):
        for j in range(ref.shape[1]):
            h.eq(out[i, j], ref[i, j], 'cycle %d column %d' % (i, j))


def setup(h, n, deep, nmin, nmax, m=1):
    rA, iA = h.reals('rA', n * m), h.reals('iA', n * m)
    nf = n // 2 + 1
    if deep:
        w, kw = h.reals('w', nf, 0.1, 9), h.reals('kw', nf, 0.1, 9)
        return rA, iA, w, kw, 20000.0, 9.81
    import numpy as np
    w = np.array([0.0] + [0.4 + 0.3 * i for i in range(1, nf)])
    kw = np.array([0.0] + [0.05 + 0.11 * i + 0.01 * i * i for i in range(1, nf)])
    return rA, iA, w, kw, deep_h(h), 9.81


def deep_h(h):
    return [5.0, 30.0, 4000.0][h.choice('depth', 3)]


def kernels(w1, w2, k1, k2, hh, g, diag):
    """second-order sum and difference frequency transfer functions for long-crested waves in finite depth"""
    if diag:
        th = math.tanh(k1 * hh)
        cg = 0.5 * g * (th + k1 * hh * (1 - th ** 2)) / w1
        a, b = 0.5 * g * (k1 / w1) ** 2, 0.5 * w1 ** 2 / g
        s = 3 * (a - b) / (1 - a / k1 * math.tanh(2 * k1 * hh)) + 3 * b - a
        d = (a - b + g * k1 / (w1 * cg)) / (1 - g * hh / cg ** 2) - (k1 / math.sinh(2 * k1 * hh) if k1 * hh < 300 else 0.0)
        return s, d
    a = g * k1 * k2 / (w1 * w2)
    b = (w1 ** 2 + w2 ** 2 + w1 * w2) / (2 * g)
    c = 0.5 * g * (w1 * k2 ** 2 + w2 * k1 ** 2) / (w1 * w2 * (w1 + w2))
    s = (a - b + c) / (1 - g * (k1 + k2) / (w1 + w2) ** 2 * math.tanh((k1 + k2) * hh)) + b - 0.5 * a
    b = (w1 ** 2 + w2 ** 2 - w1 * w2) / (2 * g)
    c = -0.5 * g * (w1 * k2 ** 2 - w2 * k1 ** 2) / (w1 * w2 * (w1 - w2))
    d = (a - b + c) / (1 - g * (k1 - k2) / (w1 - w2) ** 2 * math.tanh((k1 - k2) * hh)) + b - 0.5 * a
    return s, d


def expected(rA, iA, w, kw, hh, g, nmin, nmax, m, n, deep):
    S = [[0.0, 0.0] for _ in range(n * m)]
    D = [[0.0, 0.0] for _ in range(n * m)]

    def add(T, k, re, im):
        T[k][0] = T[k][0] + re
        T[k][1] = T[k][1] + im
    for i in range(m):
        for p in range(nmin - 1, nmax):
            for q in range(p, nmax):
                a, b = (rA[p * m + i], iA[p * m + i]), (rA[q * m + i], iA[q * m + i])
                if deep:
                    s, d = 0.5 * (kw[p] + kw[q]), -0.5 * (kw[q] - kw[p])
                    if p == q:
                        d = 0.0
                else:
                    s, d = kernels(w[p], w[q], kw[p], kw[q], hh, g, p == q)
                f = 2.0 if p == q else 4.0
                add(S, (p + q) * m + i, f * s * (a[0] * b[0] - a[1] * b[1]), f * s * (a[0] * b[1] + a[1] * b[0]))
                if p == q:
                    add(D, i, 2.0 * d * (a[0] * a[0] + a[1] * a[1]), 0.0)
                else:
                    add(D, (q - p) * m + i, 4.0 * d * (a[0] * b[0] + a[1] * b[1]), 4.0 * d * (a[0] * b[1] - a[1] * b[0]))
    return S, D


def second_order(h, n, deep, nmin, nmax, m, impl):
    import wafo._misc_numba as wn
    rA, iA, w, kw, hh, g = setup(h, n, deep, nmin, nmax, m)
    S, D = expected(rA, iA, w, kw, hh, g, nmin, nmax, m, n, deep)
    if impl == 'c2':
        o = clib(h).disufq2(rA, iA, w, kw, hh, g, nmin, nmax, m, n)
        for k in range(n * m):
            h.eq(o[0][k], S[k][0], 'sum frequency effects, real part')
            h.eq(o[1][k], S[k][1], 'sum frequency effects, imaginary part')
            h.eq(o[2][k], D[k][0], 'difference frequency effects, real part')
            h.eq(o[3][k], D[k][1], 'difference frequency effects, imaginary part')
        return
    r, i = (clib(h) if impl == 'c' else wn).disufq(rA, iA, w, kw, hh, g, nmin, nmax, m, n)
    for k in range(n * m):
        h.eq(r[k], S[k][0] + D[k][0], 'second order effects, real part')
        h.eq(i[k], S[k][1] + D[k][1], 'second order effects, imaginary part')


def cases(tier):
    N = 5 if tier == 'quick' else 7
    out = []
    for n in range(2, N + 1):
        out.append(Case('findcross-n%d' % n, cross, 'n=%d samples, any level' % n, n=n, max_paths=20000, budget=400))
        out.append(Case('findrfc-n%d' % n, rfc, 'n=%d turning points, any threshold' % n, n=n, max_paths=20000, budget=400))
    out.append(Case('misc-findrfc-n5', misc_rfc, 'n=5', n=5, max_paths=20000))
    out.append(Case('misc-findrfc-n6', misc_rfc, 'n=6', n=6, max_paths=20000))
    out.append(Case('findrfc-monotone', notp, 'n=3'))
    for n in range(2, N + 2):
        for timed in (False, True):
            out.append(Case('astm-%s-n%d' % ('t' if timed else 'x', n), astm, 'n=%d turning points' % n, n=n, timed=timed, max_paths=20000, budget=400))
    for impl in ('py', 'c', 'c2'):
        for deep in (True, False):
            for (n, nmin, nmax, m) in [(8, 2, 4, 1), (8, 1 if deep else 2, 3, 1), (6, 2, 3, 2), (8, 3, 3, 1)] + ([(12, 2, 6, 1), (10, 2, 5, 3)] if tier != 'quick' else []):
                out.append(Case('disufq-%s-%s-n%d-%d-%d-m%d' % (impl, 'deep' if deep else 'finite', n, nmin, nmax, m), second_order,
                                'n=%d, components %d..%d, %d cases, any amplitudes' % (n, nmin, nmax, m), n=n, deep=deep, nmin=nmin, nmax=nmax, m=m, impl=impl))
    return out
