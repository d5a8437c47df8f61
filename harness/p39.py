"""Counting distributions, cycle matrices and the rainflow matrix of a Markov chain of turning points (wafo.markov)."""
from vsym.runner import Case
PROPERTY = 'P39'
MODULES = ['wafo.markov']
OUTSIDE = ('more levels than stated; frequencies below 0.01 of the others, where mctp2rfc skips cycles rarer than one in a million; chains whose Max-min matrix '
           'does not belong to the same stationary sequence; mctp2tc beyond not changing its arguments; mc2rfc, arfm2mctp and the plots; rounding')
ASSUMPTIONS = ['numpy.linalg.solve solves a nonsingular system (replaced by elimination)', 'numpy.linalg.pinv inverts a nonsingular matrix (concrete here)']


def mat(h, n, name='c', lo=-3, hi=3):
    return [[h.real('%s%d%d' % (name, i, j), lo, hi) for j in range(n)] for i in range(n)]


def to_nt(h, n, kind):
    """nt[i, j] = sum of the cycles with min index < i and max index > j"""
    from wafo.markov import cmat2nt
    c = mat(h, n)
    a = h.arr(c)
    nt = cmat2nt(a) if kind is None else cmat2nt(a, kind)
    h.check(nt.shape == (n, n), 'shape')
    for i in range(n):
        for j in range(n):
            h.eq(nt[i, j], sum(c[p][q] for p in range(i) for q in range(j + 1, n)), 'nt[%d, %d]' % (i, j), tol=1e-9)
            h.eq(a[i, j], c[i][j], 'argument not modified')


def to_cmat(h, n, kind):
    """cmat[i, j] = mixed difference of nt"""
    from wafo.markov import nt2cmat
    c = mat(h, n)
    a = h.arr(c)
    r = nt2cmat(a) if kind is None else nt2cmat(a, kind)
    h.check(r.shape == (n, n), 'shape')
    for i in range(n):
        for j in range(n):
            ref = 0.0 if i == n - 1 or j == 0 else c[i + 1][j - 1] - c[i][j - 1] - c[i + 1][j] + c[i][j]
            h.eq(r[i, j], ref, 'cmat[%d, %d]' % (i, j), tol=1e-9)
            h.eq(a[i, j], c[i][j], 'argument not modified')


def around(h, n, kind):
    """nt2cmat(cmat2nt(cmat)) is cmat for every cycle matrix (upper triangle)"""
    from wafo.markov import nt2cmat, cmat2nt
    c = [[h.real('c%d%d' % (i, j), -3, 3) if j > i else 0.0 for j in range(n)] for i in range(n)]
    r = nt2cmat(cmat2nt(h.arr(c), kind), kind)
    for i in range(n):
        for j in range(n):
            h.eq(r[i, j], c[i][j], 'cmat[%d, %d]' % (i, j), tol=1e-9)


def refuse(h):
    from wafo.markov import nt2cmat, cmat2nt, fr2nt
    c = h.arr(mat(h, 3))
    for f in (nt2cmat, cmat2nt):
        for kind in (0, -1):
            h.raises(NotImplementedError, lambda: f(c, kind), 'kind %d' % kind)
        for kind in (2, 12, 5):
            h.raises(ValueError, lambda: f(c, kind), 'kind %d' % kind)
    h.raises(ValueError, lambda: fr2nt(h.arr(mat(h, 2, 'd'))), 'dimension less than 3')
    h.raises(ValueError, lambda: fr2nt(h.arr([[1.0] * 4] * 3)), 'not square')


def frequency(h, n, kind):
    """frequency matrix = mixed difference of the counting distribution"""
    from wafo.markov import nt2fr
    c = mat(h, n)
    a = h.arr(c)
    fr = nt2fr(a) if kind is None else nt2fr(a, kind)
    for i in range(n):
        for j in range(n):
            p, q = (i, j) if not kind else (i - 1, j - 1)
            ref = c[p][q] + c[p + 1][q + 1] - c[p][q + 1] - c[p + 1][q] if 0 <= p < n - 1 and 0 <= q < n - 1 else 0.0
            h.eq(fr[i, j], ref, 'fr[%d, %d]' % (i, j), tol=1e-9)
            h.eq(a[i, j], c[i][j], 'argument not modified')


def counting(h, n):
    """counting distribution of a frequency matrix, and back"""
    from wafo.markov import nt2fr, fr2nt
    c = [[h.real('c%d%d' % (i, j), -3, 3) if i + j < n - 2 else 0.0 for j in range(n)] for i in range(n)]
    nt = fr2nt(h.arr(c))
    for i in range(n):
        for j in range(n):
            ref = sum(c[p][q] for p in range(i) for q in range(j)) if i + j <= n - 1 else 0.0
            h.eq(nt[i, j], ref, 'nt[%d, %d]' % (i, j), tol=1e-9)
    fr = nt2fr(nt)
    for i in range(n):
        for j in range(n - 2 - i):
            h.eq(fr[i, j], c[i][j], 'fr[%d, %d]' % (i, j), tol=1e-9)


def solve(a, b):
    n = len(a)
    a = [list(r) + [v] for r, v in zip(a, b)]
    for k in range(n):
        for i in range(n):
            if i != k:
                f = a[i][k] / a[k][k]
                a[i] = [x - f * y for x, y in zip(a[i], a[k])]
    return [a[i][n] / a[i][i] for i in range(n)]


def chain(h, n, free, given, base):
    """intensity of rainflow cycles from <= a to >= b: passages of the chain from <= a to >= b before it returns to <= a"""
    from wafo.markov import mctp2rfc
    # f[m][M] frequency of a minimum at level m followed by a maximum at level M, reversible sequence
    f = [[0.0] * n for _ in range(n)]
    k = 0
    for m in range(n):
        for M in range(m + 1, n):
            f[m][M] = h.real('f%d%d' % (m, M), 0.05, 1) if (m, M) in free else base[k % len(base)]
            k += 1
    F = [[f[j][n - 1 - i] for j in range(n)] for i in range(n)]     # rows: maxima from the top, columns: minima from the bottom
    A = h.arr(F)
    R = mctp2rfc(A, h.arr(F)) if given else mctp2rfc(A)
    fmax = [sum(f[m][M] for m in range(n)) for M in range(n)]
    fmin = [sum(f[m]) for m in range(n)]
    for b in range(1, n):
        for a in range(b):
            mid = range(a + 1, b)
            mu = sum(f[m][M] for m in range(a + 1) for M in range(b, n))
            if len(mid) > 1:
                # h(M): probability of reaching >= b before <= a from a maximum at M
                g = {m: sum(f[m][M] for M in range(b, n)) / fmin[m] for m in mid}
                rows, rhs = [], []
                for M in mid:
                    rows.append([(1.0 if M == M2 else 0.0) - sum((f[m][M] / fmax[M]) * (f[m][M2] / fmin[m]) for m in mid) for M2 in mid])
                    rhs.append(sum(f[m][M] / fmax[M] * g[m] for m in mid))
                hh = dict(zip(mid, solve(rows, rhs)))
                mu = mu + sum(f[m][M] * hh[M] for m in range(a + 1) for M in mid)
            got = sum(R[n - 1 - M, m] for m in range(a + 1) for M in range(b, n))
            h.eq(got, mu, 'rainflow cycles from <= %d to >= %d' % (a, b), tol=1e-5)
    for i in range(n):
        for j in range(n):
            if i + j >= n - 1:
                h.eq(R[i, j], 0.0, 'no cycle with its minimum above its maximum')
            h.eq(A[i, j], F[i][j], 'argument not modified')


def back(h, n, k):
    """k steps of F <- max(0, F + (frfc - rfc(F)))"""
    from wafo.markov import iter_, mctp2rfc
    import wafo.markov as wm
    c = [[h.real('c%d' % j, 0, 2) if i == 0 and j < 2 else 0.5 + i + 0.25 * j for j in range(n)] for i in range(n)]
    d = [[h.real('d%d' % j, 0, 2) if i == 0 and j < 1 else 0.5 * j for j in range(n)] for i in range(n)]
    rec = []

    def fake(F):                       # any map serves: the iteration is what is checked
        rec.append(1)
        return F * 0.5 + 0.25
    saved = wm.mctp2rfc
    wm.mctp2rfc = fake
    try:
        for start in (None, d):
            F, r = iter_(h.arr(c), None if start is None else h.arr(start), k, epsilon=0)
            ref = [list(v) for v in (c if start is None else start)]
            for _ in range(k):
                new = [[max(0, ref[i][j] + c[i][j] - (ref[i][j] * 0.5 + 0.25)) for j in range(n)] for i in range(n)]
                same = all(bool(abs(ref[i][j] - new[i][j]) <= 0) for i in range(n) for j in range(n))
                ref = new
                if same:
                    break
            for i in range(n):
                for j in range(n):
                    h.eq(F[i, j], ref[i][j], 'Markov matrix', tol=1e-9)
                    h.eq(r[i, j], ref[i][j] * 0.5 + 0.25, 'rainflow matrix', tol=1e-9)
    finally:
        wm.mctp2rfc = saved


def test(h, n, sub, sym):
    """normal kernel above the given subdiagonal"""
    from wafo.markov import mktestmat
    import numpy as np
    x0 = [h.real('x0', -1, 1), h.real('x1', -1, 1)]
    a, b = -1.0, 1.5
    s, lam = 0.5, 0.75
    kw = {}
    if sub is not None:
        kw['numsubzero'] = sub
    if sym == 'default':
        x0 = [0.25, 0.25]
        s, lam = (b - a) / 4, 1
        F, Fh = mktestmat((a, b, n), **kw)
    else:
        F, Fh = mktestmat((a, b, n), h.arr(x0), s, lam, **kw)
    u = [a + (b - a) * i / (n - 1) for i in range(n)]
    # inverse of S = s^2/2 [[l2+1, l2-1], [l2-1, l2+1]] has determinant s^4 l2
    l2 = lam * lam
    p, q = (l2 + 1) / (2 * s * s * l2), -(l2 - 1) / (2 * s * s * l2)
    lim = 0 if sub is None else sub
    for i in range(n):
        for j in range(n):
            dx, dy = u[i] - x0[0], u[j] - x0[1]
            inside = j - i > lim if np.isfinite(lim) else True
            ref = np.exp(-0.5 * (p * dx * dx + 2 * q * dx * dy + p * dy * dy)) if inside else 0.0
            h.eq(F[i, j], ref, 'F[%d, %d]' % (i, j), tol=1e-7)
            h.eq(Fh[j, i], F[i, j], 'time reversible')


def tc_pure(h, n):
    """mctp2tc leaves its arguments as they were"""
    from wafo.markov import mctp2tc
    import numpy as np
    f = [[h.real('f%d%d' % (i, j), 0.05, 1) if i + j < n - 1 and i < 2 and j < 2 else (0.1 if i + j < n - 1 else 0.0) for j in range(n)] for i in range(n)]
    a, b = h.arr(f), h.arr(f)
    mctp2tc(a, 0.0, (-1, 1, n))
    mctp2tc(h.arr(f), 0.0, (-1, 1, n), b)
    for i in range(n):
        for j in range(n):
            h.eq(a[i, j], f[i][j], 'Max-min matrix not modified')
            h.eq(b[i, j], f[i][j], 'min-Max matrix not modified')


def cases(tier):
    deep = tier == 'thorough'
    out = []
    for n in (2, 3, 4) + ((6,) if deep else ()):
        for kind in (None, 1, 11):
            out.append(Case('nt-%d-%s' % (n, kind), to_nt, '%d levels' % n, n=n, kind=kind))
            out.append(Case('cmat-%d-%s' % (n, kind), to_cmat, '%d levels' % n, n=n, kind=kind))
        for kind in (1, 11):
            out.append(Case('around-%d-%d' % (n, kind), around, '%d levels' % n, n=n, kind=kind))
        for kind in (None, 0, 1):
            out.append(Case('fr-%d-%s' % (n, kind), frequency, '%d levels' % n, n=n, kind=kind))
    for n in (3, 4, 5):
        out.append(Case('counting-%d' % n, counting, '%d levels' % n, n=n))
    out.append(Case('refuse', refuse, 'every value'))
    base = [0.25, 0.125, 0.5, 0.375, 0.75, 0.3125, 0.625, 0.1875, 0.4375, 0.8125]
    full = lambda n: [(i, j) for i in range(n) for j in range(i + 1, n)]
    out.append(Case('chain-3', chain, '3 levels', n=3, free=full(3), given=False, base=base))
    out.append(Case('chain-4', chain, '4 levels, every frequency', n=4, free=full(4), given=False, base=base))
    out.append(Case('chain-4-given', chain, '4 levels, every frequency, Max-min matrix given', n=4, free=full(4), given=True, base=base))
    for k, fr in enumerate([[(0, 1), (1, 2)], [(0, 3)], [(2, 3)], [(2, 4)], [(1, 4)], [(0, 2)], [(0, 4), (3, 4)]]):
        out.append(Case('chain-5-%d' % k, chain, '5 levels, frequencies %s' % (fr,), n=5, free=fr, given=False, base=base))
    if deep:
        out.append(Case('chain-5-mid', chain, '5 levels, frequency (1, 3)', n=5, free=[(1, 3)], given=False, base=base))
        for k, p in enumerate(full(6)):
            out.append(Case('chain-6-%d' % k, chain, '6 levels, one frequency', n=6, free=[p], given=False, base=base))
    out.append(Case('iter-1', back, '2 levels, one step', n=2, k=1))
    if deep:
        out.append(Case('iter-2', back, '2 levels, two steps', n=2, k=2, budget=600))
    for sub in (None, 0, 1, -1, float('-inf')):
        out.append(Case('test-%s' % sub, test, '4 levels, every centre', n=4, sub=sub, sym='centre'))
    out.append(Case('test-default', test, '4 levels', n=4, sub=None, sym='default'))
    out.append(Case('tc-pure', tc_pure, '5 levels', n=5))
    return out
