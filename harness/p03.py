from vsym.runner import Case
from .common import tolist
PROPERTY = 'P03'
MODULES = ['wafo.misc']
OUTSIDE = 'sequences longer than the stated bound; NaN samples; rainflow filtering (P04)'


def prepare(sym):
    import wafo.misc as wm
    wm.clib = None


def sgn(d):
    if d > 0:
        return 1
    if d < 0:
        return -1
    return 0


def turning(x):
    """(index, +1 max / -1 min): points where the last nonzero slope before differs from the slope after"""
    n = len(x)
    s = [sgn(x[i + 1] - x[i]) for i in range(n - 1)]
    out, last = [], 0
    for i in range(n - 2):
        if s[i] != 0:
            last = s[i]
        if s[i + 1] != 0 and s[i + 1] != last:
            out.append((i + 1, -s[i + 1]))
    return out


def ints(a):
    return [int(v) for v in tolist(a)]


def extrema(h, n):
    from wafo.misc import findextrema
    x = h.reals('x', n)
    got = ints(findextrema(x))
    tp = turning(x)
    h.check(got == [t[0] for t in tp], 'extrema %r expected %r' % (got, [t[0] for t in tp]))
    # consequences stated on values: alternation and monotonicity in between
    for a, b in zip(got[:-1], got[1:]):
        up = x[b] > x[a]
        for i in range(a, b):
            h.check(h.ite(up, x[i] <= x[i + 1], x[i] >= x[i + 1]), 'monotone between extrema')


def tp0(h, n, kind):
    from wafo.misc import findtp
    x = h.reals('x', n)
    got = findtp(x, 0.0, kind)
    tp = turning(x)
    if len(tp) < 2:
        h.check(got is None, 'no waves -> None')
        return
    ind = [t[0] for t in tp]
    if kind == 'astm':
        exp = [0] + ind + [n - 1]
    elif tp[0][1] > 0:
        exp = [0] + ind + [n - 1]
    else:
        exp = ind + [n - 1]
    if kind in ('mw', 'Mw'):
        first_max = bool(x[exp[0]] > x[exp[1]])
        if first_max != (kind == 'Mw'):
            exp = exp[1:]
        if len(exp) % 2 != 1:
            exp = exp[:-1]
    got = ints(got)
    h.check(got == exp, 'turning points %r expected %r' % (got, exp))
    if kind in ('mw', 'Mw') and len(got) > 1:
        h.check(len(got) % 2 == 1, 'odd number')
        h.check((x[got[0]] > x[got[1]]) if kind == 'Mw' else (x[got[0]] <= x[got[1]]), 'starts with the right extreme')


def tpneg(h, n):
    from wafo.misc import findtp
    x = h.reals('x', n)
    hh = h.real('h')
    h.assume(hh < 0)
    h.check(ints(findtp(x, hh)) == list(range(n)), 'negative threshold keeps every sample')


def peaks(h, n, k):
    from wafo.misc import findpeaks
    x = h.reals('x', n)
    mh = 0.0
    ind = ints(findpeaks(x, n=k, min_h=mh))
    h.check(len(set(ind)) == len(ind), 'distinct')
    h.check(len(ind) <= k, 'at most n peaks')
    for a, b in zip(ind[:-1], ind[1:]):
        h.check(x[a] >= x[b], 'highest first')
    mx = [t[0] for t in turning(x) if t[1] > 0]
    for i in ind:
        h.check(h.all([x[i] >= x[j] for j in (i - 1, i + 1) if 0 <= j < n]), 'not lower than its neighbours')
    if len(turning(x)) >= 2:
        h.check(len(ind) >= 1, 'a peak is found')
        # no interior maximum higher than the highest reported peak
        for i in mx:
            h.check(x[ind[0]] >= x[i], 'highest peak first')


def peaks2(h, rows, cols, k, which):
    """matrix: the peaks of the rows that are higher than the neighbours above and below, highest first, as indices into the raveled matrix"""
    from wafo.misc import findpeaks
    import numpy as np
    base = [[float((3 * i + 5 * j + i * j) % 7) + 0.125 * (i + cols * j) for j in range(cols)] for i in range(rows)]
    x = [[h.real('x%d%d' % (i, j), 0, 8) if (i, j) in which else base[i][j] for j in range(cols)] for i in range(rows)]
    flat = [v for r in x for v in r]
    for i, a in enumerate(flat):
        for b in flat[:i]:
            h.assume(h.any([a - b > 0.01, b - a > 0.01]))
    got = ints(findpeaks(h.arr(x), n=k, min_h=0.0))
    want = []
    for i in range(rows):
        for j in ints(findpeaks(h.arr(x[i]), n=cols, min_h=0.0)):
            if all(bool(x[i][j] > x[r][j]) for r in (i - 1, i + 1) if 0 <= r < rows):
                want.append(i * cols + j)
    want.sort(key=Key(flat))
    h.check(len(got) == min(k, len(want)), 'number of peaks')
    for a, b in zip(got, want):
        h.check(a == b, 'peak %d' % b)


def share(h, n, mp):
    """peaks that are not above the given part of the highest value are left out"""
    from wafo.misc import findpeaks
    x = [h.real('x%d' % i, 0.5, 4) for i in range(n)]
    hi = x[0]
    for v in x[1:]:
        hi = v if bool(v > hi) else hi
    for v in x:
        h.assume(h.any([v - mp * hi > 1e-3, mp * hi - v > 1e-3]))
    a = ints(findpeaks(h.arr(x), n=n, min_h=0.0))
    b = ints(findpeaks(h.arr(x), n=n, min_h=0.0, min_p=mp))
    h.check(b == [i for i in a if bool(x[i] > mp * hi)], 'peaks above the limit')


def default(h, n):
    """the default minimum height is 5 per cent of the range"""
    from wafo.misc import findpeaks
    x = [h.real('x%d' % i, -4, 4) for i in range(n)]
    lo = hi = x[0]
    for v in x[1:]:
        lo = v if bool(v < lo) else lo
        hi = v if bool(v > hi) else hi
    h.assume(hi - lo > 0.1)
    a, b = ints(findpeaks(h.arr(x), n=n)), ints(findpeaks(h.arr(x), n=n, min_h=0.05 * (hi - lo)))
    h.check(a == b, 'same peaks')
    h.check(ints(findpeaks(h.arr(x))) == a[:2], 'two peaks by default')


def Key(flat):
    import functools
    return functools.cmp_to_key(lambda a, b: -1 if bool(flat[a] > flat[b]) else 1)


def cases(tier):
    N = 6 if tier == 'quick' else 8
    out = []
    for n in range(3, N + 1):
        out.append(Case('extrema-n%d' % n, extrema, 'n=%d samples' % n, n=n, max_paths=20000, budget=500))
        for kind in (None, 'astm', 'mw', 'Mw'):
            out.append(Case('tp-%s-n%d' % (kind, n), tp0, 'n=%d samples' % n, n=n, kind=kind, max_paths=20000, budget=500))
    out.append(Case('tp-all', tpneg, 'n=4 samples, any h<0', n=4))
    for n in range(4, N):
        out.append(Case('peaks-n%d' % n, peaks, 'n=%d samples, up to 2 peaks' % n, n=n, k=2, max_paths=20000, budget=500))
    for rows, cols, k, which in ((2, 4, 5, ((0, 1), (1, 1))), (3, 4, 2, ((0, 1), (1, 2))), (3, 3, 5, ((1, 1), (0, 1), (2, 1))), (4, 4, 3, ((1, 1), (2, 1)))):
        out.append(Case('peaks-%dx%d' % (rows, cols), peaks2, '%d free values' % len(which), rows=rows, cols=cols, k=k, which=which, max_paths=20000, budget=500))
    for n in (4, 5):
        out.append(Case('peaks-share-n%d' % n, share, 'n=%d samples' % n, n=n, mp=0.75, max_paths=20000, budget=500))
        out.append(Case('peaks-default-n%d' % n, default, 'n=%d samples' % n, n=n, max_paths=20000, budget=500))
    return out
