from vsym.runner import Case
from .common import tolist, ssum
PROPERTY = 'P05'
MODULES = ['wafo.misc', 'wafo._misc_numba', 'wafo.objects']
OUTSIDE = 'sequences longer than the stated bound; sequences with equal neighbours (not turning points); the compiled just-in-time version of the same source'


def alternating(h, n, name='y'):
    y = h.reals(name, n)
    up = h.choice('up', 2) if n > 1 else 0
    for i in range(n - 1):
        h.assume(y[i] < y[i + 1] if (i + up) % 2 else y[i] > y[i + 1])
    return y


def astm(y):
    """the ASTM E1049 counting rules: X = range under consideration, Y = previous range; X < Y: read on; otherwise count Y as
    one half cycle if it contains the starting point (drop that point) and as one full cycle otherwise (drop its two points);
    the ranges left at the end are half cycles.  Returns (index of first point, index of second point, count)"""
    out, st = [], []
    for k in range(len(y)):
        st.append(k)
        while len(st) >= 3:
            a, b, c = st[-3:]
            X, Y = abs(y[c] - y[b]), abs(y[b] - y[a])
            if X < Y:
                break
            if len(st) == 3:
                out.append((a, b, 0.5))
                st.pop(0)
            else:
                out.append((a, b, 1.0))
                st = st[:-3] + [c]
    for a, b in zip(st[:-1], st[1:]):
        out.append((a, b, 0.5))
    return out


def count(h, n, timed):
    import wafo._misc_numba as wn
    from wafo.misc import findrfc_astm
    y = alternating(h, n)
    ycopy = y.copy()
    if timed:
        t = h.reals('t', n)
        for i in range(n - 1):
            h.assume(t[i] < t[i + 1])
        out = wn.findrfc_astm(y, t)
    else:
        out = findrfc_astm(y)
    exp = astm(y)
    h.check(out.shape == (len(exp), 5 if timed else 3), 'number of counted cycles %r, expected %d' % (out.shape, len(exp)))
    for i, (a, b, c) in enumerate(exp):
        h.eq(out[i, 2], c, 'cycle count')
        h.eq(out[i, 0], abs(y[a] - y[b]) / 2, 'amplitude')
        h.eq(out[i, 1], (y[a] + y[b]) / 2, 'mean')
        if timed:
            h.eq(out[i, 3], t[a], 'begin time')
            h.eq(out[i, 4], 2 * (t[b] - t[a]), 'period')
    # conservation: every rise and fall of the signal is counted once
    tv = ssum(abs(y[i + 1] - y[i]) for i in range(n - 1))
    h.eq(ssum(4 * out[i, 0] * out[i, 2] for i in range(len(exp))), tv, 'total variation is conserved')
    h.eq(y, ycopy, 'turning points are not modified')


def through_object(h, n):
    from wafo.objects import TurningPoints
    y = alternating(h, n)
    t = h.reals('t', n)
    for i in range(n):
        h.assume(t[i] > (t[i - 1] if i else 0))
    tp = TurningPoints(y, t)
    h.eq(h.arr(tolist(tp.args)), t, 'times are kept')
    out = tp.cycle_astm()
    exp = astm(y)
    h.check(out.shape[0] == len(exp), 'number of counted cycles')
    for i, (a, b, c) in enumerate(exp):
        h.eq(out[i, 0], abs(y[a] - y[b]) / 2, 'amplitude')
        h.eq(out[i, 2], c, 'cycle count')


def cases(tier):
    N = 7 if tier == "quick" else 9
    out = []
    for n in range(2, N + 1):
        for timed in (False, True):
            out.append(Case('count-%s-n%d' % ('t' if timed else 'x', n), count, 'n=%d strictly alternating turning points, any real values' % n,
                            n=n, timed=timed, max_paths=20000, budget=500))
    out.append(Case('object-n5', through_object, 'n=5', n=5))
    return out
