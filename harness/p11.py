from vsym.runner import Case
from .common import tolist
PROPERTY = 'P11'
MODULES = ['wafo.misc']
OUTSIDE = 'series longer than the stated bound; default thresholds (1.5 standard deviations) except in one case; more than one missing sample'


def ints(a):
    return [int(v) for v in tolist(a)]


def setup(h, n, miss):
    x = h.reals('x', n)
    if miss is not None:
        x[miss] = float('nan')
    return x


def outliers(h, n, zero_z, miss=None):
    from wafo.misc import findoutliers
    x = setup(h, n, miss)
    keep = x.copy()
    z = 0.0 if zero_z else h.real('z', 0)
    d = h.real('d', 0)
    dd = h.real('dd', 0)
    if not zero_z:
        h.assume(z < d)
    ind, good = findoutliers(x, z, d, dd)
    ind, good = ints(ind), ints(good)
    h.check(ind == sorted(set(ind)), 'spurious indices are sorted and distinct')
    h.check(sorted(ind + good) == list(range(n)), 'spurious and good points partition the series: %r %r' % (ind, good))
    v = tolist(keep)
    dx = [None if miss in (i, i + 1) else v[i + 1] - v[i] for i in range(n - 1)]
    ddx = [None if dx[i] is None or dx[i + 1] is None else dx[i + 1] - dx[i] for i in range(n - 2)]
    must, may = set(), set()
    for i in range(n - 1):
        if dx[i] is None:
            may |= {i, i + 1}
            continue
        if dx[i] > d:
            must.add(i + 1)
        if dx[i] < -d:
            must.add(i)
    for i in range(n - 2):
        if ddx[i] is None:
            may |= {i, i + 1}
            continue
        if ddx[i] > dd:
            must.add(i + 1)
        if ddx[i] < -dd:
            must.add(i)
    small = [None if q is None else bool((q <= z) & (q >= -z)) for q in dx]
    for i in range(n - 1):
        if small[i]:
            must.add(i + 1)
    for i in range(n - 2):
        if small[i] is None or small[i + 1] is None:
            may |= {i, i + 1, i + 2}
        elif small[i] != small[i + 1]:
            must |= {i, i + 1, i + 2}
    h.check(must <= set(ind), 'points %r are spurious, reported %r' % (sorted(must), ind))
    h.check(set(ind) <= must | may, 'only spurious points are reported: %r of %r' % (ind, sorted(must | may)))
    for i in range(n):
        if i != miss:
            h.eq(x[i], keep[i], 'the series is not modified')


def default(h, n):
    """defaults are 1.5 standard deviations"""
    from wafo.misc import findoutliers
    x = h.reals('x', n)
    m = sum(tolist(x)) / n
    var = sum((v - m) ** 2 for v in tolist(x)) / n
    ind, good = findoutliers(x, -1.0)
    ind = ints(ind)
    exp = set()

    def big(q):
        return bool(q * q > 2.25 * var)
    for i in range(n - 1):
        q = x[i + 1] - x[i]
        if big(q):
            exp.add(i + 1 if bool(q > 0) else i)
    for i in range(n - 2):
        q = x[i + 2] - 2 * x[i + 1] + x[i]
        if big(q):
            exp.add(i + 1 if bool(q > 0) else i)
    h.check(set(ind) == exp, 'default thresholds: %r expected %r' % (ind, sorted(exp)))


def cases(tier):
    out = []
    N = 4 if tier == 'quick' else 5
    for n in range(3, N + 1):
        out.append(Case('zero-n%d' % n, outliers, 'n=%d, zcrit=0' % n, n=n, zero_z=True, max_paths=60000, budget=600))
        if n < 5:
            out.append(Case('crit-n%d' % n, outliers, 'n=%d, any 0<=zcrit<dcrit' % n, n=n, zero_z=False, max_paths=60000, budget=600))
    for m in (0, 1, 3):
        out.append(Case('missing-%d' % m, outliers, 'n=4, sample %d missing' % m, n=4, zero_z=True, miss=m, max_paths=60000, budget=600))
    out.append(Case('default-n3', default, 'n=3', n=3, max_paths=5000))
    return out
