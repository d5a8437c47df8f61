from vsym.runner import Case
from .common import tolist, ssum
from .p04 import alternating, rfc_pairs
PROPERTY = 'P08'
MODULES = ['wafo.misc', 'wafo.objects']
OUTSIDE = 'more turning points than stated; non-integer damage exponents; non-alternating turning points'


def prepare(sym):
    import wafo.misc as wm
    wm.clib = None


def pairs(h, n, first_max, kind):
    from wafo.objects import TurningPoints
    y = alternating(h, n, first_max)
    t = h.reals('t', n)
    for i in range(n - 1):
        h.assume(t[i] < t[i + 1])
    h.assume(t[0] > 0)
    cp = TurningPoints(y, t).cycle_pairs(kind=kind)
    lo = [(y[i], y[i + 1]) for i in range(n - 1)]
    exp = []
    for i in range(n - 1):
        is_max = (i % 2 == 0) == first_max
        if is_max == (kind == 'max2min'):
            exp.append((y[i + 1], y[i]) if is_max else (y[i], y[i + 1]))
    h.eq(cp.args, h.arr([e[0] for e in exp]), 'minima')
    h.eq(cp.data, h.arr([e[1] for e in exp]), 'maxima')
    h.check(cp.kind == kind, 'kind')
    h.eq(cp.time, t[n - 1] - t[0], 'duration')
    h.eq(cp.amplitudes(), h.arr([(b - a) / 2 for a, b in exp]), 'amplitudes')
    for a in tolist(cp.amplitudes()):
        h.check(a > 0, 'amplitudes are positive')
    d = cp.damage([1, 2])
    h.eq(d[0], ssum((b - a) / 2 for a, b in exp), 'damage, exponent 1')
    h.eq(d[1], ssum(((b - a) / 2) ** 2 for a, b in exp), 'damage, exponent 2')
    h.eq(cp.args, h.arr([e[0] for e in exp]), 'minima kept')


def rfc_cycle_pairs(h, n, first_max):
    from wafo.objects import TurningPoints
    y = alternating(h, n, first_max)
    hh = h.real('h', 0, strict=True)
    h.assume(hh > 0)
    keep = []
    for k, left, right in rfc_pairs(y, 1 if first_max else 0):
        low = left
        if right is not None and bool(y[right] > y[left]):
            low = right
        if bool(y[k] - y[low] >= hh):
            keep += [k, low]
    keep.sort()
    if len(keep) < 2:
        return
    cp = TurningPoints(y, list(range(1, n + 1))).cycle_pairs(h=hh, kind='min2max')
    d = [y[i] for i in keep]
    im = 1 if bool(d[0] > d[1]) else 0
    h.eq(cp.args, h.arr(d[im:-1:2]), 'minima of the filtered sequence')
    h.eq(cp.data, h.arr(d[im + 1::2]), 'maxima of the filtered sequence')


def damage(h, n, betas, ordered, kind=None):
    from wafo.objects import CyclePairs
    M, m = h.reals('M', n), h.reals('m', n)
    K = h.real('K')
    if ordered:
        for i in range(n):
            h.assume(M[i] >= m[i])
    cp = CyclePairs(M, m, mean=0.0, sigma=1.0, **({} if kind is None else dict(kind=kind)))
    got = cp.damage(betas, K)
    h.check(len(tolist(got)) == len(betas), 'one damage per exponent')
    for k, b in enumerate(betas):
        d = 0.0
        for i in range(n):
            d = d + (abs(M[i] - m[i]) / 2) ** b
        h.eq(got[k], K * d, 'damage for exponent %s' % b)
    h.eq(cp.damage([betas[0]])[0], ssum([(abs(M[i] - m[i]) / 2) ** betas[0] for i in range(n)]), 'default K')
    h.eq(cp.data, M, 'cycle maxima kept')
    h.eq(cp.args, m, 'cycle minima kept')


def chain(h, n):
    """from a series to the damage of its min-max cycles"""
    from wafo.objects import TimeSeries
    x = alternating(h, n, False)
    t = h.arr([1.0 * (i + 1) for i in range(n)])
    tp = TimeSeries(x, t).turning_points()
    h.eq(tp.data, x, 'turning points of an alternating series')
    h.eq(tp.args, t, 'times of the turning points')
    d = tp.cycle_pairs().damage([1, 2])
    amp = [(x[i + 1] - x[i]) / 2 for i in range(0, n - 1, 2)]
    h.eq(d[0], ssum(amp), 'damage beta=1')
    h.eq(d[1], ssum(a * a for a in amp), 'damage beta=2')


def rfilter(h, n):
    from wafo.objects import TurningPoints
    y = alternating(h, n, True)
    hh = h.real('h')
    t = h.arr([0.5 * (i + 1) for i in range(n)])
    tp = TurningPoints(y, t).rainflow_filter(hh)
    keep = []
    for k, left, right in rfc_pairs(y, 1):
        low = left
        if right is not None and bool(y[right] > y[left]):
            low = right
        if bool(y[k] - y[low] >= hh) or bool(hh <= 0):
            keep += [k, low]
    keep.sort()
    h.eq(tp.data, h.arr([y[i] for i in keep]), 'filtered turning points')
    if keep:
        h.eq(tp.args, h.arr([0.5 * (i + 1) for i in keep]), 'times of the filtered turning points')


def cases(tier):
    out = []
    N = 6 if tier == 'quick' else 8
    for n in range(2, N + 1):
        for fm in (False, True):
            for kind in ('min2max', 'max2min'):
                out.append(Case('pairs-%s-%s-n%d' % (kind, 'max' if fm else 'min', n), pairs, 'n=%d turning points' % n, n=n, first_max=fm, kind=kind))
    for n in range(3, N + 1):
        for fm in (False, True):
            out.append(Case('rfc-%s-n%d' % ('max' if fm else 'min', n), rfc_cycle_pairs, 'n=%d turning points, any threshold' % n, n=n, first_max=fm))
    for n in (1, 2, 3):
        out.append(Case('damage-n%d' % n, damage, '%d cycles, exponents 1..4' % n, n=n, betas=[1, 2, 3, 4], ordered=False))
    for kind in ('max2min', 'min2max', 'rfc'):
        for b in ([3], [2, 5], [1]):
            out.append(Case('damage-%s-%d' % (kind, b[0]), damage, '2 cycles of kind ' + kind, n=2, betas=b, ordered=False, kind=kind))
    out.append(Case('damage-frac', damage, '2 cycles, exponent 1/2', n=2, betas=[0.5, 1.5], ordered=False))
    out.append(Case('damage-order', damage, '2 cycles, exponents 3, 5', n=2, betas=[5, 3], ordered=True))
    out.append(Case('chain-n5', chain, 'n=5', n=5))
    out.append(Case('filter-n5', rfilter, 'n=5', n=5))
    return out
