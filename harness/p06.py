from vsym.runner import Case
from .common import tolist
from .p01 import expected, sgn, wave
PROPERTY = 'P06'
MODULES = ['wafo.misc', 'wafo.objects']
OUTSIDE = 'series longer than the stated bound; NaN samples'


def prepare(sym):
    import wafo.misc as wm
    wm.clib = None


def ints(a):
    return [int(v) for v in tolist(a)]


def tc(h, n, kind, level):
    from wafo.misc import findtc
    x = h.reals('x', n)
    v = {'sym': None, 'zero': 0.0, 'mean': None}[level]
    if level == 'sym':
        v = h.real('v')
    ind, vind = findtc(x, v, kind)
    if level == 'mean':
        v = sum(tolist(x)) / n
    cr = expected(h, [sgn(x[i] - v) for i in range(n)])
    if kind:
        cr = wave(cr, kind)
    if len(cr) <= 2:
        h.check(len(ints(ind)) == 0 and len(ints(vind)) == 0, 'no waves')
        return
    h.check(ints(vind) == [c[0] for c in cr], 'crossings %r expected %r' % (ints(vind), cr))
    got = ints(ind)
    h.check(len(got) == len(cr) - 1, 'one trough or crest between neighbouring crossings')
    for j in range(len(cr) - 1):
        a, b = cr[j][0] + 1, cr[j + 1][0]
        h.check(a <= got[j] <= b, 'extreme %d lies between its crossings' % j)
        for i in range(a, b + 1):
            h.check(x[got[j]] <= x[i] if cr[j][1] < 0 else x[got[j]] >= x[i], 'lowest trough / highest crest')
            if i < got[j]:
                h.check(x[got[j]] < x[i] if cr[j][1] < 0 else x[got[j]] > x[i], 'the first of equal extremes')


def obj(h, n):
    from wafo.objects import TimeSeries
    from wafo.misc import findtc
    x = h.reals('x', n)
    t = h.arr([0.5 * (i + 1) for i in range(n)])
    for i in range(n):
        h.assume(x[i] > 0 if i % 2 else x[i] < 0)
    tp = TimeSeries(x, t).trough_crest(0.0)
    got = ints(findtc(x, 0.0)[0])
    h.check(got == list(range(1, n - 1)), 'trough and crest positions')
    h.eq(tp.data, x[1:n - 1], 'values')
    h.eq(tp.args, h.arr([0.5 * (i + 1) for i in range(1, n - 1)]), 'times')


def cases(tier):
    N = 6 if tier == 'quick' else 7
    out = []
    for n in range(3, N + 1):
        for kind in (None, 'dw', 'uw', 'tw', 'cw'):
            if n < 4 and kind:
                continue
            lev = 'sym' if n <= 4 else 'zero'
            out.append(Case('%s-n%d' % (kind or 'all', n), tc, 'n=%d samples, level %s' % (n, lev), n=n, kind=kind, level=lev,
                            max_paths=40000, budget=500))
    out.append(Case('mean-level-n4', tc, 'n=4, default level', n=4, kind=None, level='mean', max_paths=40000, budget=500))
    out.append(Case('trough_crest', obj, 'n=6 alternating signs', n=6))
    return out
