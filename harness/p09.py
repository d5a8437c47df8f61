from vsym.runner import Case
from .common import tolist, either
PROPERTY = 'P09'
MODULES = ['wafo.misc', 'wafo.objects']
OUTSIDE = 'more cycles than stated; cycle lists mixing both orders of minimum and maximum; the top level for the up-crossings-and-minima definition'

TEST = {1: lambda m, u, M: [m < u, u < M], 2: lambda m, u, M: [m < u, u <= M], 3: lambda m, u, M: [m <= u, u <= M], 4: lambda m, u, M: [m <= u, u < M]}
NAMES = {'u': 1, 'uM': 2, 'umM': 3, 'um': 4}


def lc(h, n, kind, swapped, intensity=False):
    from wafo.objects import CyclePairs
    m, M = h.reals('m', n), h.reals('M', n)
    for i in range(n):
        h.assume(m[i] < M[i])
    T = 1
    if intensity:
        T = h.real('T', 0, strict=True)
        h.assume(T > 0)
    a, b = (m, M) if swapped else (M, m)
    cp = CyclePairs(a, b, mean=0.0, sigma=1.0, time=T)
    try:
        c = cp.level_crossings(kind, intensity)
    except ValueError:
        if kind == 'u':
            h.known('K09')
        raise
    u, cnt = tolist(c.args), tolist(c.data)
    h.check(len(u) == len(cnt), 'one count per level')
    for x, y in zip(u[:-1], u[1:]):
        h.check(x < y, 'levels increase')
    for v in tolist(m) + tolist(M):
        h.check(h.any([v == w for w in u]), 'every extreme is a level')
    for w in u:
        h.check(h.any([v == w for v in tolist(m) + tolist(M)]), 'every level is an extreme')
    d = NAMES.get(kind, kind)
    pend = []
    for k, w in enumerate(u):
        if d == 4 and k == len(u) - 1:
            continue
        e = 0
        for i in range(n):
            e = e + h.ite(h.all(TEST[d](m[i], w, M[i])), 1, 0)
        if isinstance(kind, str) and d > 1:
            bad = 0
            for i in range(n):
                bad = bad + h.ite(h.all(TEST[d - 1](m[i], w, M[i])), 1, 0)
            either(h, cnt[k] * T, e, bad, 'level %d' % k)
            pend.append((k, e))
            continue
        h.eq(cnt[k] * T, e, 'number of cycles crossing level %d' % k)
    h.check(c.intensity == intensity, 'intensity flag')
    if pend:
        h.known('K09')
    for k, e in pend:
        h.eq(cnt[k] * T, e, 'number of cycles crossing level %d' % k)


def cases(tier):
    out = []
    N = 3 if tier == 'quick' else 4
    for n in range(1, N + 1):
        for kind in (1, 2, 3, 4):
            out.append(Case('kind%d-n%d' % (kind, n), lc, '%d cycles, any values, ties included' % n, n=n, kind=kind, swapped=False, max_paths=20000))
            if n == 2:
                out.append(Case('swap-kind%d' % kind, lc, '%d cycles stored as (max, min)' % n, n=n, kind=kind, swapped=True))
                out.append(Case('intensity-kind%d' % kind, lc, '%d cycles' % n, n=n, kind=kind, swapped=False, intensity=True))
    for nm in NAMES:
        out.append(Case('name-' + nm, lc, '1 cycle', n=1, kind=nm, swapped=False))
    return out
