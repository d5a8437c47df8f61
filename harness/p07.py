from vsym.runner import Case
from .common import tolist
from .p01 import expected, sgn, wave
import math
PROPERTY = 'P07'
MODULES = ['wafo.misc', 'wafo.objects']
OUTSIDE = 'series longer than the stated bound; interpolation before the extraction (rate > 1); NaN samples'


def prepare(sym):
    import wafo.misc as wm
    wm.clib = None


def ints(a):
    return [int(v) for v in tolist(a)]


# sign patterns of the samples; None = sign not prescribed
PATTERNS = {'p5': '-+-+-', 'n5': '+-+-+', 'p6': '+-+-+-', 'p7': '-+-+-+-', 'q7': '+--++-+', 'q8': '+-++--+-', 'z6': '+0-+-+', 'f5': '?????', 'p9': '+-++-+--+',
            'p10': '+-+--++-+-', 'r8': '-+--++-+', 'r9': '--++-+-+-'}


def series(h, pat):
    n = len(PATTERNS[pat])
    x = h.reals('x', n)
    dt = h.real('dt', 0, strict=True)
    h.assume(dt > 0)
    for i, c in enumerate(PATTERNS[pat]):
        if c == '+':
            h.assume(x[i] > 0)
        elif c == '-':
            h.assume(x[i] < 0)
        elif c == '0':
            h.assume(x[i] == 0)
    t = h.arr([dt * i for i in range(n)])
    return x, t, dt


def zero_cross(x, t, i):
    return t[i] + (0 - x[i]) * (t[i + 1] - t[i]) / (x[i + 1] - x[i])


def waves(x, t):
    """troughs, crests and zero crossings of the trough-crest-trough waves, by definition"""
    n = len(x)
    cr = wave(expected(None, [sgn(x[i]) for i in range(n)]), 'tw')
    if len(cr) <= 2:
        return [], []
    ext = []
    for j in range(len(cr) - 1):
        a, b = cr[j][0] + 1, cr[j + 1][0]
        k = a
        for i in range(a + 1, b + 1):
            if bool(x[i] < x[k]) if cr[j][1] < 0 else bool(x[i] > x[k]):
                k = i
        ext.append(k)
    return [c[0] for c in cr], ext


def params(h, pat):
    from wafo.objects import TimeSeries
    x, t, dt = series(h, pat)
    wp = TimeSeries(x, t).wave_parameters()
    cr, ext = waves(x, t)
    zt = [zero_cross(x, t, i) for i in cr]
    down, up = zt[0::2], zt[1::2]
    nw = len(ext) // 2
    crest = [x[ext[2 * k + 1]] for k in range(nw)]
    trough = [-x[ext[2 * k]] for k in range(len(ext) - nw)]
    ct = [t[ext[2 * k + 1]] for k in range(nw)]
    h.eq(wp['Ac'], h.arr(crest), 'crest amplitudes')
    h.eq(wp['At'], h.arr(trough), 'trough amplitudes')
    h.eq(wp['Hd'], h.arr([crest[k] + trough[k] for k in range(nw)]), 'down-crossing wave heights')
    h.eq(wp['Hu'], h.arr([crest[k] + trough[k + 1] for k in range(nw)]), 'up-crossing wave heights')
    h.eq(wp['Td'], h.arr([b - a for a, b in zip(down[:-1], down[1:])]), 'down-crossing periods')
    h.eq(wp['Tu'], h.arr([b - a for a, b in zip(up[:-1], up[1:])]), 'up-crossing periods')
    h.eq(wp['Tcf'], h.arr([h.ite(ct[k] == up[k], dt, ct[k] - up[k]) for k in range(nw)]), 'crest front periods')
    h.eq(wp['Tcb'], h.arr([h.ite(ct[k] == down[k + 1], dt, down[k + 1] - ct[k]) for k in range(nw)]), 'crest back periods')
    for nm in ('Ac', 'At', 'Hu', 'Hd', 'Tu', 'Td', 'Tcf', 'Tcb'):
        for v in tolist(wp[nm]):
            h.check(v > 0, nm + ' is positive')


def steep(h, pat, kind):
    from wafo.objects import TimeSeries
    x, t, dt = series(h, pat)
    g = h.real('g', 0, strict=True)
    h.assume(g > 0)
    S, H = TimeSeries(x, t).wave_height_steepness(kind=kind, g=g)
    cr, ext = waves(x, t)
    zt = [zero_cross(x, t, i) for i in cr]
    down, up = zt[0::2], zt[1::2]
    nw = len(ext) // 2
    Ac = [x[ext[2 * k + 1]] for k in range(nw)]
    At = [-x[ext[2 * k]] for k in range(len(ext) - nw)]
    ct = [t[ext[2 * k + 1]] for k in range(nw)]
    Hd = [Ac[k] + At[k] for k in range(nw)]
    Hu = [Ac[k] + At[k + 1] for k in range(nw)]
    Td = [b - a for a, b in zip(down[:-1], down[1:])]
    Tu = [b - a for a, b in zip(up[:-1], up[1:])]
    Tcf = [h.ite(ct[k] == up[k], dt, ct[k] - up[k]) for k in range(nw)]
    Tcb = [h.ite(ct[k] == down[k + 1], dt, down[k + 1] - ct[k]) for k in range(nw)]
    h.check(len(tolist(S)) == nw and len(tolist(H)) == nw, 'one value per wave')
    k2 = {'maxVcfVcb': 0, 'Vcf': 1, 'Vcb': -1, 'Scf': 2, 'Scb': -2, 'StHd': 3, 'StHu': -3}.get(kind, kind)
    pi2 = 2 * math.pi
    for k in range(nw):
        if k2 == 0:
            h.eq(S[k] * h.ite(Tcf[k] < Tcb[k], Tcf[k], Tcb[k]), Ac[k], 'largest of the crest front and back speed')
            h.eq(H[k], h.ite(Tcf[k] < Tcb[k], Hd[k], Hu[k]), 'height')
        elif abs(k2) == 1:
            h.eq(S[k] * (Tcf if k2 > 0 else Tcb)[k], Ac[k], 'crest speed')
        elif abs(k2) == 2:
            h.eq(S[k] * (Tcf if k2 > 0 else Tcb)[k] * (Td if k2 > 0 else Tu)[k] * g, pi2 * Ac[k], 'crest steepness')
        else:
            h.eq(S[k] * (Td if k2 > 0 else Tu)[k] ** 2 * g, pi2 * (Hd if k2 > 0 else Hu)[k], 'total steepness')
        if k2:
            h.eq(H[k], (Hd if k2 > 0 else Hu)[k], 'height')


def periods(h, pat, pdef, level):
    from wafo.objects import TimeSeries
    x, t, dt = series(h, pat)
    v = 0.0
    if level:
        v = h.real('v')
    xs = h.arr([a + v for a in tolist(x)])
    T, index = TimeSeries(xs, t).wave_periods(vh=v, pdef=pdef)
    n = len(x)
    cr = expected(None, [sgn(x[i]) for i in range(n)])
    h.check(ints(index) == [c[0] for c in cr], 'crossing indices')
    z = [(zero_cross(x, t, i), s) for i, s in cr]
    want = {'u': 1, 'd': -1}
    exp = []
    for a in range(len(z)):
        if z[a][1] == want[pdef[0]]:
            b = a + (2 if pdef[0] == pdef[2] else 1)
            if b < len(z):
                exp.append(z[b][0] - z[a][0])
    if cr and cr[0][1] < 0:
        step = 2 if pdef[0] == pdef[2] else 1
        bad = [z[a + step][0] - z[a][0] for a in range(1 if pdef[0] == 'd' else 2, len(z) - step, 2)]
        T = tolist(T)
        h.check(len(T) in (len(exp), len(bad)), 'number of periods: right or as listed')
        h.check(h.any([h.all([T[k] == r[k] for k in range(len(T))]) for r in (exp, bad) if len(r) == len(T)]), 'periods: right or as listed')
        h.known('K07b')
        T = h.arr(T)
    h.eq(T, h.arr(exp), '%s periods' % pdef)


def extreme_periods(h, pat, pdef):
    """m/M/t/c periods are times"""
    from wafo.objects import TimeSeries
    x, t, dt = series(h, pat)
    T, index = TimeSeries(x, t).wave_periods(vh=0.0, pdef=pdef)
    n = len(x)
    cr = expected(None, [sgn(x[i]) for i in range(n)])
    tc = []
    for j in range(len(cr) - 1):
        a, b = cr[j][0] + 1, cr[j + 1][0]
        k = a
        for i in range(a + 1, b + 1):
            if bool(x[i] < x[k]) if cr[j][1] < 0 else bool(x[i] > x[k]):
                k = i
        tc.append((k, cr[j][1]))
    want = {'c': 1, 't': -1}
    exp = []
    for a in range(len(tc)):
        if tc[a][1] == want[pdef[0]]:
            b = a + (2 if pdef[0] == pdef[2] else 1)
            if b < len(tc):
                exp.append(t[tc[b][0]] - t[tc[a][0]])
    h.check([int(k) for k in tolist(index)] == [c[0] for c in tc], 'indices of the extremes')
    step = 2 if pdef[0] == pdef[2] else 1
    late = 1 if tc and tc[0][1] > 0 else 0
    first = 0 if tc[0][1] == want[pdef[0]] else 1
    T = tolist(T)
    refs = [exp] + [[v(tc[a + step][0]) - v(tc[a][0]) for a in range(first + l, len(tc) - step, 2)] for v in (lambda i: x[i], lambda i: t[i]) for l in {0, late}]
    h.check(h.any([h.all([T[k] == r[k] for k in range(len(T))]) for r in refs if len(r) == len(T)] or [False]), 'periods: right or as listed')
    h.known('K07a')
    T = h.arr(T)
    h.eq(T, h.arr(exp), '%s periods' % pdef)


def cases(tier):
    out = []
    th = tier == 'thorough'
    pats = ['p5', 'n5', 'p6', 'p7', 'q7', 'q8', 'z6', 'p9'] + (['f5', 'p10'] if th else [])
    for p in pats:
        b = 'sample signs %s, any sampling interval' % PATTERNS[p]
        out.append(Case('params-' + p, params, b, pat=p, max_paths=20000))
    for p in (['p6', 'q8', 'p9'] + (['p7', 'q7', 'n5'] if th else [])):
        for kind in (['maxVcfVcb', 'Vcf', 'Vcb', 'Scf', 'Scb', 'StHd', 'StHu'] if p == 'p6' or th else [0, 1, -1, 2, -2, 3, -3]):
            out.append(Case('steep-%s-%s' % (p, kind), steep, 'sample signs %s' % PATTERNS[p], pat=p, kind=kind, max_paths=20000))
    for p in (['p5', 'p7', 'r8'] + (['r9'] if th else [])):
        for d in ('d2d', 'u2u', 'd2u', 'u2d'):
            out.append(Case('periods-%s-%s' % (p, d), periods, 'sample signs %s' % PATTERNS[p], pat=p, pdef=d, level=p == 'p5', max_paths=20000))
    for d in ('d2d', 'u2u', 'd2u', 'u2d'):
        out.append(Case('first-down-' + d, periods, 'signs +-+-+-', pat='p6', pdef=d, level=False))
    out.append(Case('ext-periods', extreme_periods, 'signs +-+-+-', pat='p6', pdef='c2c'))
    for p in ('p6', 'p7', 'q8'):
        for d in ('t2t', 't2c', 'c2t', 'c2c'):
            out.append(Case('ext-%s-%s' % (p, d), extreme_periods, 'sample signs %s' % PATTERNS[p], pat=p, pdef=d, max_paths=20000))
    return out
