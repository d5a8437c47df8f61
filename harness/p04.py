from vsym.runner import Case
from vsym.cinterp import clib
from .common import tolist
PROPERTY = 'P04'
MODULES = ['wafo.misc']
OUTSIDE = 'rfcfilter: ranges exactly equal to the threshold; sequences longer than the stated bound; sequences that are not alternating turning points'


def prepare(sym):
    import wafo.misc as wm
    wm.clib = None


def ints(a):
    return [int(v) for v in tolist(a)]


def alternating(h, n, first_max):
    y = h.reals('y', n)
    for i in range(n - 1):
        down = (i % 2 == 0) == first_max
        h.assume(y[i] > y[i + 1] if down else y[i] < y[i + 1])
    return y


def rfc_pairs(y, t0):
    """rainflow partner of every maximum by the definition: the higher of the lowest values reached, to the left
    before the signal last exceeded the maximum and to the right before it reaches it again; a maximum that is not
    reached again is paired to the left"""
    n = len(y)
    out = []
    for k in range(t0 + 1, n, 2):
        left = k - 1
        j = k - 1
        while j > t0 + 1 and bool(y[j - 1] <= y[k]):
            j -= 2
            if bool(y[j] < y[left]):
                left = j
        right, closed = None, False
        j = k
        while j + 2 < n:
            if right is None or bool(y[j + 1] <= y[right]):
                right = j + 1
            j += 2
            if bool(y[j] >= y[k]):
                closed = True
                break
        out.append((k, left, right if closed else None))
    return out


def rfc(h, n, first_max, impl='python'):
    import wafo.misc as wm
    from wafo.misc import findrfc
    wm.clib = clib(h) if impl == 'c' else None
    y = alternating(h, n, first_max)
    hh = h.real('h', 0)
    got = ints(findrfc(y, hh, method='clib' if impl == 'c' else 'python'))
    t0 = 1 if first_max else 0
    exp = []
    for k, left, right in rfc_pairs(y, t0):
        low = left
        if right is not None and bool(y[right] > y[left]):
            low = right
        if bool(y[k] - y[low] >= hh):
            exp += [k, low]
    exp.sort()
    h.check(got == exp, 'rainflow cycles %r expected %r' % (got, exp))


def hysteresis(y, hh):
    """reference: keep the running extreme whenever the signal turns back by more than the threshold"""
    out, cur, way = [y[0]], y[0], 0
    for v in y[1:]:
        if way >= 0 and bool(v > cur + (hh if way == 0 else 0)):
            cur, way = v, 1
        elif way <= 0 and bool(v < cur - (hh if way == 0 else 0)):
            cur, way = v, -1
        elif way > 0 and bool(v < cur - hh):
            out.append(cur)
            cur, way = v, -1
        elif way < 0 and bool(v > cur + hh):
            out.append(cur)
            cur, way = v, 1
    return out + ([cur] if way else [])


def rfcfilter(h, n, first_max, method):
    from wafo.misc import rfcfilter as f
    y = alternating(h, n, first_max)
    hh = h.real('h', 0)
    h.assume(hh > 0)
    for i in range(n):
        for j in range(i):
            h.assume(abs(y[i] - y[j]) != hh)     # ties with the threshold excluded
    z = f(y, hh, method)
    z = tolist(z)
    m = len(z)
    h.check(m >= 1, 'nonempty')
    # surviving cycles are at least h high and turning directions alternate
    for i in range(m - 1):
        d = z[i + 1] - z[i]
        h.le(hh, abs(d), 'height of kept half cycle >= h')
        if i:
            h.check((z[i] - z[i - 1]) * d < 0, 'directions alternate')
    # every sample removed lies within h of the range of the filtered sequence
    ys = tolist(y)
    zx, zn = z[0], z[0]
    for v in z[1:]:
        zx = h.ite(v > zx, v, zx)
        zn = h.ite(v < zn, v, zn)
    for v in ys:
        h.le(v, zx + hh, 'nothing more than h above the filtered signal')
        h.le(zn - hh, v, 'nothing more than h below the filtered signal')
    h.eq(z[0], ys[0], 'starts with the first sample')
    ref = hysteresis(ys, hh)
    h.check(m == len(ref), 'number of turning points kept %d, expected %d' % (m, len(ref)))
    for a, b in zip(z, ref):
        h.eq(a, b, 'kept turning point')
    # filtering again with the same threshold changes nothing
    if m >= 2:
        z2 = tolist(f(h.arr(z), hh, method))
        h.check(len(z2) == m, 'idempotent length')
        for a, b in zip(z, z2):
            h.eq(a, b, 'idempotent')


def tph(h, n):
    """findtp with a threshold returns exactly the rainflow-filtered turning points"""
    from wafo.misc import findtp, findrfc
    x = h.reals('x', n)
    hh = h.real('h', 0)
    h.assume(hh > 0)
    t0 = findtp(x, 0.0)
    t1 = findtp(x, hh, method='python')
    if t0 is None:
        h.check(t1 is None, 'no turning points')
        return
    keep = ints(findrfc(x[t0], hh, method='python'))
    h.check(ints(t1) == [ints(t0)[k] for k in keep], 'filtered turning points')


def cases(tier):
    N = 6 if tier == 'quick' else 8
    out = []
    for n in range(2, N + 1):
        for fm in (False, True):
            for impl in ('python', 'c'):
                out.append(Case('rfc-%s-n%d-%s' % (impl, n, 'max' if fm else 'min'), rfc, 'n=%d alternating values, any h>=0, %s' % (n, impl), n=n, first_max=fm,
                                impl=impl, max_paths=20000, budget=500))
    for n in range(2, N + 1):
        for m in (0, 1):
            for fm in (False, True):
                out.append(Case('filter%d-n%d-%s' % (m, n, 'max' if fm else 'min'), rfcfilter, 'n=%d alternating values, any h>0' % n,
                                n=n, first_max=fm, method=m, max_paths=20000, budget=500))
    for n in range(4, N):
        out.append(Case('findtp-h-n%d' % n, tph, 'n=%d samples any h>0' % n, n=n, max_paths=20000, budget=500))
    return out
