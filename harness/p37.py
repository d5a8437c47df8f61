"""Peaks over threshold: findpot, decluster."""
from vsym.runner import Case
from vsym.cinterp import clib
from .common import tolist
PROPERTY = 'P37'
MODULES = ['wafo.stats.core', 'wafo.misc']


def prepare(sym):
    import wafo.misc as wm
    wm.clib = None


OUTSIDE = 'more samples than stated; nan in the data; times that are not numbers; rounding'
ASSUMPTIONS = []


def pot(h, n, times, form, thresh_sym=True):
    """the selected peaks exceed the threshold, are further apart than tmin, and everything else above it lies within tmin of a peak at least as high"""
    from wafo.stats.core import findpot, decluster
    import wafo.misc as wm
    wm.clib = clib(h)
    x = [h.real('x%d' % i, -3, 3) for i in range(n)]
    thresh = h.real('thresh', -2, 2)
    tmin = h.real('tmin', 0, 4)
    kw = {}
    if times == 'none':
        t = list(range(n))
    elif times == 'sorted':
        t = [h.real('t0', -1, 1)]
        for i in range(1, n):
            t.append(t[-1] + h.real('dt%d' % i, 0, 3))
    else:
        t = [h.real('t%d' % i, 0, 6) for i in range(n)]
    if form == 'default tmin':
        tmin = 1
    d = h.arr(x) if form != 'list' else list(x)
    tt = None if times == 'none' else (h.arr(t) if form != 'list' else list(t))
    args = (thresh,) if form == 'default tmin' else (thresh, tmin)
    ix = findpot(d, tt, *args)
    ix = [int(i) for i in tolist(ix)]
    keep = set(ix)
    h.check(len(keep) == len(ix), 'each peak once')
    for i in range(n):
        if i in keep:
            h.check(x[i] > thresh, 'peak %d above the threshold' % i)
        else:
            near = [h.all([abs(t[i] - t[j]) <= tmin, x[j] >= x[i]]) for j in sorted(keep)]
            h.check(h.any([x[i] <= thresh] + near), 'value %d above the threshold left out only when within tmin of a peak as high' % i)
    for a in range(len(ix)):
        for b in range(a):
            h.check(abs(t[ix[a]] - t[ix[b]]) > tmin, 'peaks %d and %d further apart than tmin' % (ix[b], ix[a]))
    for a in range(1, len(ix)):
        h.le(t[ix[a - 1]], t[ix[a]], 'peaks in order of time')
    ev, te = decluster(d, tt, *args)
    h.check(len(ev) == len(ix) and len(te) == len(ix), 'number of declustered values')
    for k, i in enumerate(ix):
        h.eq(ev[k], x[i], 'value of peak')
        h.eq(te[k], t[i], 'time of peak')
    for i in range(n):
        h.eq(d[i], x[i], 'data not modified')
        if tt is not None:
            h.eq(tt[i], t[i], 'times not modified')


def unit(h, n):
    """long records sampled at the integers, binary exceedance pattern: clusters anywhere"""
    from wafo.stats.core import findpot
    import wafo.misc as wm
    wm.clib = clib(h)
    on = [h.bool('b%d' % i) for i in range(n)]
    x = [h.ite(on[i], float(1 + (i * 7) % n), -1.0) for i in range(n)]
    tmin = 1 + h.choice('tmin', 2)
    ix = [int(i) for i in tolist(findpot(h.arr(x), None, 0, tmin))]
    # reference: greedy, highest first
    order = sorted(range(n), key=lambda i: -((i * 7) % n))
    keep = {}
    for i in order:
        keep[i] = h.all([on[i]] + [h.ite(keep[j], False, True) for j in keep if abs(i - j) <= tmin])
    for i in range(n):
        h.check(keep[i] if i in ix else h.ite(keep[i], False, True), 'value %d of the record' % i)


def cases(tier):
    deep = tier == 'thorough'
    out = []
    for times in ('none', 'sorted', 'any'):
        for form in ('array', 'default tmin', 'list'):
            for n in range(0, 5 if form == 'array' and times != 'any' else 4):
                out.append(Case('%s-%s-%d' % (times, form, n), pot, 'n=%d, times %s, every data, threshold and tmin' % (n, times), n=n, times=times, form=form))
    for n in (6, 7) + ((8,) if deep else ()):
        out.append(Case('pattern-%d' % n, unit, 'n=%d unit sampling, every pattern of exceedances with one order of heights, tmin 1 and 2' % n, n=n))
    if deep:
        out.append(Case('sorted-5', pot, 'n=5', n=5, times='sorted', form='array', budget=600))
    return out
