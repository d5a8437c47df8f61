"""Threshold diagnostics and return periods: edf, edfcnd, reslife, dispersion_idx, returnperiod2sf, sf2returnperiod, extremal_idx, declustering_time."""
from vsym.runner import Case
from .common import tolist
PROPERTY = 'P38'
MODULES = ['wafo.stats.core', 'wafo.containers', 'wafo.misc']
OUTSIDE = ('larger samples than stated; nan in the data; thresholds with less than two values above them (no confidence interval); the plots; '
           'the quantiles of the t and chi-square distributions themselves; rounding')
ASSUMPTIONS = ['scipy.special.stdtrit and chdtri are the quantiles of the t and chi-square distributions (uninterpreted functions of their arguments)']


def srt(v):
    """sorted by comparisons (forks)"""
    out = []
    for x in v:
        k = len(out)
        while k > 0 and out[k - 1] > x:
            k -= 1
        out.insert(k, x)
    return out


def plot(i, n, method):
    return {1: (i + 0.5) / n, 2: (i + 1.0) / (n + 1), 3: (i + 1.0) / n}[method]


def edf_(h, n, method, form):
    """empirical distribution function"""
    from wafo.stats.core import edf
    x = [h.real('x%d' % i, -5, 5) for i in range(n)]
    d = list(x) if form == 'list' else h.arr(x)
    r = edf(d) if method == 0 else edf(d, method=method)
    h.check(len(r.data) == n and len(r.args) == n, 'size')
    ref = srt(x)
    for i in range(n):
        h.eq(r.args[i], ref[i], 'order statistic %d' % i)
        h.eq(r.data[i], plot(i, n, method or 2), 'probability %d' % i, tol=1e-12)
        h.eq(d[i], x[i], 'sample not modified')


def edfcnd_(h, n, method, cond):
    """distribution function of the values not below c"""
    from wafo.stats.core import edfcnd
    x = [h.real('x%d' % i, -5, 5) for i in range(n)]
    d = h.arr(x)
    if cond == 'none':
        r = edfcnd(d, method=method)
        keep = list(x)
    else:
        c = 0.5
        r = edfcnd(d, c, method=method)
        keep = [v for v in x if v >= c]
    ref = srt(keep)
    m = len(ref)
    h.check(len(r.data) == m and len(r.args) == m, 'number of values not below c')
    for i in range(m):
        h.eq(r.args[i], ref[i], 'order statistic %d' % i)
        h.eq(r.data[i], plot(i, m, method), 'probability %d' % i, tol=1e-12)
    for i in range(n):
        h.eq(d[i], x[i], 'sample not modified')


def tq(h, p, df):
    from scipy import special
    import wafo.stats.core as c
    return c.special.stdtrit(df, p)


def mrl(h, n, nu, mode, alpha, nmin=3, order=None):
    """mean residual life and its confidence limits"""
    from wafo.stats.core import reslife
    x = [h.real('x%d' % i, 0, 6) for i in range(n)]
    if order is not None:
        for i in range(n - 1):
            h.assume(x[order[i]] <= x[order[i + 1]])
    d = h.arr(x) if mode != 'lists' else list(x)
    s = srt(x) if order is None else [x[i] for i in order]
    kw = {} if alpha is None else dict(alpha=alpha)
    al = 0.05 if alpha is None else alpha
    if mode in ('given', 'lists'):
        u = [h.real('u%d' % i, 0, 5) for i in range(nu)]
        for v in u:
            h.assume(v < s[-2])
        r = reslife(d, u=h.arr(u) if mode == 'given' else list(u), **kw)
    else:
        hi, lo = s[-nmin], s[0]
        if mode == 'range':
            a, b = h.real('umin', 0, 5), h.real('umax', 0, 6)
            h.assume(a < b)
            kw.update(umin=a, umax=b)
            hi = b if b < hi else hi
            lo = a if a > lo else lo
            h.assume(lo < s[-2])
            h.assume(hi < s[-2])
        else:
            h.assume(s[-nmin] < s[-2])
        if nu is not None:
            kw.update(nu=nu)
        if nmin != 3:
            kw.update(nmin=nmin)
        r = reslife(d, **kw)
        m = min(n - nmin, 100) if nu is None else nu
        u = [lo + (hi - lo) * i / max(m - 1, 1) for i in range(m)]
    nu = len(u)
    h.check(len(r.data) == nu and len(r.args) == nu, 'number of thresholds')
    ci = r.children[0].data
    for k in range(nu):
        h.eq(r.args[k], u[k], 'threshold %d' % k, tol=1e-9)
        over = [v - u[k] for v in x if v > u[k]]
        m = len(over)
        h.check(r.workspace['numdata'][k] == m, 'number above threshold %d' % k)
        if m == 0:
            continue
        mean = sum(over) / m
        h.eq(r.data[k], mean, 'mean excess over threshold %d' % k, tol=1e-9)
        if m < 2:
            continue
        var = sum((v - mean) ** 2 for v in over) / m
        q = tq(h, al / 2, m - 1)
        h.eq(ci[k, 1] + ci[k, 0], 2 * mean, 'limits symmetric %d' % k, tol=1e-8)
        h.eq((ci[k, 1] - mean) ** 2 * m, q ** 2 * var, 'width of the limits %d' % k, tol=1e-6)
        h.le(ci[k, 0], ci[k, 1], 'lower limit below the upper')


def disp(h, n, nu, times, tb, form='array'):
    """dispersion index: variance over mean of the number of exceedances per block"""
    from wafo.stats.core import dispersion_idx
    import numpy as np
    x = [h.real('x%d' % i, 0, 6) for i in range(n)]
    u = [h.real('u%d' % i, 0, 5) for i in range(nu)]
    big = srt(x)[-1]
    for v in u:
        h.assume(v < big)
    if times is None:
        blocks = [int(i // tb) for i in range(n)]
        kw = {}
    else:
        blocks = [int((t - min(times)) // tb) for t in times]
        kw = dict(t=np.array(times))
    M = max(blocks) + 1
    al = 0.05
    uu = h.arr(u) if form == 'array' else list(u)
    res, b_u, ok_u = dispersion_idx(h.arr(x), u=uu, tb=tb, **kw)
    import wafo.stats.core as c
    low = c.special.chdtri(M - 1, 1 - al / 2) / (M - 1)
    up = c.special.chdtri(M - 1, al / 2) / (M - 1)
    lim = res.children[0].data
    di = []
    for k in range(nu):
        occ = [0] * M
        for i in range(n):
            if x[i] > u[k]:
                occ[blocks[i]] += 1
        mean = sum(occ) / M
        var = sum((o - mean) ** 2 for o in occ) / M
        di.append(var / mean)
        h.eq(res.data[k], var / mean, 'dispersion index %d' % k, tol=1e-9)
        h.eq(res.args[k], u[k], 'threshold %d' % k)
        h.eq(lim[k, 0], low, 'lower limit')
        h.eq(lim[k, 1], up, 'upper limit')
    ok = [k for k in range(nu) if h.all([low < di[k], di[k] < up])]
    if not ok:
        h.check(b_u is None and ok_u is None, 'no acceptable threshold')
        return
    h.check(ok_u is not None and len(ok_u) == len(ok), 'number of acceptable thresholds')
    for j, k in enumerate(ok):
        h.eq(ok_u[j], u[k], 'acceptable threshold')
    mean = sum(di[k] for k in ok) / len(ok)
    above = [k for k in ok if di[k] > mean + 1e-9]
    if len(ok) == 1 or above:
        h.eq(b_u, u[(above or ok)[0]], 'first threshold with an index above the mean')


def period(h, form):
    """return period and probability of exceedance are inverse"""
    from wafo.stats.core import returnperiod2sf, sf2returnperiod
    import numpy as np
    q = h.real('q', 0, 1)
    h.assume(q > 0)
    h.assume(q < 1)
    npu = h.real('npu', 0, 100)
    h.assume(npu > 0)
    if form == 'scalar':
        t = sf2returnperiod(q, npu)
        h.eq(t * q * npu, 1.0, 'return period', tol=1e-9)
        h.eq(returnperiod2sf(t, npu), q, 'probability of exceedance', tol=1e-9)
        h.eq(sf2returnperiod(q) * q, 1.0, 'one event per unit', tol=1e-9)
        return
    if form == 'array':
        a, b = h.arr([q, q / 2]), npu
    elif form == 'both':
        a, b = h.arr([q, q / 2]), h.arr([npu, 2 * npu])
    else:
        a, b = h.arr([[q], [q / 2]]), h.arr([npu, 2 * npu])
    t = sf2returnperiod(a, b)
    s = returnperiod2sf(t, b)
    aa, bb = np.broadcast_arrays(a, b)
    h.check(t.shape == aa.shape, 'shape')
    for k in np.ndindex(*aa.shape):
        h.eq(t[k] * aa[k] * bb[k], 1.0, 'return period', tol=1e-9)
        h.eq(s[k], aa[k], 'probability of exceedance', tol=1e-9)
    h.eq(a[(0,) * a.ndim], q, 'argument not modified')


def period_bad(h, which, form):
    """impossible arguments give nan, possible ones beside them do not"""
    from wafo.stats.core import returnperiod2sf, sf2returnperiod
    import numpy as np
    npu = h.real('npu', -5, 5)
    wrap = (lambda v: v) if form == 'scalar' else (lambda v: h.arr([v, 0.5 if which == 'sf' else 8.0]))
    if which == 'sf':
        q = h.real('q', -2, 3)
        h.assume(h.any([q > 0.001, q < 0]))
        h.assume(h.any([npu > 0.001, npu < 0]))
        r = sf2returnperiod(wrap(q), npu)
        bad = h.any([npu < 0, q < 0, q >= 1])
        val = 1 / (q * npu)
        other = None if form == 'scalar' else (h.any([npu < 0]), 2 / npu)
    else:
        t = h.real('t', -2, 20)
        r = returnperiod2sf(wrap(t), npu)
        bad = h.any([npu <= 0, t * npu < 1])
        val = None
        other = None if form == 'scalar' else (h.any([npu <= 0, 8 * npu < 1]), None)
    r0 = r if form == 'scalar' else r[0]
    if bad:
        h.check(bool(np.isnan(r0)), 'impossible argument gives nan')
    else:
        h.eq(r0 * (q * npu if which == 'sf' else t * npu), 1.0, 'value', tol=1e-9)
    if form != 'scalar':
        if other[0]:
            h.check(bool(np.isnan(r[1])), 'impossible argument gives nan')
        else:
            h.eq(r[1] * (npu / 2 if which == 'sf' else 8 * npu), 1.0, 'value beside it', tol=1e-9)


def period_int(h):
    """integer arguments"""
    from wafo.stats.core import returnperiod2sf
    import numpy as np
    t = h.int('t', -3, 200)
    r = returnperiod2sf(t, 1)
    if t < 1:
        h.check(bool(np.isnan(r)), 'shorter than one event')
    else:
        h.eq(r * t, 1.0, 'probability', tol=1e-9)


def ei_ref(h, t):
    n = len(t)
    mx = srt(t)[-1]
    if mx <= 1:
        return 0.0
    if mx <= 2:
        num, den = 2 * (sum(t) / n) ** 2, sum(v * v for v in t) / n
    else:
        num, den = 2 * (sum(v - 1 for v in t) / n) ** 2, sum((v - 1) * (v - 2) for v in t) / n
    return num, den


def extremal(h, n, kind, form):
    """Ferro and Segers' estimate of the extremal index"""
    from wafo.stats.core import extremal_idx
    t = [(h.real if kind == 'real' else h.int)('t%d' % i, 1 if kind == 'int' else 0, 9) for i in range(n)]
    d = h.arr(t) if form == 'array' else list(t)
    ref = ei_ref(h, t)
    if isinstance(ref, tuple):
        num, den = ref
        h.assume(h.any([den > 1e-3, den < -1e-3]))
    ei = extremal_idx(d)
    if not isinstance(ref, tuple):
        h.eq(ei, 0.0, 'no gaps')
    elif num / den >= 1:
        h.eq(ei, 1.0, 'at most one', tol=1e-9)
    else:
        h.eq(ei * den, num, 'extremal index', tol=1e-7)


def interex(h, n, kind='int', order=None):
    """interexceedance times are the gaps of the sorted times, the declustering time is one of them"""
    from wafo.stats.core import interexceedance_times, declustering_time
    from math import floor
    t = [(h.int if kind == 'int' else h.real)('t%d' % i, 0, 12) for i in range(n)]
    d = h.arr(t)
    if order:
        for i in range(n - 1):
            h.assume(t[order[i]] <= t[order[i + 1]])
    s = [t[i] for i in order] if order else srt(t)
    gaps = [s[i + 1] - s[i] for i in range(n - 1)]
    r = tolist(interexceedance_times(d))
    h.check(len(r) == max(n - 1, 0), 'number of gaps')
    for i in range(n - 1):
        h.eq(r[i], gaps[i], 'gap %d' % i)
    if n < 2:
        h.check(len(declustering_time(d)) == 0, 'no gap, no declustering time')
        return
    ref = ei_ref(h, gaps)
    if isinstance(ref, tuple):
        num, den = ref
        h.assume(den > 1e-3 if kind == 'real' else h.any([den > 1e-3, den < -1e-3]))
    tc = declustering_time(d)
    desc = srt(gaps)[::-1]
    if not isinstance(ref, tuple):
        h.eq(tc, desc[0], 'everything within one cluster')
    elif num / den >= 1:
        h.eq(tc, desc[-1], 'independent: smallest gap')
    else:
        # the number of clusters is the extremal index times the number of events
        k = 0
        while k < n - 2 and n * num >= (k + 1) * den if den > 0 else n * num <= (k + 1) * den:
            k += 1
            if k >= n - 2:
                break
        if num < 0 or den < 0:
            return
        h.eq(tc, desc[k], 'gap between clusters')
    for i in range(n):
        h.eq(d[i], t[i], 'times not modified')


def cases(tier):
    deep = tier == 'thorough'
    out = []
    for n in (1, 2, 3, 4) + ((5,) if deep else ()):
        for m in (0, 1, 2, 3):
            out.append(Case('edf-%d-m%d' % (n, m), edf_, '%d values' % n, n=n, method=m, form='array'))
    out.append(Case('edf-list', edf_, '3 values', n=3, method=2, form='list'))
    for m in (1, 2, 3):
        for cond in ('none', 'c'):
            out.append(Case('edfcnd-m%d-%s' % (m, cond), edfcnd_, '3 values', n=3, method=m, cond=cond))
    out.append(Case('mrl-given', mrl, '4 values, 2 thresholds', n=4, nu=2, mode='given', alpha=None, order=(2, 0, 3, 1)))
    out.append(Case('mrl-alpha', mrl, '3 values, 1 threshold', n=3, nu=1, mode='given', alpha=0.2))
    out.append(Case('mrl-lists', mrl, '3 values, 1 threshold', n=3, nu=1, mode='lists', alpha=None))
    out.append(Case('mrl-default', mrl, '5 values, default thresholds', n=5, nu=None, mode='default', alpha=None, order=(2, 0, 4, 3, 1)))
    out.append(Case('mrl-nmin', mrl, '5 values, nmin 4', n=5, nu=2, mode='default', alpha=0.1, nmin=4, order=(2, 0, 4, 3, 1)))
    out.append(Case('mrl-range', mrl, '4 values, thresholds in a range', n=4, nu=2, mode='range', alpha=None, order=(1, 3, 0, 2)))
    out.append(Case('disp-default-times', disp, '4 values, 1 threshold', n=4, nu=1, times=None, tb=2))
    out.append(Case('disp-times', disp, '4 values, 2 thresholds', n=4, nu=2, times=[3.0, 3.5, 4.5, 6.25], tb=1))
    out.append(Case('disp-gap', disp, '4 values, 2 thresholds', n=4, nu=2, times=[3.0, 3.5, 9.5, 9.75], tb=2))
    out.append(Case('disp-list', disp, '3 values, 1 threshold', n=3, nu=1, times=[0.5, 1.0, 3.75], tb=1, form='list'))
    for f in ('scalar', 'array', 'both', 'outer'):
        out.append(Case('period-' + f, period, 'every probability and rate', form=f))
    for w in ('sf', 'period'):
        for f in ('scalar', 'array'):
            out.append(Case('bad-%s-%s' % (w, f), period_bad, 'arguments on both sides of every limit', which=w, form=f))
    out.append(Case('period-int', period_int, 'integer period'))
    for n in (1, 2, 3):
        for kind in ('real', 'int'):
            out.append(Case('ei-%d-%s' % (n, kind), extremal, '%d gaps' % n, n=n, kind=kind, form='array'))
    out.append(Case('ei-list', extremal, '2 gaps', n=2, kind='real', form='list'))
    for n in (0, 1, 2, 3):
        out.append(Case('gaps-%d' % n, interex, '%d integer times' % n, n=n))
        out.append(Case('gaps-real-%d' % n, interex, '%d times' % n, n=n, kind='real'))
    if tier == "thorough":
        out.append(Case('gaps-real-4', interex, '4 times in one order', n=4, kind='real', order=(2, 0, 1, 3)))
    return out
