from vsym.runner import Case
from .common import tolist, ssum, either
PROPERTY = 'P12'
MODULES = ['wafo.misc']
OUTSIDE = 'longer series and windows than stated; integer arrays'


def ma(h, n, L, as_list):
    from wafo.misc import moving_average, detrendma
    x = h.reals('x', n)
    y = moving_average(tolist(x) if as_list else x, L)
    h.check(len(tolist(y)) == n, 'one value per sample')
    if n < 2 * L + 1:
        m = ssum(tolist(x)) / n
        for i in range(n):
            h.eq(y[i], m, 'the mean when the window does not fit')
    else:
        for i in range(n):
            c = min(max(i, L), n - 1 - L)
            if c > L:
                X = tolist(x)
                either(h, y[i], ssum(X[c - L:c + L + 1]) / (2 * L + 1),
                       ssum(X[:2 * L + 1]) / (2 * L + 1) + ssum([(X[k + L] - X[k - L]) / (2 * L) for k in range(L + 1, c + 1)]), 'sample %d' % i, 1e-9)
                h.known('K12')
            h.eq(y[i] * (2 * L + 1), ssum(tolist(x)[c - L:c + L + 1]), 'mean of the window around sample %d' % c)


def head(h, n, L):
    from wafo.misc import moving_average
    x = h.reals('x', n)
    y = moving_average(x, L)
    for i in range(L + 1):
        h.eq(y[i] * (2 * L + 1), ssum(tolist(x)[:2 * L + 1]), 'mean of the first window')
    for i in range(n - L, n):
        h.eq(y[i], y[n - L - 1], 'the last full window continues to the end')


def line(h, n, L, axis):
    """a straight line passes unchanged where the window fits"""
    from wafo.misc import moving_average, detrendma
    a, b = h.real('a'), h.real('b')
    c, d = h.real('c'), h.real('d')
    r1 = [a + b * i for i in range(n)]
    r2 = [c + d * i for i in range(n)]
    if axis == 1:
        x = h.arr([r1, r2])
    elif axis == 0:
        x = h.arr([[p, q] for p, q in zip(r1, r2)])
    else:
        x = h.arr(r1)
    y = moving_average(x, L) if axis is None else moving_average(x, L, axis)
    z = detrendma(x, L) if axis is None else detrendma(x, L, axis)
    h.eq(y + z, x, 'detrended series plus trend is the series')
    h.check(y.shape == x.shape, 'shape')
    for i in range(n):
        k = min(max(i, L), n - 1 - L)
        if axis is None:
            h.eq(y[i], r1[k], 'line')
        elif axis == 1:
            h.eq(y[0, i], r1[k], 'line, row 0')
            h.eq(y[1, i], r2[k], 'line, row 1')
        else:
            h.eq(y[i, 0], r1[k], 'line, column 0')
            h.eq(y[i, 1], r2[k], 'line, column 1')


def linear(h, n, L):
    from wafo.misc import moving_average, detrendma
    x, z = h.reals('x', n), h.reals('z', n)
    s = h.real('s')
    y = moving_average(h.arr([a + s * b for a, b in zip(tolist(x), tolist(z))]), L)
    y1, y2 = moving_average(x, L), moving_average(z, L)
    for i in range(n):
        h.eq(y[i], y1[i] + s * y2[i], 'linear in the data')
    d = detrendma(x, L)
    for i in range(n):
        h.eq(d[i], x[i] - y1[i], 'detrending subtracts the moving average')


def local(h, n, L):
    """samples outside a window do not influence the average in the middle of it"""
    from wafo.misc import moving_average
    x = h.reals('x', n)
    y = moving_average(x, L)
    j = n - 1
    e = h.real('e')
    x2 = h.arr(tolist(x)[:-1] + [e])
    y2 = moving_average(x2, L)
    for i in range(n - L - 1):
        h.eq(y[i], y2[i], 'later samples do not influence sample %d' % i)
    bound = 0.0
    # a spike moves the average by no more than its size
    for i in range(n):
        h.le(abs(y[i] - y2[i]), abs(e - x[j]), 'bounded influence')


def window(h, n):
    """windows that are not a positive whole number of samples are rejected"""
    from wafo.misc import moving_average, detrendma
    x = h.reals('x', n)
    for L in (0, -1, 1.5):
        h.raises(ValueError, lambda: moving_average(x, L), 'window %g' % L)
        h.raises(ValueError, lambda: detrendma(x, L), 'window %g' % L)


def cases(tier):
    out = []
    for n, L in ((1, 1), (2, 1), (3, 2), (3, 1), (5, 2), (1, 4), (2, 5), (3, 7)):
        out.append(Case('mean-n%d-L%d' % (n, L), ma, 'n=%d, L=%d' % (n, L), n=n, L=L, as_list=False))
    out.append(Case('list-n4', ma, 'n=4, L=2, a list', n=4, L=2, as_list=True))
    out.append(Case('bad-window', window, 'n=4', n=4))
    out.append(Case('window', ma, 'n=5, L=1', n=5, L=1, as_list=False))
    for n, L in ((5, 1), (7, 1), (7, 2), (8, 3)) + (((12, 3), (15, 4)) if tier == 'thorough' else ()):
        out.append(Case('head-n%d-L%d' % (n, L), head, 'n=%d, L=%d' % (n, L), n=n, L=L))
        for ax in (None, 0, 1):
            out.append(Case('line-n%d-L%d-ax%s' % (n, L, ax), line, 'n=%d, L=%d, axis %s' % (n, L, ax), n=n, L=L, axis=ax))
        out.append(Case('linear-n%d-L%d' % (n, L), linear, 'n=%d, L=%d' % (n, L), n=n, L=L))
        out.append(Case('local-n%d-L%d' % (n, L), local, 'n=%d, L=%d' % (n, L), n=n, L=L))
    return out
