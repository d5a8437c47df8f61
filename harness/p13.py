from vsym.runner import Case
from .common import tolist
PROPERTY = 'P13'
MODULES = ['wafo.misc']
OUTSIDE = 'larger arrays than stated; integer arrays; overlapping conditions'


def guard(h, seen):
    def mk(name, cond, val):
        def f(*a):
            seen.append((name, [tolist(v) for v in a[:2]]))
            return val(*a)
        return f
    return mk


def where2(h, n, both):
    from wafo.misc import lazywhere
    a, b = h.reals('a', n), h.reals('b', n)
    c = h.real('c')
    seen = []

    def f(x, y):
        for u in tolist(x):
            h.check(u > c, 'evaluated only where the condition holds')
        return x * y + 1.0

    def f2(x, y):
        for u in tolist(x):
            h.check(u <= c, 'alternative evaluated only where the condition fails')
        return x - y
    if both:
        out = lazywhere(a > c, (a, b), f, f2=f2)
    else:
        fill = h.real('fill')
        out = lazywhere(a > c, (a, b), f, fillvalue=fill)
    h.check(out.shape == (n,), 'shape')
    for i in range(n):
        alt = a[i] - b[i] if both else fill
        h.eq(out[i], h.ite(a[i] > c, a[i] * b[i] + 1.0, alt), 'element %d' % i)


def where_bcast(h):
    from wafo.misc import lazywhere
    a = h.reals('a', (2, 2))
    b = h.real('b')
    out = lazywhere(a > 0, (a, b), lambda x, y: x * y, fillvalue=-1.0)
    for i in range(2):
        for j in range(2):
            h.eq(out[i, j], h.ite(a[i, j] > 0, a[i, j] * b, -1.0), 'element')


def where_args(h):
    from wafo.misc import lazywhere
    a = h.reals('a', 2)
    h.raises(ValueError, lambda: lazywhere(a > 0, (a,), lambda x: x), 'one of fillvalue and alternative is required')
    h.raises(ValueError, lambda: lazywhere(a > 0, (a,), lambda x: x, fillvalue=0.0, f2=lambda x: x), 'not both')


def select(h, n, default):
    from wafo.misc import lazyselect
    a, b = h.reals('a', n), h.reals('b', n)
    d = h.real('d') if default else 0.0

    def f(x, y):
        for u in tolist(x):
            h.check(u < 0, 'first choice only where its condition holds')
        return x + y

    def g(x, y):
        for u in tolist(x):
            h.check(u > 1, 'second choice only where its condition holds')
        return x * y
    out = lazyselect([a < 0, a > 1], [f, g], (a, b), default=d)
    for i in range(n):
        h.eq(out[i], h.ite(a[i] < 0, a[i] + b[i], h.ite(a[i] > 1, a[i] * b[i], d)), 'element %d' % i)


def pw(h, n, otherwise, fill):
    from wafo.misc import piecewise
    a, b = h.reals('a', n), h.reals('b', n)
    v = h.real('v')
    fv = h.real('fv') if fill else 0.0

    def f(x, y):
        for u in tolist(x):
            h.check(u < 0, 'first piece only where its condition holds')
        return x - y

    def g(x, y):
        for u in tolist(x):
            h.check(u > 1, 'second piece only where its condition holds')
        return x * y

    def o(x, y):
        for u in tolist(x):
            h.check((u >= 0) & (u <= 1), 'remaining piece only where no condition holds')
        return x + y
    fl = [f, g] + ([o] if otherwise else [])
    out = piecewise([a < 0, a > 1], fl, xi=(a, b), fillvalue=fv)
    for i in range(n):
        r = a[i] + b[i] if otherwise else fv
        h.eq(out[i], h.ite(a[i] < 0, a[i] - b[i], h.ite(a[i] > 1, a[i] * b[i], r)), 'element %d' % i)


def pw_scalar(h, n):
    from wafo.misc import piecewise
    a = h.reals('a', n)
    u, v, w = 1.5, -2.0, 7.0
    out = piecewise([a < 0, a > 1], [u, v, w], xi=(a,))
    out2 = piecewise([a < 0, a > 1], [lambda x, k: x * k, lambda x, k: x - k], xi=a, args=(3.0,))
    for i in range(n):
        h.eq(out[i], h.ite(a[i] < 0, u, h.ite(a[i] > 1, v, w)), 'constant pieces')
        h.eq(out2[i], h.ite(a[i] < 0, a[i] * 3, h.ite(a[i] > 1, a[i] - 3, 0.0)), 'extra arguments')


def reduce_args(h, n):
    from wafo.misc import argsreduce
    a, b = h.reals('a', n), h.real('b')
    got = argsreduce(a > 0, a, b)
    keep = [a[i] for i in range(n) if bool(a[i] > 0)]
    h.eq(got[0], h.arr(keep), 'selected elements')
    h.eq(got[1], h.arr([b for _ in keep]), 'scalar argument expanded')


def cases(tier):
    n = 3 if tier == 'quick' else 5
    return [Case('where-fill', where2, 'n=%d' % n, n=n, both=False), Case('where-alt', where2, 'n=%d' % n, n=n, both=True),
            Case('where-1', where2, 'n=1', n=1, both=True), Case('where-2d', where_bcast, '2x2'), Case('where-args', where_args, 'n=2'),
            Case('select', select, 'n=%d' % n, n=n, default=False), Case('select-default', select, 'n=2', n=2, default=True),
            Case('piecewise', pw, 'n=%d' % n, n=n, otherwise=False, fill=True), Case('piecewise-else', pw, 'n=%d' % n, n=n, otherwise=True, fill=False),
            Case('piecewise-scalar', pw_scalar, 'n=2', n=2), Case('argsreduce', reduce_args, 'n=3', n=3)]
