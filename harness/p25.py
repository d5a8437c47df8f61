from vsym.runner import Case
from .common import tolist, horner
PROPERTY = 'P25'
MODULES = ['wafo.interpolate', 'wafo.polynomial']
OUTSIDE = 'more points, pieces or higher orders than stated; evaluation of the scipy Bernstein form behind CubicHermiteSpline and Pchip (compiled); rounding'

METHODS = ('Catmull-Rom', 'parabola', 'secant', 'akima', 'pchip', 'stineman', 'steffen', 'Cardinal', 'fritsch')


def grid(h, n, free, lo=0.25, hi=3):
    if not free:
        return [-1.0, 0.5, 1.0, 3.0, 3.5, 5.0][:n]
    x = [h.real('x0', -2, 2)]
    for i in range(1, n):
        x.append(x[-1] + h.real('d%d' % i, lo, hi))
    return x


def piece(breaks, cols, x):
    """value of the piecewise polynomial, the first and the last piece continued"""
    k = len(breaks) - 1
    for i in range(k):
        if i == k - 1 or bool(x <= breaks[i + 1]):
            return horner(cols[i], x - breaks[i])


def away(h, x, pts):
    for b in pts:
        h.assume(abs(x - b) > 1e-3)


def ppform(h, order, pieces, free):
    """value, derivative, integral, fill and the linear continuation"""
    from wafo.interpolate import PPform
    import numpy as np
    br = grid(h, pieces + 1, free)
    c = h.reals('c', (order, pieces), -3, 3)
    fill = h.real('fill', -3, 3)
    f = PPform(c, h.arr(br), fill=fill)
    t = h.real('t', -4, 12)
    away(h, t, br)
    cols = [[c[i, j] for i in range(order)] for j in range(pieces)]
    inside = h.all([t >= br[0], t <= br[-1]])
    v = f(h.arr([t]))[0]
    h.eq(v, h.ite(inside, piece(br, cols, t), fill), 'value')
    h.check(tuple(np.shape(f(h.arr([[t, t]])))) == (1, 2), 'shape')
    if order > 1:
        dcols = [[(order - 1 - i) * q[i] for i in range(order - 1)] for q in cols]
        h.eq(f.derivative()(h.arr([t]))[0], h.ite(inside, piece(br, dcols, t), fill), 'derivative')
    F = f.integrate()
    acc, icols = 0.0, []
    for j in range(pieces):
        q = [cols[j][i] / (order - i) for i in range(order)] + [acc]
        icols.append(q)
        acc = horner(q, br[j + 1] - br[j])
    h.eq(F(h.arr([t]))[0], h.ite(inside, piece(br, icols, t), fill), 'integral from the first break')
    # linear continuation, inside unchanged
    g = f.linear_extrapolate()
    h.eq(f(h.arr([t]))[0], v, 'linear_extrapolate leaves the function alone')
    a, b = br[0], br[-1]
    va, da = cols[0][-1], (cols[0][-2] if order > 1 else 0.0)
    vb = horner(cols[-1], b - br[-2])
    db = horner([(order - 1 - i) * cols[-1][i] for i in range(order - 1)], b - br[-2])
    want = h.ite(t < a, va + da * (t - a), h.ite(t > b, vb + db * (t - b), piece(br, cols, t)))
    away(h, t, [a - 1, b + 1])
    h.eq(g(h.arr([t]))[0], want, 'linear continuation')
    if order > 1:
        slope = h.ite(t < a, da, h.ite(t > b, db, piece(br, dcols, t)))
        h.eq(g.derivative()(h.arr([t]))[0], slope, 'derivative of the continuation')
    f.linear_extrapolate(output=False)
    h.eq(f(h.arr([t]))[0], want, 'in place')


def ints(h):
    """whole-number arguments are not truncated"""
    from wafo.interpolate import PPform
    c = h.reals('c', (2, 2), -3, 3)
    k = h.choice('k', 5)
    f = PPform(c, h.arr([0, 2, 4]))
    j = 0 if k <= 2 else 1
    import numpy as np
    h.eq(f(np.array([k]))[0], c[0, j] * (k - 2 * j) + c[1, j], 'value at an integer')


def run(h, x, y, method, **kw):
    from wafo.interpolate import slopes
    return tolist(slopes(h.arr(x), h.arr(y), method, **kw))


def line(h, n, method, scale):
    x = grid(h, n, not scale)
    a, b = h.real('a', -3, 3), h.real('b', -3, 3)
    kw = {'scale': True} if scale else {}
    ten = h.real('tension', 0, 1) if method == 'Cardinal' else 0
    if method == 'Cardinal':
        kw['tension'] = ten
    if scale:
        h.assume(abs(b) > 0.01)
    for v in run(h, x, [a + b * u for u in x], method, **kw):
        h.eq(v, (1 - ten) * b, 'slope of a line')


def formula(h, n, method, free):
    x = grid(h, n, free)
    y = [h.real('y%d' % i, -3, 3) for i in range(n)]
    m = [(y[i + 1] - y[i]) / (x[i + 1] - x[i]) for i in range(n - 1)]
    d = [x[i + 1] - x[i] for i in range(n - 1)]
    if method in ('pchip', 'steffen', 'akima'):
        for v in m:
            h.assume(abs(v) > 1e-3)
    if method == 'stineman':
        for v in m[:1] + m[-1:]:
            h.assume(abs(v) > 1e-3)
    kw = {}
    if method == 'Cardinal':
        kw['tension'] = h.real('tension', 0, 1)
    r = run(h, x, y, method, **kw)
    h.check(len(r) == n, 'one slope per point')
    I = range(1, n - 1)
    if method in ('Catmull-Rom', 'Cardinal'):
        q = 1 - kw.get('tension', 0)
        want = [q * m[0]] + [q * (y[k + 1] - y[k - 1]) / (x[k + 1] - x[k - 1]) for k in I] + [q * m[-1]]
    elif method == 'secant':
        want = [m[0]] + [(m[k] + m[k - 1]) / 2 for k in I] + [m[-1]]
    elif method == 'parabola':
        w = [(m[k - 1] * d[k] + m[k] * d[k - 1]) / (d[k] + d[k - 1]) for k in I]
        want = [2 * m[0] - w[0]] + w + [2 * m[-1] - w[-1]]
    elif method in ('pchip', 'fritsch'):
        w = []
        for k in I:
            if bool(m[k - 1] * m[k] > 0):
                w1, w2 = 2 * d[k] + d[k - 1], d[k] + 2 * d[k - 1]
                w.append((w1 + w2) / (w1 / m[k - 1] + w2 / m[k]))
            else:
                w.append(0.0)

        def end(h0, h1, m0, m1):
            e = ((2 * h0 + h1) * m0 - h0 * m1) / (h0 + h1)
            if bool(e * m0 <= 0):
                return 0.0
            if bool(m0 * m1 < 0) and bool(abs(e) > 3 * abs(m0)):
                return 3 * m0
            return e
        if method == 'pchip':
            want = [end(d[0], d[1], m[0], m[1])] + w + [end(d[-1], d[-2], m[-1], m[-2])]
        else:
            want = [2 * m[0] - w[0]] + w + [2 * m[-1] - w[-1]]
    elif method == 'steffen':
        def lim(p, lims):
            if any(bool(p * v <= 0) for v in lims):
                return 0.0
            q = abs(p)
            for v in lims:
                if bool(2 * abs(v) < q):
                    q = 2 * abs(v)
            return q if bool(p > 0) else -q
        w = [lim((m[k - 1] * d[k] + m[k] * d[k - 1]) / (d[k] + d[k - 1]), [m[k - 1], m[k]]) for k in I]
        p0 = m[0] * (1 + d[0] / (d[0] + d[1])) - m[1] * d[0] / (d[0] + d[1])
        p1 = m[-1] * (1 + d[-1] / (d[-1] + d[-2])) - m[-2] * d[-1] / (d[-1] + d[-2])
        want = [lim(p0, [m[0]])] + w + [lim(p1, [m[-1]])]
    elif method == 'stineman':
        def mid(m0, m1, h0, h1):
            l0, l1 = h0 ** 2 * (1 + m0 ** 2), h1 ** 2 * (1 + m1 ** 2)   # squared chord lengths
            return (h0 * m0 * h1 ** 2 * (1 + m1 ** 2) + h1 * m1 * h0 ** 2 * (1 + m0 ** 2)) / (h0 * h1 ** 2 * (1 + m1 ** 2) + h1 * h0 ** 2 * (1 + m0 ** 2))

        def end(s, q):
            if bool(s * (s - q) >= 0):
                return 2 * s - q
            return s + abs(s) * (s - q) / (abs(s) + abs(s - q))
        w = [mid(m[k - 1], m[k], d[k - 1], d[k]) for k in I]
        want = [end(m[0], w[0])] + w + [end(m[-1], w[-1])]
    elif method == 'akima':
        e = [3 * m[0] - 2 * m[1], 2 * m[0] - m[1]] + m + [2 * m[-1] - m[-2], 3 * m[-1] - 2 * m[-2]]
        want = []
        f = [(abs(e[i + 3] - e[i + 2]), abs(e[i + 1] - e[i])) for i in range(n)]
        for i in range(n):
            f1, f2 = f[i]
            h.assume(f1 + f2 > 1e-3)
            want.append((f1 * e[i + 1] + f2 * e[i + 2]) / (f1 + f2))
    for i in range(n):
        h.eq(r[i], want[i], 'slope %d' % i)


def mirror(h, n, method):
    """turning the axes around turns the slopes around; shifting does nothing"""
    x = grid(h, n, False)
    y = [h.real('y%d' % i, -3, 3) for i in range(n)]
    if method == 'stineman':
        h.assume(h.all([abs(y[i + 1] - y[i]) > 1e-3 for i in (0, n - 2)]))
    if method == 'akima':
        for i in range(n - 1):
            for j in range(i):
                h.assume(abs((y[i + 1] - y[i]) / (x[i + 1] - x[i]) - (y[j + 1] - y[j]) / (x[j + 1] - x[j])) > 1e-3)
    r = run(h, x, y, method)
    s = run(h, [-v for v in x[::-1]], y[::-1], method)
    u = run(h, x, [-v for v in y], method)
    w = run(h, [v + 2 for v in x], [v - 1 for v in y], method)
    for i in range(n):
        h.eq(s[i], -r[n - 1 - i], 'reversed x')
        h.eq(u[i], -r[i], 'negated y')
        h.eq(w[i], r[i], 'shifted')


def scaled(h, n, method):
    """with scale the slopes follow the units of x and y"""
    x = grid(h, n, False)
    y = [h.real('y%d' % i, -3, 3) for i in range(n)]
    h.assume(y[1] - y[0] > 1e-2)
    h.assume(y[-1] - y[-2] > 1e-2)
    r = run(h, x, y, method, scale=True)
    s = run(h, [4 * v for v in x], [8 * v for v in y], method, scale=True)
    for i in range(n):
        h.eq(s[i], 2 * r[i], 'units')


def monotone(h, n, method, radius=True):
    """monotone=True: the slopes are inside the region where the cubic is monotone"""
    x = grid(h, n, False)
    y = [h.real('y%d' % i, -3, 3) for i in range(n)]
    for i in range(n - 1):
        h.assume(abs(y[i + 1] - y[i]) > 1e-2)
    r = run(h, x, y, method, monotone=True)
    s = run(h, x, y, method)
    for i in range(n - 1):
        m = (y[i + 1] - y[i]) / (x[i + 1] - x[i])
        h.check(r[i] * m >= 0, 'sign of the slope at the left')
        h.check(r[i + 1] * m >= 0, 'sign of the slope at the right')
        if radius:
            h.check(r[i] ** 2 + r[i + 1] ** 2 <= 9 * m ** 2 * (1 + 1e-9), 'radius')


def flat(h, method):
    """equal neighbours: flat"""
    a, b, c = [h.real('y%d' % i, -3, 3) for i in range(3)]
    r = run(h, [0.0, 1.0, 2.5, 4.0], [a, b, b, c], method, monotone=True)
    h.eq(r[1], 0.0, 'flat')
    h.eq(r[2], 0.0, 'flat')


def increasing(h):
    x = [h.real('x%d' % i, -3, 3) for i in range(3)]
    ok = h.all([x[1] > x[0], x[2] > x[1]])
    from wafo.interpolate import slopes
    try:
        slopes(h.arr(x), h.arr([0.0, 1.0, 3.0]), 'secant')
        h.check(ok, 'x that is not increasing accepted')
    except ValueError:
        h.check(h.any([x[1] <= x[0], x[2] <= x[1]]), 'increasing x refused')


def two(h, method):
    """two points: the line through them"""
    x = grid(h, 2, True)
    y = [h.real('y%d' % i, -3, 3) for i in range(2)]
    for v in run(h, x, y, method):
        h.eq(v, (y[1] - y[0]) / (x[1] - x[0]), 'line')


def columns(h, n, method):
    """two columns at once"""
    from wafo.interpolate import slopes
    x = grid(h, n, False)
    y = h.reals('y', (n, 2), -3, 3)
    for j in range(2):
        for i in range(n - 1):
            h.assume(abs(y[i + 1, j] - y[i, j]) > 1e-3)
    r = slopes(h.arr(x), y, method)
    for j in range(2):
        s = run(h, x, [y[i, j] for i in range(n)], method)
        for i in range(n):
            h.eq(r[i, j], s[i], 'column')


def stine(h, n, free, cls):
    """Stineman's rational interpolant"""
    from wafo.interpolate import stineman_interp, StinemanInterp
    x = grid(h, n, free)
    y = [h.real('y%d' % i, -3, 3) for i in range(n)]
    yp = [h.real('p%d' % i, -3, 3) for i in range(n)]
    t = h.real('t', -3, 8)
    away(h, t, x)
    i = 0
    while i < n - 2 and bool(t > x[i + 1]):
        i += 1
    a, b = x[i], x[i + 1]
    s = (y[i + 1] - y[i]) / (b - a)
    h.assume(abs(yp[i] - s) > 1e-2)
    h.assume(abs(yp[i + 1] - s) > 1e-2)
    y0 = y[i] + s * (t - a)
    d1 = y[i] + yp[i] * (t - a) - y0
    d2 = y[i + 1] + yp[i + 1] * (t - b) - y0
    if bool(d1 * d2 > 0):
        want = y0 + d1 * d2 / (d1 + d2)
    else:
        h.assume(abs(d1 - d2) > 1e-3)
        want = y0 + d1 * d2 * (2 * t - a - b) / ((d1 - d2) * (b - a))
    if cls:
        v = StinemanInterp(h.arr(x), h.arr(y), h.arr(yp))(h.arr([t]))[0]
    else:
        v = stineman_interp(h.arr([t]), h.arr(x), h.arr(y), h.arr(yp))[0]
    h.eq(v, want, "Stineman's formula")


def stine_nodes(h, n, method):
    """through the points, and straight where the slopes agree with the secant"""
    from wafo.interpolate import StinemanInterp
    x = grid(h, n, False)
    y = [h.real('y%d' % i, -3, 3) for i in range(n)]
    if method == 'stineman':
        h.assume(h.all([abs(y[i + 1] - y[i]) > 1e-3 for i in (0, n - 2)]))
    f = StinemanInterp(h.arr(x), h.arr(y), method=method)
    for i, v in enumerate(tolist(f(h.arr(x)))):
        h.eq(v, y[i], 'node %d' % i)


def stine_line(h, n):
    from wafo.interpolate import stineman_interp
    x = grid(h, n, False)
    a, b = h.real('a', -3, 3), h.real('b', -3, 3)
    t = h.real('t', -3, 8)
    v = stineman_interp(h.arr([t]), h.arr(x), h.arr([a + b * u for u in x]), h.arr([b] * n))[0]
    h.eq(v, a + b * t, 'line')


def cases(tier):
    out = []
    for order, pieces, free in ((1, 2, True), (2, 1, True), (2, 2, True), (3, 2, False), (4, 2, False), (4, 3, False)) + (((3, 2, True), (4, 4, False)) if tier != 'quick' else ()):
        out.append(Case('ppform-o%d-p%d%s' % (order, pieces, '-free' if free else ''), ppform,
                        'piecewise polynomial of order %d with %d pieces' % (order, pieces), order=order, pieces=pieces, free=free))
    out.append(Case('ppform-int', ints, '2 pieces'))
    for m in METHODS:
        for sc in (False, True):
            if sc and m in ('Cardinal', 'stineman'):
                continue
            out.append(Case('line-%s%s' % (m, '-scale' if sc else ''), line, 'any line, 4 points', n=4, method=m, scale=sc))
        out.append(Case('formula-%s' % m, formula, '4 points at fixed places, any values', n=4, method=m, free=False))
        out.append(Case('formula-free-%s' % m, formula, '3 points anywhere, any values', n=3, method=m, free=True))
        if tier != 'quick':
            out.append(Case('formula5-%s' % m, formula, '5 points at fixed places, any values', n=5, method=m, free=False))
        if m != 'Cardinal':
            out.append(Case('mirror-%s' % m, mirror, '4 points, any values', n=4, method=m))
    for m in ('Catmull-Rom', 'parabola', 'secant'):
        out.append(Case('scale-%s' % m, scaled, '3 points', n=3, method=m))
    for m in ('Catmull-Rom', 'parabola', 'secant'):
        out.append(Case('monotone-%s' % m, monotone, '3 points', n=3, method=m, radius=m != 'parabola' or tier != 'quick'))
        out.append(Case('flat-%s' % m, flat, '4 points', method=m))
    if tier != 'quick':
        out.append(Case('monotone4', monotone, '4 points', n=4, method='Catmull-Rom'))
    out.append(Case('increasing', increasing, '3 points'))
    for m in ('Catmull-Rom', 'secant', 'pchip'):
        out.append(Case('two-%s' % m, two, '2 points', method=m))
    for m in ('Catmull-Rom', 'parabola', 'secant', 'pchip', 'steffen'):
        out.append(Case('columns-%s' % m, columns, '3 x 2 values', n=3, method=m))
    out.append(Case('stineman-n2', stine, '2 points', n=2, free=True, cls=False))
    out.append(Case('stineman-n4', stine, '4 points', n=4, free=False, cls=True))
    for m in ('parabola', 'stineman'):
        out.append(Case('stineman-nodes-%s' % m, stine_nodes, '3 points', n=3, method=m))
    out.append(Case('stineman-line', stine_line, '4 points', n=4))
    return out
