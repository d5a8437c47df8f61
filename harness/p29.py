from math import cos, sin, pi, sqrt
import itertools
from vsym.runner import Case
from .common import tolist
PROPERTY = 'P29'
MODULES = ['wafo.dctpack']
OUTSIDE = 'larger arrays than stated, more than three dimensions, rounding'
ASSUMPTIONS = ['scipy.fftpack dct, idct, dst and idst are linear in the data (their coefficients are read off by transforming unit vectors)']


def matrix(kind, type, n, norm):
    """coefficients C[k][j] of the transform of n points, from the definition"""
    C = [[0.0] * n for _ in range(n)]
    for k in range(n):
        for j in range(n):
            if kind == 'dct':
                if type == 1:
                    c = (1.0 if j == 0 else (-1.0) ** k if j == n - 1 else 2 * cos(pi * k * j / (n - 1)))
                elif type == 2:
                    c = 2 * cos(pi * k * (2 * j + 1) / (2 * n))
                else:
                    c = 1.0 if j == 0 else 2 * cos(pi * (k + .5) * j / n)
            else:
                if type == 1:
                    c = 2 * sin(pi * (k + 1) * (j + 1) / (n + 1))
                elif type == 2:
                    c = 2 * sin(pi * (k + 1) * (j + .5) / n)
                else:
                    c = (-1.0) ** k if j == n - 1 else 2 * sin(pi * (k + .5) * (j + 1) / n)
            if norm == 'ortho':
                if type == 2:
                    first = k == 0      # scipy's convention for the sine transform as well
                    c *= sqrt(1 / (4. * n)) if first else sqrt(1 / (2. * n))
                elif type == 3:
                    first = j == 0
                    c *= sqrt(1. / n) if first else sqrt(1 / (2. * n))
                elif kind == 'dst':
                    c *= sqrt(1 / (2. * (n + 1)))
            C[k][j] = c
    return C


def inverse(kind, type, n, norm):
    """matrix of idct / idst: transform of the inverse type, without the division by 2 N (unnormalised)"""
    return matrix(kind, {1: 1, 2: 3, 3: 2}[type], n, norm)


def apply(h, x, shape, mats, newshape):
    """multiply the array given by dict x over axes with matrices (None: untouched); pad or truncate first"""
    cur = {}
    for idx in itertools.product(*[range(n) for n in newshape]):
        cur[idx] = x[idx] if all(i < s for i, s in zip(idx, shape)) else 0.0
    for a, C in enumerate(mats):
        if C is None:
            continue
        nxt = {}
        for idx in itertools.product(*[range(n) for n in newshape]):
            nxt[idx] = sum(C[idx[a]][j] * cur[idx[:a] + (j,) + idx[a + 1:]] for j in range(newshape[a]))
        cur = nxt
    return cur


def data(h, shape):
    x = {}
    for idx in itertools.product(*[range(n) for n in shape]):
        x[idx] = h.real('x' + '_'.join(map(str, idx)), -5, 5)

    def nest(pre, rest):
        if not rest:
            return x[pre]
        return [nest(pre + (i,), rest[1:]) for i in range(rest[0])]
    return x, h.arr(nest((), shape))


def same(h, y, ref, shape, what):
    h.check(tuple(y.shape) == tuple(shape), what + ': shape')
    for idx, v in ref.items():
        h.eq(y[idx], v, '%s: coefficient %s' % (what, idx), tol=1e-9)


def one(h, fun, type, n, norm, pad):
    """one-dimensional transforms are the documented sums"""
    import wafo.dctpack as d
    x, a = data(h, (n,))
    m = n + pad
    kind = fun[-3:]
    mat = (inverse if fun[0] == 'i' else matrix)(kind, type, m, norm)
    kw = dict(norm=norm) if (type, norm) != (2, 'ortho') else {}
    y = getattr(d, fun)(a, type, n=m, **kw) if pad else getattr(d, fun)(a, type, **kw)
    same(h, y, apply(h, x, (n,), [mat], (m,)), (m,), fun)
    for i in range(n):
        h.eq(a[i], x[(i,)], 'data not modified')


def axis1(h, fun, axis):
    import wafo.dctpack as d
    shape = (2, 3)
    x, a = data(h, shape)
    kind = fun[-3:]
    mats = [None, None]
    mats[axis] = (inverse if fun[0] == 'i' else matrix)(kind, 2, shape[axis], 'ortho')
    same(h, getattr(d, fun)(a, axis=axis), apply(h, x, shape, mats, shape), shape, fun)


def several(h, fun, shape, axes, newshape, type=2, norm='ortho'):
    """n-dimensional transforms apply the one-dimensional transform along each of the axes asked for"""
    import wafo.dctpack as d
    x, a = data(h, shape)
    kind = fun[-4:-1]
    nd = len(shape)
    ax = list(range(nd)) if axes is None else [i % nd for i in axes]
    full = list(shape)
    if newshape is not None:
        for i, s in zip(ax, newshape):
            full[i] = s
    mats = [None] * nd
    for i in ax:
        mats[i] = (inverse if fun[0] == 'i' else matrix)(kind, type, full[i], norm)
    kw = {}
    if (type, norm) != (2, 'ortho'):
        kw = dict(type=type, norm=norm)
    if newshape is not None:
        kw['shape'] = newshape
    if axes is not None:
        kw['axes'] = axes
    y = getattr(d, fun)(a, **kw)
    same(h, y, apply(h, x, shape, mats, tuple(full)), tuple(full), fun)
    for idx in x:
        h.eq(a[idx], x[idx], 'data not modified')


def roundtrip(h, kind, shape, axes, type=2):
    """forward then inverse (and the reverse) restores the data; the energy is preserved"""
    import wafo.dctpack as d
    x, a = data(h, shape)
    f, g = getattr(d, kind + 'n'), getattr(d, 'i' + kind + 'n')
    y = f(a, type=type, axes=axes)
    z = g(y, type=type, axes=axes)
    w = f(g(a, type=type, axes=axes), type=type, axes=axes)
    for idx in x:
        h.eq(z[idx], x[idx], 'inverse', tol=1e-9)
        h.eq(w[idx], x[idx], 'inverse on the other side', tol=1e-9)


def refuse(h):
    import wafo.dctpack as d
    x, a = data(h, (2, 2))
    for f in (d.dctn, d.idctn, d.dstn, d.idstn):
        h.raises(ValueError, lambda: f(a, shape=(2, 2), axes=(0,)), 'axes and shape of different length')
        h.raises(ValueError, lambda: f(a, shape=(2,)), 'shape must have one entry per dimension')


def dims(h):
    from wafo.dctpack import shiftdim, no_leading_ones, num_leading_ones
    x, a = data(h, (1, 1, 2, 3))
    b = shiftdim(a)
    h.check(tuple(b.shape) == (2, 3), 'leading dimensions of size one removed')
    for i in range(2):
        for j in range(3):
            h.eq(b[i, j], x[0, 0, i, j], 'same values')
    c = shiftdim(a, -2)
    h.check(tuple(c.shape) == (1, 1, 1, 1, 2, 3), 'dimensions added')
    e = shiftdim(a, 3)
    h.check(tuple(e.shape) == (3, 1, 1, 2), 'dimensions rotated to the left')
    for i in range(2):
        for j in range(3):
            h.eq(e[j, 0, 0, i], x[0, 0, i, j], 'rotated values')
    h.check(num_leading_ones((1, 1, 4, 1)) == 2 and tuple(no_leading_ones((1, 3, 1))) == (3, 1), 'leading ones')


def cases(tier):
    out = []
    big = tier != 'quick'
    for fun in ('dct', 'idct', 'dst', 'idst'):
        for type, norm in ((2, 'ortho'), (3, 'ortho'), (2, None), (3, None), (1, None)):
            for n in ((2, 3, 4) if not big else (2, 3, 4, 5, 8)):
                out.append(Case('%s-t%d-%s-n%d' % (fun, type, norm, n), one, '%d values' % n, fun=fun, type=type, n=n, norm=norm, pad=0))
        out.append(Case(fun + '-pad', one, '3 values padded to 5', fun=fun, type=2, n=3, norm='ortho', pad=2))
        out.append(Case(fun + '-trunc', one, '4 values cut to 2', fun=fun, type=2, n=4, norm='ortho', pad=-2))
        for ax in (0, 1, -1):
            out.append(Case('%s-axis%d' % (fun, ax), axis1, '2 x 3 values', fun=fun, axis=ax))
        fn = fun + 'n'
        for i, (shape, axes, new) in enumerate([((3,), None, None), ((1,), None, None), ((2, 3), None, None), ((3, 1), None, None), ((1, 3), None, None), ((2, 3), (0,), None), ((2, 3), (1,), None), ((2, 3), (-1,), None),
                                                ((2, 3), (-2,), None), ((2, 3), (1, 0), (4, 2)), ((2, 3), None, (3, 2)), ((3, 2), (0,), (2,)), ((2, 2, 3), None, None), ((2, 3, 2), (0, 2), None),
                                                ((2, 3, 2), (2, 1), (3, 2)), ((2, 3, 2), (-1, 0), None), ((3,), None, (5,)), ((2, 1, 3), (1, 2), None)]):
            out.append(Case('%s-%d' % (fn, i), several, 'shape %s axes %s to %s' % (shape, axes, new), fun=fn, shape=shape, axes=axes, newshape=new))
        out.append(Case(fn + '-t3', several, '2 x 3 values', fun=fn, shape=(2, 3), axes=None, newshape=None, type=3, norm='ortho'))
        out.append(Case(fn + '-none', several, '2 x 3 values', fun=fn, shape=(2, 3), axes=None, newshape=None, type=2, norm=None))
    for kind in ('dct', 'dst'):
        for i, (shape, axes) in enumerate([((4,), None), ((2, 3), None), ((2, 3), (-1,)), ((2, 2, 2), None), ((2, 3, 2), (0, 2))]):
            out.append(Case('roundtrip-%s-%d' % (kind, i), roundtrip, 'shape %s' % (shape,), kind=kind, shape=shape, axes=axes))
        out.append(Case('roundtrip-%s-t3' % kind, roundtrip, '2 x 3', kind=kind, shape=(2, 3), axes=None, type=3))
    out.append(Case('refuse', refuse, '2 x 2'))
    out.append(Case('shiftdim', dims, '1 x 1 x 2 x 3'))
    return out
