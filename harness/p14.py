from vsym.runner import Case
from .common import tolist
import math
PROPERTY = 'P14'
MODULES = ['wafo.misc']
OUTSIDE = 'rounding'


def det3(R):
    return (R[0, 0] * (R[1, 1] * R[2, 2] - R[1, 2] * R[2, 1]) - R[0, 1] * (R[1, 0] * R[2, 2] - R[1, 2] * R[2, 0])
            + R[0, 2] * (R[1, 0] * R[2, 1] - R[1, 1] * R[2, 0]))


def angles(h, which):
    return [h.real('ang%d' % i, -720, 720) if c == 's' else {'0': 0.0}[c] for i, c in enumerate(which)]


def trig(h, deg):
    import numpy as np
    return np.cos(deg * (math.pi / 180)), np.sin(deg * (math.pi / 180))


def rotation(h, which):
    from wafo.misc import rotation_matrix
    import numpy as np
    a = angles(h, which)
    R = rotation_matrix(*a)
    for i in range(3):
        for j in range(3):
            h.eq(sum(R[i, k] * R[j, k] for k in range(3)), 1.0 if i == j else 0.0, 'rows are orthonormal')
    h.eq(det3(R), 1.0, 'determinant 1')
    # heading about z after pitch about y after roll about x
    (ch, sh), (cp, sp), (cr, sr) = [trig(h, v) if h.sym or v else (1.0, 0.0) for v in a] if not h.sym else [
        trig(h, v) if which[i] == 's' else (1.0, 0.0) for i, v in enumerate(a)]
    Z = [[ch, -sh, 0.0], [sh, ch, 0.0], [0.0, 0.0, 1.0]]
    Y = [[cp, 0.0, sp], [0.0, 1.0, 0.0], [-sp, 0.0, cp]]
    X = [[1.0, 0.0, 0.0], [0.0, cr, -sr], [0.0, sr, cr]]

    def mm(A, B):
        return [[sum(A[i][k] * B[k][j] for k in range(3)) for j in range(3)] for i in range(3)]
    E = mm(mm(Z, Y), X)
    for i in range(3):
        for j in range(3):
            h.eq(R[i, j], E[i][j], 'heading, pitch and roll composed')


def length(h):
    from wafo.misc import rotate
    x, y, z = h.real('x'), h.real('y'), h.real('z')
    a = angles(h, 'sss')
    u, v, w = rotate(x, y, z, *a)
    h.eq(u * u + v * v + w * w, x * x + y * y + z * z, 'rotation preserves length')


def identity(h):
    from wafo.misc import rotate, rotation_matrix
    x, y, z = h.real('x'), h.real('y'), h.real('z')
    h.eq(h.arr(list(rotate(x, y, z))), h.arr([x, y, z]), 'no rotation')


def matrix_consistent(h):
    from wafo.misc import rotate, rotation_matrix
    x, y, z = h.real('x'), h.real('y'), h.real('z')
    a = angles(h, 'sss')
    R = rotation_matrix(*a)
    o = rotate(x, y, z, *a)
    for i in range(3):
        h.eq(o[i], R[i, 0] * x + R[i, 1] * y + R[i, 2] * z, 'rotated point')


def plane(h):
    from wafo.misc import rotate_2d
    x, y, a = h.real('x'), h.real('y'), h.real('ang', -720, 720)
    u, v = rotate_2d(x, y, a)
    c, s = trig(h, a)
    h.eq(u, c * x - s * y, 'x')
    h.eq(v, s * x + c * y, 'y')
    h.eq(u * u + v * v, x * x + y * y, 'length')


def polar(h, third):
    from wafo.misc import polar2cart, cart2polar
    x, y = h.real('x'), h.real('y')
    h.assume(x * x + y * y > 0.01)
    if third:
        zz = h.real('z')
        t, r, z2 = cart2polar(x, y, zz)
        h.eq(z2, zz, 'third coordinate')
        a, b, c = polar2cart(t, r, zz)
        h.eq(c, zz, 'third coordinate')
    else:
        t, r = cart2polar(x, y)
        a, b = polar2cart(t, r)
    h.le(0.0, r, 'radius is not negative')
    h.eq(r * r, x * x + y * y, 'radius')
    h.eq(a, x, 'x round trip')
    h.eq(b, y, 'y round trip')


def polar_fwd(h):
    from wafo.misc import polar2cart
    import numpy as np
    t, r = h.real('t', -7, 7), h.real('r')
    a, b = polar2cart(t, r)
    h.eq(a, r * np.cos(t), 'x')
    h.eq(b, r * np.sin(t), 'y')


def line(h, num):
    from wafo.misc import spaceline
    p, q = h.reals('p', 3), h.reals('q', 3)
    y = spaceline(p, q, num)
    h.check(y.shape == (num, 3), 'shape')
    for k in range(num):
        for j in range(3):
            e = p[j] + (q[j] - p[j]) * k / (num - 1) if num > 1 else (p[j] + q[j]) / 2
            h.eq(y[k, j], e, 'equally spaced points')


def cases(tier):
    out = [Case('rot-' + w, rotation, 'any angles in [-720, 720] degrees (%s)' % w, which=w) for w in ('s00', '0s0', '00s', 'ss0', 's0s', '0ss', 'sss')]
    out += [Case('length', length, 'any point and angles'), Case('identity', identity, 'any point'), Case('matrix', matrix_consistent, 'any point and angles'),
            Case('plane', plane, 'any point and angle'), Case('polar', polar, 'points outside radius 0.1', third=False),
            Case('polar3', polar, 'points outside radius 0.1', third=True), Case('polar-forward', polar_fwd, 'any')]
    out += [Case('line-%d' % n, line, '%d points' % n, num=n) for n in (1, 2, 3, 5)]
    return out
