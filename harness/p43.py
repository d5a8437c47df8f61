from vsym.runner import Case
from .common import tolist
PROPERTY = 'P43'
MODULES = ['wafo.sg_filter._core']
OUTSIDE = 'more than two states, more steps than stated, singular innovation covariance, rounding'


def mm(a, b):
    return [[sum((a[i][k] * b[k][j] for k in range(len(b))), 0.0) for j in range(len(b[0]))] for i in range(len(a))]


def tr(a):
    return [list(r) for r in zip(*a)]


def inv(a):
    if len(a) == 1:
        return [[1 / a[0][0]]]
    d = a[0][0] * a[1][1] - a[0][1] * a[1][0]
    return [[a[1][1] / d, -a[0][1] / d], [-a[1][0] / d, a[0][0] / d]]


def add(a, b, s=1):
    return [[x + s * y for x, y in zip(p, q)] for p, q in zip(a, b)]


def average(h, n):
    """a constant measured with equal errors: the estimate is the mean, its variance R/n"""
    from wafo.sg_filter import Kalman
    R = h.real('R', 0.1, 4)
    z = [h.real('z%d' % i, -3, 3) for i in range(n)]
    f = Kalman(R=R)
    for k in range(n):
        v = f(z[k])
        h.eq(flat(v)[0], sum(z[:k + 1]) / (k + 1), 'mean of %d' % (k + 1))
        h.eq(f.P[0, 0], R / (k + 1), 'variance of %d' % (k + 1))


def flat(v):
    import numpy as np
    return tolist(np.ravel(v))


def scalar(h, n):
    """scalar system with everything given: predict, then the Bayes update of two Gaussians"""
    from wafo.sg_filter import Kalman
    A, B, Hm = h.real('A', -2, 2), h.real('B', -2, 2), h.real('H', 0.5, 2)
    Q, R, P = h.real('Q', 0.1, 2), h.real('R', 0.1, 2), h.real('P', 0.1, 2)
    x = h.real('x', -3, 3)
    f = Kalman(R=R, x=x, P=P, A=A, B=B, Q=Q, H=Hm)
    for k in range(n):
        z, u = h.real('z%d' % k, -3, 3), h.real('u%d' % k, -2, 2)
        r = f(z, u)
        xp, Pp = A * x + B * u, A * A * P + Q
        P = 1 / (1 / Pp + Hm * Hm / R)
        x = P * (xp / Pp + Hm * z / R)
        h.eq(flat(r)[0], x, 'posterior mean %d' % k)
        h.eq(f.P[0, 0], P, 'posterior variance %d' % k)


def matrix(h, n, meas):
    """two states: the update solves the normal equations of the combined information"""
    from wafo.sg_filter import Kalman
    import numpy as np
    A = [[1.0, 0.5], [0.0, 1.0]]
    Q = [[0.5, 0.25], [0.25, 1.0]]
    P0 = [[2.0, 0.5], [0.5, 1.0]]
    B = [[0.125], [0.5]]
    H = [[1.0, 0.0]] if meas == 1 else [[1.0, 0.0], [0.5, 1.0]]
    R = [[h.real('R', 0.1, 2)]] if meas == 1 else [[1.0, 0.25], [0.25, 0.5]]
    x = [[h.real('x0', -3, 3)], [h.real('x1', -3, 3)]]
    f = Kalman(R=h.arr(R), x=h.arr(x), P=np.array(P0), A=np.array(A), B=np.array(B), Q=np.array(Q), H=np.array(H))
    P = P0
    for k in range(n):
        z = [[h.real('z%d_%d' % (k, i), -3, 3)] for i in range(meas)]
        u = h.real('u%d' % k, -2, 2)
        f(h.arr(z), h.arr([[u]]))
        xp = add(mm(A, x), [[B[0][0] * u], [B[1][0] * u]])
        Pp = add(mm(mm(A, P), tr(A)), Q)
        # (Pp^-1 + H' R^-1 H) x = Pp^-1 xp + H' R^-1 z
        HR = mm(tr(H), inv(R))
        info = add(inv(Pp), mm(HR, H))
        rhs = add(mm(inv(Pp), xp), mm(HR, z))
        got = [[f.x[0, 0]], [f.x[1, 0]]]
        gP = [[f.P[i, j] for j in range(2)] for i in range(2)]
        lhs = mm(info, got)
        one = mm(info, gP)
        for i in range(2):
            h.eq(lhs[i][0], rhs[i][0], 'normal equation %d at step %d' % (i, k), tol=1e-6)
            for j in range(2):
                h.eq(one[i][j], 1.0 if i == j else 0.0, 'covariance is the inverse information (%d, %d)' % (i, j), tol=1e-6)
        x, P = got, gP


def first(h):
    """without initial values the first measurement gives them"""
    from wafo.sg_filter import Kalman
    import numpy as np
    z = h.reals('z', 2, -3, 3)
    H = [[1.0, 0.5], [0.0, 2.0]]
    R = [[h.real('r0', 0.1, 2), 0.0], [0.0, h.real('r1', 0.1, 2)]]
    f = Kalman(R=h.arr(R), H=np.array(H))
    x = f(z)
    back = mm(H, [[x[0]], [x[1]]])
    for i in range(2):
        h.eq(back[i][0], z[i], 'state explains the first measurement')
    P = [[f.P[i, j] for j in range(2)] for i in range(2)]
    C = mm(mm(H, P), tr(H))
    for i in range(2):
        for j in range(2):
            h.eq(C[i][j], R[i][j], 'covariance of the first state')
    f.reset()
    y = f(z)
    for i in range(2):
        h.eq(y[i], x[i], 'same measurement again: estimate unchanged')


def defaults(h, given):
    """A and H default to the identity, B, Q and the control vector to zero"""
    from wafo.sg_filter import Kalman
    R, P, x = h.real('R', 0.1, 2), h.real('P', 0.1, 2), h.real('x', -3, 3)
    kw = dict(R=R, x=x, P=P)
    if given == 'B':
        kw['B'] = h.real('B', -2, 2)
    f = Kalman(**kw)
    for k in range(2):
        z = h.real('z%d' % k, -3, 3)
        r = f(z) if given == 'B' else f(z, h.real('u%d' % k, -2, 2))
        P2 = 1 / (1 / P + 1 / R)
        x = P2 * (x / P + z / R)
        P = P2
        h.eq(flat(r)[0], x, 'posterior mean %d' % k)
        h.eq(f.P[0, 0], P, 'posterior variance %d' % k)


def cases(tier):
    out = [Case('average-n%d' % n, average, '%d measurements' % n, n=n) for n in ((2, 3) if tier == 'quick' else (2, 3, 4, 5))]
    out += [Case('scalar-n%d' % n, scalar, 'scalar system, %d steps' % n, n=n) for n in ((1,) if tier == 'quick' else (1, 2))]
    for meas in (1, 2):
        out.append(Case('matrix-m%d' % meas, matrix, '2 states, %d measurements, 1 step' % meas, n=1, meas=meas))
        out.append(Case('matrix-m%d-n2' % meas, matrix, '2 states, %d measurements, 2 steps' % meas, n=2, meas=meas))
    out += [Case('defaults-' + g, defaults, 'scalar system, 2 steps', given=g) for g in ('B', 'u')]
    out.append(Case('first', first, '2 states'))
    return out
