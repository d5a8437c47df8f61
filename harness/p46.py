from vsym.runner import Case
from .common import tolist
import math
PROPERTY = 'P46'
MODULES = ['wafo.wave_theory.core']
OUTSIDE = 'infinite water depth; overflow of the exponentials; depth-integrated accuracy of the wave number (P31)'


def trig(h, th):
    import numpy as np
    return np.cos(th), np.sin(th)


def expo(h, x):
    import numpy as np
    return np.exp(x)


def hyp(h, x, s):
    import numpy as np
    e, f = np.exp(x), np.exp(-x)
    return (e + f) / 2 if s > 0 else (e - f) / 2


def ratio(h, sa, sb):
    from wafo.wave_theory.core import hyperbolic_ratio
    a, b = h.real('a', -5, 5), h.real('b', -5, 5)
    if sb < 0:
        h.assume((b > 0.01) | (b < -0.01))
    r = hyperbolic_ratio(a, b, sa, sb)
    h.eq(tolist(r)[0] * hyp(h, b, sb), hyp(h, a, sa), 'ratio of hyperbolic functions')


SENS = ['n', 'n_t', 'n_tt', 'n_x', 'n_y', 'n_xx', 'n_yy', 'n_xy', 'p', 'u', 'v', 'w', 'u_t', 'v_t', 'w_t', 'x_p', 'y_p', 'z_p']


def tran(h, s, igam, bet, wsign=1, rot=False):
    """transfer function against the Airy wave eta = exp(i(kx x + ky y - w t))"""
    from wafo.wave_theory.core import TransferFunction
    import numpy as np
    w, k, hh = h.real('w', 0.1, 5), h.real('k', 0.05, 5), h.real('h', 1, 30)
    if wsign < 0:
        w = -w
    th = h.real('th', -4, 4)
    x, y = h.real('x', -9, 9), h.real('y', -9, 9)
    z = h.real('z', -30, 0)
    h.assume(z >= -hh + 0.01)
    zz = {1: z, 2: -z, 3: z + hh}[igam]
    rx, ry = (h.real('rx', 0, 180), h.real('ry', -90, 90)) if rot else (90, 0)
    g, rho = h.real('g', 9, 10), h.real('rho', 900, 1100)
    tf = TransferFunction(pos=(x, y, zz), sensortype=s, h=hh, g=g, rho=rho, bet=bet, igam=igam, thetax=rx, thetay=ry)
    wv, kv = h.arr([w]), h.arr([k])
    tv = h.arr([th])
    H, G = tf.tran(wv, tv, kv)
    h.check(wv.shape == (1,) and kv.shape == (1,) and tv.shape == (1,), 'arguments keep their shape')
    h.eq(wv[0], w, 'frequencies are not modified')
    h.eq(kv[0], k, 'wave numbers are not modified')
    h.check(np.shape(H) == (1,) and np.shape(G) == (1, 1), 'one value per frequency and direction')
    h.le(0.0, H[0], 'the frequency part is not negative')
    c, sn = trig(h, th)
    if rot:      # x axis along thetax - 90 degrees, y axis along thetay + 90 degrees
        c = trig(h, th - rx * math.pi / 180 + math.pi / 2)[0]
        sn = trig(h, th - ry * math.pi / 180)[1]
    cx, cy = bet * c, bet * sn
    ph = k * (x * cx + y * cy)
    ec, es = trig(h, ph)
    C, S = hyp(h, k * (z + hh), 1), hyp(h, k * (z + hh), -1)
    Cb, Sb = hyp(h, k * hh, 1), hyp(h, k * hh, -1)
    # (multiplier of eta as complex pair, denominator)
    T = {'n': ((1.0, 0.0), 1.0), 'n_t': ((0.0, -w), 1.0), 'n_tt': ((-w * w, 0.0), 1.0),
         'n_x': ((0.0, k * cx), 1.0), 'n_y': ((0.0, k * cy), 1.0), 'n_xx': ((-(k * cx) ** 2, 0.0), 1.0), 'n_yy': ((-(k * cy) ** 2, 0.0), 1.0),
         'n_xy': ((-k * k * cx * cy, 0.0), 1.0), 'p': ((rho * g * C, 0.0), Cb),
         'u': ((w * cx * C, 0.0), Sb), 'v': ((w * cy * C, 0.0), Sb), 'w': ((0.0, -w * S), Sb),
         'u_t': ((0.0, -w * w * cx * C), Sb), 'v_t': ((0.0, -w * w * cy * C), Sb), 'w_t': ((-w * w * S, 0.0), Sb),
         'x_p': ((0.0, cx * C), Sb), 'y_p': ((0.0, cy * C), Sb), 'z_p': ((S, 0.0), Sb)}[s]
    (re, im), den = T
    sg = -1.0 if igam == 2 else 1.0
    e_re, e_im = sg * (re * ec - im * es), sg * (re * es + im * ec)
    got = G[0, 0]
    gre, gim = got.real * H[0], got.imag * H[0]
    h.eq(gre * den, e_re, 'real part of the transfer function')
    h.eq(gim * den, e_im, 'imaginary part of the transfer function')


def names(h):
    from wafo.wave_theory.core import sensor_type, sensor_typeid
    k = h.choice('k', 18)
    nm = SENS[k]
    h.check(sensor_typeid(nm) == [k], 'identity number of %s' % nm)
    h.check(sensor_type(k) == (nm,), 'name of %d' % k)


def vector(h):
    """frequencies and directions are independent"""
    from wafo.wave_theory.core import TransferFunction
    w, k = h.reals('w', 2, 0.1, 5), h.reals('k', 2, 0.05, 5)
    th = h.reals('th', 2, -3, 3)
    tf = TransferFunction(pos=(0.0, 0.0, -1.0), sensortype='u', h=4.0)
    H, G = tf.tran(w, th, k)
    h.check(H.shape == (2,) and G.shape == (2, 2), 'shapes')
    for i in range(2):
        for j in range(2):
            h1, g1 = tf.tran(w[i:i + 1], th[j:j + 1], k[i:i + 1])
            h.eq(H[i], h1[0], 'frequency part')
            h.eq(G[j, i].real, g1[0, 0].real, 'direction part')


def default_k(h):
    """without wave numbers the dispersion relation of the transfer function's own depth and gravity is used"""
    from wafo.wave_theory.core import TransferFunction
    w, g = h.real('w', 0.1, 5), h.real('g', 1, 20)
    H, G = TransferFunction(pos=(0.0, 0.0, 0.0), sensortype='n_x', h=1e26, g=g).tran(h.arr([w]), h.arr([0.0]))
    h.eq(H[0] * g, w * w, 'wave number')


def cases(tier):
    out = [Case('ratio%+d%+d' % (a, b), ratio, 'any arguments in [-5, 5]', exp_split=True, sa=a, sb=b) for a in (1, -1) for b in (1, -1)]
    for s in SENS:
        out.append(Case('tran-' + s, tran, 'any frequency, wave number, direction, position, depth', exp_split=True, s=s, igam=1, bet=1))
    for s in (['p', 'u', 'w', 'z_p', 'n'] if tier == 'quick' else SENS):
        out.append(Case('down-' + s, tran, 'z positive downwards', exp_split=True, s=s, igam=2, bet=1))
        out.append(Case('floor-' + s, tran, 'z from the sea floor', exp_split=True, s=s, igam=3, bet=1))
    for s in (['n_x', 'v', 'n_xy', 'y_p'] if tier == 'quick' else SENS):
        out.append(Case('from-' + s, tran, 'directions from which waves come', exp_split=True, s=s, igam=1, bet=-1))
    for s in ('n_t', 'u', 'w_t', 'w'):
        out.append(Case('neg-' + s, tran, 'negative frequency', exp_split=True, s=s, igam=1, bet=1, wsign=-1))
    for s in ('n', 'n_x', 'n_y', 'n_xy', 'u', 'v_t'):
        out.append(Case('axes-' + s, tran, 'any orientation of the x and y axes', exp_split=True, s=s, igam=1, bet=1, rot=True))
    out.append(Case('default-k', default_k, 'deep water, any gravity'))
    out.append(Case('names', names, 'all 18 sensors'))
    out.append(Case('vector', vector, '2 frequencies, 2 directions', exp_split=True))
    return out
