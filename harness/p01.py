from vsym.runner import Case
from vsym.cinterp import clib
from .common import tolist
import numpy as np
PROPERTY = 'P01'
MODULES = ['wafo.misc']
OUTSIDE = 'sequences longer than the stated bound; NaN samples'


def prepare(sym):
    import wafo.misc as wm
    wm.clib = None


def expected(h, s):
    """indices of the level crossings of a sign sequence (concrete -1/0/1 on this path)"""
    out = []
    last = 0
    for i in range(len(s) - 1):
        if s[i] != 0:
            last = s[i]
        if s[i + 1] != 0 and s[i + 1] != last:
            out.append((i, s[i + 1]))
    return out


def sgn(d):
    if d > 0:
        return 1
    if d < 0:
        return -1
    return 0


def wave(cr, kind):
    down = kind in ('dw', 'tw')
    if cr and (cr[0][1] < 0) != down:
        cr = cr[1:]
    odd = kind in ('dw', 'uw')
    if cr and (len(cr) % 2 == 1) != odd:
        cr = cr[:-1]
    return cr


def cross(h, n, kind, symv, impl='python'):
    import wafo.misc as wm
    from wafo.misc import findcross
    wm.clib = clib(h) if impl == 'c' else None
    x = h.reals('x', n)
    v = h.real('v') if symv else 0.0
    ind = findcross(x, v, kind) if symv or kind else findcross(x)
    cr = expected(h, [sgn(x[i] - v) for i in range(n)])
    if kind == 'u':
        cr = [c for c in cr if c[1] > 0]
    elif kind == 'd':
        cr = [c for c in cr if c[1] < 0]
    elif kind in ('dw', 'uw', 'tw', 'cw'):
        cr = wave(cr, kind)
    got = [int(i) for i in tolist(ind)]
    h.check(got == [c[0] for c in cr], 'crossings %r, expected %r' % (got, [c[0] for c in cr]))


def interp(h, n):
    from wafo.misc import findcross, ecross
    x = h.reals('x', n)
    t = h.reals('t', n)
    v = h.real('v')
    for i in range(n - 1):
        h.assume(t[i] < t[i + 1])
    ind = findcross(x, v)
    if len(ind) == 0:
        return
    t0 = ecross(t, x, ind, v)
    h.check(len(t0) == len(ind), 'one time per crossing')
    for k, i in enumerate(tolist(ind)):
        i = int(i)
        h.le(t[i], t0[k], 'crossing time after sample i')
        h.le(t0[k], t[i + 1], 'crossing time before sample i+1')
        h.eq((t0[k] - t[i]) * (x[i + 1] - x[i]), (v - x[i]) * (t[i + 1] - t[i]), 'linear interpolation')


def cases(tier):
    N = 6 if tier == 'quick' else 8
    out = []
    for n in range(2, N + 1):
        for kind in (None, 'u', 'd', 'dw', 'uw', 'tw', 'cw'):
            if n < 4 and kind not in (None, 'u', 'd', 'dw'):
                continue
            out.append(Case('%s-n%d' % (kind or 'all', n), cross, 'n=%d samples, any real values, level %s' % (n, 'any real' if n <= 4 else '0'),
                            n=n, kind=kind, symv=n <= 4, max_paths=20000, budget=400))
    for n in range(2, N + 1):
        for kind in (None, 'd', 'tw'):
            if n < 4 and kind:
                continue
            out.append(Case('C-%s-n%d' % (kind or 'all', n), cross, 'n=%d samples, any real values, level %s; C routine' % (n, 'any real' if n <= 4 else '0'),
                            n=n, kind=kind, symv=n <= 4, impl='c', max_paths=20000, budget=400))
    for n in (2, 3, 4):
        out.append(Case('ecross-n%d' % n, interp, 'n=%d samples, any increasing times' % n, n=n))
    return out
