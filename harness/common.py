"""oracles shared by the harnesses (work on floats and on symbolic values)"""
import numpy as np


def horner(p, x):
    """value of the polynomial with coefficients p (highest power first)"""
    y = 0.0
    for c in list(p):
        y = y * x + c
    return y


def either(h, val, right, wrong, label, tol=0.0):
    """val is the right value or the one the listed finding describes"""
    h.check(h.any([h.all([val <= e + tol, e <= val + tol]) for e in (right, wrong)]), label + ': right or as listed')


def tolist(a):
    return np.asarray(a).view(np.ndarray).tolist() if isinstance(a, np.ndarray) else list(a)


def ssum(seq):
    r = 0.0
    for v in seq:
        r = r + v
    return r


class normals(object):
    """within the block, the random number generator's standard normal draws are the given arrays, in order"""
    NAMES = ('randn', 'standard_normal', 'normal')

    def __init__(self, draws):
        self.draws = list(draws)
        self.undo = []

    def _next(self, shape):
        if not self.draws:
            raise AssertionError('more random numbers drawn than expected')
        d = self.draws.pop(0)
        if tuple(shape) != tuple(d.shape):
            raise AssertionError('drew %s, expected %s' % (tuple(shape), tuple(d.shape)))
        return np.array(d)

    def __enter__(self):
        import sys
        import numpy.random as rnd

        def randn(*shape):
            return self._next(shape)

        def standard_normal(size=None):
            return self._next(size if isinstance(size, tuple) else (size,))

        def normal(loc=0.0, scale=1.0, size=None):
            return loc + scale * standard_normal(size)
        fake = dict(randn=randn, standard_normal=standard_normal, normal=normal)
        orig = {n: getattr(rnd, n) for n in self.NAMES}
        targets = [rnd] + [m for k, m in list(sys.modules.items()) if k.startswith('wafo.') and m is not None]
        for m in targets:
            for n in list(vars(m)):
                for o in self.NAMES:
                    if m is rnd and n != o:
                        continue
                    v = vars(m)[n]
                    if v is orig[o] or (getattr(v, '__name__', None) == o and getattr(v, '__self__', None) is getattr(orig[o], '__self__', 0)):
                        self.undo.append((m, n, v))
                        setattr(m, n, fake[o])
                        break
        return self

    def __exit__(self, *a):
        for m, n, v in reversed(self.undo):
            setattr(m, n, v)
        self.undo = []


def root(h, x):
    """square root of a nonnegative value"""
    if h.sym:
        from vsym import core
        return core.sqrt_(x)
    return float(x) ** 0.5
