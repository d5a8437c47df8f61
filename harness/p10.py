from vsym.runner import Case
from .common import tolist, ssum
PROPERTY = 'P10'
MODULES = ['wafo.misc', 'wafo.objects']
OUTSIDE = 'more cycles or levels than stated; values exactly half-way between levels for nearest-level projection; kernel smoothing methods'


def cmat(h, k, n, ddef, inside, rev):
    from wafo.objects import CyclePairs
    a = h.real('a', -10, 10)
    d = h.real('d', 0.125, 10)
    b = a + d * (n - 1)
    m, M = h.reals('m', k), h.reals('M', k)
    for i in range(k):
        h.assume(m[i] < M[i])
        if inside:
            h.assume(m[i] >= a)
            h.assume(M[i] <= b)
        if rev is not None:      # exact position: avoid knife edge rounding in the replay
            pass
    first, second = [], []
    for i in range(k):
        swapped = bool(rev and i == 0)
        first.append(M[i] if swapped else m[i])
        second.append(m[i] if swapped else M[i])
    dat, arg = h.arr(second), h.arr(first)
    u = [a + d * i for i in range(n)]
    for v in tolist(m) + tolist(M):
        for i in range(n - 1):
            if ddef == 0:
                q = v - (u[i] + u[i + 1]) / 2
                h.assume((q > 0.001 * d) | (q < -0.001 * d))
        if not h.sym:
            for w in u:
                h.assume(abs(v - w) > 1e-9 * (1 + abs(w) + abs(d)) or v == w)
    cm = CyclePairs(dat, arg, mean=0.0, sigma=1.0).cycle_matrix((a, b, n), ddef=ddef)
    F = cm.data
    h.check(F.shape == (n, n), 'matrix size')
    h.eq(ssum(tolist(F.ravel())), float(k), 'every cycle is counted once')
    h.eq(cm.args[0], h.arr(u), 'levels')

    def near(v, down):
        """index of the level v is projected to"""
        if ddef == 0:
            j = 0
            while j < n - 1 and bool(v > (u[j] + u[j + 1]) / 2):
                j += 1
            return j
        if down:
            j = 0
            while j < n - 2 and bool(v >= u[j + 1]):
                j += 1
            return j
        j = n - 1
        while j > 1 and bool(v <= u[j - 1]):
            j -= 1
        return j
    exp = {}
    for i in range(k):
        im, iM = near(m[i], ddef == 1), near(M[i], ddef == -1)
        c = (iM, im) if rev and i == 0 else (im, iM)
        exp[c] = exp.get(c, 0) + 1
    for i in range(n):
        for j in range(n):
            h.eq(F[i, j], float(exp.get((i, j), 0)), 'count in cell (%d, %d)' % (i, j))
    h.eq(arg, h.arr(first), 'cycles are not modified')
    h.eq(dat, h.arr(second), 'cycles are not modified')


def cases(tier):
    out = []
    th = tier == 'thorough'
    for ddef in (1, 0, -1):
        for inside in (True, False):
            out.append(Case('k1-%d-%s' % (ddef, 'in' if inside else 'any'), cmat, '1 cycle, 4 levels, any grid', k=1, n=4, ddef=ddef, inside=inside, rev=False))
        out.append(Case('rev-%d' % ddef, cmat, '2 cycles, the first stored as (max, min), 3 levels', k=2, n=3, ddef=ddef, inside=False, rev=True, max_paths=20000))
        out.append(Case('k2-%d' % ddef, cmat, '2 cycles, %d levels' % (4 if th else 3), k=2, n=4 if th else 3, ddef=ddef, inside=False, rev=False, max_paths=20000))
    return out
