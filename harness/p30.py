from vsym.runner import Case
from .common import tolist
PROPERTY = 'P30'
MODULES = ['wafo.bitwise']
OUTSIDE = 'integers of more than 64 bits, bit 63'


def word(h, name, lo=None, hi=None):
    w = h.word(name)
    if lo is not None:
        h.assume(w >= lo)
    if hi is not None:
        h.assume(w <= hi)
    return w


def oracle(w, b):
    """bit b of the two's complement representation"""
    return (w >> b) & 1


def arr(h, ws):
    import numpy as np
    return h.arr(ws) if h.sym else np.array(ws, dtype=np.int64)


def get(h, vec):
    from wafo.bitwise import getbit
    i, b = word(h, 'i'), word(h, 'b', 0, 62)
    if vec == 'scalar':
        r = [getbit(i, b)]
        e = [oracle(i, b)]
    elif vec == 'bits':
        c = word(h, 'c', 0, 62)
        r = tolist(getbit(i, arr(h, [b, c])))
        e = [oracle(i, b), oracle(i, c)]
    elif vec == 'words':
        j = word(h, 'j')
        r = tolist(getbit(arr(h, [i, j]), b))
        e = [oracle(i, b), oracle(j, b)]
    else:
        j, c = word(h, 'j'), word(h, 'c', 0, 62)
        r = tolist(getbit(arr(h, [i, j]), arr(h, [b, c])))
        e = [oracle(i, b), oracle(j, c)]
    h.check(len(r) == len(e), 'one bit per element')
    for x, y in zip(r, e):
        h.check(x == y, 'value of the bit')


def set_(h, vec, value):
    from wafo.bitwise import setbit, getbit
    i, b = word(h, 'i'), word(h, 'b', 0, 62)
    v = {'1': 1, '0': 0, 'default': None, 'any': word(h, 'v', -5, 5)}[value]
    kw = {} if v is None else dict(value=v)
    on = True if v is None else (v != 0)
    pos = word(h, 'p', 0, 63)        # any bit position to look at
    ii, bb, ws = i, b, [(i, b)]
    if vec == 'words':
        j = word(h, 'j')
        ii, ws = arr(h, [i, j]), [(i, b), (j, b)]
    elif vec == 'bits':
        c = word(h, 'c', 0, 62)
        bb, ws = arr(h, [b, c]), [(i, b), (i, c)]
    r = setbit(ii, bb, **kw)
    r = tolist(r) if getattr(r, 'ndim', 0) else [r.item() if hasattr(r, 'item') else r]
    h.check(len(r) == len(ws), 'one word per element')
    for x, (w, q) in zip(r, ws):
        if not h.sym:
            x, w = int(x), int(w)
        h.check(h.any([q == pos, oracle(x, pos) == oracle(w, pos)]), 'other bits are kept')
        h.check(oracle(x, q) == h.ite(on, 1, 0), 'the bit has the requested value')
        h.check(getbit(x, q) == h.ite(on, 1, 0), 'reading back the bit')
    if vec == 'words':
        h.check(h.all([tolist(ii)[0] == i, tolist(ii)[1] == ws[1][0]]), 'the words passed are not modified')


def bits(h, n):
    from wafo.bitwise import getbits, setbits
    i = word(h, 'i')
    r = tolist(getbits(i, n))
    h.check(len(r) == n, 'number of bits')
    for k in range(n):
        h.check(r[k] == oracle(i, k), 'bit %d' % k)
    mask = (1 << n) - 1
    h.check(setbits(r if h.sym else [int(v) for v in r]) == (i & mask), 'bits to word')


def default_bits(h):
    from wafo.bitwise import getbits
    i = word(h, 'i')
    r = tolist(getbits(i))
    h.check(len(r) == 8, 'eight bits by default')
    for k in range(8):
        h.check(r[k] == oracle(i, k), 'bit %d' % k)


def compose(h, n):
    from wafo.bitwise import getbits, setbits
    b = [word(h, 'b%d' % k, 0, 1) for k in range(n)]
    w = setbits(b)
    r = tolist(getbits(w, n))
    for k in range(n):
        h.check(r[k] == b[k], 'bit %d' % k)
    h.check((w >> n) == 0, 'no other bit')


def cases(tier):
    out = [Case('get-' + v, get, 'any 64-bit word, bits 0..62', vec=v) for v in ('scalar', 'bits', 'words', 'both')]
    for v in ('scalar', 'words', 'bits'):
        for val in ('1', '0', 'default', 'any'):
            out.append(Case('set-%s-%s' % (v, val), set_, 'any 64-bit word, bits 0..62', vec=v, value=val))
    for n in ((1, 8, 16, 40) if tier == 'quick' else (1, 2, 8, 16, 33, 62)):
        out.append(Case('bits-%d' % n, bits, '%d bits' % n, n=n))
        out.append(Case('compose-%d' % n, compose, '%d bits' % n, n=n))
    out.append(Case('bits-default', default_bits, '8 bits'))
    return out
