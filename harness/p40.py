"""Link functions of the profile likelihood of quantiles and probabilities (wafo.stats.estimation)."""
from vsym.runner import Case
PROPERTY = 'P40'
MODULES = ['wafo.stats.estimation']
OUTSIDE = ('exponents other than the stated ones where the exponent is not the parameter asked for; parameters for which the documentation says the link is not implemented; '
           'rounding')
ASSUMPTIONS = ['exp, log, expm1 and log1p are the exact functions (uninterpreted apart from their algebra)']


def lk(h, dist, i, fixed=None, arr=False):
    """par[i] returned by the link gives the survival probability asked for at x"""
    from wafo.stats import estimation as e
    import numpy as np
    exp, log, expm1, log1p = np.exp, np.log, np.expm1, np.log1p
    f = e.LINKS[dist]
    x = h.real('x', 0.5, 20)
    logsf = h.real('logsf', -20, -0.01)
    loc = h.real('loc', -3, 0.25)
    scale = h.real('scale', 0.1, 10)
    call = lambda phat: f(x, logsf, np.array(phat, dtype=object) if False else (h.arr(phat) if arr else list(phat)), np.array([i]) if arr else i)
    one = lambda r: r[0] if arr and np.ndim(r) else r

    def put(*phat):
        phat = list(phat)
        r = one(call(phat))
        phat[i] = r
        return phat
    if dist == 'expon':
        loc, scale = put(loc, scale)
        h.eq((x - loc), -logsf * scale, 'survival', tol=1e-9)
    elif dist in ('weibull_min', 'frechet_r'):
        if i == 0:
            h.assume(h.any([(x - loc) / scale > 1.01, (x - loc) / scale < 0.99]))
            c, loc, scale = put(1.0, loc, scale)
            h.eq(c * log((x - loc) / scale), log(-logsf), 'survival', tol=1e-8)
        else:
            c, loc, scale = put(fixed, loc, scale)
            xn = (x - loc)
            if fixed < 1:
                h.eq(xn, scale * (-logsf) ** int(round(1 / fixed)), 'survival', tol=1e-8)
            else:
                h.eq(xn ** int(fixed), -logsf * scale ** int(fixed), 'survival', tol=1e-6)
            h.check(xn > 0, 'inside the support')
    elif dist == 'genpareto':
        c, loc, scale = put(h.real('c', -0.9, 0.9) if fixed is None else fixed, loc, scale)
        if fixed == 0.0:
            h.eq((x - loc), -logsf * scale, 'survival', tol=1e-9)
        else:
            h.assume(h.any([c > 0.05, c < -0.05]))
            h.eq(c * (x - loc), scale * expm1(-c * logsf), 'survival', tol=1e-8)
    elif dist == 'genextreme':
        L = log(-log(-expm1(logsf)))
        h.assume(h.any([L > 0.01, L < -0.01]))
        c, loc, scale = put(h.real('c', -0.9, 0.9) if fixed is None else fixed, loc, scale)
        if fixed == 0.0:
            h.eq((x - loc), -L * scale, 'survival', tol=1e-9)
        else:
            h.assume(h.any([c > 0.05, c < -0.05]))
            h.eq(c * (x - loc), -scale * expm1(c * L), 'survival', tol=1e-8)
    elif dist == 'gumbel_r':
        L = log(-log(-expm1(logsf)))
        h.assume(h.any([L > 0.01, L < -0.01]))
        loc, scale = put(loc, scale)
        h.eq((x - loc), -L * scale, 'survival', tol=1e-8)
    elif dist == 'rayleigh':
        loc, scale = put(loc, scale)
        h.eq((x - loc) ** 2, -2 * logsf * scale ** 2, 'survival', tol=1e-6)
        h.check(x - loc >= 0, 'inside the support')
        h.check(scale > 0, 'scale positive')
    elif dist == 'truncrayleigh':
        c, loc, scale = put(h.real('c', 0.1, 5), loc, scale)
        xn = x - loc
        h.eq(xn * xn + 2 * c * xn * scale, -2 * logsf * scale * scale, 'survival', tol=1e-6)
        h.check(xn >= 0, 'inside the support')
    elif dist == 'genexpon':
        a, b, c, loc, scale = put(h.real('a', 0.1, 3), h.real('b', 0.1, 3), h.real('c', 0.1, 3), loc, scale)
        xn = (x - loc) / scale
        h.assume(xn + expm1(-c * xn) / c > 0.01)
        h.eq((-a - b) * xn - b * expm1(-c * xn) / c, logsf, 'survival', tol=1e-7)
    elif dist == 'exponweib':
        LC = log(-expm1(logsf))
        xn0 = (x - loc) / scale
        if i == 0:
            h.assume(xn0 < 4)
            a, c, loc, scale = put(1.0, fixed, loc, scale)
            h.eq(a * log(-expm1(-xn0 ** int(fixed))), LC, 'survival', tol=1e-7)
        elif i == 1:
            h.assume(h.any([xn0 > 1.01, xn0 < 0.99]))
            a, c, loc, scale = put(h.real('a', 0.2, 5), 1.0, loc, scale)
            h.eq(c * log(xn0), log(-log1p(-exp(LC / a))), 'survival', tol=1e-7)
        else:
            a, c, loc, scale = put(h.real('a', 0.2, 5), fixed, loc, scale)
            Y = -log1p(-exp(LC / a))
            h.assume(Y > 1e-3)
            h.eq((x - loc) ** int(fixed), Y * scale ** int(fixed), 'survival', tol=1e-6)
            h.check(x - loc > 0, 'inside the support')
    elif dist == 'burr':
        LC = log(-expm1(logsf))
        xn0 = (x - loc) / scale
        if i == 1:
            c, d, loc, scale = put(fixed, 1.0, loc, scale)
            h.eq(d * log1p(xn0 ** -int(fixed)), -LC, 'survival', tol=1e-7)
        elif i == 0:
            h.assume(h.any([xn0 > 1.01, xn0 < 0.99]))
            c, d, loc, scale = put(1.0, h.real('d', 0.2, 5), loc, scale)
            h.eq(-c * log(xn0), log(expm1(-LC / d)), 'survival', tol=1e-7)
        else:
            c, d, loc, scale = put(fixed, h.real('d', 0.2, 5), loc, scale)
            Y = expm1(-LC / d)
            h.assume(Y > 1e-3)
            h.eq(fixed * log((x - loc) / scale), -log(Y), 'survival', tol=1e-6)
            h.check(x - loc > 0, 'inside the support')


NPAR = dict(expon=2, weibull_min=3, frechet_r=3, genpareto=3, genextreme=3, gumbel_r=2, rayleigh=2, truncrayleigh=3, genexpon=5, exponweib=4, burr=4)


def bad(h, dist):
    """an index out of range and a link that is not implemented are refused"""
    from wafo.stats import estimation as e
    n = NPAR[dist]
    phat = [h.real('p%d' % k, 0.5, 2) for k in range(n)]
    x, logsf = h.real('x', 5, 20), h.real('logsf', -5, -0.5)
    f = e.LINKS[dist]
    for i in (n, n + 3, -1):
        h.raises(IndexError, lambda: f(x, logsf, phat, i), 'index %d' % i)
    for i in {'genpareto': [0], 'genextreme': [0], 'genexpon': [2, 3, 4]}.get(dist, []):
        h.raises(NotImplementedError, lambda: f(x, logsf, phat, i), 'not implemented for %d' % i)


def names(h):
    """every link belongs to a distribution of that name"""
    from wafo.stats import estimation as e
    for n in NPAR:
        h.check(n in e.LINKS, 'link of %s' % n)


def cases(tier):
    out = [Case('names', names, 'the table of links')]
    for d, n in sorted(NPAR.items()):
        out.append(Case('bad-' + d, bad, 'every value', dist=d))
        for i in range(n):
            if (d, i) in (('genpareto', 0), ('genextreme', 0), ('genexpon', 2), ('genexpon', 3), ('genexpon', 4)):
                continue
            fx = [None]
            if d in ('weibull_min', 'frechet_r') and i > 0:
                fx = [1.0, 2.0, 0.5]
            elif d in ('genpareto', 'genextreme'):
                fx = [None, 0.0]
            elif (d, i) in (('exponweib', 0), ('burr', 1)) or d in ('exponweib', 'burr') and i > 1:
                fx = [1.0, 2.0]
            for f in fx:
                out.append(Case('%s-%d%s' % (d, i, '' if f is None else '-%g' % f), lk, 'every x, probability and parameter', dist=d, i=i, fixed=f))
            out.append(Case('%s-%d-array' % (d, i), lk, 'parameters and index as arrays', dist=d, i=i, fixed=fx[0], arr=True))
    return out
