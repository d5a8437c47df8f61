"""Harness API, path loop, queries, replay and evidence.

A harness module harness/pXX.py defines
    PROPERTY, MODULES (wafo modules to load), cases(tier) -> [Case]
A case function `fn(h, **params)` runs the real code on values drawn from `h` and states the
property with h.check / h.eq.  The same function is used symbolically (h.sym) and, for the replay
of a solver model, on plain numpy floats in an unpatched process (not h.sym).
"""
import importlib
import json
import math
import multiprocessing as mp
import os
import random
import subprocess
import sys
import tempfile
import time
import traceback
from fractions import Fraction

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
PY = '/opt/venv/bin/python'
OUTDIR = os.path.join(ROOT, 'evidence', 'replay')


class Case:
    def __init__(self, name, fn, bounds='', max_paths=4000, timeout=20.0, fork_ms=4000, budget=300.0,
                 witnesses=6, tol=1e-6, exp_split=False, trig_range=False, **params):
        self.name, self.fn, self.bounds, self.params = name, fn, bounds, params
        self.max_paths, self.timeout, self.fork_ms = max_paths, timeout, fork_ms
        self.budget, self.witnesses, self.tol = budget, witnesses, tol
        self.exp_split = exp_split
        self.trig_range = trig_range


class AssumeFailed(Exception):
    pass


class Mismatch(Exception):
    """concrete replay: the property fails"""


class Inconclusive(Exception):
    pass


# ====================================================================== concrete harness
class ConcreteH:
    sym = False

    def __init__(self, case, values):
        self.case, self.values = case, values
        self.used = {}

    def _get(self, name, default=0):
        return self.values.get(name, default)

    def real(self, name, lo=None, hi=None, **k):
        return float(self._get(name, 0.0))

    def int(self, name, lo=None, hi=None):
        return int(self._get(name, lo or 0))

    def choice(self, name, n):
        return int(self._get(name, 0))

    def bool(self, name):
        return bool(self._get(name, False))

    def word(self, name):
        return int(self._get(name, 0))

    def reals(self, name, shape, lo=None, hi=None, **k):
        import numpy as np
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        a = np.empty(shape, dtype=float)
        for i in np.ndindex(*shape):
            a[i] = self.real('%s_%s' % (name, '_'.join(map(str, i))), lo, hi)
        return a

    def ints(self, name, n, lo=None, hi=None):
        import numpy as np
        return np.array([self.int('%s_%d' % (name, i), lo, hi) for i in range(n)], dtype=int)

    def arr(self, lst):
        import numpy as np
        return np.array(lst, dtype=float)

    def assume(self, c, why=''):
        if not c:
            raise AssumeFailed(why)

    def check(self, c, label):
        if not _truth(c):
            raise Mismatch(label)

    def eq(self, a, b, label, tol=None, rel=True):
        import numpy as np
        tol = self.case.tol if tol is None else tol
        a = np.asarray(a, dtype=complex if np.iscomplexobj(a) else float)
        b = np.asarray(b, dtype=complex if np.iscomplexobj(b) else float)
        if a.shape != b.shape:
            raise Mismatch('%s: shapes %s != %s' % (label, a.shape, b.shape))
        with np.errstate(all='ignore'):
            s = np.maximum(1.0, np.maximum(np.abs(a), np.abs(b))) if rel else 1.0
            bad = ~((np.abs(a - b) <= tol * s) | (a == b) | ((a != a) & (b != b)))
        if bad.any():
            i = tuple(int(v) for v in np.argwhere(bad)[0])
            raise Mismatch('%s%s: got %r, expected %r' % (label, list(i) if i else '', a[i].item(), b[i].item()))

    def le(self, a, b, label, tol=None):
        tol = self.case.tol if tol is None else tol
        import numpy as np
        a, b = np.asarray(a, float), np.asarray(b, float)
        s = np.maximum(1.0, np.maximum(np.abs(a), np.abs(b)))
        bad = ~(a <= b + tol * s)
        if bad.any():
            raise Mismatch('%s: %r > %r' % (label, np.broadcast_to(a, bad.shape)[bad][0], np.broadcast_to(b, bad.shape)[bad][0]))

    def lt(self, a, b, label):
        self.le(a, b, label)

    def ite(self, c, a, b):
        return a if c else b

    def all(self, seq):
        return all(bool(v) for v in seq)

    def any(self, seq):
        return any(bool(v) for v in seq)

    def known(self, fid, cond=None):
        """region of the listed finding `fid`: excluded while it is listed"""
        if fid in self.case.known:
            if cond is None or cond:
                raise AssumeFailed('known finding ' + fid)

    def raises(self, exc, f, label):
        try:
            f()
        except exc:
            return
        raise Mismatch(label + ': no exception')

    def note(self, *a):
        pass


def _truth(c):
    import numpy as np
    if isinstance(c, np.ndarray):
        return bool(c.all())
    return bool(c)


# ====================================================================== symbolic harness
class SymH:
    sym = True

    def __init__(self, case, C, np_, ctx, report):
        self.case, self.C, self.ctx = case, C, ctx
        self.nparr = np_
        self.report = report      # dict collecting results
        self.z3 = C.z3

    # -- inputs
    def real(self, name, lo=None, hi=None, strict=False):
        z3 = self.z3
        v = z3.Real(name)
        self.ctx.inputs[name] = v
        if lo is not None:
            self.ctx.add(v > self.C.rv(lo) if strict else v >= self.C.rv(lo))
        if hi is not None:
            self.ctx.add(v < self.C.rv(hi) if strict else v <= self.C.rv(hi))
        self.ctx.bnd[name] = self.C.bounds(lo, hi)
        return self.C.SR(v)

    def int(self, name, lo=None, hi=None):
        v = self.z3.Int(name)
        self.ctx.inputs[name] = v
        if lo is not None:
            self.ctx.add(v >= lo)
        if hi is not None:
            self.ctx.add(v <= hi)
        self.ctx.bnd[name] = self.C.bounds(lo, hi)
        return self.C.SR(v)

    def choice(self, name, n):
        """an integer 0..n-1 that is enumerated by forking"""
        return self.ctx.concretize_int(self.int(name, 0, n - 1).e)

    def bool(self, name):
        v = self.z3.Bool(name)
        self.ctx.inputs[name] = v
        return self.C.SB(v)

    def word(self, name):
        v = self.z3.BitVec(name, 64)
        self.ctx.inputs[name] = v
        return self.C.SBV(v)

    def reals(self, name, shape, lo=None, hi=None, strict=False):
        import numpy as np
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        a = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            a[i] = self.real('%s_%s' % (name, '_'.join(map(str, i))), lo, hi, strict)
        return a.view(self.nparr.SymArray)

    def ints(self, name, n, lo=None, hi=None):
        return self.nparr.mkarr([self.int('%s_%d' % (name, i), lo, hi) for i in range(n)])

    def arr(self, lst):
        return self.nparr.mkarr(lst)

    # -- logic
    def _bx(self, c):
        import numpy as np
        z3 = self.z3
        if isinstance(c, np.ndarray):
            return z3.And([self.C.bexpr(v) for v in c.view(np.ndarray).ravel().tolist()] or [z3.BoolVal(True)])
        return self.C.bexpr(c)

    def assume(self, c, why=''):
        z3 = self.z3
        e = z3.simplify(self._bx(c))
        if z3.is_true(e):
            return
        self.ctx.add(e)
        if z3.is_false(e) or self.ctx.check() == z3.unsat:
            raise self.C.PathAbort()

    def ite(self, c, a, b):
        return self.C.ite(c, a, b)

    def all(self, seq):
        z3 = self.z3
        return self.C.mkb(z3.simplify(z3.And([self._bx(v) for v in seq] + [z3.BoolVal(True)])))

    def any(self, seq):
        z3 = self.z3
        return self.C.mkb(z3.simplify(z3.Or([self._bx(v) for v in seq] + [z3.BoolVal(False)])))

    def known(self, fid, cond=None):
        if fid in self.case.known:
            self.report['known_hit'] = True
            if cond is None:
                raise self.C.PathAbort()
            z3 = self.z3
            self.assume(self.C.mkb(z3.simplify(z3.Not(self._bx(cond)))))

    def raises(self, exc, f, label):
        try:
            f()
        except exc:
            self.report['obligations'] += 1
            self.report['discharged'] += 1
            return
        self._query(self.z3.BoolVal(True), label + ': no exception')

    def note(self, *a):
        pass

    # -- obligations
    def check(self, c, label):
        z3 = self.z3
        self._query(z3.simplify(z3.Not(self._bx(c))), label)

    def le(self, a, b, label, tol=None):
        """a <= b (margin tol for the refutation)"""
        import numpy as np
        aa, bb = np.broadcast_arrays(self.nparr._asobj(a), self.nparr._asobj(b))
        neg, marg = [], []
        z3, C = self.z3, self.C
        t = C.rv(self.case.tol if tol is None else tol)
        for x, y in zip(aa.ravel().tolist(), bb.ravel().tolist()):
            if not C.is_sym(x) and not C.is_sym(y):
                if not x <= y + 1e-9 * max(1, abs(x), abs(y)):
                    neg.append(z3.BoolVal(True))
                    marg.append(z3.BoolVal(True))
                continue
            if C.nonfinite(x) or C.nonfinite(y):
                r = x <= y
                e = z3.Not(self._bx(r))
                neg.append(e)
                marg.append(e)
                continue
            ex, ey = C.rexpr(x), C.rexpr(y)
            neg.append(ex > ey)
            marg.append(ex > ey + t)
        if not neg:
            self._ok()
            return
        self._query(z3.simplify(z3.Or(neg)), label, z3.Or(marg))

    def lt(self, a, b, label):
        self.check(self.nparr.mkarr(a) < b if isinstance(a, (list, tuple)) else a < b, label)

    def _ok(self, n=1):
        self.report['obligations'] += n
        self.report['discharged'] += n

    def eq(self, a, b, label, tol=None, rel=True):
        import numpy as np
        z3, C = self.z3, self.C
        aa, bb = self.nparr._asobj(a), self.nparr._asobj(b)
        if aa.shape != bb.shape:
            self._query(z3.BoolVal(True), '%s: shapes %s != %s' % (label, aa.shape, bb.shape))
            return
        t = C.rv(self.case.tol if tol is None else tol)
        for i in np.ndindex(*aa.shape):
            self._eq1(aa[i], bb[i], label + (str(list(i)) if i else ''), t)

    def _eq1(self, x, y, label, t):
        z3, C = self.z3, self.C
        if isinstance(x, (C.SC, complex)) or isinstance(y, (C.SC, complex)):
            x, y = C.SC.of(x), C.SC.of(y)
            self._eq1(x.re, y.re, label + '.re', t)
            self._eq1(x.im, y.im, label + '.im', t)
            return
        if isinstance(x, C.SBV) or isinstance(y, C.SBV):
            self._query(z3.simplify(C.SBV.of(x).e != C.SBV.of(y).e), label)
            return
        if isinstance(x, (bool,)) and isinstance(y, C.SB) or isinstance(x, C.SB) and isinstance(y, (bool, C.SB)):
            self._query(z3.simplify(C.bexpr(x) != C.bexpr(y)), label)
            return
        if not C.is_sym(x) and not C.is_sym(y):
            x, y = float(x), float(y)
            if x == y or (x != x and y != y) or abs(x - y) <= max(1e-9, float(t.as_fraction())) * max(1.0, abs(x), abs(y)):
                self._ok()
            else:
                self._query(z3.BoolVal(True), '%s: got %r, expected %r' % (label, x, y))
            return
        if C.nonfinite(x) or C.nonfinite(y):
            self._query(z3.BoolVal(True), '%s: got %r, expected %r' % (label, x, y))
            return
        ex, ey = C.rexpr(x), C.rexpr(y)
        d = z3.simplify(ex - ey, som=True)
        if z3.is_rational_value(d) and d.numerator_as_long() == 0:
            self._ok()
            self.report['by_rewriting'] += 1
            return
        if self.ctx.roots:
            d = reduce_roots(z3, self.ctx.roots, d)
        if equal_up_to_rounded_constants(z3, ex, ey):
            self._ok()
            self.report['by_rewriting'] += 1
            return
        if small_by_bounds(z3, C, d, t):
            self._ok()
            self.report['by_rewriting'] += 1
            return
        exact = d != 0
        num = clear_denominators(z3, ex - ey)
        if num is not None:
            # denominators are nonzero on this path (divisions fork on a zero divisor)
            num = z3.simplify(num, som=True, som_blowup=200)
            if z3.is_rational_value(num) and num.numerator_as_long() == 0:
                self._ok()
                self.report['by_rewriting'] += 1
                return
            both = clear_denominators(z3, z3.simplify(ex), other=z3.simplify(ey))
            if both is not None and equal_up_to_rounded_constants(z3, *both):
                self._ok()
                self.report['by_rewriting'] += 1
                return
            exact = num != 0
        self._query(exact, label, z3.Or(d > t, d < -t))

    # -- solving
    def _query(self, neg, label, margin=None):
        rep, z3, C, ctx = self.report, self.z3, self.C, self.ctx
        rep['obligations'] += 1
        if z3.is_false(neg):
            rep['discharged'] += 1
            rep['by_rewriting'] += 1
            return
        first = min(self.case.timeout, 5.0) if margin is not None else self.case.timeout
        r, m = self._solve(neg, first)
        if r == 'unsat':
            rep['discharged'] += 1
            return
        goal = neg
        if margin is not None:
            r, m2 = self._solve(margin, self.case.timeout)
            if r == 'unsat':
                rep['discharged'] += 1
                rep['by_margin'] += 1
                return
            if r == 'sat':
                m, goal = m2, margin
        if r == 'unknown' and m is None:
            self.unknown(label, goal)
            return
        self.refute(goal, label, m)

    def unknown(self, label, goal):
        """solver gave up: no verdict for this obligation"""
        self.report['undecided'].append('solver: unknown for %r' % label)
        for v in self.alternatives(goal, 0):
            self.report['candidates'].append((self.case.name, label, v))

    def refute(self, goal, label, m):
        """a solver counterexample: to be replayed against the real code"""
        cands = []
        nice = self.nice_model(goal)
        if nice is not None:
            cands.append(nice)
        if m is not None:
            cands.append(self.values(m))
        cands += self.alternatives(goal, 3, m)
        for v in cands:
            self.report['candidates'].append((self.case.name, label, v))
        self.report['refuted'].append((label, cands))
        raise C_Violation(label)

    def values(self, m):
        z3 = self.z3
        out = {}
        for n, v in self.ctx.inputs.items():
            e = m.eval(v, model_completion=True)
            if z3.is_bv(v):
                out[n] = e.as_signed_long()
            elif z3.is_bool(v):
                out[n] = z3.is_true(e)
            elif z3.is_int(v):
                out[n] = e.as_long()
            elif z3.is_rational_value(e):
                out[n] = float(Fraction(e.numerator_as_long(), e.denominator_as_long()))
            elif z3.is_algebraic_value(e):
                a = e.approx(20)
                out[n] = float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
            else:
                out[n] = 0.0
        return out

    def nice_model(self, goal, ms=3000):
        """a model whose real inputs are multiples of 1/8 of moderate size, if there is one"""
        z3 = self.z3
        s = z3.Solver()
        s.set('timeout', ms)
        s.add(self.ctx.pc)
        s.add(self.ctx.axioms)
        s.add(goal)
        rs = [v for v in self.ctx.inputs.values() if z3.is_real(v)]
        if not rs:
            return None
        for v in rs:
            k = z3.Int('nice!' + str(v))
            s.add(v * 8 == z3.ToReal(k), k >= -800, k <= 800)
        t = time.time()
        r = s.check()
        self.ctx.queries += 1
        self.ctx.solver_time += time.time() - t
        return self.values(s.model()) if r == z3.sat else None

    def alternatives(self, goal, n, m=None):
        z3 = self.z3
        out = []
        for k in range(n):
            s = z3.Solver()
            s.set('timeout', 3000)
            s.set('random_seed', 17 * k + 1)
            s.add(self.ctx.pc)
            s.add(self.ctx.axioms)
            s.add(goal)
            rs = [v for v in self.ctx.inputs.values() if z3.is_real(v)]
            B = [2, 10, 1][k % 3]
            for v in rs:
                s.add(v <= B, v >= -B)
            t = time.time()
            r = s.check()
            self.ctx.queries += 1
            self.ctx.solver_time += time.time() - t
            if r == z3.sat:
                out.append(self.values(s.model()))
        return out

    def _solve(self, neg, timeout):
        z3, ctx = self.z3, self.ctx
        t0 = time.time()
        if z3.is_true(neg):
            r = ctx.solver.check()
            m = ctx.solver.model() if r == z3.sat else None
            ctx.queries += 1
            ctx.solver_time += time.time() - t0
            return str(r), m
        stages = [('inc', min(2.0, timeout)), ('abs', timeout / 2), ('fresh', timeout / 2), ('abs', timeout)]
        nl = None
        res = ('unknown', None)
        for kind, to in stages:
            left = self.ctx.deadline - time.time() if self.ctx.deadline else 1e9
            if left <= 0:
                raise self.C.PathLimit('time budget exhausted')
            to = max(0.2, min(to, left))
            t = time.time()
            ctx.queries += 1
            if kind == 'inc':
                ctx.solver.push()
                ctx.solver.set('timeout', int(to * 1000))
                ctx.solver.add(neg)
                r = ctx.solver.check()
                m = ctx.solver.model() if r == z3.sat else None
                ctx.solver.pop()
                ctx.solver.set('timeout', self.case.fork_ms)
            elif kind == 'fresh':
                s = z3.Solver()
                s.set('timeout', int(to * 1000))
                s.add(ctx.pc)
                s.add(ctx.axioms)
                s.add(neg)
                r = s.check()
                m = s.model() if r == z3.sat else None
            else:
                if nl is None:
                    nl = abstract_ufs(z3, ctx.pc + ctx.axioms + [neg])
                s = z3.Tactic('qfnra-nlsat').solver() if nl[1] else z3.SolverFor('QF_NRA')
                s.set('timeout', int(to * 1000))
                try:
                    s.add(nl[0])
                    r = s.check()
                    m = s.model() if r == z3.sat else None
                except z3.Z3Exception:
                    r, m = z3.unknown, None
            ctx.solver_time += time.time() - t
            if r == z3.unsat:
                return 'unsat', None
            if r == z3.sat:
                return 'sat', m
        return res


def _monomials(z3, e):
    e = z3.simplify(e, som=True, som_blowup=10000)
    out = {}
    stack = [e]
    while stack:
        t = stack.pop()
        if z3.is_add(t):
            stack.extend(t.children())
            continue
        c, rest = Fraction(1), []
        if z3.is_rational_value(t):
            c = t.as_fraction()
        elif z3.is_mul(t):
            for ch in t.children():
                if z3.is_rational_value(ch):
                    c *= ch.as_fraction()
                else:
                    rest.append(ch)
        else:
            rest = [t]
        k = tuple(sorted(r.get_id() for r in rest))
        out[k] = (out.get(k, (0, None))[0] + c, rest)
    return out


def reduce_roots(z3, roots, d):
    """replace squares of square roots by their radicands"""
    for _ in range(8):
        terms, changed = [], False
        for c, rest in _monomials(z3, d).values():
            left, got = [], {}
            for f in rest:
                i = f.get_id()
                if i in roots:
                    got[i] = got.get(i, 0) + 1
                else:
                    left.append(f)
            for i, n in got.items():
                if n >= 2:
                    changed = True
                left += [roots[i][1]] * (n // 2) + [roots[i][0]] * (n % 2)
            t = z3.RealVal(str(c))
            for f in left:
                t = t * f
            terms.append(t)
        if not changed:
            return d
        d = z3.simplify(z3.Sum(terms), som=True, som_blowup=10000)
    return d


def small_by_bounds(z3, C, d, t):
    """|d| <= t because the expanded polynomial is that small whatever its factors are within their bounds"""
    tol = float(t.as_fraction())
    tot = 0.0
    for c, rest in _monomials(z3, d).values():
        v = abs(float(c))
        for f in rest:
            lo, hi = C.ival(f)
            v *= max(abs(lo), abs(hi))
        tot += v * (1 + 1e-9)
        if not tot <= tol:
            return False
    return True


def equal_up_to_rounded_constants(z3, x, y):
    """same monomials with coefficients that agree to 12 digits: the constants of two float computations"""
    a, b = _monomials(z3, x), _monomials(z3, y)
    big = max([abs(v[0]) for v in a.values()] + [abs(v[0]) for v in b.values()] or [0])
    if not big:
        return False
    for k in set(a) | set(b):
        u, v = a.get(k, (0, None))[0], b.get(k, (0, None))[0]
        if abs(u - v) > Fraction(1, 10**12) * max(abs(u), abs(v)) and max(abs(u), abs(v)) > big * Fraction(1, 10**15):
            return False
    return True


def clear_denominators(z3, e, limit=4000, other=None):
    """numerator of e over a common denominator; None when e has no division (with other: both numerators over the common denominator)"""
    has = [False]
    cache = {}
    cnt = [0]

    def mul(fs):
        fs = [f for f in fs if not (z3.is_rational_value(f) and f.eq(z3.RealVal(1)))]
        return z3.RealVal(1) if not fs else (fs[0] if len(fs) == 1 else z3.Product(fs))

    def lcm(ds):
        out = {}
        for d in ds:
            for k, (f, n) in d.items():
                if k not in out or out[k][1] < n:
                    out[k] = (f, n)
        return out

    def cof(l, d):
        fs = []
        for k, (f, n) in l.items():
            m = n - (d[k][1] if k in d else 0)
            fs += [f] * m
        return fs

    def dmul(a, b):
        out = dict(a)
        for k, (f, n) in b.items():
            out[k] = (f, n + (out[k][1] if k in out else 0))
        return out

    def walk(x):
        k = x.get_id()
        if k in cache:
            return cache[k][1]
        cnt[0] += 1
        if cnt[0] > limit:
            raise OverflowError
        if z3.is_add(x) or z3.is_sub(x):
            parts = [walk(c) for c in x.children()]
            l = lcm([d for _, d in parts])
            terms = []
            for i, (n, d) in enumerate(parts):
                t = mul([n] + cof(l, d))
                terms.append(-t if (z3.is_sub(x) and i) else t)
            r = (z3.Sum(terms), l)
        elif z3.is_mul(x):
            n, d = [], {}
            for c in x.children():
                a, b = walk(c)
                n.append(a)
                d = dmul(d, b)
            r = (mul(n), d)
        elif z3.is_div(x):
            a, da = walk(x.arg(0))
            b, db = walk(x.arg(1))
            if z3.is_rational_value(b):
                r = (mul([a / b] + cof(db, {})), da)
            else:
                has[0] = True
                bs = z3.simplify(b, som=True)
                r = (mul([a] + cof(db, {})), dmul(da, {bs.get_id(): (bs, 1)}))
        elif z3.is_app_of(x, z3.Z3_OP_UMINUS):
            a, da = walk(x.arg(0))
            r = (-a, da)
        else:
            r = (x, {})
        cache[k] = (x, r)
        return r
    try:
        if other is not None:
            (n, d), (m, f) = walk(e), walk(other)
            if not has[0]:
                return None
            l = lcm([d, f])
            return mul([n] + cof(l, d)), mul([m] + cof(l, f))
        n, d = walk(e)
    except OverflowError:
        return None
    return n if has[0] else None


def abstract_ufs(z3, fs):
    """replace uninterpreted applications by variables (sound for unsat)"""
    cache, table = {}, {}
    pure = True

    def walk(e):
        k = e.get_id()
        if k in cache:
            return cache[k][1]
        ch = [walk(c) for c in e.children()]
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.num_args() > 0:
            r = z3.Real('uf!%d' % len(table))
            table[k] = r
        elif ch:
            r = e.decl()(*ch) if not (z3.is_and(e) or z3.is_or(e) or z3.is_add(e) or z3.is_mul(e)) else (
                z3.And(ch) if z3.is_and(e) else z3.Or(ch) if z3.is_or(e) else z3.Sum(ch) if z3.is_add(e) else z3.Product(ch))
        else:
            r = e
        cache[k] = (e, r)
        return r
    out = [walk(f) for f in fs]
    for f in out:
        for v in _vars(z3, f):
            if z3.is_int(v) or z3.is_bool(v) or z3.is_bv(v):
                pure = False
    return out, pure


def _vars(z3, e, seen=None):
    st, seen, out = [e], set(), []
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(x)
        if z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_TO_INT, z3.Z3_OP_TO_REAL):
            out.append(z3.Int('x'))
        st.extend(x.children())
    return out


class C_Violation(BaseException):
    pass


# ====================================================================== symbolic process
def load_symbolic(hmod):
    os.environ['NUMBA_DISABLE_JIT'] = '1'
    os.environ.setdefault('MPLBACKEND', 'Agg')
    if SRC not in sys.path:
        sys.path.insert(0, SRC)
    import warnings
    warnings.simplefilter('ignore')
    from . import core as C, nparr as N
    for m in hmod.MODULES:
        importlib.import_module(m)
    if hasattr(hmod, 'prepare'):
        hmod.prepare(True)
    N.register_models()
    if hasattr(hmod, 'models'):
        hmod.models(C, N)
    skip = set(getattr(hmod, 'NOPATCH', ()))
    for name, m in sorted(sys.modules.items()):
        if (name == 'wafo' or name.startswith('wafo.')) and m is not None and name not in skip:
            N.patch_module(m)
    return C, N


def run_case(case, C, N):
    t0 = time.time()
    import numpy as np
    ctx = C.Ctx(max_paths=case.max_paths, fork_timeout=case.fork_ms, deadline=t0 + case.budget)
    C.Ctx.cur = ctx
    rep = dict(case=case.name, obligations=0, discharged=0, by_rewriting=0, by_margin=0, undecided=[], candidates=[],
               refuted=[], raised=[], witnesses=[], functions=set(), complete=0, aborted=0, bounds=case.bounds)
    h = SymH(case, C, N, ctx, rep)
    rnd = random.Random(int(os.environ.get('VERIF_SEED', '1') or 1))
    fn_seen = rep['functions']
    h.cfuncs = fn_seen
    ctx.exp_split = getattr(case, 'exp_split', False)
    ctx.trig_range = getattr(case, 'trig_range', False)

    def prof(frame, event, arg):
        if event == 'call':
            co = frame.f_code
            if '/src/wafo/' in co.co_filename:
                fn_seen.add(co.co_filename.split('/src/')[-1] + ':' + co.co_qualname)
    nviol = 0
    try:
        while ctx.worklist:
            prefix = ctx.worklist.pop()
            ctx.begin(prefix)
            if time.time() > ctx.deadline:
                raise C.PathLimit('time budget exhausted')
            if ctx.paths <= 12 or ctx.paths % 50 == 0:
                sys.setprofile(prof)
            try:
                try:
                    case.fn(h, **case.params)
                finally:
                    sys.setprofile(None)
                rep['complete'] += 1
                if case.witnesses and (rep['complete'] <= case.witnesses or rnd.random() < 0.02) and len(rep['witnesses']) < 4 * case.witnesses:
                    v = h.nice_model(C.z3.BoolVal(True), 1500)
                    if v is None and ctx.solver.check() == C.z3.sat:
                        v = h.values(ctx.solver.model())
                    if v is not None or not ctx.inputs:
                        rep['witnesses'].append(v or {})
            except C.PathAbort:
                rep['aborted'] += 1
            except C_Violation as e:
                nviol += 1
                if nviol >= 4:
                    break
            except C.PathLimit:
                raise
            except C.EngineError as e:
                tb = traceback.extract_tb(e.__traceback__)
                loc = [f for f in tb if '/wafo/' in f.filename or '/harness/' in f.filename]
                rep['undecided'].append('engine: %s at %s' % (e, ['%s:%d' % (os.path.basename(f.filename), f.lineno) for f in loc[-2:]]))
                _path_candidates(h, ctx, C, rep, case, 'engine limit')
                if len(rep['undecided']) >= 3:
                    break
            except (KeyboardInterrupt, SystemExit, MemoryError):
                raise
            except RecursionError as e:
                rep['undecided'].append('engine: recursion')
                break
            except Exception as e:   # raised by the code under test: candidate violation
                msg = '%s: %s' % (type(e).__name__, e)
                tb = traceback.extract_tb(e.__traceback__)
                where = ['%s:%d' % (os.path.basename(f.filename), f.lineno) for f in tb][-3:]
                rep['raised'].append(msg + ' at ' + ' < '.join(reversed(where)))
                _path_candidates(h, ctx, C, rep, case, 'raises ' + msg)
                nviol += 1
                if nviol >= 4:
                    break
    except C.PathLimit as e:
        rep['undecided'].append('limit: %s' % e)
    except C.z3.Z3Exception as e:
        rep['undecided'].append('z3: %s' % e)
    finally:
        sys.setprofile(None)
        C.Ctx.cur = None
    rep['paths'] = ctx.paths
    rep['queries'] = ctx.queries
    rep['solver_s'] = ctx.solver_time
    rep['unknown_forks'] = ctx.unknown_forks
    rep['decisions'] = getattr(ctx, 'forks', 0)
    rep['wall'] = time.time() - t0
    rep['functions'] = sorted(fn_seen)
    return rep


def _path_candidates(h, ctx, C, rep, case, label):
    z3 = C.z3
    v = h.nice_model(z3.BoolVal(True))
    cands = [v] if v is not None else []
    try:
        if ctx.solver.check() == z3.sat:
            cands.append(h.values(ctx.solver.model()))
    except z3.Z3Exception:
        pass
    if not ctx.inputs:
        cands.append({})
    cands += h.alternatives(z3.BoolVal(True), 2)
    for c in cands:
        rep['candidates'].append((case.name, label, c))
    rep['refuted'].append((label, cands)) if label.startswith('raises') else None


# ====================================================================== replay
def replay_file(path):
    """run the recorded inputs of one property against the unpatched code; returns list of results"""
    data = json.load(open(path))
    hmod = load_harness(data['property'])
    os.environ['NUMBA_DISABLE_JIT'] = '1'
    os.environ.setdefault('MPLBACKEND', 'Agg')
    if SRC not in sys.path:
        sys.path.insert(0, SRC)
    import warnings
    warnings.simplefilter('ignore')
    import numpy as np
    np.seterr(all='ignore')
    for m in hmod.MODULES:
        importlib.import_module(m)
    if hasattr(hmod, 'prepare'):
        hmod.prepare(False)
    cases = {}
    for tier in ('quick', 'thorough'):
        for c in hmod.cases(tier):
            cases.setdefault(c.name, c)
    known = known_ids(data['property'])
    res = []
    for name, label, values in data['runs']:
        case = cases[name]
        case.known = known
        h = ConcreteH(case, values)
        try:
            case.fn(h, **case.params)
            res.append(['ok', ''])
        except AssumeFailed as e:
            res.append(['assume', str(e)])
        except Mismatch as e:
            res.append(['violation', str(e)])
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = ['%s:%d %s' % (os.path.basename(f.filename), f.lineno, f.name) for f in tb if '/wafo/' in f.filename][-3:]
            inside = bool(where)
            res.append(['violation' if inside else 'harness-error',
                        'raises %s: %s (%s)' % (type(e).__name__, e, ' > '.join(where) or traceback.format_exc()[-800:])])
    return res


def replay_batch(prop, runs, timeout=240):
    if not runs:
        return []
    fd, p = tempfile.mkstemp(suffix='.json')
    os.close(fd)
    try:
        with open(p, 'w') as f:
            json.dump(dict(property=prop, runs=runs), f)
        env = dict(os.environ)
        env.pop('PYTHONPATH', None)
        r = subprocess.run([PY, os.path.join(ROOT, 'check.py'), prop, '--replay', p, '--json'], env=env, capture_output=True,
                           text=True, timeout=timeout, cwd=ROOT)
        for line in r.stdout.splitlines():
            if line.startswith('REPLAY-RESULTS '):
                return json.loads(line[15:])
        raise RuntimeError('replay failed: %s' % (r.stderr[-2000:]))
    finally:
        os.unlink(p)


def load_harness(prop):
    if ROOT not in sys.path:
        sys.path.insert(0, ROOT)
    return importlib.import_module('harness.' + prop.lower())


# ====================================================================== findings
def findings():
    p = os.path.join(ROOT, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else []


def known_ids(prop):
    return {f['id'] for f in findings() if f['property'] == prop and f.get('status') == 'known'}


# ====================================================================== driver
_G = {}


def _worker(i):
    case = _G['cases'][i]
    mem = int(os.environ.get('VSYM_MEM_GB', '10'))
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (mem << 30, mem << 30))
    except (ValueError, OSError):
        pass
    if getattr(case, 'runner', None):
        return case.runner(case)
    try:
        return run_case(case, _G['C'], _G['N'])
    except MemoryError:
        return dict(case=case.name, obligations=0, discharged=0, by_rewriting=0, by_margin=0, undecided=['memory'],
                    candidates=[], refuted=[], raised=[], witnesses=[], functions=[], complete=0, aborted=0, paths=0,
                    queries=0, solver_s=0, unknown_forks=0, wall=0, bounds=case.bounds, decisions=0)


def _child(i, conn):
    try:
        r = _worker(i)
    except BaseException as e:
        r = dict(case=_G['cases'][i].name, error=''.join(traceback.format_exception(e))[-3000:])
    try:
        conn.send(json.loads(json.dumps(r, default=str)))
    finally:
        conn.close()


def run_parallel(n, jobs, hard):
    """run cases 0..n-1 in forked children; a child over its hard limit is ended"""
    ctx = mp.get_context('fork')
    todo = list(range(n))
    run, out = {}, {}
    while todo or run:
        while todo and len(run) < jobs:
            i = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(i, b))
            p.start()
            b.close()
            run[i] = (p, a, time.time())
        time.sleep(0.02)
        for i in list(run):
            p, a, t = run[i]
            done = False
            try:
                if a.poll(0):
                    out[i] = a.recv()
                    done = True
            except EOFError:
                out[i] = None
                done = True
            if not done and not p.is_alive() and not a.poll(0):
                out[i] = None
                done = True
            if not done and time.time() - t > hard(i):
                p.kill()
                out[i] = None
                done = True
            if done:
                p.join(5)
                if p.is_alive():
                    p.kill()
                run.pop(i)
    return out


def main(prop, tier, only=None, jobs=None, verbose=False):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    hmod = load_harness(prop)
    known = known_ids(prop)
    cases = [c for c in hmod.cases(tier) if only is None or c.name in only or any(c.name.startswith(o) for o in only)]
    for c in cases:
        c.known = known
        c.tier = tier
    ksym = [c for c in cases if not getattr(c, 'runner', None)]
    C = N = None
    if ksym:
        C, N = load_symbolic(hmod)
    _G.update(cases=cases, C=C, N=N)
    order = sorted(range(len(cases)), key=lambda i: -getattr(cases[i], 'weight', 1))
    _G['cases'] = cases = [cases[i] for i in order]
    jobs = jobs or min(8, os.cpu_count() or 8)
    out = run_parallel(len(cases), jobs, lambda i: cases[i].budget + 90)
    reps = []
    for i in range(len(cases)):
        r = out.get(i)
        if r is None:
            r = dict(case=cases[i].name, error='case process ended without a result (memory or time)')
        reps.append(r)

    # ---- replay candidates and witnesses on the real code
    violations, undecided, notes = [], [], []
    runs, meta = [], []
    for r in reps:
        if r.get('error'):
            undecided.append((r['case'], r['error']))
            continue
        for c in r['candidates']:
            runs.append(c)
            meta.append(('cand', r, c))
        for w in r['witnesses']:
            runs.append((r['case'], 'witness', w))
            meta.append(('wit', r, (r['case'], 'witness', w)))
        for v in r.get('direct_violations', []):
            violations.append(v)
    validated = 0
    reproduced = {}
    if runs:
        try:
            results = replay_batch(prop, [list(x) for x in runs])
        except Exception as e:
            results = None
            undecided.append(('replay', str(e)))
        if results is not None:
            for (kind, r, run), (st, msg) in zip(meta, results):
                if st == 'violation':
                    if r['case'] not in reproduced:
                        reproduced[r['case']] = dict(case=run[0], label=run[1], inputs=run[2], observed=msg)
                elif st == 'harness-error':
                    undecided.append((r['case'], 'replay harness error: ' + msg))
                elif st == 'ok' and kind == 'wit':
                    validated += 1
    violations += list(reproduced.values())
    for r in reps:
        if r.get('error') or r['case'] in reproduced:
            continue
        for lab, _ in r['refuted']:
            undecided.append((r['case'], 'counterexample not reproduced on the real code: %s' % lab))
        for u in r['undecided']:
            undecided.append((r['case'], u))
        if not r['complete'] and not r.get('runner') and not r.get('known_hit'):
            undecided.append((r['case'], 'no complete path (vacuous)'))

    # ---- known findings: confirm that they still fail
    kf = []
    for f in findings():
        if f['property'] == prop and f.get('status') == 'known':
            kf.append(f)
            print('KNOWN-FINDING: property=%s %s' % (prop, f['what']))

    # ---- evidence
    good = [r for r in reps if not r.get('error')]
    S = lambda k: sum(r.get(k, 0) for r in good)
    funcs = sorted({x for r in good for x in r['functions']})
    samples = []
    for r in good:
        for w in r['witnesses'][:1]:
            samples.append(dict(case=r['case'], path_witness=w))
    undec_cases = sorted({c for c, _ in undecided})
    cov = dict(
        states=S('paths'), transitions=max(S('queries'), 0), traces_validated_against_impl=validated,
        samples=samples[:6],
        explanation='states = execution paths of the real code explored symbolically; transitions = solver queries '
                    '(path feasibility and obligations); traces_validated = path witnesses taken from solver models and '
                    'replayed on the unpatched code',
        obligations=S('obligations'), discharged=S('discharged'), discharged_by_rewriting=S('by_rewriting'),
        discharged_up_to_margin=S('by_margin'), solver_time_s=round(S('solver_s'), 2),
        functions_encoded=funcs, cases=[dict(case=r['case'], bounds=r.get('bounds', ''), paths=r.get('paths'),
                                             complete=r.get('complete'), obligations=r.get('obligations'),
                                             discharged=r.get('discharged'), wall_s=round(r.get('wall', 0), 2)) for r in good],
        cases_decided=len(reps) - len(undec_cases), undecided=['%s: %s' % u for u in undecided][:40],
        unknown_forks=S('unknown_forks'), outside=getattr(hmod, 'OUTSIDE', ''), known_findings=[f['id'] for f in kf])
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking', coverage=cov,
              assumptions=list(getattr(hmod, 'ASSUMPTIONS', [])) + GENERIC_ASSUMPTIONS,
              wall_s=round(time.time() - t0, 2), violations=len(violations))
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    undecided = list(dict.fromkeys(undecided))
    for c, u in undecided:
        print('UNDECIDED %s %s: %s' % (prop, c, u))
    if verbose:
        for r in reps:
            if r.get('error'):
                print(r['case'], 'ERROR', r['error'])
            else:
                print('  %-22s paths %d (ok %d, cut %d) obl %d/%d (rw %d, mg %d) q %d solver %.1fs wall %.1fs %s %s' % (
                    r['case'], r['paths'], r['complete'], r['aborted'], r['discharged'], r['obligations'], r['by_rewriting'],
                    r['by_margin'], r['queries'], r['solver_s'], r['wall'], 'unkforks %d' % r['unknown_forks'] if r['unknown_forks'] else '',
                    r['raised'][:2] or ''))
    print('%s %s: %d cases, %d paths, %d/%d obligations discharged, %d queries, solver %.1fs, %d witnesses validated, wall %.1fs'
          % (prop, tier, len(reps), S('paths'), S('discharged'), S('obligations'), S('queries'), S('solver_s'), validated, time.time() - t0))
    if violations:
        os.makedirs(OUTDIR, exist_ok=True)
        p = os.path.join(OUTDIR, prop + '.json')
        runs = [[v['case'], v['label'], v['inputs']] for v in violations if v.get('inputs') is not None]
        with open(p, 'w') as f:
            json.dump(dict(property=prop, runs=runs, violations=violations), f, indent=1, default=str)
        for v in violations:
            print('counterexample: case %s, %s; inputs %s; observed: %s' % (v['case'], v['label'], json.dumps(v['inputs'], default=str)[:600], v['observed']))
        print('VIOLATION property=%s replay=%s' % (prop, p))
        return 1
    if undec_cases and len(undec_cases) >= len(reps):
        print('no case of %s could be decided' % prop)
        return 2
    return 0


GENERIC_ASSUMPTIONS = [
    'floating-point arithmetic is read as real arithmetic (rounding excluded); float literals within 4e-16 (relative) of a rational '
    'with denominator <= 10^6 are read as that rational',
    'numpy/scipy primitives are represented by the models in vsym/nparr.py; path witnesses are replayed on the unpatched code',
    'transcendental functions are uninterpreted with the sign/monotonicity/inverse axioms in vsym/core.py',
]
