"""Symbolic scalars and path exploration (re-execution DFS) on top of z3.

Semantics: floating-point numbers of the code under test are interpreted as
real numbers (rounding excluded), NaN and +-inf stay concrete Python floats,
Python ints are mathematical integers, BV scalars are 64-bit words.
"""
import bisect
import math
import sys
import time
from fractions import Fraction
import operator
import dis

_OPN = dis.opname

_VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _VT not in sys.path:
    sys.path.append(_VT)
import z3  # noqa: E402
import numpy as np  # noqa: E402

z3.set_param('memory_max_size', 8000)
_ONE = z3.RealVal(1)


class EngineError(Exception):
    """The engine cannot encode something: no verdict."""


class PathAbort(BaseException):
    """Current path infeasible / cut off by an assumption."""


class PathLimit(EngineError):
    pass


class Violation(BaseException):
    """ends the current harness run: an assertion failed on this path"""


# ---------------------------------------------------------------- constants
_snap_cache = {}
_PIF = Fraction(math.pi)


def snap(f):
    """float -> Fraction; floats within 2 ulp-ish of a simple rational are read as
    that rational (ideal real-number reading of constants such as 0.1 or 1/3)."""
    r = _snap_cache.get(f)
    if r is None:
        fr = Fraction(f)
        r = fr
        if fr.denominator != 1:
            for lim in (1000, 10**6):
                s = fr.limit_denominator(lim)
                if s != 0 and abs(s - fr) <= abs(fr) * Fraction(4, 10**16):
                    r = s
                    break
            else:
                # rational multiples of small powers of pi are read with one and the same pi
                for k in (1, -1, 2, -2):
                    q = (fr / _PIF ** k)
                    s = q.limit_denominator(1000)
                    if s != 0 and abs(s) < 10**4 and abs(s - q) <= abs(q) * Fraction(8, 10**16):
                        r = s * _PIF ** k
                        break
        _snap_cache[f] = r
    return r


def rv(x):
    """concrete number -> z3 Real value"""
    if isinstance(x, (bool, np.bool_)):
        return z3.RealVal(1 if x else 0)
    if isinstance(x, (int, np.integer)):
        return z3.RealVal(int(x))
    if isinstance(x, Fraction):
        return z3.Q(x.numerator, x.denominator)
    f = snap(float(x))
    return z3.Q(f.numerator, f.denominator)


def is_conc(x):
    return isinstance(x, (int, float, bool, np.integer, np.floating, np.bool_, Fraction))


def nonfinite(x):
    return isinstance(x, (float, np.floating)) and not math.isfinite(x)


def is_sym(x):
    return isinstance(x, (SR, SB, SC, SBV))


# ---------------------------------------------------------------- context
class Ctx:
    """One harness run (all paths)."""
    cur = None

    def __init__(self, max_paths=20000, fork_timeout=4000, deadline=None):
        self.max_paths = max_paths
        self.worklist = [[]]
        self.paths = 0
        self.queries = 0
        self.solver_time = 0.0
        self.fork_timeout = fork_timeout
        self.deadline = deadline
        self.base_solver = None
        self.unknown_forks = 0

    def begin(self, prefix):
        self.prefix = prefix
        self.trace = []
        self.solver = z3.Solver()
        self.solver.set('timeout', self.fork_timeout)
        self.pc = []
        self.axioms = []
        self.uf = {}
        self.sqrt_cache = {}
        self.roots = {}
        self.quads = []
        self.fresh = 0
        self.inputs = {}
        self.bnd = {}
        self.ivals = {}
        self.paths += 1
        self.div_guard = True

    # -- solver
    def add(self, c):
        self.pc.append(c)
        self.solver.add(c)

    def axiom(self, c):
        self.axioms.append(c)
        self.solver.add(c)

    def check(self, *assumps):
        t = time.time()
        self.queries += 1
        r = self.solver.check(*assumps)
        self.solver_time += time.time() - t
        if self.deadline and time.time() > self.deadline:
            raise PathLimit('time budget exhausted')
        return r

    def newreal(self, base='t'):
        self.fresh += 1
        return z3.Real('%s!%d' % (base, self.fresh))

    def newint(self, base='i'):
        self.fresh += 1
        return z3.Int('%s!%d' % (base, self.fresh))

    # -- forking
    def decide(self, c):
        """branch on z3 Bool c"""
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        v = known_truth(c)
        if v is not None:
            return v
        i = len(self.trace)
        if i < len(self.prefix):
            val, forced = self.prefix[i]
            self.trace.append((val, forced))
            if not forced:
                self.add(c if val else z3.Not(c))
            return val
        rt = self.check(c)
        if rt == z3.unsat:
            self.trace.append((False, True))
            return False
        rf = self.check(z3.Not(c))
        if rf == z3.unsat:
            self.trace.append((True, True))
            return True
        if rt == z3.unknown or rf == z3.unknown:
            self.unknown_forks += 1
        self.worklist.append(self.trace + [(False, False)])
        self.trace.append((True, False))
        self.add(c)
        if self.paths + len(self.worklist) > self.max_paths:
            raise PathLimit('more than %d paths' % self.max_paths)
        return True

    def concretize_int(self, e):
        """fork over all feasible integer values of z3 Int expr e"""
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        for _ in range(4096):
            i = len(self.trace)
            if i < len(self.prefix) and len(self.prefix[i]) == 3:
                val, forced, k = self.prefix[i]
                self.trace.append((val, forced, k))
                if val:
                    if not forced:
                        self.add(e == k)
                    return k
                self.add(e != k)
                continue
            r = self.check()
            if r == z3.unsat:
                raise PathAbort()
            if r == z3.unknown:
                raise EngineError('unknown while concretizing an integer')
            k = self.solver.model().eval(e, model_completion=True).as_long()
            if self.check(e != k) == z3.unsat:
                self.trace.append((True, True, k))
                return k
            self.worklist.append(self.trace + [(False, False, k)])
            self.trace.append((True, False, k))
            self.add(e == k)
            if self.paths + len(self.worklist) > self.max_paths:
                raise PathLimit('more than %d paths' % self.max_paths)
            return k
        raise EngineError('integer concretization does not terminate')


# ---------------------------------------------------------------- interval bounds (rounded outwards)
_INF = float('inf')


def _lo(x):
    return x - abs(x) * 4e-16 if x and abs(x) != _INF else x


def _hi(x):
    return x + abs(x) * 4e-16 if x and abs(x) != _INF else x


def _mul(a, b):
    return 0.0 if a == 0 or b == 0 else a * b


def _imul(a, b):
    v = [_mul(x, y) for x in a for y in b]
    return _lo(min(v)), _hi(max(v))


def bounds(lo, hi):
    """stated range of an input as interval; symbolic limits are ignored"""
    def num(x, none):
        if x is None or isinstance(x, (SR, SB)):
            return none
        f = float(x)
        g = snap(f)
        return f if g == f else (min if none < 0 else max)(f, float(g)) + none_sign(none) * abs(f) * 4e-16
    return num(lo, -_INF), num(hi, _INF)


def none_sign(v):
    return 1 if v > 0 else -1


def ival(e):
    """bounds of a z3 arithmetic term from the stated ranges of the inputs"""
    c = Ctx.cur
    if c is None:
        return -_INF, _INF
    k = e.get_id()
    r = c.ivals.get(k)
    if r is None:
        try:
            r = _ival(e, c)
        except (RecursionError, OverflowError):
            r = (-_INF, _INF)
        if r[0] != r[0] or r[1] != r[1]:
            r = (-_INF, _INF)
        c.ivals[k] = r + (e,)
    return r[0], r[1]


def _ival(e, c):
    if z3.is_int_value(e):
        v = float(e.as_long())
        return (v, v) if abs(v) < 2 ** 53 else (_lo(v), _hi(v))
    if z3.is_rational_value(e):
        n, d = e.numerator_as_long(), e.denominator_as_long()
        v = float(Fraction(n, d))
        return (v, v) if Fraction(v) == Fraction(n, d) else (_lo(v), _hi(v))
    kind = e.decl().kind()
    if kind == z3.Z3_OP_UNINTERPRETED:
        if e.num_args() == 0:
            return c.bnd.get(e.decl().name(), (-_INF, _INF))
        if e.num_args() == 1:
            return _iuf(e.decl().name(), e.arg(0))
        return -_INF, _INF
    ch = e.children()
    if kind == z3.Z3_OP_ADD:
        lo = hi = 0.0
        mag = 0.0
        for x in ch:
            a, b = ival(x)
            lo, hi = lo + a, hi + b
            mag = max(mag, *(abs(v) for v in (a, b, lo, hi) if abs(v) != _INF), 0.0)
        if lo != lo or hi != hi:
            return -_INF, _INF
        pad = mag * 4e-16 * len(ch)
        exact = mag < 2 ** 40 and all(
            ival(x)[i] in (-_INF, _INF) or ival(x)[i] * 1024 == int(ival(x)[i] * 1024) for x in ch for i in (0, 1))
        return (lo, hi) if exact else (lo - pad, hi + pad)
    if kind == z3.Z3_OP_MUL:
        i, r = 0, None
        while i < len(ch):
            n = 1
            while i + n < len(ch) and ch[i + n].eq(ch[i]):
                n += 1
            a = _ipow(ival(ch[i]), n)
            r = a if r is None else _imul(r, a)
            i += n
        return r
    if kind == z3.Z3_OP_UMINUS:
        a, b = ival(ch[0])
        return -b, -a
    if kind == z3.Z3_OP_SUB:
        a, b = ival(ch[0])
        for x in ch[1:]:
            p, q = ival(x)
            pad = max((abs(v) for v in (a, b, p, q) if abs(v) != _INF), default=0.0) * 8e-16
            a, b = a - q - pad, b - p + pad
        return a, b
    if kind == z3.Z3_OP_DIV:
        p, q = ival(ch[1])
        if p > 0 or q < 0:
            inv = sorted((1 / p, 1 / q)) if abs(p) != 0 and abs(q) != 0 else None
            if inv is None:
                return -_INF, _INF
            return _imul(ival(ch[0]), (_lo(inv[0]), _hi(inv[1])))
        return -_INF, _INF
    if kind == z3.Z3_OP_POWER:
        x = ch[1]
        if z3.is_rational_value(x) and x.denominator_as_long() == 1 and 0 <= x.numerator_as_long() < 64:
            return _ipow(ival(ch[0]), x.numerator_as_long())
        return -_INF, _INF
    if kind == z3.Z3_OP_TO_REAL:
        return ival(ch[0])
    if kind == z3.Z3_OP_ITE:
        t = known_truth(ch[0])
        if t is not None:
            return ival(ch[1] if t else ch[2])
        a, b = ival(ch[1]), ival(ch[2])
        if z3.is_ge(ch[0]) and ch[0].arg(0).eq(ch[1]):      # |x|
            m = max(abs(a[0]), abs(a[1]))
            if z3.simplify(ch[1] + ch[2]).eq(z3.RealVal(0)):
                return 0.0, m
        return min(a[0], b[0]), max(a[1], b[1])
    return -_INF, _INF


def _iuf(name, arg):
    """interval of an uninterpreted transcendental function"""
    if name in ('sin', 'cos'):
        return -1.0, 1.0
    if name == 'exp':
        a, b = ival(arg)
        lo = 0.0 if a < -700 else max(math.exp(min(a, 700.0)) * (1 - 1e-14), 0.0)
        return lo, (_INF if b > 700 else math.exp(b) * (1 + 1e-14))
    if name == 'tanh':
        a, b = ival(arg)
        return max(-1.0, math.tanh(a) - 1e-15), min(1.0, math.tanh(b) + 1e-15)
    if name == 'log':
        a, b = ival(arg)
        lo = -_INF if a <= 0 else math.log(a) - 1e-13
        return lo, (_INF if b <= 0 or b == _INF else math.log(b) + 1e-13)
    return -_INF, _INF


def _ipow(a, n):
    if n == 1:
        return a
    if n == 0:
        return 1.0, 1.0
    lo, hi = a
    p = [abs(lo) ** n * (-1 if lo < 0 and n % 2 else 1), abs(hi) ** n * (-1 if hi < 0 and n % 2 else 1)]
    w = 1 + n * 4e-16
    if n % 2 == 0 and lo <= 0 <= hi:
        return 0.0, max(p) * w
    l, u = min(p), max(p)
    return (l / w if l > 0 else l * w), (u * w if u > 0 else u / w)


def known_truth(c):
    """truth of a z3 Bool decided by the ranges of the inputs alone, else None"""
    if z3.is_true(c):
        return True
    if z3.is_false(c):
        return False
    if z3.is_not(c):
        v = known_truth(c.arg(0))
        return None if v is None else not v
    if z3.is_and(c):
        vs = [known_truth(x) for x in c.children()]
        return False if False in vs else (True if all(v is True for v in vs) else None)
    if z3.is_or(c):
        vs = [known_truth(x) for x in c.children()]
        return True if True in vs else (False if all(v is False for v in vs) else None)
    if c.num_args() != 2 or not z3.is_arith(c.arg(0)):
        return None
    k = c.decl().kind()
    if k not in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_EQ):
        return None
    (a, b), (p, q) = ival(c.arg(0)), ival(c.arg(1))
    if k in (z3.Z3_OP_GE, z3.Z3_OP_GT):
        a, b, p, q = p, q, a, b
        k = z3.Z3_OP_LE if k == z3.Z3_OP_GE else z3.Z3_OP_LT
    if k == z3.Z3_OP_EQ:
        return False if b < p or q < a else None
    if k == z3.Z3_OP_LE:
        return True if b <= p else (False if a > q else None)
    return True if b < p else (False if a >= q else None)


def ctx():
    if Ctx.cur is None:
        raise EngineError('symbolic value used outside a symbolic run')
    return Ctx.cur


# ---------------------------------------------------------------- booleans
def bexpr(x):
    """anything boolean-like -> z3 Bool"""
    if isinstance(x, SB):
        return x.e
    if isinstance(x, (bool, np.bool_)):
        return z3.BoolVal(bool(x))
    if isinstance(x, SR):
        return x.e != 0
    if isinstance(x, SBV):
        return x.e != 0
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return bexpr(x.item())
    if is_conc(x):
        return z3.BoolVal(bool(x))
    raise EngineError('not a boolean: %r' % (x,))


def mkb(e):
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SB(e)


class SB:
    """symbolic boolean"""
    __slots__ = ('e',)
    __array_priority__ = 1000
    dtype = np.dtype(bool)
    shape = ()
    ndim = 0
    size = 1

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return ctx().decide(self.e)

    def __and__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        if isinstance(o, SR) or (is_conc(o) and not isinstance(o, (bool, np.bool_))):
            return self.num() & o
        return mkb(z3.simplify(z3.And(self.e, bexpr(o))))
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        return mkb(z3.simplify(z3.Or(self.e, bexpr(o))))
    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        return mkb(z3.simplify(z3.Xor(self.e, bexpr(o))))
    __rxor__ = __xor__

    def __invert__(self):
        return mkb(z3.simplify(z3.Not(self.e)))

    def logical_not(self):
        return ~self

    def num(self):
        return SR(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))

    def __eq__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        if isinstance(o, (SB, bool, np.bool_)):
            return mkb(z3.simplify(self.e == bexpr(o)))
        return self.num() == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else notb(r)

    def __hash__(self):
        return self.e.hash()

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    def any(self, *a, **k):
        return self

    def all(self, *a, **k):
        return self

    def sum(self, *a, **k):
        return self.num()

    def item(self):
        return self

    def astype(self, t, **k):
        if np.dtype(t) == bool:
            return self
        return self.num()

    def __repr__(self):
        return 'SB(%s)' % self.e

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import nparr
        return nparr.array_ufunc(ufunc, method, *inputs, **kw)

    def __array_function__(self, func, types, args, kwargs):
        from . import nparr
        return nparr.array_function(func, types, args, kwargs)


def _num_delegate(name):
    def f(self, *a):
        for o in a:
            if isinstance(o, np.ndarray) and o.ndim:
                return NotImplemented
        return getattr(self.num(), name)(*a)
    return f


for _n in ('__add__', '__radd__', '__sub__', '__rsub__', '__mul__', '__rmul__', '__truediv__',
           '__rtruediv__', '__neg__', '__pos__', '__abs__', '__lt__', '__le__', '__gt__', '__ge__',
           '__pow__', '__rpow__', '__floordiv__', '__mod__'):
    setattr(SB, _n, _num_delegate(_n))


def notb(x):
    if isinstance(x, SB):
        return ~x
    return not x


# ---------------------------------------------------------------- reals / ints
def simp(e):
    return z3.simplify(e) if z3.is_app(e) and e.num_args() <= 2 and _small(e) else e


def _small(e):
    return all(c.num_args() == 0 for c in e.children())


def toreal(e):
    return z3.ToReal(e) if z3.is_int(e) else e


def mkr(e):
    return SR(e)


def _formatting():
    """called from a `'...' % value` expression (message text only)?"""
    f = sys._getframe(2)
    co = f.f_code.co_code
    i = f.f_lasti
    return _OPN[co[i]] == 'BINARY_OP' and co[i + 1] in (6, 19)


class SR:
    """symbolic real or integer"""
    __slots__ = ('e',)
    __array_priority__ = 1000
    shape = ()
    ndim = 0
    size = 1
    nbytes = 8
    itemsize = 8

    def __init__(self, e):
        self.e = e

    @property
    def dtype(self):
        return np.dtype(np.int64 if self.is_int else np.float64)

    @property
    def is_int(self):
        return z3.is_int(self.e)

    # -- conversions
    def __bool__(self):
        return ctx().decide(self.e != 0)

    def __int__(self):
        e = self.e
        if not self.is_int:
            e = z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e))
        return ctx().concretize_int(e)

    def __index__(self):
        if not self.is_int:
            raise TypeError("'float' object cannot be interpreted as an integer")
        return ctx().concretize_int(self.e)

    def __float__(self):
        e = z3.simplify(self.e)
        if z3.is_rational_value(e):
            return float(Fraction(e.numerator_as_long(), e.denominator_as_long()))
        if z3.is_int_value(e):
            return float(e.as_long())
        if _formatting():
            return 0.0
        raise EngineError('float() of a symbolic value')

    def __complex__(self):
        return complex(float(self))

    def __round__(self, n=None):
        return rint_(self)

    def __floor__(self):
        return floor_(self, as_int=True)

    def __ceil__(self):
        return -floor_(-self, as_int=True)

    def __trunc__(self):
        return int(self)

    def __hash__(self):
        return self.e.hash()

    def __repr__(self):
        return 'SR(%s)' % (str(self.e)[:200])

    def __format__(self, spec):
        return '<sym>'

    # -- arithmetic
    def _pair(self, o):
        """returns (a, b) z3 exprs of common sort or None"""
        if isinstance(o, SB):
            o = o.num()
        if isinstance(o, SR):
            a, b = self.e, o.e
            if z3.is_int(a) != z3.is_int(b):
                a, b = toreal(a), toreal(b)
            return a, b
        if isinstance(o, (bool, np.bool_)):
            o = int(o)
        if isinstance(o, (int, np.integer)):
            if self.is_int:
                return self.e, z3.IntVal(int(o))
            return self.e, z3.RealVal(int(o))
        return toreal(self.e), rv(o)

    def _ok(self, o):
        if isinstance(o, np.ndarray):
            if o.ndim == 0:
                return True
            return False
        return isinstance(o, (SR, SB)) or is_conc(o)

    def _bin(self, o, op, rev=False):
        if isinstance(o, np.ndarray) and o.ndim == 0:
            o = o.item()
        if isinstance(o, (complex, np.complexfloating, SC)):
            a, b = SC(self, 0), SC.of(o)
            if rev:
                a, b = b, a
            return {'+': a.__add__, '-': a.__sub__, '*': a.__mul__, '/': a.__truediv__}[op](b)
        if not self._ok(o):
            return NotImplemented
        if nonfinite(o):
            return self._bin_nonfinite(float(o), op, rev)
        a, b = self._pair(o)
        if rev:
            a, b = b, a
        if op == '+':
            return SR(simp(a + b))
        if op == '-':
            return SR(simp(a - b))
        if op == '*':
            if is_conc(o):
                if o == 0:
                    return 0 if z3.is_int(a) else 0.0
                if o == 1:
                    return SR(toreal(self.e)) if isinstance(o, (float, np.floating)) else self
            return SR(simp(a * b))
        if op == '/':
            return div_(SR(toreal(a)), SR(toreal(b)))
        raise EngineError(op)

    def _bin_nonfinite(self, f, op, rev):
        if f != f:
            return math.nan
        if op == '+':
            return f
        if op == '-':
            return f if rev else -f
        if op == '*':
            if self > 0:
                return f
            if self < 0:
                return -f
            return math.nan
        if op == '/':
            if not rev:
                return 0.0
            return f if bool(self >= 0) else -f
        raise EngineError(op)

    def __add__(self, o):
        if is_conc(o) and o == 0:
            return SR(toreal(self.e)) if isinstance(o, (float, np.floating)) else self
        return self._bin(o, '+')

    def __radd__(self, o):
        if is_conc(o) and o == 0:
            return SR(toreal(self.e)) if isinstance(o, (float, np.floating)) else self
        return self._bin(o, '+', True)

    def __sub__(self, o):
        return self._bin(o, '-')

    def __rsub__(self, o):
        return self._bin(o, '-', True)

    def __mul__(self, o):
        return self._bin(o, '*')

    def __rmul__(self, o):
        return self._bin(o, '*', True)

    def __truediv__(self, o):
        return self._bin(o, '/')

    def __rtruediv__(self, o):
        return self._bin(o, '/', True)

    def __floordiv__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        if nonfinite(o):
            raise EngineError('// nonfinite')
        a, b = self._pair(o)
        if z3.is_int(a):
            return SR(int_floordiv(a, b))
        return floor_(div_(SR(a), SR(b)))

    def __rfloordiv__(self, o):
        a, b = self._pair(o)
        if z3.is_int(a):
            return SR(int_floordiv(b, a))
        return floor_(div_(SR(b), SR(a)))

    def __mod__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        a, b = self._pair(o)
        if z3.is_int(a):
            return SR(a - b * int_floordiv(a, b))
        return self - o * floor_(div_(SR(a), SR(b)))

    def __rmod__(self, o):
        a, b = self._pair(o)
        if z3.is_int(a):
            return SR(b - a * int_floordiv(b, a))
        return o - self * floor_(div_(SR(b), SR(a)))

    def __divmod__(self, o):
        return self // o, self % o

    def __neg__(self):
        return SR(simp(-self.e))

    def __pos__(self):
        return self

    def __abs__(self):
        e = self.e
        if _is_lit(e):
            return SR(z3.simplify(z3.If(e >= 0, e, -e)))
        lo, hi = ival(e)
        if lo >= 0:
            return self
        if hi <= 0:
            return -self
        return SR(z3.If(e >= 0, e, -e))

    def __pow__(self, p, mod=None):
        return pow_(self, p)

    def __rpow__(self, b):
        return pow_(b, self)

    # -- comparisons
    def _cmp(self, o, op):
        if isinstance(o, np.ndarray):
            if o.ndim:
                return NotImplemented
            o = o.item()
        if o is None or isinstance(o, str):
            if op == 'eq':
                return False
            if op == 'ne':
                return True
            return NotImplemented
        if not (isinstance(o, (SR, SB)) or is_conc(o)):
            return NotImplemented
        if nonfinite(o):
            if o != o:
                return op == 'ne'
            big = o > 0
            return {'lt': big, 'le': big, 'gt': not big, 'ge': not big, 'eq': False, 'ne': True}[op]
        a, b = self._pair(o)
        if a is b or a.eq(b):
            return op in ('le', 'ge', 'eq')
        f = {'lt': operator.lt, 'le': operator.le, 'gt': operator.gt, 'ge': operator.ge,
             'eq': operator.eq, 'ne': operator.ne}[op]
        return mkb(simp(f(a, b)))

    def __lt__(self, o):
        return self._cmp(o, 'lt')

    def __le__(self, o):
        return self._cmp(o, 'le')

    def __gt__(self, o):
        return self._cmp(o, 'gt')

    def __ge__(self, o):
        return self._cmp(o, 'ge')

    def __eq__(self, o):
        return self._cmp(o, 'eq')

    def __ne__(self, o):
        return self._cmp(o, 'ne')

    # bitwise on ints (small, via 64-bit words)
    def _bv(self, o, f):
        if not self.is_int:
            raise TypeError('bitwise op on float')
        a = z3.Int2BV(self.e, 64)
        b = z3.Int2BV(o.e, 64) if isinstance(o, SR) else z3.BitVecVal(int(o), 64)
        return SR(z3.BV2Int(f(a, b), is_signed=True))

    def __and__(self, o):
        return self._bv(o, lambda a, b: a & b)

    def __or__(self, o):
        return self._bv(o, lambda a, b: a | b)

    # numpy-scalar look-alike API
    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0

    @property
    def T(self):
        return self

    def conjugate(self):
        return self
    conj = conjugate

    def item(self, *a):
        return self

    def copy(self):
        return self

    def ravel(self, *a, **k):
        return _arr1(self)
    flatten = ravel

    def reshape(self, *a, **k):
        return _arr1(self).reshape(*a, **k)

    def astype(self, t, **k):
        from . import nparr
        return nparr.cast_scalar(self, t)

    def sum(self, *a, **k):
        return self
    mean = max = min = prod = sum

    def clip(self, min=None, max=None, **k):
        from . import nparr
        return nparr.clip_(self, min, max)

    def any(self, *a, **k):
        return self != 0
    all = any

    def tolist(self):
        return self

    def squeeze(self, *a):
        return self

    def __getitem__(self, k):
        a = np.empty((), dtype=object)
        a[()] = self
        from . import nparr
        return a.view(nparr.SymArray)[k]

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import nparr
        return nparr.array_ufunc(ufunc, method, *inputs, **kw)

    def __array_function__(self, func, types, args, kwargs):
        from . import nparr
        return nparr.array_function(func, types, args, kwargs)


def _arr1(x):
    from . import nparr
    a = np.empty(1, dtype=object)
    a[0] = x
    return a.view(nparr.SymArray)


def _is_lit(e):
    return z3.is_rational_value(e) or z3.is_int_value(e)


def int_floordiv(a, b):
    if z3.is_int_value(b):
        bl = b.as_long()
        if bl > 0:
            return a / b
        if bl < 0:
            return (-a) / z3.IntVal(-bl)
        raise ZeroDivisionError('integer division by zero')
    if ctx().decide(b == 0):
        raise ZeroDivisionError('integer division by zero')
    return z3.If(b > 0, a / b, (-a) / (-b))


def floor_(x, as_int=False):
    if not isinstance(x, SR):
        return math.floor(x) if as_int else (float(math.floor(x)) if math.isfinite(x) else x)
    if x.is_int:
        return x
    e = z3.ToInt(x.e)
    return SR(e) if as_int else SR(z3.ToReal(e))


def ceil_(x):
    return -floor_(-x)


def rint_(x):
    """round half to even"""
    if not isinstance(x, SR):
        return float(np.rint(x))
    if x.is_int:
        return x
    f = z3.ToInt(x.e)
    r = x.e - z3.ToReal(f)
    up = z3.Or(r > z3.Q(1, 2), z3.And(r == z3.Q(1, 2), f % 2 == 1))
    return SR(z3.ToReal(z3.If(up, f + 1, f)))


def trunc_(x):
    if not isinstance(x, SR):
        return float(np.trunc(x))
    if x.is_int:
        return x
    return SR(z3.ToReal(z3.If(x.e >= 0, z3.ToInt(x.e), -z3.ToInt(-x.e))))


def sign_(x):
    if not isinstance(x, SR):
        return np.sign(x)
    lo, hi = ival(x.e)
    if lo > 0 or hi < 0:
        return SR(z3.IntVal(1 if lo > 0 else -1) if x.is_int else z3.RealVal(1 if lo > 0 else -1))
    if x.is_int:
        return SR(z3.If(x.e > 0, z3.IntVal(1), z3.If(x.e < 0, z3.IntVal(-1), z3.IntVal(0))))
    return SR(z3.If(x.e > 0, z3.RealVal(1), z3.If(x.e < 0, z3.RealVal(-1), z3.RealVal(0))))


def div_(a, b):
    """numpy float division (x/0 -> inf/nan)"""
    be = b.e
    if _is_lit(be):
        if z3.simplify(be).eq(z3.RealVal(0)):
            return _div0(a)
        return SR(simp(a.e / be))
    bs = z3.simplify(be)
    if _is_lit(bs):
        if bs.eq(z3.RealVal(0)):
            return _div0(a)
        return SR(simp(a.e / bs))
    if ctx().div_guard and ctx().decide(be == 0):
        return _div0(a)
    q = _cancel(a.e, bs)
    return SR(a.e / be) if q is None else SR(q)


def _small(e, cap=60):
    st, n, seen = [e], 0, set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        n += 1
        if n > cap:
            return False
        st.extend(x.children())
    return True


def _cancel(a, b):
    """a/b for b != 0 when b divides every term of a (b a variable or a literal multiple), else None"""
    if not _small(a):
        return None
    a = z3.simplify(a, som=True)
    if z3.is_rational_value(a) and a.numerator_as_long() == 0:
        return z3.RealVal(0)
    if a.eq(b):
        return z3.RealVal(1)
    if not (z3.is_const(b) and b.decl().kind() == z3.Z3_OP_UNINTERPRETED):
        return None
    out = []
    for t in _addends(a):
        if t.eq(b):
            out.append(z3.RealVal(1))
            continue
        if not z3.is_mul(t):
            return None
        ch = list(t.children())
        for i, c in enumerate(ch):
            if c.eq(b):
                del ch[i]
                break
        else:
            return None
        out.append(z3.Product(ch) if len(ch) > 1 else ch[0])
    return z3.simplify(z3.Sum(out) if len(out) > 1 else out[0])


def _div0(a):
    if a > 0:
        return math.inf
    if a < 0:
        return -math.inf
    return math.nan


# ---------------------------------------------------------------- functions
def ite(c, a, b):
    """if-then-else merge of scalars"""
    if isinstance(c, SB):
        ce = z3.simplify(c.e)
        if z3.is_true(ce):
            return a
        if z3.is_false(ce):
            return b
        v = known_truth(ce)
        if v is not None:
            return a if v else b
    else:
        return a if c else b
    if a is b:
        return a
    if nonfinite(a) or nonfinite(b) or isinstance(a, (complex, SC)) or isinstance(b, (complex, SC)):
        return a if bool(c) else b
    ab, bb = isinstance(a, (SB, bool, np.bool_)), isinstance(b, (SB, bool, np.bool_))
    if ab and bb:
        return mkb(z3.simplify(z3.If(ce, bexpr(a), bexpr(b))))
    if isinstance(a, SBV) or isinstance(b, SBV):
        return SBV(z3.If(ce, SBV.of(a).e, SBV.of(b).e))
    ea, eb = _arith(a), _arith(b)
    if z3.is_int(ea) != z3.is_int(eb):
        ea, eb = toreal(ea), toreal(eb)
    return SR(z3.If(ce, ea, eb))


def _arith(x):
    if isinstance(x, SR):
        return x.e
    if isinstance(x, SB):
        return x.num().e
    if isinstance(x, (bool, np.bool_)):
        return z3.IntVal(int(x))
    if isinstance(x, (int, np.integer)):
        return z3.IntVal(int(x))
    if is_conc(x):
        return rv(x)
    raise EngineError('not a number: %r' % (x,))


def rexpr(x):
    """-> z3 Real"""
    return toreal(_arith(x))


def isnan_(x):
    return False if is_sym(x) else bool(x != x)


def isfinite_(x):
    return True if is_sym(x) else bool(np.isfinite(x))


def isinf_(x):
    return False if is_sym(x) else bool(np.isinf(x))


def maximum_(a, b):
    if not is_sym(a) and not is_sym(b):
        return np.maximum(a, b)
    for u in (a, b):
        if nonfinite(u) and u != u:
            return math.nan
    return ite(a >= b, a, b)


def minimum_(a, b):
    if not is_sym(a) and not is_sym(b):
        return np.minimum(a, b)
    for u in (a, b):
        if nonfinite(u) and u != u:
            return math.nan
    return ite(a <= b, a, b)


def _absroot(c, t):
    r = abs(SR(t))
    if isinstance(r, SR) and not r.e.eq(t):
        c.roots[r.e.get_id()] = (r.e, t * t)
    return r


def sqrt_(x, nonneg=False):
    if not is_sym(x):
        return float(np.sqrt(x))
    if isinstance(x, SC):
        raise EngineError('sqrt of complex')
    c = ctx()
    e = z3.simplify(rexpr(x))
    if z3.is_rational_value(e):
        f = Fraction(e.numerator_as_long(), e.denominator_as_long())
        if f < 0:
            return math.nan
        n, d = math.isqrt(f.numerator), math.isqrt(f.denominator)
        if n * n == f.numerator and d * d == f.denominator:
            return SR(z3.Q(n, d))
    k = e.get_id()
    if k in c.sqrt_cache:
        return SR(c.sqrt_cache[k][0])
    # perfect squares t*t -> |t|
    if z3.is_mul(e) and e.num_args() == 2 and e.arg(0).eq(e.arg(1)):
        return _absroot(c, e.arg(0))
    if z3.is_app_of(e, z3.Z3_OP_POWER) and z3.is_rational_value(e.arg(1)) and e.arg(1).eq(z3.RealVal(2)):
        return _absroot(c, e.arg(0))
    if not nonneg and c.decide(e < 0):
        return math.nan
    s = c.newreal('sqrt')
    c.axiom(z3.And(s >= 0, s * s == e))
    lo, hi = ival(e)
    c.bnd[s.decl().name()] = (_lo(math.sqrt(max(lo, 0.0))) if lo != _INF else 0.0, _hi(math.sqrt(hi)) if hi > 0 else 0.0)
    c.sqrt_cache[k] = (s, e)
    c.roots[s.get_id()] = (s, e)
    return SR(s)


def cbrt_(x):
    """x ** (1/3) as numpy computes it (nan for negative x)"""
    c = ctx()
    e = z3.simplify(rexpr(x))
    k = ('cbrt', e.get_id())
    if k in c.sqrt_cache:
        return SR(c.sqrt_cache[k][0])
    if c.decide(e < 0):
        return math.nan
    s = c.newreal('cbrt')
    c.axiom(z3.And(s >= 0, s * s * s == e))
    c.sqrt_cache[k] = (s, e)
    return SR(s)


def pow_(b, p):
    """numpy power on reals"""
    if isinstance(p, np.ndarray) and p.ndim == 0:
        p = p.item()
    if isinstance(b, np.ndarray) and b.ndim == 0:
        b = b.item()
    if isinstance(p, np.ndarray) or isinstance(b, np.ndarray):
        return NotImplemented
    if isinstance(b, SB):
        b = b.num()
    if isinstance(p, SR):
        pe = z3.simplify(p.e)
        if z3.is_int_value(pe):
            p = pe.as_long()
        elif z3.is_rational_value(pe):
            p = Fraction(pe.numerator_as_long(), pe.denominator_as_long())
    if is_conc(p):
        if not is_sym(b):
            return float(b) ** float(p) if not isinstance(p, (int, np.integer)) else b ** p
        if nonfinite(p):
            raise EngineError('pow nonfinite')
        f = p if isinstance(p, Fraction) else (Fraction(int(p)) if isinstance(p, (int, np.integer)) else snap(float(p)))
        if f.denominator == 1:
            n = f.numerator
            if n == 0:
                return 1.0
            r = None
            if abs(n) > 64:
                raise EngineError('large power')
            base = b if isinstance(p, (int, np.integer)) else SR(toreal(b.e))
            root = ctx().roots.get(base.e.get_id()) if n % 2 == 0 and isinstance(base, SR) else None
            if root is not None:
                base, n = SR(root[1]), n // 2
            for _ in range(abs(n)):
                r = base if r is None else r * base
            return r if n > 0 else 1.0 / r
        if f.denominator == 2:
            r = sqrt_(b)
            n = f.numerator
            if n == 1:
                return r
            return pow_(r, n)
        if f.denominator == 3:
            r = cbrt_(b)
            return r if f.numerator == 1 or nonfinite(r) else pow_(r, f.numerator)
        if b == 0:
            return 0.0 if f > 0 else math.inf
        if b < 0:
            return math.nan
        return exp_(log_(b) * SR(z3.Q(f.numerator, f.denominator)))
    # symbolic exponent
    if not is_sym(b):
        if b == 1:
            return 1.0
        if b == 0:
            if p > 0:
                return 0.0
            return 1.0 if bool(p == 0) else math.inf
        if b < 0:
            raise EngineError('negative base, symbolic exponent')
        return exp_(p * log_(SR(rv(b))))
    if b == 0:
        if p > 0:
            return 0.0
        return 1.0 if bool(p == 0) else math.inf
    if b < 0:
        raise EngineError('possibly negative base with symbolic exponent')
    return exp_(p * log_(b))


# uninterpreted transcendental functions -----------------------------------
def _uf(name):
    return z3.Function(name, z3.RealSort(), z3.RealSort())


_canon_consts = []
CANON = 4e-12


def _canon_const(f):
    """constants that differ only by rounding are one constant"""
    if f.denominator < 10**9 and abs(f.numerator) < 10**9:
        return f
    g = f.limit_denominator(10**5)
    if g != 0 and abs(g - f) <= CANON * abs(f):
        return g
    d = float(f)
    i = bisect.bisect_left(_canon_consts, (d * (1 - CANON) if d > 0 else d * (1 + CANON),))
    if i < len(_canon_consts) and abs(_canon_consts[i][0] - d) <= CANON * abs(d):
        return _canon_consts[i][1]
    bisect.insort(_canon_consts, (d, f))
    return f


def _canon(e):
    """argument of an uninterpreted function, up to rounding of the constants in it"""
    if z3.is_rational_value(e):
        f = Fraction(e.numerator_as_long(), e.denominator_as_long())
        g = _canon_const(f)
        return e if g == f else z3.Q(g.numerator, g.denominator)
    if not (z3.is_add(e) or z3.is_mul(e) or z3.is_div(e)):
        return e
    ch = e.children()
    new = [_canon(c) for c in ch]
    if all(a.eq(b) for a, b in zip(ch, new)):
        return e
    if z3.is_div(e):
        return z3.simplify(new[0] / new[1], som=True)
    return z3.simplify(z3.Sum(new) if z3.is_add(e) else z3.Product(new), som=True)


def _apply(name, x, on_new):
    """apply UF `name` to z3 real x; on_new(term, arg, others) -> axioms"""
    c = ctx()
    x = _canon(z3.simplify(x, som=True))
    tab = c.uf.setdefault(name, {})
    k = x.get_id()
    if k in tab:
        return tab[k][0]
    t = _uf(name)(x)
    for ax in on_new(t, x, list(tab.values())):
        c.axiom(ax)
    tab[k] = (t, x)
    return t


def _mono(t, x, others, strict=True):
    out = []
    for (u, y) in others:
        out.append(z3.And(z3.Implies(x < y, t < u if strict else t <= u),
                          z3.Implies(x > y, t > u if strict else t >= u),
                          z3.Implies(x == y, t == u)))
    return out


PI = math.pi


def _is_uf(e, name):
    return z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.decl().name() == name and e.num_args() == 1


def _exp_ax(t, a, others):
    return [t > 0, t >= 1 + a, z3.Implies(a < 0, t < 1), z3.Implies(a == 0, t == 1),
            z3.Implies(a < 1, t * (1 - a) <= 1)] + _mono(t, a, others)


def _exp_atom(arg):
    return SR(_apply('exp', arg, _exp_ax))


def _exp_base(k, t):
    """exp(t), t = k * monomial, as a power of the atom of the first coefficient seen for that monomial"""
    c = ctx()
    mono = z3.simplify(t / z3.Q(k.numerator, k.denominator), som=True)
    seen = c.uf.setdefault('exp_bases', {}).setdefault(mono.get_id(), [])
    for k0, t0, _ in seen:
        r = k / k0
        n = round(r)
        if n != 0 and abs(n) <= 8 and abs(r - n) <= CANON * abs(n):
            f = _exp_atom(t0)
            return f if n == 1 else pow_(f, n)
    f = _exp_atom(t)
    for k0, t0, _ in seen:
        r = k0 / k
        n = round(r)
        if n != 0 and abs(n) <= 8 and abs(r - n) <= CANON * abs(n):
            c.axiom(rexpr(pow_(f, n)) == rexpr(_exp_atom(t0)))
    seen.append((k, t, mono))
    return f


def _resolve_ifs(e):
    """replace the if-then-else terms in e by the branch taken on this path"""
    if z3.is_app_of(e, z3.Z3_OP_ITE):
        return _resolve_ifs(e.arg(1) if ctx().decide(e.arg(0)) else e.arg(2))
    if z3.is_add(e) or z3.is_mul(e) or z3.is_app_of(e, z3.Z3_OP_UMINUS) or z3.is_sub(e) or z3.is_div(e):
        ch = [_resolve_ifs(c) for c in e.children()]
        if all(a.eq(b) for a, b in zip(ch, e.children())):
            return e
        if z3.is_div(e):
            return ch[0] / ch[1]
        if z3.is_add(e):
            return z3.Sum(ch)
        if z3.is_mul(e):
            return z3.Product(ch)
        return -ch[0] if len(ch) == 1 else ch[0] - z3.Sum(ch[1:])
    return e


def exp_(x):
    if not is_sym(x):
        return float(np.exp(x))
    if isinstance(x, SC):
        return cexp_(x)
    e = z3.simplify(rexpr(x), som=True)
    if _is_lit(e) and e.eq(z3.RealVal(0)):
        return 1.0
    # exp(sum) -> product; exp(k*log t) -> t**k
    if getattr(ctx(), 'exp_split', False):
        e = z3.simplify(_resolve_ifs(e), som=True)
    terms = _addends(e)
    res = None
    rest = []
    for t in terms:
        k, core = _coeff(t)
        if core is not None and _is_uf(core, 'log') and k.denominator == 1 and abs(k.numerator) <= 8:
            base = SR(core.arg(0))
            f = pow_(base, int(k))
            res = f if res is None else res * f
        elif getattr(ctx(), 'exp_split', False) and len(terms) + abs(k.numerator) > 2 and not z3.is_rational_value(t):
            # exp(p/q m) = exp(m/q)**p, one function symbol per monomial
            if abs(k.numerator) > 8:
                f = _exp_base(k, t)
            else:
                core = z3.simplify(t / z3.RealVal(k.numerator), som=True) if k.numerator else t
                f = _exp_atom(core)
                f = pow_(f, k.numerator) if k.numerator != 1 else f
            res = f if res is None else res * f
        else:
            rest.append(t)
    if getattr(ctx(), 'exp_split', False):      # constant factors are numbers
        lit = [t for t in rest if z3.is_rational_value(t)]
        rest = [t for t in rest if not z3.is_rational_value(t)]
        for t in lit:
            v = float(Fraction(t.numerator_as_long(), t.denominator_as_long()))
            if abs(v) > 600:
                raise EngineError('exp of a large constant')
            f = SR(rv(math.exp(v)))
            res = f if res is None else res * f
    if rest:
        arg = rest[0] if len(rest) == 1 else z3.Sum(rest)

        def ax(t, a, others):
            return [t > 0, t >= 1 + a, z3.Implies(a < 0, t < 1), z3.Implies(a == 0, t == 1),
                    z3.Implies(a < 1, t * (1 - a) <= 1)] + _mono(t, a, others)
        f = SR(_apply('exp', arg, ax))
        # negated twin: exp(-a) * exp(a) == 1
        c = ctx()
        tab = c.uf['exp']
        na = z3.simplify(-arg, som=True)
        if na.get_id() in tab and not na.eq(z3.simplify(arg, som=True)):
            c.axiom(f.e * tab[na.get_id()][0] == 1)
        res = f if res is None else res * f
    return 1.0 if res is None else res


def _addends(e):
    if z3.is_add(e):
        out = []
        for ch in e.children():
            out.extend(_addends(ch))
        return out
    return [e]


def _coeff(t):
    """t = k * core with rational k"""
    if z3.is_mul(t):
        k = Fraction(1)
        rest = []
        for ch in t.children():
            if z3.is_rational_value(ch):
                k *= Fraction(ch.numerator_as_long(), ch.denominator_as_long())
            else:
                rest.append(ch)
        if len(rest) == 1:
            return k, rest[0]
        return k, None
    if z3.is_app_of(t, z3.Z3_OP_UMINUS):
        k, c = _coeff(t.arg(0))
        return -k, c
    return Fraction(1), t


def log_(x):
    if not is_sym(x):
        with np.errstate(all='ignore'):
            return float(np.log(x))
    e = z3.simplify(rexpr(x))
    if z3.is_rational_value(e):
        f = Fraction(e.numerator_as_long(), e.denominator_as_long())
        if f == 1:
            return 0.0
        if f <= 0:
            return -math.inf if f == 0 else math.nan
        if getattr(ctx(), 'exp_split', False):
            return SR(rv(math.log(float(f))))
    if _is_uf(e, 'exp'):
        return SR(e.arg(0))
    if not z3.is_rational_value(e):
        if ctx().decide(e <= 0):
            return -math.inf if ctx().decide(e == 0) else math.nan
    if z3.is_mul(e) and getattr(ctx(), 'log_split', True):
        tot = None
        ok = True
        for ch in e.children():
            if z3.is_rational_value(ch) or _is_uf(ch, 'exp'):
                continue
            ok = ok and ctx().check(ch <= 0) == z3.unsat
        if ok:
            for ch in e.children():
                v = log_(SR(ch))
                tot = v if tot is None else tot + v
            return tot
    if z3.is_div(e) and ctx().check(e.arg(1) <= 0) == z3.unsat:
        return log_(SR(e.arg(0))) - log_(SR(e.arg(1)))

    def ax(t, a, others):
        if z3.is_rational_value(a):
            v = math.log(float(Fraction(a.numerator_as_long(), a.denominator_as_long())))
            return [t >= rv(v - 1e-13 * (1 + abs(v))), t <= rv(v + 1e-13 * (1 + abs(v)))]
        return [z3.Implies(a > 1, t > 0), z3.Implies(a < 1, t < 0), z3.Implies(a == 1, t == 0),
                t <= a - 1, t * a >= a - 1] + _mono(t, a, others)
    return SR(_apply('log', e, ax))


def expm1_(x):
    if not is_sym(x):
        return float(np.expm1(x))
    return exp_(x) - 1.0


def log1p_(x):
    if not is_sym(x):
        with np.errstate(all='ignore'):
            return float(np.log1p(x))
    return log_(1.0 + x)


def tanh_(x):
    if not is_sym(x):
        return float(np.tanh(x))
    e = z3.simplify(rexpr(x), som=True)
    if _is_lit(e) and e.eq(z3.RealVal(0)):
        return 0.0

    def ax(t, a, others):
        return [t > -1, t < 1, z3.Implies(a > 0, z3.And(t > 0, t < a)),
                z3.Implies(a < 0, z3.And(t < 0, t > a)), z3.Implies(a == 0, t == 0)] + _mono(t, a, others)
    return SR(_apply('tanh', e, ax))


def sinh_(x):
    if not is_sym(x):
        return float(np.sinh(x))
    return (exp_(x) - exp_(-x)) / 2.0


def cosh_(x):
    if not is_sym(x):
        return float(np.cosh(x))
    return (exp_(x) + exp_(-x)) / 2.0


def _trig(x):
    """(sin, cos) of symbolic x with even/odd normalisation"""
    e = z3.simplify(rexpr(x), som=True)
    if _is_lit(e) and e.eq(z3.RealVal(0)):
        return 0.0, 1.0
    # constant shift of pi/2 multiples: cos(t - a + pi/2); whole turns counted by an integer term are made definite
    const = Fraction(0)
    rest = []
    for t in _addends(e):
        k, core = _coeff(t)
        if core is not None and z3.is_app_of(core, z3.Z3_OP_TO_REAL):
            q = k / (snap(PI) / 2)
            if round(q) != 0 and abs(q - round(q)) < Fraction(1, 10**12):
                const += k * ctx().concretize_int(core.arg(0))
                continue
        if z3.is_rational_value(t):
            const += Fraction(t.numerator_as_long(), t.denominator_as_long())
        else:
            rest.append(t)
    if const != 0:
        q = const / (snap(PI) / 2)
        n = round(q)
        if n != 0 and abs(q - n) < Fraction(1, 10**9):
            s, c = _trig(SR(z3.Sum(rest) if len(rest) > 1 else (rest[0] if rest else z3.RealVal(0))))
            s, c = {0: (s, c), 1: (c, -s), 2: (-s, -c), 3: (-c, s)}[n % 4]
            if getattr(ctx(), 'trig_range', False) and is_sym(c):
                half = rv(PI) / 2
                ctx().axiom(z3.Implies(z3.And(e > -half, e < half), rexpr(c) > 0))
                ctx().axiom(z3.Implies(z3.Or(e == -half, e == half), rexpr(c) == 0))
            return s, c
    if len(rest) != len(_addends(e)):
        e = z3.simplify(z3.Sum(rest + [z3.Q(const.numerator, const.denominator)]), som=True)
    neg = False
    k, core = _coeff(_addends(e)[0])
    if k < 0:
        e = z3.simplify(-e, som=True)
        neg = True
    c_ = ctx()
    # arctan2 normalisation: cos(atan2(y,x)) etc. are handled by axioms at atan2
    s = _apply('sin', e, lambda t, a, o: [t <= 1, t >= -1])
    c = _apply('cos', e, lambda t, a, o: [t <= 1, t >= -1])
    if not c_.uf.setdefault('pyth', {}).get(e.get_id()):
        c_.uf['pyth'][e.get_id()] = (e, e)
        c_.axiom(s * s + c * c == 1)
        c_.axiom(z3.Implies(e == 0, z3.And(s == 0, c == 1)))
        if getattr(c_, 'trig_range', False):
            half = rv(PI) / 2
            c_.axiom(z3.Implies(z3.And(e > -half, e < half), c > 0))
            c_.axiom(z3.Implies(z3.Or(e == -half, e == half), c == 0))
    return (-SR(s) if neg else SR(s)), SR(c)


def sin_(x):
    if not is_sym(x):
        return float(np.sin(x))
    return _trig(x)[0]


def cos_(x):
    if not is_sym(x):
        return float(np.cos(x))
    return _trig(x)[1]


def arctan2_(y, x):
    if not is_sym(y) and not is_sym(x):
        return float(np.arctan2(y, x))
    c = ctx()
    ye, xe = z3.simplify(rexpr(y)), z3.simplify(rexpr(x))
    F = z3.Function('atan2', z3.RealSort(), z3.RealSort(), z3.RealSort())
    t = F(ye, xe)
    tab = c.uf.setdefault('atan2', {})
    k = (ye.get_id(), xe.get_id())
    if k not in tab:
        tab[k] = (t, ye, xe)
        r = sqrt_(SR(xe * xe + ye * ye), True)
        s, co = _trig(SR(t))
        c.axiom(z3.And(s.e * r.e == ye, co.e * r.e == xe, t > -rv(PI) - z3.Q(1, 10**9), t <= rv(PI) + z3.Q(1, 10**9)))
    return SR(t)


def generic_uf(name, *args):
    """an unconstrained (uninterpreted) function of reals"""
    es = [z3.simplify(rexpr(a)) for a in args]
    F = z3.Function('u_' + name, *([z3.RealSort()] * (len(es) + 1)))
    return SR(F(*es))


# ---------------------------------------------------------------- complex
class SC:
    """symbolic complex number (pair of reals)"""
    __slots__ = ('re', 'im')
    __array_priority__ = 1001
    shape = ()
    ndim = 0
    size = 1
    dtype = np.dtype(complex)

    def __init__(self, re, im):
        self.re, self.im = re, im

    @staticmethod
    def of(o):
        if isinstance(o, SC):
            return o
        if isinstance(o, (complex, np.complexfloating)):
            return SC(float(o.real), float(o.imag))
        return SC(o, 0.0)

    @property
    def real(self):
        return self.re

    @property
    def imag(self):
        return self.im

    def conjugate(self):
        return SC(self.re, -self.im)
    conj = conjugate

    def _c(self, o):
        if isinstance(o, np.ndarray):
            if o.ndim:
                return None
            o = o.item()
        return SC.of(o)

    def __add__(self, o):
        o = self._c(o)
        return NotImplemented if o is None else SC(self.re + o.re, self.im + o.im)
    __radd__ = __add__

    def __sub__(self, o):
        o = self._c(o)
        return NotImplemented if o is None else SC(self.re - o.re, self.im - o.im)

    def __rsub__(self, o):
        return SC.of(o) - self

    def __mul__(self, o):
        o = self._c(o)
        if o is None:
            return NotImplemented
        return SC(self.re * o.re - self.im * o.im, self.re * o.im + self.im * o.re)
    __rmul__ = __mul__

    def __truediv__(self, o):
        o = self._c(o)
        if o is None:
            return NotImplemented
        if not is_sym(o.im) and o.im == 0:
            return SC(self.re / o.re, self.im / o.re)
        d = o.re * o.re + o.im * o.im
        n = self * o.conjugate()
        return SC(n.re / d, n.im / d)

    def __rtruediv__(self, o):
        return SC.of(o) / self

    def __neg__(self):
        return SC(-self.re, -self.im)

    def __abs__(self):
        return sqrt_(self.re * self.re + self.im * self.im, True)

    def __pow__(self, p):
        if isinstance(p, (int, np.integer)) and p >= 0 or (isinstance(p, float) and p == int(p) and p >= 0):
            r = SC(1.0, 0.0)
            for _ in range(int(p)):
                r = r * self
            return r
        raise EngineError('complex power')

    def __eq__(self, o):
        o = self._c(o)
        return logic_and(self.re == o.re, self.im == o.im)

    def __ne__(self, o):
        return notb(self == o)

    __hash__ = None

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import nparr
        return nparr.array_ufunc(ufunc, method, *inputs, **kw)

    def __array_function__(self, func, types, args, kwargs):
        from . import nparr
        return nparr.array_function(func, types, args, kwargs)


def cexp_(x):
    r = exp_(x.re) if not (not is_sym(x.re) and x.re == 0) else 1.0
    return SC(r * cos_(x.im), r * sin_(x.im))


def logic_and(a, b):
    if not is_sym(a):
        return b if a else False
    if not is_sym(b):
        return a if b else False
    return mkb(z3.simplify(z3.And(bexpr(a), bexpr(b))))


def logic_or(a, b):
    if not is_sym(a):
        return True if a else b
    if not is_sym(b):
        return True if b else a
    return mkb(z3.simplify(z3.Or(bexpr(a), bexpr(b))))


# ---------------------------------------------------------------- words
class SBV:
    """symbolic signed 64-bit integer (numpy int64 semantics)"""
    __slots__ = ('e',)
    __array_priority__ = 1000
    W = 64
    shape = ()
    ndim = 0
    size = 1
    dtype = np.dtype(np.int64)

    def __init__(self, e):
        self.e = e

    @staticmethod
    def of(o):
        if isinstance(o, SBV):
            return o
        if isinstance(o, SB):
            return SBV(z3.If(o.e, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64)))
        return SBV(z3.BitVecVal(int(o), 64))

    def _bin(self, o, f, rev=False):
        if isinstance(o, np.ndarray):
            if o.ndim:
                return NotImplemented
            o = o.item()
        a, b = self.e, SBV.of(o).e
        if rev:
            a, b = b, a
        return SBV(f(a, b))

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    __radd__ = __add__
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: a - b, True)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    __rmul__ = __mul__
    def __and__(self, o): return self._bin(o, lambda a, b: a & b)
    __rand__ = __and__
    def __or__(self, o): return self._bin(o, lambda a, b: a | b)
    __ror__ = __or__
    def __xor__(self, o): return self._bin(o, lambda a, b: a ^ b)
    __rxor__ = __xor__
    def __invert__(self): return SBV(~self.e)
    def __neg__(self): return SBV(-self.e)
    def __abs__(self): return SBV(z3.If(self.e >= 0, self.e, -self.e))

    @staticmethod
    def _shl(a, b):
        return z3.If(z3.ULT(b, 64), a << b, z3.BitVecVal(0, 64))

    @staticmethod
    def _shr(a, b):
        return z3.If(z3.ULT(b, 64), a >> b, z3.If(a < 0, z3.BitVecVal(-1, 64), z3.BitVecVal(0, 64)))

    def __lshift__(self, o): return self._bin(o, SBV._shl)
    def __rlshift__(self, o): return self._bin(o, SBV._shl, True)
    def __rshift__(self, o): return self._bin(o, SBV._shr)
    def __rrshift__(self, o): return self._bin(o, SBV._shr, True)

    def __floordiv__(self, o):
        def f(a, b):
            q = a / b
            return z3.If(z3.And(z3.SRem(a, b) != 0, (a < 0) != (b < 0)), q - 1, q)
        return self._bin(o, f)

    def __mod__(self, o):
        return self._bin(o, lambda a, b: a % b)

    def __pow__(self, o):
        if isinstance(o, (int, np.integer)):
            r = SBV.of(1)
            for _ in range(int(o)):
                r = r * self
            return r
        raise EngineError('bv pow')

    def __rpow__(self, b):
        if int(b) == 2:
            return SBV(SBV._shl(z3.BitVecVal(1, 64), self.e))
        raise EngineError('bv rpow')

    def _cmp(self, o, f):
        if isinstance(o, np.ndarray):
            if o.ndim:
                return NotImplemented
            o = o.item()
        return mkb(z3.simplify(f(self.e, SBV.of(o).e)))

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)
    def __eq__(self, o): return self._cmp(o, lambda a, b: a == b)
    def __ne__(self, o): return self._cmp(o, lambda a, b: a != b)
    def __hash__(self): return self.e.hash()
    def __bool__(self): return ctx().decide(self.e != 0)

    def __int__(self):
        return ctx().concretize_int(z3.BV2Int(self.e, is_signed=True))
    __index__ = __int__

    def astype(self, t, **k):
        return self if np.dtype(t) != bool else (self != 0)

    def item(self):
        return self

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import nparr
        return nparr.array_ufunc(ufunc, method, *inputs, **kw)

    def __array_function__(self, func, types, args, kwargs):
        from . import nparr
        return nparr.array_function(func, types, args, kwargs)
