"""Symbolic numpy arrays: an ndarray subclass whose ufuncs / array functions work on
symbolic scalars, and proxies that replace numpy/scipy names inside wafo's modules."""
import math
import types
import builtins
import numpy as np
from . import core as C
from .core import SR, SB, SC, SBV, is_sym, EngineError, ite, ctx
import z3

_ORIG = np


# ------------------------------------------------------------------ helpers
def has_sym(x):
    if is_sym(x):
        return True
    if isinstance(x, np.ndarray):
        if x.dtype != object:
            return False
        return any(is_sym(v) for v in x.ravel().tolist()) if x.size else False
    if isinstance(x, (list, tuple)):
        return any(has_sym(v) for v in x)
    return False


def base(x):
    return x.view(np.ndarray) if isinstance(x, SymArray) else x


def mkarr(x, copy=False):
    """nested lists / scalars / arrays with symbolic members -> object SymArray"""
    if isinstance(x, np.ndarray):
        y = x.astype(object) if x.dtype != object else (x.copy() if copy else x)
        return y.view(SymArray)
    if is_sym(x) or not isinstance(x, (list, tuple)):
        if isinstance(x, (list, tuple, range)) or hasattr(x, '__iter__'):
            return mkarr(list(x))
        a = np.empty((), dtype=object)
        a[()] = x
        return a.view(SymArray)
    items = [mkarr(v) for v in x]
    if not items:
        return np.empty((0,), dtype=object).view(SymArray)
    sh = items[0].shape
    for it in items:
        if it.shape != sh:
            raise ValueError('setting an array element with a sequence. inhomogeneous shape')
    out = np.empty((len(items),) + sh, dtype=object)
    for i, it in enumerate(items):
        out[i] = base(it) if sh else base(it).item()
    return out.view(SymArray)


def tofloat(x):
    """object array without symbolic members -> native array (else None)"""
    if not isinstance(x, np.ndarray):
        return x
    if x.dtype != object:
        return base(x)
    lst = base(x).ravel().tolist()
    for v in lst:
        if is_sym(v):
            return None
    if all(isinstance(v, (bool, np.bool_)) for v in lst) and lst:
        return np.array(lst, dtype=bool).reshape(x.shape)
    if all(isinstance(v, (int, np.integer)) and not isinstance(v, bool) for v in lst) and lst:
        return np.array(lst, dtype=np.int64).reshape(x.shape)
    if any(isinstance(v, complex) for v in lst):
        return np.array(lst, dtype=complex).reshape(x.shape)
    try:
        return np.array([float(v) for v in lst], dtype=float).reshape(x.shape)
    except (TypeError, ValueError):
        return None


def wrap(r):
    """result normalisation: float/complex/object arrays become object SymArrays,
    bool/int arrays SymArray views of their native dtype, 0-d -> scalar"""
    if isinstance(r, tuple):
        return tuple(wrap(v) for v in r)
    if isinstance(r, list):
        return [wrap(v) for v in r]
    if isinstance(r, np.ndarray):
        if r.dtype == object:
            f = None
            if r.size:
                first = r.flat[0]
                if isinstance(first, (bool, np.bool_)):
                    lst = base(r).ravel().tolist()
                    if all(isinstance(v, (bool, np.bool_)) for v in lst):
                        f = np.array(lst, dtype=bool).reshape(r.shape)
            r = f if f is not None else r
        elif r.dtype.kind in 'fc':
            r = r.astype(object)
        elif r.dtype.kind not in 'biu':
            return r
        return r.view(SymArray)
    return r


def wrap0(r):
    r = wrap(r)
    if isinstance(r, np.ndarray) and r.ndim == 0:
        return base(r).item()
    return r


# ------------------------------------------------------------------ elementwise tables
def _c2(npf):
    def f(a, b):
        with np.errstate(all='ignore'):
            return npf(a, b).item()
    return f


def _bin(npf, op):
    cf = _c2(npf)

    def f(a, b):
        if is_sym(a) or is_sym(b):
            return op(a, b)
        return cf(a, b)
    return f


def _mul(a, b):
    if isinstance(a, SB) and not isinstance(b, SB):
        return ite(a, b, 0 * b if not is_sym(b) else 0)
    if isinstance(b, SB) and not isinstance(a, SB):
        return ite(b, a, 0 * a if not is_sym(a) else 0)
    if isinstance(a, SB) and isinstance(b, SB):
        return a & b
    return a * b


def _add(a, b):
    if isinstance(a, (SB, bool)) and isinstance(b, (SB, bool)):
        return C.logic_or(a, b)
    return a + b


def _cmpf(npf, op):
    def f(a, b):
        if is_sym(a) or is_sym(b):
            return op(a, b)
        return bool(npf(a, b))
    return f


def _un(npf, op):
    def f(a):
        if is_sym(a):
            return op(a)
        with np.errstate(all='ignore'):
            return npf(a).item()
    return f


def _logic(x):
    if isinstance(x, SB):
        return x
    if isinstance(x, (SR, SBV)):
        return x != 0
    return bool(x)


def _bitand(a, b):
    if isinstance(a, (SB, bool, np.bool_)) and isinstance(b, (SB, bool, np.bool_)):
        return C.logic_and(a, b)
    if is_sym(a) or is_sym(b):
        return (a & b) if is_sym(a) else (b & a)
    return np.bitwise_and(a, b).item()


def _bitor(a, b):
    if isinstance(a, (SB, bool, np.bool_)) and isinstance(b, (SB, bool, np.bool_)):
        return C.logic_or(a, b)
    if is_sym(a) or is_sym(b):
        return (a | b) if is_sym(a) else (b | a)
    return np.bitwise_or(a, b).item()


def _bitxor(a, b):
    if is_sym(a) or is_sym(b):
        return (a ^ b) if is_sym(a) else (b ^ a)
    return np.bitwise_xor(a, b).item()


def _invert(a):
    if isinstance(a, (SB, SBV)):
        return ~a
    if isinstance(a, (bool, np.bool_)):
        return not a
    return ~a


def _conj(a):
    return a.conjugate() if hasattr(a, 'conjugate') else a


def _tan(a):
    s, c = C.sin_(a), C.cos_(a)
    return s / c


def _hypot(a, b):
    return C.sqrt_(a * a + b * b)


def _uf1(name):
    return lambda a: C.generic_uf(name, a)


def clip_(x, lo, hi):
    if lo is not None:
        x = C.maximum_(x, lo)
    if hi is not None:
        x = C.minimum_(x, hi)
    return x


def _abs(a):
    return abs(a)


def _pow(a, b):
    return C.pow_(a, b)


def _frexp_e(a):
    raise EngineError('frexp')


BIN = {
    'add': _bin(np.add, _add), 'subtract': _bin(np.subtract, lambda a, b: a - b),
    'multiply': _bin(np.multiply, _mul), 'divide': _bin(np.divide, lambda a, b: a / b),
    'true_divide': _bin(np.divide, lambda a, b: a / b),
    'floor_divide': _bin(np.floor_divide, lambda a, b: a // b),
    'remainder': _bin(np.remainder, lambda a, b: a % b),
    'power': _bin(np.power, _pow), 'float_power': _bin(np.float_power, _pow),
    'maximum': _bin(np.maximum, C.maximum_), 'minimum': _bin(np.minimum, C.minimum_),
    'fmax': _bin(np.fmax, C.maximum_), 'fmin': _bin(np.fmin, C.minimum_),
    'arctan2': _bin(np.arctan2, C.arctan2_), 'hypot': _bin(np.hypot, _hypot),
    'less': _cmpf(np.less, lambda a, b: a < b), 'less_equal': _cmpf(np.less_equal, lambda a, b: a <= b),
    'greater': _cmpf(np.greater, lambda a, b: a > b),
    'greater_equal': _cmpf(np.greater_equal, lambda a, b: a >= b),
    'equal': _cmpf(np.equal, lambda a, b: a == b), 'not_equal': _cmpf(np.not_equal, lambda a, b: a != b),
    'logical_and': lambda a, b: C.logic_and(_logic(a), _logic(b)),
    'logical_or': lambda a, b: C.logic_or(_logic(a), _logic(b)),
    'logical_xor': lambda a, b: (_logic(a) != _logic(b)) if is_sym(a) or is_sym(b) else bool(a) != bool(b),
    'bitwise_and': _bitand, 'bitwise_or': _bitor, 'bitwise_xor': _bitxor,
    'left_shift': lambda a, b: a << b, 'right_shift': lambda a, b: a >> b,
    'copysign': _bin(np.copysign, lambda a, b: ite(b >= 0, abs(a), -abs(a))),
    'heaviside': _bin(np.heaviside, lambda a, b: ite(a > 0, 1.0, ite(a < 0, 0.0, b))),
    'gcd': _c2(np.gcd), 'lcm': _c2(np.lcm),
}
UN = {
    'negative': _un(np.negative, lambda a: -a), 'positive': lambda a: a,
    'absolute': _un(np.absolute, _abs), 'fabs': _un(np.fabs, _abs),
    'sign': _un(np.sign, C.sign_), 'sqrt': _un(np.sqrt, C.sqrt_), 'square': lambda a: a * a,
    'cbrt': _un(np.cbrt, lambda a: C.pow_(a, C.Fraction(1, 3))),
    'exp': _un(np.exp, C.exp_), 'expm1': _un(np.expm1, C.expm1_), 'log': _un(np.log, C.log_),
    'log1p': _un(np.log1p, C.log1p_),
    'log2': _un(np.log2, lambda a: C.log_(a) / math.log(2)),
    'log10': _un(np.log10, lambda a: C.log_(a) / math.log(10)),
    'exp2': _un(np.exp2, lambda a: C.exp_(a * math.log(2))),
    'sin': _un(np.sin, C.sin_), 'cos': _un(np.cos, C.cos_), 'tan': _un(np.tan, _tan),
    'tanh': _un(np.tanh, C.tanh_), 'sinh': _un(np.sinh, C.sinh_), 'cosh': _un(np.cosh, C.cosh_),
    'arccos': _un(np.arccos, _uf1('arccos')), 'arcsin': _un(np.arcsin, _uf1('arcsin')),
    'arctan': _un(np.arctan, _uf1('arctan')), 'arcsinh': _un(np.arcsinh, _uf1('arcsinh')),
    'arccosh': _un(np.arccosh, _uf1('arccosh')), 'arctanh': _un(np.arctanh, _uf1('arctanh')),
    'floor': _un(np.floor, C.floor_), 'ceil': _un(np.ceil, C.ceil_), 'rint': _un(np.rint, C.rint_),
    'trunc': _un(np.trunc, C.trunc_),
    'isnan': C.isnan_, 'isfinite': C.isfinite_, 'isinf': C.isinf_,
    'logical_not': lambda a: C.notb(_logic(a)), 'invert': _invert, 'conjugate': _conj,
    'reciprocal': _un(np.reciprocal, lambda a: 1.0 / a),
    'deg2rad': lambda a: a * (math.pi / 180), 'rad2deg': lambda a: a * (180 / math.pi),
    'radians': lambda a: a * (math.pi / 180), 'degrees': lambda a: a * (180 / math.pi),
    'signbit': lambda a: a < 0, 'spacing': lambda a: 2.220446049250313e-16,
}
TABLE = dict(UN)
TABLE.update(BIN)
_PYF = {}


def elemwise(name):
    f = _PYF.get(name)
    if f is None:
        fn = TABLE[name]
        f = np.frompyfunc(fn, 1 if name in UN else 2, 1)
        _PYF[name] = f
    return f


def _asobj(x):
    if isinstance(x, np.ndarray):
        return base(x).astype(object) if x.dtype != object else base(x)
    if is_sym(x):
        a = np.empty((), dtype=object)
        a[()] = x
        return a
    if isinstance(x, (list, tuple)):
        return base(mkarr(x))
    a = np.empty((), dtype=object)
    a[()] = x.item() if isinstance(x, np.generic) else x
    return a


_IDENT = {'add': 0, 'multiply': 1, 'logical_and': True, 'logical_or': False, 'bitwise_or': 0}


def _natives(inputs):
    out = []
    for x in inputs:
        if is_sym(x):
            return None
        if isinstance(x, np.ndarray):
            y = tofloat(x)
            if y is None:
                return None
            out.append(y)
        elif isinstance(x, (list, tuple)) and has_sym(x):
            return None
        else:
            out.append(x)
    return out


def array_ufunc(ufunc, method, *inputs, **kw):
    name = ufunc.__name__
    out = kw.pop('out', None)
    kw.pop('casting', None)
    kw.pop('dtype', None)
    kw.pop('subok', None)
    where = kw.pop('where', True)
    if where is not True and not (isinstance(where, (bool, np.bool_)) and where):
        r = array_ufunc(ufunc, method, *inputs, **kw)
        if out is None:
            raise EngineError('where= without out=')
        o = out[0] if isinstance(out, tuple) else out
        o[...] = where_(where, r, o)
        return o
    if method == '__call__':
        nat = _natives(inputs)
        if nat is not None:
            if name in ('bitwise_or', 'bitwise_and', 'bitwise_xor', 'invert'):    # an empty selection has lost its type
                nat = [v.astype(bool) if isinstance(v, np.ndarray) and v.size == 0 and v.dtype.kind not in 'biu' else v for v in nat]
            with np.errstate(all='ignore'):
                r = ufunc(*nat, **kw)
            r = wrap0(r)
        elif name == 'matmul':
            r = dot_(inputs[0], inputs[1])
        elif name == 'frexp':
            raise EngineError('frexp of symbolic')
        elif name == 'divmod':
            r = (array_ufunc(np.floor_divide, '__call__', *inputs), array_ufunc(np.remainder, '__call__', *inputs))
        elif name == 'modf':
            ip = array_ufunc(np.trunc, '__call__', *inputs)
            r = (inputs[0] - ip, ip)
        elif name == 'clip':
            r = array_ufunc(np.minimum, '__call__', array_ufunc(np.maximum, '__call__', inputs[0], inputs[1]), inputs[2])
        elif name in TABLE:
            r = elemwise(name)(*[_asobj(x) for x in inputs])
            r = wrap0(r)
        elif name.startswith('_') or 'vectorized' in name or '?' in name:
            r = wrap0(ufunc(*[_asobj(x) for x in inputs]))
        else:
            sp = SPECIAL.get(name)
            if sp is None:
                raise EngineError('ufunc %s on symbolic values' % name)
            r = wrap0(np.frompyfunc(sp, len(inputs), 1)(*[_asobj(x) for x in inputs]))
        if out is not None:
            o = out[0] if isinstance(out, tuple) else out
            if o is not None:
                if o.dtype != object and has_sym(r):
                    raise EngineError('symbolic result into native out array')
                o[...] = r
                return o
        return r
    if method == 'reduce':
        r = reduce_(name, inputs[0], **kw)
        if out is not None:
            o = out[0] if isinstance(out, tuple) else out
            if o is not None:
                o[...] = r
                return o
        return r
    if method == 'accumulate':
        r = accumulate_(name, *inputs, **kw)
        if out is not None:
            o = out[0] if isinstance(out, tuple) else out
            if o is not None:
                o[...] = r
                return o
        return r
    if method == 'outer':
        a, b = mkarr(inputs[0]), mkarr(inputs[1])
        return array_ufunc(ufunc, '__call__', a.reshape(a.shape + (1,) * b.ndim), b)
    if method == 'at':
        a, idx, val = inputs
        f = TABLE[name]
        idx = _index(idx)
        bc = np.broadcast_arrays(np.asarray(idx), _asobj(val)) if not isinstance(idx, tuple) else None
        if bc is None:
            raise EngineError('ufunc.at tuple')
        for i, v in zip(bc[0].ravel(), bc[1].ravel()):
            a[i] = f(a[i], v)
        return None
    raise EngineError('ufunc method ' + method)


def reduce_(name, a, axis=0, keepdims=False, initial=None, dtype=None, **kw):
    if not isinstance(a, np.ndarray):
        a = mkarr(a)
    if initial is np._NoValue:
        initial = None
    if axis is None or a.ndim == 0:
        v = base(a).ravel()
        r = _fold(name, v.tolist(), initial)
        if keepdims:
            o = np.empty((1,) * a.ndim, dtype=object)
            o.flat[0] = r
            return wrap(o)
        return r
    if isinstance(axis, tuple):
        r = a
        for ax in sorted([x % a.ndim for x in axis], reverse=True):
            r = reduce_(name, r, ax, keepdims=keepdims)
        return r
    ax = int(axis) % a.ndim
    b = np.moveaxis(base(a).astype(object), ax, -1)
    sh = b.shape[:-1]
    o = np.empty(sh, dtype=object)
    for i in np.ndindex(*sh):
        o[i] = _fold(name, b[i].tolist(), initial)
    if keepdims:
        o = np.expand_dims(o, ax)
    return wrap0(o)


def _fold(name, lst, initial):
    f = TABLE[name]
    if name in ('add',):
        lst = [(v.num() if isinstance(v, SB) else (int(v) if isinstance(v, (bool, np.bool_)) else v)) for v in lst]
    if initial is not None:
        lst = [initial] + lst
    if not lst:
        if name in _IDENT:
            return _IDENT[name] if name != 'add' else 0.0
        raise ValueError('zero-size array to reduction operation %s which has no identity' % name)
    r = lst[0]
    if name in ('logical_and', 'logical_or') and len(lst) == 1:
        return _logic(r)
    for v in lst[1:]:
        r = f(r, v)
    return r


def accumulate_(name, a, axis=0, **kw):
    if not isinstance(a, np.ndarray):
        a = mkarr(a)
    f = TABLE[name]
    o = np.moveaxis(base(a).astype(object), axis, -1).copy()
    if name == 'add':
        o = np.frompyfunc(lambda v: v.num() if isinstance(v, SB) else (int(v) if isinstance(v, bool) else v), 1, 1)(o)
    for i in np.ndindex(*o.shape[:-1]):
        for k in range(1, o.shape[-1]):
            o[i + (k,)] = f(o[i + (k - 1,)], o[i + (k,)])
    return wrap(np.moveaxis(o, -1, axis))


# ------------------------------------------------------------------ indexing
def _conc_bool(v):
    return bool(v)


def _index1(k):
    if isinstance(k, SB):
        return bool(k)
    if isinstance(k, (SR, SBV)):
        return k.__index__()
    if isinstance(k, np.ndarray) and k.dtype == object:
        lst = base(k).ravel().tolist()
        if all(isinstance(v, (SB, bool, np.bool_)) for v in lst) and lst:
            return np.array([bool(v) for v in lst], dtype=bool).reshape(k.shape)
        out = []
        for v in lst:
            if isinstance(v, (float, np.floating)):
                raise IndexError('arrays used as indices must be of integer (or boolean) type')
            out.append(v.__index__())
        return np.array(out, dtype=np.intp).reshape(k.shape)
    if isinstance(k, SymArray):
        return base(k)
    if isinstance(k, (list,)):
        if has_sym(k):
            return _index1(mkarr(k))
        return k
    if isinstance(k, slice):
        def cv(v):
            if isinstance(v, (SR, SBV)):
                return v.__index__()
            return v
        return slice(cv(k.start), cv(k.stop), cv(k.step))
    return k


def _index(k):
    if isinstance(k, tuple):
        return tuple(_index1(v) for v in k)
    return _index1(k)


def int_ite(e):
    """an if-tree over integral literals as an integer expression (or None)"""
    if z3.is_rational_value(e):
        n, d = e.numerator_as_long(), e.denominator_as_long()
        return z3.IntVal(n) if d == 1 else None
    if z3.is_app_of(e, z3.Z3_OP_ITE):
        a, b = int_ite(e.arg(1)), int_ite(e.arg(2))
        return None if a is None or b is None else z3.If(e.arg(0), a, b)
    if z3.is_app_of(e, z3.Z3_OP_TO_REAL):
        return e.arg(0)
    return None


def cast_scalar(x, t):
    d = np.dtype(t) if t is not object else np.dtype(object)
    if isinstance(x, SR):
        if d.kind == 'b':
            return x != 0
        if d.kind in 'iu':
            if x.is_int:
                return x
            ie = int_ite(x.e)
            return SR(ie if ie is not None else z3.If(x.e >= 0, z3.ToInt(x.e), -z3.ToInt(-x.e)))
        if d.kind == 'f':
            return SR(C.toreal(x.e))
        return x
    if isinstance(x, SB):
        return x if d.kind == 'b' else (x.num() if d.kind in 'iu' else SR(C.toreal(x.num().e)))
    if is_sym(x):
        return x
    if d.kind == 'O':
        return x
    return d.type(x).item()


class SymArray(np.ndarray):
    __array_priority__ = 900

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return array_ufunc(ufunc, method, *inputs, **kw)

    def __array_function__(self, func, types, args, kwargs):
        return array_function(func, types, args, kwargs)

    def __getitem__(self, k):
        r = np.ndarray.__getitem__(self, _index(k))
        return r

    def __setitem__(self, k, v):
        if isinstance(v, SymArray) and v.ndim == 0:
            v = base(v).item()
        # merge instead of forking for same-shape symbolic masks and scalar values
        if isinstance(k, np.ndarray) and k.dtype == object and k.shape == self.shape and self.dtype == object \
                and not isinstance(v, (np.ndarray, list, tuple)) and \
                all(isinstance(m, (SB, bool, np.bool_)) for m in base(k).ravel().tolist()):
            b = base(self)
            for i in np.ndindex(*self.shape):
                b[i] = ite(base(k)[i], v, b[i])
            return
        if self.dtype != object:
            if isinstance(v, (SB,)) and self.dtype.kind == 'b':
                v = bool(v)
            elif has_sym(v):
                if self.dtype.kind == 'b':
                    v = np.vectorize(bool, otypes=[bool])(_asobj(v))
                elif self.dtype.kind in 'iu':
                    v = np.vectorize(lambda t: int(t), otypes=[np.int64])(_asobj(v))
                else:
                    raise EngineError('symbolic value stored into native float array')
            elif isinstance(v, np.ndarray) and v.dtype == object:
                v = tofloat(v)
        elif isinstance(v, (list, tuple)) and has_sym(v):
            v = base(mkarr(v))
        elif isinstance(v, np.ndarray) and v.dtype.kind in 'fc':
            v = base(v).astype(object)
        k = _index(k)
        if isinstance(v, np.ndarray) and v.ndim and v.size == 1 and self.dtype == object and \
                (isinstance(k, (int, np.integer)) and self.ndim == 1 or isinstance(k, tuple) and len(k) == self.ndim and all(isinstance(i, (int, np.integer)) for i in k)):
            v = base(v).ravel()[0]      # an element, not an array in a cell
        np.ndarray.__setitem__(base(self), k, base(v))

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def __bool__(self):
        if self.size == 1:
            return bool(base(self).item())
        if self.size == 0:
            return False
        raise ValueError('The truth value of an array with more than one element is ambiguous.')

    def __float__(self):
        return float(base(self).item())

    def __int__(self):
        return int(base(self).item())

    def __index__(self):
        v = base(self).item()
        return v.__index__()

    def __contains__(self, v):
        return bool(np.any(self == v))

    # methods that bypass the dispatcher
    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return reduce_('add', self, axis, keepdims)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return reduce_('multiply', self, axis, keepdims)

    def any(self, axis=None, out=None, keepdims=False, **k):
        return reduce_('logical_or', self, axis, keepdims)

    def all(self, axis=None, out=None, keepdims=False, **k):
        return reduce_('logical_and', self, axis, keepdims)

    def max(self, axis=None, out=None, keepdims=False, initial=None, **k):
        return reduce_('maximum', self, axis, keepdims, initial)

    def min(self, axis=None, out=None, keepdims=False, initial=None, **k):
        return reduce_('minimum', self, axis, keepdims, initial)

    def ptp(self, axis=None, **k):
        return self.max(axis) - self.min(axis)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        n = self.size if axis is None else (
            int(np.prod([self.shape[a] for a in axis])) if isinstance(axis, tuple) else self.shape[axis])
        s = self.sum(axis, keepdims=keepdims)
        if n == 0:
            return math.nan
        return s / n if isinstance(s, np.ndarray) or is_sym(s) else float(s) / n

    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
        n = self.size if axis is None else self.shape[axis]
        m = self.mean(axis, keepdims=True) if axis is not None else self.mean()
        d = self - m
        s = (d * d).sum(axis, keepdims=keepdims) if isinstance(d, np.ndarray) else d * d
        if n - ddof <= 0:
            return math.nan
        return s / (n - ddof)

    def std(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
        return np.sqrt(self.var(axis, ddof=ddof, keepdims=keepdims))

    def cumsum(self, axis=None, dtype=None, out=None):
        a = self.ravel() if axis is None else self
        return accumulate_('add', a, axis=0 if axis is None else axis)

    def cumprod(self, axis=None, dtype=None, out=None):
        a = self.ravel() if axis is None else self
        return accumulate_('multiply', a, axis=0 if axis is None else axis)

    def argmax(self, axis=None, out=None, **k):
        return argext(self, axis, True)

    def argmin(self, axis=None, out=None, **k):
        return argext(self, axis, False)

    def argsort(self, axis=-1, kind=None, order=None):
        return argsort_(self, axis)

    def sort(self, axis=-1, kind=None, order=None):
        ix = argsort_(self, axis)
        np.ndarray.__setitem__(base(self), Ellipsis, base(np.take_along_axis(base(self), base(ix), axis)))

    def nonzero(self):
        return tuple(v.view(SymArray) for v in np.nonzero(concrete_mask(self)))

    @property
    def A(self):
        return self

    def searchsorted(self, v, side='left', sorter=None):
        return searchsorted_(self, v, side)

    def dot(self, b, out=None):
        return dot_(self, b)

    def __matmul__(self, b):
        return dot_(self, b)

    def __rmatmul__(self, b):
        return dot_(b, self)

    def clip(self, min=None, max=None, out=None, **k):
        r = self
        if min is not None:
            r = np.maximum(r, min)
        if max is not None:
            r = np.minimum(r, max)
        return r

    def round(self, decimals=0, out=None):
        return round_(self, decimals)

    def conj(self):
        return np.conjugate(self)
    conjugate = conj

    @property
    def real(self):
        if self.dtype != object:
            return self
        return wrap(np.frompyfunc(lambda v: v.real if hasattr(v, 'real') else v, 1, 1)(base(self)))

    @property
    def imag(self):
        if self.dtype != object:
            return wrap(np.zeros(self.shape))
        return wrap(np.frompyfunc(lambda v: v.imag if hasattr(v, 'imag') else 0.0, 1, 1)(base(self)))

    def astype(self, dtype, order='K', casting='unsafe', subok=True, copy=True):
        if dtype is SymFloat:
            dtype = float
        d = np.dtype(dtype)
        if self.dtype != object:
            r = np.ndarray.astype(base(self), d)
            return wrap(r)
        if d.kind in 'fO':
            if d.kind == 'f':
                return wrap(np.frompyfunc(lambda v: cast_scalar(v, float), 1, 1)(base(self)).astype(object))
            return self.copy()
        if d.kind == 'c':
            return self.copy()
        r = np.frompyfunc(lambda v: cast_scalar(v, d), 1, 1)(base(self)).astype(object)
        if not has_sym(r):
            return r.astype(d).view(SymArray)
        return r.view(SymArray)

    def compress(self, condition, axis=None, out=None):
        m = concrete_mask(condition)
        return np.ndarray.compress(self, m, axis)

    def take(self, indices, axis=None, out=None, mode='raise'):
        ind = _index1(indices if isinstance(indices, np.ndarray) else (mkarr(indices) if has_sym(indices) else np.asarray(indices)))
        r = np.ndarray.take(base(self), ind, axis=axis, mode=mode)
        if isinstance(r, np.ndarray):
            return r.view(SymArray)
        return r

    def put(self, indices, values, mode='raise'):
        ind = np.atleast_1d(_index1(indices if isinstance(indices, np.ndarray) else np.asarray(indices)))
        v = np.resize(_asobj(values), ind.shape) if np.size(_asobj(values)) else None
        f = base(self).reshape(-1) if base(self).flags.c_contiguous else None
        if f is None:
            raise EngineError('put on non-contiguous array')
        for i, x in zip(ind.ravel(), v.ravel() if v is not None else []):
            f[i] = x

    def repeat(self, repeats, axis=None):
        return np.ndarray.repeat(base(self), base(repeats) if isinstance(repeats, np.ndarray) else repeats, axis).view(SymArray)

    def tolist(self):
        return base(self).tolist()

    def fill(self, v):
        self[...] = v

    def item(self, *a):
        return base(self).item(*a)

    def diagonal(self, *a, **k):
        return base(self).diagonal(*a, **k).view(SymArray)

    def trace(self, *a, **k):
        return self.diagonal().sum()

    def choose(self, choices, out=None, mode='raise'):
        return choose_(self, choices)

    @property
    def flat(self):
        return FlatIter(self)

    def __deepcopy__(self, memo):
        return self.copy()

    def __reduce__(self):
        raise EngineError('pickle of symbolic array')


for _n in ('add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'pow', 'and', 'or', 'xor', 'lshift', 'rshift'):
    _nm = {'add': 'add', 'sub': 'subtract', 'mul': 'multiply', 'truediv': 'divide', 'floordiv': 'floor_divide',
           'mod': 'remainder', 'pow': 'power', 'and': 'bitwise_and', 'or': 'bitwise_or', 'xor': 'bitwise_xor',
           'lshift': 'left_shift', 'rshift': 'right_shift'}[_n]

    def _mk(nm):
        uf = getattr(np, nm)

        def op(self, o):
            if isinstance(o, (str, types.FunctionType)) or o is None:
                return NotImplemented
            return array_ufunc(uf, '__call__', self, o)

        def rop(self, o):
            if isinstance(o, (str, types.FunctionType)) or o is None:
                return NotImplemented
            return array_ufunc(uf, '__call__', o, self)

        def iop(self, o):
            r = array_ufunc(uf, '__call__', self, o)
            self[...] = r
            return self
        return op, rop, iop
    _o, _r, _i = _mk(_nm)
    setattr(SymArray, '__%s__' % _n, _o)
    setattr(SymArray, '__r%s__' % _n, _r)
    setattr(SymArray, '__i%s__' % _n, _i)


class FlatIter:
    def __init__(self, a):
        self.a = a

    def __getitem__(self, k):
        k = _index1(k)
        if isinstance(k, np.ndarray) and k.dtype == bool:
            k = k.ravel()
        r = base(self.a).ravel()[k]
        return r.view(SymArray) if isinstance(r, np.ndarray) else r

    def __setitem__(self, k, v):
        k = _index1(k)
        if isinstance(k, np.ndarray) and k.dtype == bool:
            k = k.ravel()
        f = base(self.a).ravel().view(SymArray)
        f[k] = v
        base(self.a)[...] = base(f).reshape(self.a.shape)

    def __iter__(self):
        return iter(base(self.a).ravel().tolist())

    def __len__(self):
        return self.a.size

    def copy(self):
        return self.a.ravel().copy()


# ------------------------------------------------------------------ array functions
def concrete_mask(m):
    if isinstance(m, SB):
        return np.asarray(bool(m))
    m = m if isinstance(m, np.ndarray) else np.asarray(_asobj(m))
    if m.dtype == object:
        return np.array([bool(v) for v in base(m).ravel().tolist()], dtype=bool).reshape(m.shape)
    return base(m)


def argext(a, axis, mx):
    if axis is None:
        v = base(a).ravel().tolist()
        if not v:
            raise ValueError('attempt to get argmax of an empty sequence')
        best = 0
        for i in range(1, len(v)):
            if isinstance(v[best], float) and v[best] != v[best]:
                break
            x, y = v[i], v[best]
            if isinstance(x, float) and x != x:
                best = i
                break
            if isinstance(x, SB) or isinstance(y, SB):
                x, y = _num(x), _num(y)
            if bool(x > y if mx else x < y):
                best = i
        return best
    b = np.moveaxis(base(a), axis, -1)
    o = np.empty(b.shape[:-1], dtype=np.intp)
    for i in np.ndindex(*o.shape):
        o[i] = argext(b[i], None, mx)
    return wrap0(o)


def _num(x):
    if isinstance(x, SB):
        return x.num()
    if isinstance(x, (bool, np.bool_)):
        return int(x)
    return x


def argsort_(a, axis=-1):
    if not isinstance(a, np.ndarray):
        a = mkarr(a)
    nat = tofloat(a)
    if nat is not None:
        return np.argsort(nat, axis=axis, kind='stable').view(SymArray)
    if axis is None:
        return argsort_(a.ravel())
    b = np.moveaxis(base(a), axis, -1)
    o = np.empty(b.shape, dtype=np.intp)
    for i in np.ndindex(*b.shape[:-1]):
        v = b[i].tolist()
        order = []
        for k in range(len(v)):       # stable insertion sort; forks on comparisons
            j = len(order)
            while j > 0 and bool(v[k] < v[order[j - 1]]):
                j -= 1
            order.insert(j, k)
        o[i] = order
    return np.moveaxis(o, -1, axis).view(SymArray)


def sort_(a, axis=-1, kind=None, order=None):
    a = mkarr(a, copy=True)
    if axis is None:
        a = a.ravel()
        axis = -1
    if getattr(C.ctx(), 'merge_sort', False) and a.ndim == 1:
        return sortnet(a)
    a = a.copy()
    a.sort(axis)
    return a


def sortnet(a):
    """branch-free sorting network (min/max merging)"""
    v = base(a).tolist()
    n = len(v)
    for i in range(n):
        for j in range(n - 1 - i):
            lo, hi = C.minimum_(v[j], v[j + 1]), C.maximum_(v[j], v[j + 1])
            v[j], v[j + 1] = lo, hi
    return mkarr(v)


def median_(a, axis=None, out=None, overwrite_input=False, keepdims=False):
    a = mkarr(a)
    if axis is None:
        v = a.ravel()
        n = v.size
        if n == 0:
            return math.nan
        s = sortnet(v)
        return base(s)[n // 2] if n % 2 else (base(s)[n // 2 - 1] + base(s)[n // 2]) / 2.0
    b = np.moveaxis(base(a), axis, -1)
    o = np.empty(b.shape[:-1], dtype=object)
    for i in np.ndindex(*o.shape):
        o[i] = median_(b[i])
    return wrap0(o)


def searchsorted_(a, v, side='left', sorter=None):
    a = mkarr(a)
    al = base(a).tolist()
    if sorter is not None:
        al = [al[int(i)] for i in sorter]

    def one(x):
        lo = 0
        hi = len(al)
        while lo < hi:
            mid = (lo + hi) // 2
            c = (al[mid] < x) if side == 'left' else (al[mid] <= x)
            if bool(c):
                lo = mid + 1
            else:
                hi = mid
        return lo
    if isinstance(v, (np.ndarray, list, tuple)):
        vv = _asobj(v)
        o = np.empty(vv.shape, dtype=np.intp)
        for i in np.ndindex(*vv.shape):
            o[i] = one(vv[i])
        return o.view(SymArray) if o.ndim else int(o)
    return one(v)


def dot_(a, b, out=None):
    a, b = mkarr(a), mkarr(b)
    na, nb = tofloat(a), tofloat(b)
    if na is not None and nb is not None:
        return wrap0(np.dot(na, nb))
    if a.ndim == 0 or b.ndim == 0:
        return wrap0(base(array_ufunc(np.multiply, '__call__', a, b))) if (a.ndim or b.ndim) else base(a).item() * base(b).item()
    add, mul = TABLE['add'], TABLE['multiply']

    def ip(u, v):
        r = None
        for x, y in zip(u, v):
            if (not is_sym(x) and x == 0 and C.isfinite_(y)) or (not is_sym(y) and y == 0 and C.isfinite_(x)):
                continue
            p = mul(x, y)
            r = p if r is None else add(r, p)
        return 0.0 if r is None else r
    A, B = base(a), base(b)
    if B.ndim == 1:
        if A.shape[-1] != B.shape[0]:
            raise ValueError('shapes %s and %s not aligned' % (A.shape, B.shape))
        o = np.empty(A.shape[:-1], dtype=object)
        for i in np.ndindex(*o.shape):
            o[i] = ip(A[i].tolist(), B.tolist())
    else:
        if A.shape[-1] != B.shape[-2]:
            raise ValueError('shapes %s and %s not aligned' % (A.shape, B.shape))
        Bm = np.moveaxis(B, -2, -1)
        o = np.empty(A.shape[:-1] + Bm.shape[:-1], dtype=object)
        for i in np.ndindex(*A.shape[:-1]):
            for j in np.ndindex(*Bm.shape[:-1]):
                o[i + j] = ip(A[i].tolist(), Bm[j].tolist())
    return wrap0(o)


def where_(cond, *xy):
    if not xy:
        return mkarr(cond).nonzero() if not isinstance(cond, np.ndarray) else \
            tuple(v.view(SymArray) for v in np.nonzero(concrete_mask(cond)))
    x, y = xy

    def f(c, a, b):
        if isinstance(c, SR):
            c = c != 0
        return ite(c, a, b)
    r = np.frompyfunc(f, 3, 1)(_asobj(cond), _asobj(x), _asobj(y))
    return wrap(r) if isinstance(r, np.ndarray) else mkarr(r)


def choose_(a, choices, out=None, mode='raise'):
    n = len(choices)
    ch = [_asobj(c) for c in choices]

    def f(i, *cs):
        if not is_sym(i):
            return cs[int(i)]
        r = cs[n - 1]
        for k in range(n - 2, -1, -1):
            r = ite(i == k, cs[k], r)
        return r
    return wrap0(np.frompyfunc(f, n + 1, 1)(_asobj(a), *ch))


def select_(condlist, choicelist, default=0):
    r = default
    for c, v in reversed(list(zip(condlist, choicelist))):
        r = where_(c, v, r)
    return r


def round_(a, decimals=0, out=None):
    s = 10.0 ** decimals
    if not isinstance(a, np.ndarray):
        return C.rint_(a * s) / s if decimals else C.rint_(a)
    return np.rint(a * s) / s if decimals else np.rint(a)


def extract_(cond, a):
    m = concrete_mask(cond).ravel()
    return mkarr(a).ravel()[m]


def place_(a, mask, vals):
    m = concrete_mask(mask)
    v = _asobj(vals).ravel()
    idx = np.argwhere(m)
    for t, i in enumerate(map(tuple, idx)):
        base(a)[i] = v[t % len(v)]


def putmask_(a, mask, vals):
    v = _asobj(vals)
    m = _asobj(mask)
    b = base(a)
    if b.dtype != object and has_sym(vals):
        raise EngineError('putmask into native array')
    flat = np.resize(v, b.shape) if v.shape != b.shape else v
    for i in np.ndindex(*b.shape):
        b[i] = ite(m[i], flat[i], b[i])


def copyto_(dst, src, casting='same_kind', where=True):
    if where is True:
        dst[...] = src
    else:
        dst[...] = where_(where, src, dst)


def interp_(x, xp, fp, left=None, right=None, period=None):
    xp_l, fp_l = base(mkarr(xp)).tolist(), base(mkarr(fp)).tolist()
    lf = fp_l[0] if left is None else left
    rt = fp_l[-1] if right is None else right

    def one(t):
        if bool(t < xp_l[0]):
            return lf
        if bool(t > xp_l[-1]):
            return rt
        j = int(searchsorted_(xp_l, t, 'right')) - 1
        if j >= len(xp_l) - 1:
            return fp_l[-1]
        s = (fp_l[j + 1] - fp_l[j]) / (xp_l[j + 1] - xp_l[j])
        return s * (t - xp_l[j]) + fp_l[j]
    xx = _asobj(x)
    o = np.empty(xx.shape, dtype=object)
    for i in np.ndindex(*xx.shape):
        o[i] = one(xx[i])
    return wrap0(o)


def bincount_(x, weights=None, minlength=0):
    idx = base(np.asarray(_index1(mkarr(x)))).ravel()
    n = max(int(idx.max()) + 1 if idx.size else 0, minlength)
    o = np.empty(n, dtype=object)
    o[:] = 0 if weights is None else 0.0
    w = None if weights is None else base(mkarr(weights)).ravel()
    for k, i in enumerate(idx):
        o[i] = o[i] + (1 if w is None else w[k])
    return wrap(o) if weights is not None else wrap(o.astype(np.int64))


def trapz_(y, x=None, dx=1.0, axis=-1):
    y = mkarr(y)
    if x is None:
        d = dx
    else:
        x = mkarr(x)
        d = np.diff(x) if x.ndim == 1 else np.diff(x, axis=axis)
        if x.ndim == 1 and y.ndim > 1:
            sh = [1] * y.ndim
            sh[axis] = d.shape[0]
            d = d.reshape(sh)
    nd = y.ndim
    s1 = [slice(None)] * nd
    s2 = [slice(None)] * nd
    s1[axis] = slice(1, None)
    s2[axis] = slice(None, -1)
    return (d * (y[tuple(s1)] + y[tuple(s2)]) / 2.0).sum(axis)


def cumtrapz_(y, x=None, dx=1.0, axis=-1, initial=None):
    y = mkarr(y)
    d = dx if x is None else np.diff(mkarr(x))
    if y.ndim != 1:
        raise EngineError('cumtrapz nd')
    r = np.cumsum(d * (y[1:] + y[:-1]) / 2.0)
    if initial is not None:
        r = np.concatenate((mkarr([initial]), r))
    return r


def simps_(y, x=None, dx=1.0, axis=-1, even=None):
    """scipy.integrate.simpson (1.11): composite Simpson; even number of points uses
    the parabolic correction (Cartwright) of scipy >= 1.11"""
    y = mkarr(y)
    if y.ndim > 1:
        b = np.moveaxis(base(y), axis, -1)
        o = np.empty(b.shape[:-1], dtype=object)
        for i in np.ndindex(*o.shape):
            o[i] = simps_(b[i].view(SymArray), x, dx)
        return wrap0(o)
    n = y.shape[0]
    h = np.diff(mkarr(x)) if x is not None else mkarr([dx] * (n - 1))
    yl, hl = base(y).tolist(), base(h).tolist()

    def comp(stop):
        r = 0.0
        for i in range(0, stop - 1, 2):
            h0, h1 = hl[i], hl[i + 1]
            hs, hp = h0 + h1, h0 * h1
            q = h0 / h1
            r = r + hs / 6.0 * (yl[i] * (2.0 - 1.0 / q) + yl[i + 1] * (hs * hs / hp) + yl[i + 2] * (2.0 - q))
        return r
    if n % 2 == 1:
        return comp(n - 1)
    if n == 2:
        return 0.5 * hl[0] * (yl[0] + yl[1])
    r = comp(n - 2)
    h0, h1 = hl[-2], hl[-1]
    a = (2 * h1 * h1 + 3 * h0 * h1) / (6 * (h1 + h0))
    bb = (h1 * h1 + 3 * h0 * h1) / (6 * h0)
    e = h1 * h1 * h1 / (6 * h0 * (h0 + h1))
    return r + a * yl[-1] + bb * yl[-2] - e * yl[-3]


# -- linear algebra (exact, cofactor/elimination with symbolic pivots)
def solve_(A, b, **kw):
    A = mkarr(A)
    nA, nb = tofloat(A), tofloat(mkarr(b))
    if nA is not None and nb is not None:
        return wrap(np.linalg.solve(nA, nb))
    b = mkarr(b)
    n = A.shape[0]
    if A.shape != (n, n):
        raise np.linalg.LinAlgError('not square')
    M = [list(r) for r in base(A).tolist()]
    vec = b.ndim == 1
    B = [[v] for v in base(b).tolist()] if vec else [list(r) for r in base(b).tolist()]
    for k in range(n):
        p = None
        for r in range(k, n):
            v = M[r][k]
            if not is_sym(v):
                if v != 0:
                    p = r
                    break
            elif bool(v != 0):
                p = r
                break
        if p is None:
            raise np.linalg.LinAlgError('Singular matrix')
        if p != k:
            M[k], M[p] = M[p], M[k]
            B[k], B[p] = B[p], B[k]
        for r in range(k + 1, n):
            if not is_sym(M[r][k]) and M[r][k] == 0:
                continue
            f = M[r][k] / M[k][k]
            for c in range(k + 1, n):
                M[r][c] = M[r][c] - f * M[k][c]
            M[r][k] = 0.0
            for c in range(len(B[r])):
                B[r][c] = B[r][c] - f * B[k][c]
    X = [None] * n
    for k in range(n - 1, -1, -1):
        row = list(B[k])
        for c in range(k + 1, n):
            for j in range(len(row)):
                row[j] = row[j] - M[k][c] * X[c][j]
        X[k] = [v / M[k][k] for v in row]
    return mkarr([r[0] for r in X]) if vec else mkarr(X)


def inv_(A):
    A = mkarr(A)
    return solve_(A, mkarr(np.eye(A.shape[0]).astype(object)))


def det_(A):
    A = mkarr(A)
    n = A.shape[0]
    L = base(A).tolist()

    def d(rows, cols):
        if len(rows) == 1:
            return L[rows[0]][cols[0]]
        r = None
        for j, c in enumerate(cols):
            t = L[rows[0]][c] * d(rows[1:], cols[:j] + cols[j + 1:])
            t = -t if j % 2 else t
            r = t if r is None else r + t
        return r
    return d(list(range(n)), list(range(n)))


def lstsq_(A, b, rcond=None, **kw):
    A = mkarr(A)
    if tofloat(A) is not None:
        Af = tofloat(A)
        P = np.linalg.pinv(Af)
        return dot_(P, b), np.array([]), Af.shape[1], None
    if A.shape[0] == A.shape[1]:
        return solve_(A, b), np.array([]), A.shape[0], None
    raise EngineError('lstsq with symbolic non-square matrix')


def pinv_(A, **kw):
    A = mkarr(A)
    f = tofloat(A)
    if f is not None:
        return wrap(np.linalg.pinv(f))
    n = A.shape[0]
    if n <= 3 and A.shape == (n, n):
        # adjugate over determinant: no pivoting, hence no fork
        L = base(A).tolist()
        d = det_(A)
        if bool(d == 0):
            raise EngineError('pinv of a singular symbolic matrix')

        def cof(i, j):
            m = [[L[p][q] for q in range(n) if q != j] for p in range(n) if p != i]
            v = det_(mkarr(m)) if m else 1.0
            return -v if (i + j) % 2 else v
        return mkarr([[cof(j, i) / d for j in range(n)] for i in range(n)])
    return inv_(A)


def argsreduce_(cond, *args):
    new = [mkarr(a) if np.ndim(a) else mkarr([a]) for a in args]
    c = [bool(v) for v in base(mkarr(cond)).ravel()]
    if all(c):
        return [mkarr(np.broadcast_to(base(mkarr(a)), (len(c),))) if np.size(a) == 1 else mkarr(a).ravel() for a in new]
    return [a if np.size(a) == 1 else mkarr(a).ravel()[np.flatnonzero(c)] for a in new]


def norm_(x, ord=None, axis=None, keepdims=False):
    x = mkarr(x)
    if axis is not None or ord not in (None, 2):
        raise EngineError('norm')
    return C.sqrt_((x * x).sum()) if x.size else 0.0


# -- Fourier transforms with exact twiddle factors where rational
def _cs(k, n):
    """(cos, sin) of 2 pi k/n snapped at exact values"""
    k %= n
    a = 2 * math.pi * k / n
    c, s = math.cos(a), math.sin(a)
    for v in (0.0, 0.5, 1.0, -0.5, -1.0):
        if abs(c - v) < 1e-15:
            c = v
        if abs(s - v) < 1e-15:
            s = v
    return c, s


def _dft1(v, n, sign, norm=1.0):
    v = list(v)[:n] + [0.0] * max(0, n - len(v))
    out = []
    for k in range(n):
        re, im = 0.0, 0.0
        for j, x in enumerate(v):
            if not is_sym(x) and x == 0:
                continue
            c, s = _cs(j * k, n)
            s = s * sign
            if isinstance(x, (SC, complex)):
                xr, xi = x.real, x.imag
                if c != 0:
                    re = re + c * xr
                    im = im + c * xi
                if s != 0:
                    re = re - s * xi
                    im = im + s * xr
            else:
                if c != 0:
                    re = re + c * x
                if s != 0:
                    im = im + s * x
        out.append(SC(re * norm, im * norm))
    return out


def _fftgen(sign, inverse):
    def f(a, n=None, axis=-1, norm=None, **kw):
        nat = tofloat(a) if isinstance(a, np.ndarray) else (None if has_sym(a) else np.asarray(a))
        if nat is not None:
            return wrap((np.fft.ifft if inverse else np.fft.fft)(nat, n, axis))
        b = np.moveaxis(base(mkarr(a)), axis, -1)
        nn = b.shape[-1] if n is None else int(n)
        o = np.empty(b.shape[:-1] + (nn,), dtype=object)
        for i in np.ndindex(*b.shape[:-1]):
            o[i] = _dft1(b[i].tolist(), nn, sign, 1.0 / nn if inverse else 1.0)
        return np.moveaxis(o, -1, axis).view(SymArray)
    return f


fft_ = _fftgen(-1, False)
ifft_ = _fftgen(+1, True)


def _fftngen(one):
    def f(a, s=None, axes=None, norm=None, **kw):
        a = a if isinstance(a, np.ndarray) else mkarr(a)
        ax = list(range(a.ndim)) if axes is None else list(axes)
        if s is not None and axes is None:
            ax = list(range(a.ndim - len(s), a.ndim))
        for k, x in enumerate(ax):
            a = one(a, None if s is None else int(s[k]), axis=x)
        return a
    return f


fftn_, ifftn_ = _fftngen(fft_), _fftngen(ifft_)


def _griddata(points, values, xi, method='linear', fill_value=np.nan, **kw):
    """one-dimensional linear interpolation with a fill value outside"""
    p = base(mkarr(points))
    if p.ndim == 2 and p.shape[1] == 1:
        p = p[:, 0]
    if isinstance(xi, tuple):
        if len(xi) != 1:
            raise EngineError('griddata in more than one dimension')
        xi = xi[0]
    if p.ndim != 1 or method != 'linear':
        raise EngineError('griddata in more than one dimension')
    return np.interp(mkarr(xi), *_sortpair(p, values), left=fill_value, right=fill_value)


def _sortpair(p, v):
    o = base(np.argsort(mkarr(p))).tolist()
    p, v = base(mkarr(p)), base(mkarr(v)).ravel()
    return mkarr([p[int(i)] for i in o]), mkarr([v[int(i)] for i in o])


def _linmap(native):
    """1-d linear transform along an axis: obtain its matrix from the native routine on unit vectors"""
    cache = {}

    def f(x, *a, **kw):
        nat = tofloat(x) if isinstance(x, np.ndarray) else (None if has_sym(x) else np.asarray(x))
        if nat is not None:
            return wrap(native(nat, *a, **kw))
        import inspect
        try:
            ba = inspect.signature(native).bind(x, *a, **kw)
            axis = ba.arguments.get('axis', -1)
            ba.arguments['axis'] = -1
        except TypeError as e:
            raise e
        b = np.moveaxis(base(mkarr(x)), axis, -1)
        m = b.shape[-1]
        key = (m, repr(sorted((k, v) for k, v in ba.arguments.items() if k not in ('x', 'overwrite_x'))))
        M = cache.get(key)
        if M is None:
            args = dict(ba.arguments)
            args['x'] = np.eye(m)
            args.pop('overwrite_x', None)
            M = native(**args)     # row i = transform of unit vector i
            M = np.where(np.abs(M) < 1e-15, 0.0, M)
            cache[key] = M
        return np.moveaxis(base(dot_(b.view(SymArray), M)), -1, axis).view(SymArray)
    return f


def convolve_(a, v, mode='full'):
    a, v = mkarr(a), mkarr(v)
    al, vl = base(a).tolist(), base(v).tolist()
    n, m = len(al), len(vl)
    out = []
    for k in range(n + m - 1):
        r = 0.0
        for i in range(max(0, k - m + 1), min(n, k + 1)):
            if (not is_sym(al[i]) and al[i] == 0) or (not is_sym(vl[k - i]) and vl[k - i] == 0):
                continue
            r = r + al[i] * vl[k - i]
        out.append(r)
    if mode == 'valid':
        out = out[min(n, m) - 1:max(n, m)]
    elif mode == 'same':
        L = max(n, m)
        s = (min(n, m) - 1) // 2
        out = out[s:s + L]
    return mkarr(out)


def _flatnonzero(a):
    return np.nonzero(concrete_mask(a).ravel())[0].view(SymArray)


def _nonzero(a):
    return tuple(v.view(SymArray) for v in np.nonzero(concrete_mask(a)))


def _atleast(nd):
    def f(*arys):
        res = []
        for a in arys:
            a = mkarr(a) if (has_sym(a) or isinstance(a, SymArray) and a.dtype == object) else (
                a if isinstance(a, np.ndarray) else wrap(np.asanyarray(a)))
            if isinstance(a, np.ndarray) and not isinstance(a, SymArray):
                a = wrap(a)
            if nd == 1:
                r = a.reshape(1) if a.ndim == 0 else a
            else:
                r = a.reshape(1, 1) if a.ndim == 0 else (a[np.newaxis, :] if a.ndim == 1 else a)
            res.append(r)
        return res[0] if len(res) == 1 else res
    return f


def _bcast(*args, **kw):
    arrs = [_asobj(a) for a in args]
    return [x.view(SymArray) for x in np.broadcast_arrays(*arrs)]


def _stack(func):
    def f(arrays, *a, **k):
        arrs = [base(mkarr(v)) if not isinstance(v, np.ndarray) else (base(v).astype(object) if v.dtype.kind in 'fOc' else base(v))
                for v in arrays]
        anyobj = any(v.dtype == object for v in arrs)
        if anyobj:
            arrs = [v.astype(object) for v in arrs]
        k.pop('dtype', None)
        r = func(arrs, *a, **k)
        return wrap(r)
    return f


def _unary_red(name):
    def f(a, axis=None, *args, **k):
        k.pop('out', None)
        k.pop('dtype', None)
        return getattr(a if isinstance(a, SymArray) else mkarr(a), name)(axis, **k)
    return f


def _isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return np.abs(a - b) <= atol + rtol * np.abs(b)


def _outer(a, b, out=None):
    a, b = mkarr(a).ravel(), mkarr(b).ravel()
    return a[:, None] * b[None, :]


def _diag(v, k=0):
    v = mkarr(v)
    if v.ndim == 1:
        n = v.size + abs(k)
        o = np.empty((n, n), dtype=object)
        o[...] = 0.0
        for i in range(v.size):
            o[(i, i + k) if k >= 0 else (i - k, i)] = base(v)[i]
        return o.view(SymArray)
    return base(v).diagonal(k).view(SymArray)


def _tri(lower):
    def f(m, k=0):
        m = mkarr(m)
        mask = np.tri(*m.shape[-2:], k=k if lower else k - 1, dtype=bool)
        return where_(mask if lower else ~mask, m, 0.0)
    return f


def _average(a, axis=None, weights=None, **k):
    a = mkarr(a)
    if weights is None:
        return a.mean(axis)
    w = mkarr(weights)
    return (a * w).sum(axis) / w.sum(axis)


def _percentile(a, q, axis=None, **kw):
    a = mkarr(a)
    if axis is not None:
        b = np.moveaxis(base(a), axis, -1)
        if b.ndim > 1:
            o = np.empty(b.shape[:-1], dtype=object)
            if np.ndim(q):
                raise EngineError('percentile axis')
            for i in np.ndindex(*o.shape):
                o[i] = _percentile(b[i], q)
            return o.view(SymArray)
    s = base(sortnet(a.ravel())).tolist()

    def one(p):
        pos = (len(s) - 1) * float(p) / 100.0
        i = int(math.floor(pos))
        f = pos - i
        return s[i] if f == 0 else s[i] + (s[i + 1] - s[i]) * f
    if np.ndim(q):
        return mkarr([one(p) for p in q])
    return one(q)


def _ravel_mi(*a, **k):
    raise EngineError('ravel_multi_index')


def _unique(ar, **k):
    f = tofloat(ar if isinstance(ar, np.ndarray) else mkarr(ar))
    if f is not None:
        return wrap(np.unique(f, **k))
    if k:
        raise EngineError('unique with options')
    out = []
    for v in base(sort_(mkarr(ar).ravel())).tolist():
        if not out or bool(v != out[-1]):
            out.append(v)
    return mkarr(out)


def _nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    f = lambda v: v if is_sym(v) else float(np.nan_to_num(v, nan=nan, posinf=posinf, neginf=neginf))
    return wrap0(np.frompyfunc(f, 1, 1)(_asobj(x)))


def _digitize(x, bins, right=False):
    return searchsorted_(bins, x, 'left' if right else 'right')


def _roots(p):
    if not has_sym(p):
        return np.roots(tofloat(_asobj(p)))
    c = list(base(mkarr(p)))
    n = 0
    while c and bool(c[0] == 0):
        c.pop(0)
    while c and bool(c[-1] == 0):
        c.pop()
        n += 1
    r = []
    if len(c) == 2:
        r = [-c[1] / c[0]]
    elif len(c) == 3:
        a, b, d = c
        disc = b * b - 4 * a * d
        if bool(disc < 0):
            s = C.sqrt_(-disc)
            r = [SC(-b / (2 * a), s / (2 * a)), SC(-b / (2 * a), -s / (2 * a))]
        else:
            s = C.sqrt_(disc)
            r = [(-b + s) / (2 * a), (-b - s) / (2 * a)]
    elif len(c) > 3:
        raise EngineError('roots of a symbolic polynomial of degree %d' % (len(c) - 1))
    return mkarr(r + [0.0] * n) if r or n else np.zeros(0)


def _polyval(p, x):
    p = mkarr(p)
    xx = mkarr(x) if isinstance(x, (np.ndarray, list, tuple)) else x
    y = xx * 0.0 if not isinstance(xx, np.ndarray) else np.zeros(xx.shape).astype(object).view(SymArray)
    for c in base(p).tolist():
        y = y * xx + c
    return y


def _nanfree(name):
    def f(a, axis=None, **k):
        v = [x for x in base(mkarr(a)).ravel().tolist() if is_sym(x) or x == x]
        return getattr(mkarr(v), name)()
    return f


HANDLED = {
    np.where: where_, np.dot: dot_, np.inner: lambda a, b: dot_(a, mkarr(b).T), np.vdot: dot_,
    np.matmul: dot_ if False else dot_,
    np.any: _unary_red('any'), np.all: _unary_red('all'), np.sum: _unary_red('sum'), np.prod: _unary_red('prod'),
    np.max: _unary_red('max'), np.min: _unary_red('min'), np.mean: _unary_red('mean'), np.amax: _unary_red('max'),
    np.amin: _unary_red('min'),
    np.std: _unary_red('std'), np.var: _unary_red('var'), np.ptp: _unary_red('ptp'),
    np.cumsum: _unary_red('cumsum'), np.cumprod: _unary_red('cumprod'),
    np.argmax: _unary_red('argmax'), np.argmin: _unary_red('argmin'),
    np.argsort: lambda a, axis=-1, kind=None, order=None: argsort_(a, axis),
    np.sort: sort_, np.median: median_, np.searchsorted: searchsorted_, np.digitize: _digitize,
    np.choose: choose_, np.select: select_, np.round: round_, np.around: round_,
    np.extract: extract_, np.place: place_, np.putmask: putmask_, np.copyto: copyto_,
    np.interp: interp_, np.bincount: bincount_, np.trapz: trapz_,
    np.linalg.solve: solve_, np.linalg.inv: inv_, np.linalg.det: det_, np.linalg.lstsq: lstsq_,
    np.linalg.pinv: pinv_, np.linalg.norm: norm_,
    np.fft.fft: fft_, np.fft.ifft: ifft_, np.fft.fftn: fftn_, np.fft.ifftn: ifftn_, np.convolve: convolve_,
    np.flatnonzero: _flatnonzero, np.nonzero: _nonzero,
    np.argwhere: lambda a: np.argwhere(concrete_mask(a)).view(SymArray),
    np.count_nonzero: lambda a, axis=None, **k: (mkarr(a) != 0).sum(axis) if mkarr(a).dtype == object else base(a).astype(bool).sum(axis),
    np.atleast_1d: _atleast(1), np.atleast_2d: _atleast(2),
    np.broadcast_arrays: _bcast,
    np.concatenate: _stack(np.concatenate), np.hstack: _stack(np.hstack), np.vstack: _stack(np.vstack),
    np.stack: _stack(np.stack), np.dstack: _stack(np.dstack), np.column_stack: _stack(np.column_stack),
    np.isclose: _isclose,
    np.allclose: lambda a, b, rtol=1e-5, atol=1e-8, **k: np.all(_isclose(a, b, rtol, atol)),
    np.outer: _outer, np.diag: _diag, np.triu: _tri(False), np.tril: _tri(True),
    np.average: _average, np.percentile: _percentile,
    np.quantile: lambda a, q, axis=None, **k: _percentile(a, np.asarray(q) * 100, axis),
    np.nan_to_num: _nan_to_num, np.polyval: _polyval, np.roots: _roots,
    np.real: lambda a: a.real, np.imag: lambda a: a.imag,
    np.clip: lambda a, a_min=None, a_max=None, out=None, **k: mkarr(a).clip(a_min, a_max) if isinstance(a, np.ndarray) else clip_(a, a_min, a_max),
    np.compress: lambda c, a, axis=None, out=None: mkarr(a).compress(c, axis),
    np.take: lambda a, i, axis=None, out=None, mode='raise': (a if isinstance(a, SymArray) else (mkarr(a) if has_sym(a) else wrap(np.asarray(a)))).take(i, axis, mode=mode),
    np.array_equal: lambda a, b, **k: np.shape(a) == np.shape(b) and np.all(np.equal(a, b)),
    np.nanmax: _nanfree('max'), np.nanmin: _nanfree('min'), np.nanmean: _nanfree('mean'), np.nansum: _nanfree('sum'),
    np.unique: _unique,
    np.iscomplexobj: lambda x: any(isinstance(v, (SC, complex)) for v in _asobj(x).ravel().tolist()),
    np.isrealobj: lambda x: not any(isinstance(v, (SC, complex)) for v in _asobj(x).ravel().tolist()),
    np.result_type: lambda *a: np.dtype(float),
    np.cov: lambda *a, **k: cov_(*a, **k),
    np.copy: lambda a, **k: mkarr(a, copy=True),
    np.kron: None,
    np.roll: lambda a, shift, axis=None: np.roll(base(mkarr(a)), shift, axis).view(SymArray),
    np.repeat: lambda a, r, axis=None: mkarr(a).repeat(r, axis),
    np.tile: lambda a, r: np.tile(base(mkarr(a)), r).view(SymArray),
    np.meshgrid: lambda *xi, **k: [v.view(SymArray) for v in np.meshgrid(*[_asobj(x) for x in xi], **k)],
    np.full_like: lambda a, v, **k: full_(np.shape(a), v),
}
HANDLED = {k: v for k, v in HANDLED.items() if v is not None}
_KEEP_NATIVE = {np.shape, np.size, np.ndim}
SPECIAL = {}   # scipy.special ufunc models (name -> python function), filled by harness library


def array_function(func, types_, args, kwargs):
    h = HANDLED.get(func)
    if h is not None:
        return h(*args, **kwargs)
    if func in (np.zeros_like, np.ones_like, np.empty_like):
        v = 1.0 if func is np.ones_like else 0.0
        a = args[0]
        d = kwargs.get('dtype')
        if d is not None and np.dtype(d).kind in 'biu':
            return (np.ones if v else np.zeros)(np.shape(a), dtype=d).view(SymArray)
        if d is None and isinstance(a, np.ndarray) and a.dtype.kind in 'biu':
            return (np.ones if v else np.zeros)(a.shape, dtype=a.dtype).view(SymArray)
        return full_(np.shape(a), v)
    impl = getattr(func, '_implementation', None)
    if impl is None:
        raise EngineError('array function %s' % func)
    if func in _KEEP_NATIVE:
        return impl(*args, **kwargs)
    r = impl(*args, **kwargs)
    return _rewrap(r)


def _rewrap(r):
    if isinstance(r, SymArray):
        return r
    if isinstance(r, np.ndarray) and r.dtype == object:
        return wrap(r)
    if isinstance(r, tuple):
        return tuple(_rewrap(v) for v in r)
    if isinstance(r, list):
        return [_rewrap(v) for v in r]
    return r


# ------------------------------------------------------------------ creators used by code under test
def _dkind(dtype):
    if dtype is None or dtype is SymFloat:
        return 'f'
    return np.dtype(dtype).kind


def full_(shape, fill_value, dtype=None, order='C', like=None):
    v = fill_value
    k = _dkind(dtype) if dtype is not None else ('f' if not isinstance(v, (bool, np.bool_)) else 'b')
    if isinstance(shape, np.ndarray):
        shape = tuple(int(s) for s in shape.ravel())
    if is_sym(shape) or isinstance(shape, (list, tuple)) and has_sym(shape):
        shape = int(shape) if is_sym(shape) else tuple(int(s) for s in shape)
    if k in 'biu' and not is_sym(v):
        return np.full(shape, v, dtype=dtype).view(SymArray)
    a = np.empty(shape, dtype=object)
    if isinstance(v, np.ndarray) and v.ndim:
        a[...] = base(v)
    else:
        v = base(v).item() if isinstance(v, np.ndarray) else v
        a[...] = float(v) if isinstance(v, (int, np.number)) and not isinstance(v, bool) else v
    return a.view(SymArray)


def zeros_(shape, dtype=None, order='C', **k):
    return full_(shape, 0.0 if _dkind(dtype) not in 'biu' else 0, dtype if dtype is None or _dkind(dtype) in 'biu' else float)


def ones_(shape, dtype=None, order='C', **k):
    return full_(shape, 1.0 if _dkind(dtype) not in 'biu' else 1, dtype if dtype is None or _dkind(dtype) in 'biu' else float)


def eye_(*a, **k):
    r = np.eye(*a, **k)
    return wrap(r)


def array_(x, dtype=None, copy=True, order=None, subok=False, ndmin=0, like=None):
    if isinstance(x, (map, zip, types.GeneratorType)):
        x = list(x)
    if has_sym(x) or (isinstance(x, SymArray) and x.dtype == object):
        r = mkarr(x, copy=bool(copy))
        if dtype is not None and _dkind(dtype) in 'biu':
            r = r.astype(dtype)
    else:
        if dtype is SymFloat:
            dtype = float
        r = wrap(np.array(base(x) if isinstance(x, np.ndarray) else x, dtype=dtype, copy=copy, ndmin=ndmin))
    if isinstance(r, np.ndarray):
        while r.ndim < ndmin:
            r = r[np.newaxis]
    return r


def asarray_(x, dtype=None, order=None, **k):
    if isinstance(x, SymArray) and (dtype is None or _dkind(dtype) in 'fOc' and x.dtype == object):
        return x
    if isinstance(x, np.ndarray) and not isinstance(x, SymArray) and x.dtype != object and dtype is None:
        return wrap(x)
    return array_(x, dtype, copy=False)


def sqrtm_(a, real):
    """principal square root of a positive definite matrix with up to two rows"""
    if not has_sym(a):
        return wrap(real(tofloat(_asobj(a))))
    m = base(mkarr(a))
    if m.shape == (1, 1):
        return mkarr([[np.sqrt(m[0, 0])]])
    if m.shape != (2, 2):
        raise C.Limit('square root of a larger matrix')
    s = SPECIAL_SQRT(m[0, 0] * m[1, 1] - m[0, 1] * m[1, 0])
    t = SPECIAL_SQRT(m[0, 0] + m[1, 1] + 2 * s)
    return mkarr([[(m[0, 0] + s) / t, m[0, 1] / t], [m[1, 0] / t, (m[1, 1] + s) / t]])


def cov_(m, y=None, rowvar=True, bias=False, ddof=None, fweights=None, aweights=None, dtype=None):
    if y is not None or fweights is not None or aweights is not None:
        raise C.Limit('covariance of two arguments or with weights')
    X = base(mkarr(m))
    X = X.reshape(1, -1) if X.ndim < 2 else X if rowvar else X.T
    d, n = X.shape
    f = n - (ddof if ddof is not None else 0 if bias else 1)
    D = [[v - sum(r) / n for v in r] for r in X]
    out = mkarr([[sum(a * b for a, b in zip(D[i], D[j])) / f for j in range(d)] for i in range(d)])
    return out[0, 0] if d == 1 else out


def SPECIAL_SQRT(v):
    return np.sqrt(mkarr([v]))[0] if is_sym(v) else v ** 0.5


def linspace_(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    num = int(num)
    if not (has_sym(start) or has_sym(stop)):
        r = np.linspace(start, stop, num, endpoint=endpoint, retstep=retstep, dtype=dtype, axis=axis)
        return wrap(r)
    d = (num - 1) if endpoint else num
    if np.ndim(start) or np.ndim(stop):
        start, stop = asarray_(start), asarray_(stop)
        shape = np.broadcast_shapes(start.shape, stop.shape)
        cols = [linspace_(a, b, num, endpoint) for a, b in zip(np.broadcast_to(start, shape).ravel(), np.broadcast_to(stop, shape).ravel())]
        r = mkarr([[cols[j][i] for j in range(len(cols))] for i in range(num)]).reshape((num,) + shape)
        if axis != 0:
            r = np.moveaxis(r, 0, axis)
        return (r, (stop - start) / d) if retstep else r
    out = []
    for i in range(num):
        if i == 0:
            out.append(start)
        elif endpoint and i == num - 1:
            out.append(stop)
        else:
            out.append(start + (stop - start) * C.Fraction(i, d) if is_sym(start) or is_sym(stop) else None)
    r = mkarr(out)
    if retstep:
        return r, (stop - start) / d
    return r


def arange_(*a, **k):
    k.pop('like', None)
    if any(has_sym(x) for x in a):
        start, stop, step = (0, a[0], 1) if len(a) == 1 else (a + (1,))[:3]
        n = int(C.ceil_((stop - start) / step)) if is_sym(stop - start) else int(math.ceil((stop - start) / step))
        return mkarr([start + i * step for i in range(max(n, 0))])
    return wrap(np.arange(*a, **k))


class _R:
    def __init__(self, name):
        self.name = name
        self.orig = getattr(np, name)

    def __getitem__(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        if not any(isinstance(k, SymArray) or has_sym(k) or (isinstance(k, slice) and any(has_sym(v) for v in (k.start, k.stop, k.step)))
                   for k in key):
            return wrap(self.orig[key if len(key) > 1 else key[0]])
        items = []
        for k in key:
            if isinstance(k, slice):
                st = 0 if k.start is None else k.start
                if isinstance(k.step, complex):
                    items.append(base(linspace_(st, k.stop, int(abs(k.step)))))
                else:
                    items.append(base(arange_(st, k.stop, 1 if k.step is None else k.step)))
            elif isinstance(k, str):
                raise EngineError('r_ with string')
            else:
                items.append(base(mkarr(k)))
        if self.name == 'r_':
            items = [np.atleast_1d(v) for v in items]
            nd = max(v.ndim for v in items)
            items = [v.reshape(v.shape[:0] + (1,) * (nd - v.ndim) + v.shape) if v.ndim < nd else v for v in items]
            return wrap(np.concatenate([v.astype(object) for v in items], axis=0))
        items = [v.reshape(-1, 1) if v.ndim < 2 else v for v in items]
        return wrap(np.concatenate([v.astype(object) for v in items], axis=-1))


class _MF(type):
    def __instancecheck__(cls, x):
        return isinstance(x, float)

    def __subclasscheck__(cls, c):
        return issubclass(c, float)


class SymFloat(float, metaclass=_MF):
    """stands for builtins.float inside the code under test"""
    def __new__(cls, x=0.0):
        if isinstance(x, np.ndarray) and x.size == 1:
            x = base(x).item()
        if isinstance(x, SB):
            x = x.num()
        if isinstance(x, SR):
            return SR(C.toreal(x.e))
        return float(x)


# python builtins seen by the code under test
def sym_sum(it, start=0):
    r = start
    for v in it:
        if isinstance(v, SB):
            v = v.num()
        r = r + v
    return r


def sym_abs(x):
    return np.abs(x) if isinstance(x, SymArray) else builtins.abs(x)


REPL = {}     # id(original) -> replacement


class TypeProxy:
    """numpy scalar type as seen by the code under test (callable on symbolic values, usable as dtype)"""

    def __init__(self, t):
        self._t = t
        self.dtype = np.dtype(t)
        self.__name__ = t.__name__

    def __call__(self, x=0, *a):
        if has_sym(x) or isinstance(x, SymArray):
            if isinstance(x, (list, tuple)):
                x = mkarr(x)
            return x.astype(self._t)
        r = self._t(x, *a)
        return wrap(r) if isinstance(r, np.ndarray) else r.item() if isinstance(r, np.generic) else r

    def __instancecheck__(self, x):
        return isinstance(x, self._t)

    def __subclasscheck__(self, c):
        return issubclass(c, self._t)

    def __getattr__(self, n):
        return getattr(self._t, n)

    def __eq__(self, o):
        return o is self or o == self._t

    def __hash__(self):
        return hash(self._t)


def _register(orig, new):
    REPL[id(orig)] = (orig, new)


for _nm, _f in (('zeros', zeros_), ('ones', ones_), ('empty', zeros_), ('full', full_), ('eye', eye_), ('identity', eye_),
                ('array', array_), ('asarray', asarray_), ('asanyarray', asarray_), ('asfarray', asarray_),
                ('ascontiguousarray', asarray_), ('asarray_chkfinite', asarray_),
                ('linspace', linspace_), ('arange', arange_)):
    _register(getattr(np, _nm), _f)
for _nm in ('int8', 'int16', 'int32', 'int64', 'uint8', 'float64', 'float32', 'bool_', 'intp', 'int_'):
    _register(getattr(np, _nm), TypeProxy(getattr(np, _nm)))
_register(np.finfo, lambda t=float: np.finfo(t._t if isinstance(t, TypeProxy) else t if isinstance(t, (str, np.dtype)) or (isinstance(t, type) and issubclass(t, np.generic)) else float))
_register(np.r_, _R('r_'))
_register(np.c_, _R('c_'))


def _native_only(x):
    return not has_sym(x)


class FnProxy:
    """numpy function / ufunc as seen by the code under test: sequences holding symbolic values
    become SymArrays; concrete arguments give SymArray results"""

    def __init__(self, f):
        object.__setattr__(self, '_f', f)

    def __call__(self, *a, **k):
        f = self._f
        h = HANDLED.get(f) if not isinstance(f, np.ufunc) else None
        anysym = any(has_sym(x) or isinstance(x, SymArray) for x in a) or any(has_sym(x) or isinstance(x, SymArray) for x in k.values())
        if anysym:
            if isinstance(f, np.ufunc):
                a = tuple(mkarr(x) if isinstance(x, (list, tuple)) else x for x in a)
                return array_ufunc(f, '__call__', *a, **k)
            if h is not None:
                return h(*a, **k)
            a = tuple(mkarr(x) if isinstance(x, (list, tuple)) and has_sym(x) and all(is_sym(v) or C.is_conc(v) for v in x) else x
                      for x in a)
            return _rewrap(f(*a, **k))
        if h in (HANDLED.get(np.atleast_1d), HANDLED.get(np.atleast_2d)) and h is not None:
            return h(*a, **k)
        return wrap(f(*a, **k))

    def __getattr__(self, n):
        v = getattr(self._f, n)
        if isinstance(self._f, np.ufunc) and n in ('reduce', 'accumulate', 'outer', 'at'):
            def m(*a, **k):
                a = tuple(mkarr(x) if isinstance(x, (list, tuple)) and has_sym(x) else x for x in a)
                if any(has_sym(x) or isinstance(x, SymArray) for x in a):
                    return array_ufunc(self._f, n, *a, **k)
                return wrap(v(*a, **k))
            return m
        return v


class LibFn:
    """scipy function: concrete SymArrays are handed over as native arrays; symbolic
    arguments need a registered model"""

    def __init__(self, f):
        object.__setattr__(self, '_f', f)

    def __call__(self, *a, **k):
        def cv(x):
            if isinstance(x, SymArray):
                y = tofloat(x)
                if y is None:
                    raise EngineError('no symbolic model of %s' % getattr(self._f, '__name__', self._f))
                return y
            if is_sym(x):
                raise EngineError('no symbolic model of %s' % getattr(self._f, '__name__', self._f))
            if isinstance(x, (list, tuple)):
                return type(x)(cv(v) for v in x) if type(x) in (list, tuple) else x
            return x
        if isinstance(self._f, np.ufunc) and self._f.__name__ in SPECIAL and any(has_sym(x) for x in a):
            fn = SPECIAL[self._f.__name__]
            return wrap0(np.frompyfunc(fn, len(a), 1)(*[_asobj(x) for x in a]))
        if any(has_sym(x) or (isinstance(x, np.ndarray) and x.dtype == object) for x in a) and getattr(self._f, '_sym_passthrough', False):
            return self._f(*a, **k)
        r = self._f(*[cv(x) for x in a], **{kk: cv(v) for kk, v in k.items()})
        return wrap(r) if isinstance(r, (np.ndarray, tuple, list)) else r

    def __getattr__(self, n):
        return getattr(self._f, n)


class ModProxy(types.ModuleType):
    def __init__(self, mod, kind):
        self.__dict__['_mod'] = mod
        self.__dict__['_kind'] = kind
        self.__dict__['_cache'] = {}
        self.__dict__['__name__'] = mod.__name__

    def __getattr__(self, n):
        c = self.__dict__['_cache']
        if n in c:
            return c[n]
        v = repl(getattr(self.__dict__['_mod'], n))
        c[n] = v
        return v


_FNTYPES = (types.FunctionType, types.BuiltinFunctionType, type(np.diff))


def repl(v):
    """replacement of an object reachable from wafo globals"""
    r = REPL.get(id(v))
    if r is not None:
        return r[1]
    if isinstance(v, (FnProxy, LibFn, ModProxy)):
        return v
    if isinstance(v, types.ModuleType):
        nm = v.__name__
        if nm == 'numpy' or nm.startswith('numpy.'):
            if nm.startswith(('numpy.random', 'numpy.testing')):
                return v
            return _modproxy(v, 'np')
        if nm == 'scipy' or nm.startswith('scipy.'):
            return _modproxy(v, 'sp')
        return v
    if isinstance(v, np.ufunc):
        m = getattr(np, v.__name__, None)
        return _fn(v, FnProxy if m is v else LibFn)
    if isinstance(v, _FNTYPES):
        mod = getattr(v, '__module__', '') or ''
        if v in HANDLED if _hashable(v) else False:
            return _fn(v, FnProxy)
        if mod.startswith('numpy') and not mod.startswith('numpy.random'):
            return _fn(v, FnProxy)
        if mod.startswith('scipy'):
            return _fn(v, LibFn)
    return v


def _hashable(v):
    try:
        hash(v)
        return True
    except TypeError:
        return False


_mp = {}
_fp = {}


def _modproxy(v, kind):
    if v.__name__ not in _mp:
        _mp[v.__name__] = ModProxy(v, kind)
    return _mp[v.__name__]


def _fn(v, cls):
    p = _fp.get(id(v))
    if p is None:
        p = cls(v)
        _fp[id(v)] = p
    return p


def brentq_(f, a, b, args=(), **kw):
    """some root of f in [a, b] (ValueError without a change of sign)"""
    import scipy.optimize as so
    fa, fb = f(a, *args), f(b, *args)
    if not is_sym(fa) and not is_sym(fb) and not is_sym(a) and not is_sym(b):
        kw.update(xtol=1e-15, rtol=1e-15)
        return so.brentq(f, a, b, args=args, **kw)
    if bool(fa * fb > 0):
        raise ValueError('f(a) and f(b) must have different signs')
    z3 = C.z3
    x = ctx().newreal('brentq')
    ctx().add(x >= C.rexpr(a))
    ctx().add(x <= C.rexpr(b))
    x = SR(x)
    fx = f(x, *args)
    ctx().add(C.rexpr(fx) == 0)
    if ctx().check() == z3.unsat:
        raise EngineError('brentq: no root')
    return x


# ---- scipy.special: uninterpreted, with the few facts the properties need
def _spec1(name, x, ax=None):
    import scipy.special as sp
    if not is_sym(x):
        return float(getattr(sp, name)(x))
    return SR(C._apply('sp_' + name, C.toreal(C.rexpr(x)), ax or (lambda t, a, o: [])))


def _gammaln(x):
    return _spec1('gammaln', x)


def _gamma(x):
    if not is_sym(x):
        return _spec1('gamma', x)
    if bool(x > 0):
        return C.exp_(_gammaln(x))
    return _spec1('gamma', x)


def _ive(n, x):
    import scipy.special as sp
    if not is_sym(x) and not is_sym(n):
        return float(sp.ive(n, x))
    if is_sym(n):
        raise EngineError('ive of symbolic order')
    return SR(C._apply('sp_ive%g' % float(n), C.toreal(C.rexpr(x)), lambda t, a, o: [C.z3.Implies(a > 0, C.z3.And(t > 0, t <= 1)), C.z3.Implies(a == 0, t == (1 if n == 0 else 0))]))


def _chdtrc(df, x):
    import scipy.special as sp
    if is_sym(df):
        raise EngineError('chdtrc of symbolic degrees of freedom')
    if not is_sym(x):
        return float(sp.chdtrc(df, x))
    return SR(C._apply('sp_chdtrc%g' % float(df), C.toreal(C.rexpr(x)), lambda t, a, o: [t >= 0, t <= 1]))


SPECIAL.update(chdtrc=_chdtrc, erfcx=lambda x: _spec1('erfcx', x, lambda t, a, o: [t > 0, C.z3.Implies(a >= 0, C.z3.And(t <= 1, t * a < 0.5641895835477564))]),
               exp1=lambda x: _spec1('exp1', x, lambda t, a, o: [C.z3.Implies(a > 0, t > 0)]), expm1=C.expm1_, log1p=C.log1p_, gammaln=_gammaln, gamma=_gamma, ive=_ive, i0e=lambda x: _ive(0, x), i1e=lambda x: _ive(1, x),
               iv=lambda n, x: _ive(n, x) * C.exp_(abs(x)) if is_sym(x) else float(__import__('scipy.special').special.iv(n, x)))


def quad_(f, a, b, args=(), **kw):
    """the integral is an unknown number; what was integrated is noted in ctx().quads for the harness"""
    import scipy.integrate as si
    c = ctx()
    tup = args if isinstance(args, tuple) else (args,)
    if not (is_sym(a) or is_sym(b)):
        m = f(a + 0.37 * (b - a) if np.isfinite(a) and np.isfinite(b) else 0.37, *tup)
        if not has_sym(m):
            def g(x, *r):
                v = f(x, *r)
                return float(np.asarray(v).ravel()[0])
            return si.quad(g, a, b, args=args, **kw)
    v = SR(c.newreal('quad'))
    c.quads.append((lambda x: f(x, *tup), a, b, v))
    return v, 0.0


def fsolve_(f, x0, args=(), **kw):
    """some root of f (the root of a scalar equation)"""
    import scipy.optimize as so
    x0 = mkarr(x0) if np.ndim(x0) else mkarr([x0])
    if x0.size != 1:
        raise EngineError('fsolve of several variables')
    if not has_sym(x0):
        f0 = f(tofloat(x0), *args)
        if not has_sym(f0):
            return wrap(so.fsolve(lambda t: np.asarray(tofloat(_asobj(f(t, *args))), dtype=float), tofloat(x0), **kw))
    x = SR(ctx().newreal('fsolve'))
    xa = mkarr([x])
    fx = f(xa, *args)
    fx = base(mkarr(fx)).ravel()[0] if isinstance(fx, np.ndarray) else fx
    if C.nonfinite(fx):
        raise C.PathAbort('fsolve: not a root')
    ctx().add(C.rexpr(fx) == 0)
    return xa


def interp1d_(x, y, kind='linear', **kw):
    """with a symbolic argument, any value in the range of the table (used for starting values only)"""
    import scipy.interpolate as sip
    if has_sym(y) and not has_sym(x) and np.ndim(y) == 1:
        # interpolation at given points is linear in the table
        basis = sip.interp1d(tofloat(_asobj(x)), np.eye(len(y)), kind, axis=0, **kw)

        def lin(t):
            W = basis(tofloat(_asobj(t)))
            c = np.ravel(_asobj(y))
            flat = W.reshape(-1, len(c))
            r = mkarr([sum((float(wj) * cj for wj, cj in zip(row, c) if wj != 0), 0.0) for row in flat])
            return r.reshape(np.shape(t)) if np.ndim(t) else r[0]
        return lin
    f = sip.interp1d(tofloat(_asobj(x)), tofloat(_asobj(y)), kind, **kw)

    def g(t):
        if not has_sym(t):
            return wrap(f(tofloat(_asobj(t)))) if isinstance(t, np.ndarray) else f(t)
        lo, hi = float(np.min(f.y)), float(np.max(f.y))

        def one(v):
            if not is_sym(v):
                return float(f(v))
            r = ctx().newreal('interp')
            ctx().add(C.z3.And(r >= C.rv(lo), r <= C.rv(hi)))
            return SR(r)
        return wrap0(np.frompyfunc(one, 1, 1)(_asobj(t)))
    return g


class SymPoly1d(np.poly1d):
    def __init__(self, c_or_r, r=False, variable=None):
        if isinstance(c_or_r, np.poly1d):
            c_or_r = c_or_r.coeffs
        c = mkarr(c_or_r) if has_sym(c_or_r) else (tofloat(_asobj(c_or_r)) if np.asarray(c_or_r).dtype == object else c_or_r)
        super().__init__(c, r, variable)

    def deriv(self, m=1):
        return SymPoly1d(np.poly1d.deriv(self, m).coeffs)

    def integ(self, m=1, k=0):
        return SymPoly1d(np.poly1d.integ(self, m, k).coeffs)

    @property
    def roots(self):
        return _roots(self.coeffs)
    r = roots


class SymSparse:
    """sparse matrix as seen by the code under test: same algebra, stored densely"""
    __array_ufunc__ = None

    def __init__(self, d):
        self._d = d
        self.shape = d.shape

    @property
    def T(self):
        return SymSparse(self._d.T)

    def transpose(self):
        return self.T

    def tocsr(self, *a, **k):
        return SymSparse(self._d.copy())
    tocsc = tolil = todia = tocoo = copy = tocsr

    def toarray(self):
        return self._d.copy()
    todense = toarray

    def __mul__(self, o):
        if isinstance(o, SymSparse):
            return SymSparse(self._d.dot(o._d))
        if isinstance(o, np.ndarray) and o.ndim:
            return self._d.dot(o)
        return SymSparse(self._d * o)

    def __rmul__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return o.dot(self._d)
        return SymSparse(self._d * o)
    dot = __matmul__ = __mul__

    def __truediv__(self, o):
        return SymSparse(self._d / o)

    def __add__(self, o):
        return SymSparse(self._d + (o._d if isinstance(o, SymSparse) else o))
    __radd__ = __add__

    def __sub__(self, o):
        return SymSparse(self._d - (o._d if isinstance(o, SymSparse) else o))

    def __neg__(self):
        return SymSparse(-self._d)

    def diagonal(self, k=0):
        return mkarr([self._d[i, i + k] for i in range(self.shape[0]) if 0 <= i + k < self.shape[1]])

    def sum(self, axis=None):
        return self._d.sum(axis)

    def setdiag(self, v, k=0):
        v = mkarr(v)
        for i in range(self.shape[0]):
            if 0 <= i + k < self.shape[1]:
                self._d[i, i + k] = v[i] if v.ndim else v[()]

    def __getitem__(self, i):
        r = self._d[i]
        return SymSparse(r) if isinstance(r, np.ndarray) and r.ndim == 2 else r

    def __setitem__(self, i, v):
        self._d[i] = v


def spdiags_(data, diags, m=None, n=None, format=None):
    if m is not None and n is None:
        m, n = m
    data = mkarr(data)
    if data.ndim == 1:
        data = data.reshape(1, -1)
    diags = np.atleast_1d(np.asarray(diags, dtype=int))
    if m is None:
        m = n = data.shape[1]
    A = np.zeros((m, n)).astype(object).view(SymArray)
    for k, d in enumerate(diags.tolist()):
        for j in range(min(n, data.shape[1])):
            if 0 <= j - d < m:
                A[j - d, j] = data[k, j]
    return SymSparse(A)


def sparse_diags_(diagonals, offsets=0, shape=None, format=None, dtype=None):
    if np.ndim(offsets) == 0:
        offsets = [offsets]
        if not isinstance(diagonals, (list, tuple)) or not np.ndim(diagonals[0]):
            diagonals = [diagonals]
    ds = [mkarr(d) for d in diagonals]
    if shape is None:
        k = len(ds[0]) + abs(int(offsets[0]))
        shape = (k, k)
    A = np.zeros(shape).astype(object).view(SymArray)
    for d, o in zip(ds, offsets):
        o = int(o)
        L = min(shape[0] + o, shape[1]) if o < 0 else min(shape[0], shape[1] - o)
        for i in range(L):
            r, c = (i - o, i) if o < 0 else (i, i + o)
            A[r, c] = d[i] if d.ndim and len(d) > 1 else (d[0] if d.ndim else d[()])
    return SymSparse(A)


def spsolve_(A, b, *a, **k):
    A = A._d if isinstance(A, SymSparse) else mkarr(A)
    b = mkarr(b)
    if b.ndim == 2 and b.shape[1] == 1:
        return solve_(A, b.ravel())
    return solve_(A, b)


def convolve1d_(x, weights, axis=-1, output=None, mode='reflect', cval=0.0, origin=0):
    from scipy.ndimage import convolve1d
    w = tofloat(mkarr(weights))
    if w is None or output is not None:
        raise EngineError('convolve1d with symbolic weights')
    b = np.moveaxis(base(mkarr(x)), axis, -1)
    m = b.shape[-1]
    w = np.asarray(w, dtype=float)
    M = convolve1d(np.eye(m), w, axis=-1, mode=mode, cval=0.0, origin=origin)
    off = convolve1d(np.zeros(m), w, mode=mode, cval=1.0, origin=origin)
    r = dot_(b.view(SymArray), M)
    if mode == 'constant':
        r = r + off * cval
    return np.moveaxis(base(mkarr(r)), -1, axis).view(SymArray)


def fit_edges_(x, window_length, polyorder, deriv, delta, axis, y):
    from scipy.signal import _savitzky_golay
    b = np.moveaxis(base(mkarr(x)), axis, -1)
    m = b.shape[-1]
    M = np.full((m, m), np.nan)
    _savitzky_golay._fit_edges_polyfit(np.eye(m), window_length, polyorder, deriv, delta, -1, M)
    r = np.moveaxis(base(mkarr(y)), axis, -1)
    for j in range(m):
        if not np.isnan(M[0, j]):
            for idx in np.ndindex(*b.shape[:-1]):
                t = 0.0
                for i in range(m):
                    t = t + b[idx + (i,)] * float(M[i, j])
                r[idx + (j,)] = t


def convnd_(a, v, mode='full', axes=None, method='auto'):
    a, v = mkarr(a), mkarr(v)
    A, V = base(a), base(v)
    full = np.zeros(tuple(p + q - 1 for p, q in zip(A.shape, V.shape))).astype(object)
    for i in np.ndindex(*A.shape):
        for j in np.ndindex(*V.shape):
            if not is_sym(V[j]) and V[j] == 0:
                continue
            k = tuple(p + q for p, q in zip(i, j))
            full[k] = full[k] + A[i] * V[j]
    if mode == 'full':
        return full.view(SymArray)
    if mode == 'valid':
        sl = tuple(slice(min(p, q) - 1, max(p, q)) for p, q in zip(A.shape, V.shape))
    else:
        sl = tuple(slice((q - 1) // 2, (q - 1) // 2 + p) for p, q in zip(A.shape, V.shape))
    return full[sl].view(SymArray)


def register_models():
    import scipy.ndimage as snd
    import scipy.signal as ssg
    from scipy.signal import _savitzky_golay as _sg
    _register(snd.convolve1d, convolve1d_)
    _register(_sg._fit_edges_polyfit, fit_edges_)
    _register(ssg.fftconvolve, convnd_)
    _register(ssg.convolve, convnd_)
    _register(ssg.convolve2d, convnd_)
    import scipy.sparse as ssp
    import scipy.sparse.linalg as sspl
    _register(ssp.spdiags, spdiags_)
    _register(ssp.diags, sparse_diags_)
    _register(sspl.spsolve, spsolve_)
    _register(ssp.issparse, lambda x: isinstance(x, SymSparse) or ssp.issparse(x))
    _register(np.poly1d, SymPoly1d)
    import scipy.optimize as so
    _register(so.brentq, brentq_)
    _register(so.fsolve, fsolve_)
    import scipy.interpolate as sip_
    _register(sip_.interp1d, interp1d_)
    import scipy.integrate as si
    _register(si.quad, quad_)
    import scipy.fftpack as sfp
    import scipy.fft as sf
    import scipy.linalg as sl
    for n in ('simps', 'simpson'):
        if hasattr(si, n):
            _register(getattr(si, n), simps_)
    for n in ('trapz', 'trapezoid'):
        if hasattr(si, n):
            _register(getattr(si, n), trapz_)
    for n in ('cumtrapz', 'cumulative_trapezoid'):
        if hasattr(si, n):
            _register(getattr(si, n), cumtrapz_)
    _register(np.trapz, trapz_)
    for m in (sfp, sf):
        for n in ('dct', 'idct', 'dst', 'idst'):
            _register(getattr(m, n), _linmap(getattr(m, n)))
        _register(m.fft, fft_)
        _register(m.ifft, ifft_)
    _register(sl.solve, solve_)
    _register(sl.inv, inv_)
    _register(sl.sqrtm, lambda a, *args, **kw: sqrtm_(a, sl.sqrtm))
    _register(sl.pinv, pinv_)
    from scipy.stats import _distn_infrastructure as _sdi
    _register(_sdi.argsreduce, argsreduce_)
    _register(sl.det, det_)
    import scipy.interpolate as sip
    _register(sip.griddata, _griddata)
    _register(sl.lstsq, lstsq_)
    _register(sl.toeplitz, lambda c, r=None: mkarr([[base(mkarr(c))[abs(i - j)] for j in range(len(c))] for i in range(len(c))]))


def patch_module(mod):
    """make one module of the code under test see the symbolic numpy"""
    g = mod.__dict__
    if g.get('__vsym_patched__'):
        return
    for n, v in list(g.items()):
        if n.startswith('__'):
            continue
        r = repl(v)
        if r is not v:
            g[n] = r
    g.setdefault('float', SymFloat)
    g.setdefault('sum', sym_sum)
    g['__vsym_patched__'] = True
