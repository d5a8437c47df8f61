"""Symbolic execution of C source (source/c_library/c_functions.c) through clang's AST.

The AST of the current source is dumped by clang on every run and interpreted with the engine's
symbolic scalars: doubles are symbolic reals, ints are (path-)concrete.  Reads/writes outside an
object and reads of uninitialised memory are reported through `fail`.
In replay the same source is compiled with gcc -fsanitize=address,undefined and run in a child process.
"""
import json
import math
import os
import subprocess
import tempfile
import shutil
import hashlib
import atexit

REPO = '/repo'
CSRC = REPO + '/source/c_library/c_functions.c'


from .core import EngineError  # noqa: E402


class CError(EngineError):
    pass


class _Uninit:
    def __repr__(self):
        return '<uninitialised>'


UN = _Uninit()


class Break(Exception):
    pass


class Continue(Exception):
    pass


class Return(Exception):
    def __init__(self, v):
        self.v = v


class Goto(Exception):
    def __init__(self, label):
        self.label = label


class Buf:
    __slots__ = ('name', 'data', 'kind', 'dead')

    def __init__(self, name, data, kind):
        self.name, self.data, self.kind, self.dead = name, data, kind, False


class Ptr:
    __slots__ = ('buf', 'off')

    def __init__(self, buf, off):
        self.buf, self.off = buf, off


class Fault(Exception):
    pass


def kind_of(q):
    q = q.replace('const ', '').replace('register ', '').replace('static ', '').replace('volatile ', '').replace(' restrict', '').strip()
    if q.endswith('*') or q.endswith(']') or '(*)' in q:
        return 'p'
    if q in ('double', 'float', 'long double'):
        return 'f'
    if q in ('int', 'long', 'unsigned int', 'short', 'char', 'size_t', 'unsigned long', 'long long', 'unsigned char', '_Bool', 'bool', 'unsigned long long'):
        return 'i'
    if q == 'void':
        return 'v'
    return '?'


def elem_kind(q):
    q = q.strip()
    if q.endswith('*'):
        return kind_of(q[:-1].strip())
    if q.endswith(']'):
        return kind_of(q[:q.index('[')].strip())
    return kind_of(q)


class Prog:
    def __init__(self, path=CSRC):
        self.path = path
        r = subprocess.run(['clang', '-fsyntax-only', '-w', '-Xclang', '-ast-dump=json', path], capture_output=True, text=True)
        if r.returncode:
            raise CError('clang: ' + r.stderr[-800:])
        top = json.loads(r.stdout)
        self.fn = {}
        self.globals = {}
        for d in top['inner']:
            if d.get('kind') == 'FunctionDecl' and any(c.get('kind') == 'CompoundStmt' for c in d.get('inner', [])):
                self.fn[d['name']] = d
            elif d.get('kind') == 'VarDecl' and 'inner' in d:
                self.globals[d['id']] = d
        self.labels = {}

    def contains(self, node, label):
        k = (id(node), label)
        v = self.labels.get(k)
        if v is None:
            v = node.get('declId') == label and node.get('kind') == 'LabelStmt' or any(self.contains(c, label) for c in node.get('inner', []) if c)
            self.labels[k] = v
        return v


class Interp:
    """one call of a C function"""

    def __init__(self, prog, math_fns, steps=2000000):
        self.p = prog
        self.m = math_fns
        self.steps = steps
        self.called = set()

    # -------------------------------------------------------------- memory
    def load(self, q):
        b = q.buf
        if b is None or b.dead:
            raise Fault('read through an invalid pointer')
        if not 0 <= q.off < len(b.data):
            raise Fault('read outside %s (index %d of %d)' % (b.name, q.off, len(b.data)))
        v = b.data[q.off]
        if v is UN:
            raise Fault('read of uninitialised %s' % b.name)
        return v

    def store(self, q, v):
        b = q.buf
        if b is None or b.dead:
            raise Fault('write through an invalid pointer')
        if not 0 <= q.off < len(b.data):
            raise Fault('write outside %s (index %d of %d)' % (b.name, q.off, len(b.data)))
        b.data[q.off] = self.conv(v, b.kind)

    def conv(self, v, kind):
        if isinstance(v, Ptr) or kind in 'p?v':
            return v
        if kind == 'f':
            return self.m['todouble'](v)
        if kind == 'i':
            return self.m['toint'](v)
        raise CError('conversion to ' + kind)

    # -------------------------------------------------------------- calls
    def call(self, name, args):
        d = self.p.fn[name]
        self.called.add(name)
        env = {}
        params = [c for c in d['inner'] if c['kind'] == 'ParmVarDecl']
        if len(params) != len(args):
            raise CError('%s takes %d arguments' % (name, len(params)))
        for pd, a in zip(params, args):
            k = kind_of(pd['type']['qualType'])
            env[pd['id']] = Buf(pd.get('name', '?'), [self.conv(a, k)], k)
        body = [c for c in d['inner'] if c['kind'] == 'CompoundStmt'][0]
        try:
            self.stmt(body, env)
        except Return as r:
            rk = kind_of(d['type']['qualType'].split('(')[0])
            return None if r.v is None else self.conv(r.v, rk)
        return None

    # -------------------------------------------------------------- statements
    def block(self, children, env, start=0, seek=None):
        i = start
        while i < len(children):
            try:
                if seek is not None:
                    s, seek = seek, None
                    self.seek(children[i], s, env)
                else:
                    self.stmt(children[i], env)
                i += 1
            except Goto as g:
                for j, c in enumerate(children):
                    if c and self.p.contains(c, g.label):
                        i, seek = j, g.label
                        break
                else:
                    raise

    def seek(self, s, label, env):
        if s['kind'] == 'LabelStmt':
            if s['declId'] == label:
                return self.block(s.get('inner', []), env)
            return self.block(s.get('inner', []), env, 0, label)
        if s['kind'] == 'CompoundStmt':
            ch = s['inner']
            for j, c in enumerate(ch):
                if self.p.contains(c, label):
                    return self.block(ch, env, j, label)
        raise CError('jump into %s' % s['kind'])

    def loop_body(self, body, env):
        try:
            self.stmt(body, env)
        except Continue:
            pass

    def truth(self, e, env):
        v = self.ev(e, env)
        if isinstance(v, Ptr):
            return v.buf is not None
        return bool(v != 0) if not isinstance(v, (bool, int)) else bool(v)

    def stmt(self, s, env):
        self.steps -= 1
        if self.steps < 0:
            raise CError('step limit')
        k = s.get('kind')
        if k == 'CompoundStmt':
            self.block(s.get('inner', []), env)
        elif k == 'DeclStmt':
            for d in s['inner']:
                if d['kind'] == 'VarDecl':
                    self.declare(d, env)
        elif k == 'IfStmt':
            ch = s['inner']
            if self.truth(ch[0], env):
                self.stmt(ch[1], env)
            elif len(ch) > 2:
                self.stmt(ch[2], env)
        elif k == 'ForStmt':
            init, cv, cond, inc, body = s['inner']
            if init:
                self.stmt(init, env)
            try:
                while not cond or self.truth(cond, env):
                    self.loop_body(body, env)
                    if inc:
                        self.ev(inc, env)
            except Break:
                pass
        elif k == 'WhileStmt':
            cond, body = s['inner'][-2:]
            try:
                while self.truth(cond, env):
                    self.loop_body(body, env)
            except Break:
                pass
        elif k == 'DoStmt':
            body, cond = s['inner'][-2:]
            try:
                while True:
                    self.loop_body(body, env)
                    if not self.truth(cond, env):
                        break
            except Break:
                pass
        elif k == 'SwitchStmt':
            v = self.m['toint'](self.ev(s['inner'][0], env))
            body = s['inner'][-1]
            flat = []   # (case values or default, statement)
            for c in body['inner']:
                tags = []
                while c and c['kind'] in ('CaseStmt', 'DefaultStmt'):
                    tags.append(None if c['kind'] == 'DefaultStmt' else self.ev(c['inner'][0], env))
                    c = c['inner'][-1]
                flat.append((tags, c))
            at = next((i for i, (t, _) in enumerate(flat) if any(x is not None and x == v for x in t)), None)
            if at is None:
                at = next((i for i, (t, _) in enumerate(flat) if None in t), None)
            if at is not None:
                try:
                    self.block([c for _, c in flat], env, at)
                except Break:
                    pass
        elif k == 'BreakStmt':
            raise Break
        elif k == 'ContinueStmt':
            raise Continue
        elif k == 'ReturnStmt':
            raise Return(self.ev(s['inner'][0], env) if s.get('inner') else None)
        elif k == 'GotoStmt':
            raise Goto(s['targetLabelDeclId'])
        elif k == 'LabelStmt':
            self.block(s.get('inner', []), env)
        elif k == 'NullStmt' or k is None:
            pass
        else:
            self.ev(s, env)

    def declare(self, d, env):
        q = d['type']['qualType']
        k = kind_of(q)
        if q.endswith(']'):
            dim = q[q.index('[') + 1:-1]
            n = int(dim) if dim.isdigit() else None
            if n is None:
                size = [c for c in d.get('inner', []) if 'Expr' in c['kind']]
                raise CError('variable length array ' + q)
            b = Buf(d['name'], [UN] * n, elem_kind(q))
            init = [c for c in d.get('inner', []) if c['kind'] == 'InitListExpr']
            if init:
                fill = [c for c in init[0].get('inner', [])] or [c for c in init[0].get('array_filler', [])[1:]]
                b.data = [0.0 if b.kind == 'f' else 0] * n
                for i, c in enumerate(fill):
                    b.data[i] = self.conv(self.ev(c, env), b.kind)
            env[d['id']] = Buf(d['name'], [Ptr(b, 0)], 'p')
            env[d['id']].dead = False
            return
        b = Buf(d['name'], [UN], k)
        env[d['id']] = b
        if d.get('inner'):
            b.data[0] = self.conv(self.ev(d['inner'][-1], env), k)

    # -------------------------------------------------------------- expressions
    def lv(self, e, env):
        k = e['kind']
        if k == 'ParenExpr':
            return self.lv(e['inner'][0], env)
        if k == 'DeclRefExpr':
            i = e['referencedDecl']['id']
            if i not in env:
                if i in self.p.globals:
                    self.declare(self.p.globals[i], env)
                else:
                    raise CError('unknown ' + e['referencedDecl'].get('name', '?'))
            return Ptr(env[i], 0)
        if k == 'ArraySubscriptExpr':
            a, b = [self.ev(c, env) for c in e['inner']]
            if not isinstance(a, Ptr):
                a, b = b, a
            return Ptr(a.buf, a.off + self.m['toint'](b))
        if k == 'UnaryOperator' and e['opcode'] == '*':
            return self.ev(e['inner'][0], env)
        if k in ('ImplicitCastExpr', 'CStyleCastExpr'):
            return self.lv(e['inner'][0], env)
        raise CError('lvalue ' + k)

    def ev(self, e, env):
        k = e['kind']
        if k in ('ParenExpr', 'ConstantExpr', 'FullExpr'):
            return self.ev(e['inner'][0], env)
        if k == 'ImplicitCastExpr' or k == 'CStyleCastExpr':
            ck = e['castKind']
            c = e['inner'][0]
            if ck == 'LValueToRValue':
                return self.load(self.lv(c, env))
            if ck == 'ArrayToPointerDecay':
                return self.load(self.lv(c, env))
            if ck in ('IntegralToFloating', 'FloatingCast'):
                return self.m['todouble'](self.ev(c, env))
            if ck in ('FloatingToIntegral', 'IntegralCast'):
                return self.m['toint'](self.ev(c, env))
            if ck == 'NullToPointer':
                return Ptr(None, 0)
            if ck == 'BitCast':
                v = self.ev(c, env)
                if isinstance(v, Ptr) and v.buf is not None and v.buf.kind == '?':
                    v = self.typed(v, e['type']['qualType'])
                return v
            if ck in ('NoOp', 'FunctionToPointerDecay', 'ToVoid', 'BuiltinFnToFnPtr'):
                return self.ev(c, env)
            if ck in ('IntegralToBoolean', 'FloatingToBoolean', 'PointerToBoolean'):
                return 1 if self.truth(c, env) else 0
            raise CError('cast ' + ck)
        if k == 'IntegerLiteral':
            return int(e['value'])
        if k == 'CharacterLiteral':
            return int(e['value'])
        if k == 'FloatingLiteral':
            return float(e['value'])
        if k == 'DeclRefExpr':
            if e['referencedDecl']['kind'] == 'FunctionDecl':
                return e['referencedDecl']['name']
            return self.load(self.lv(e, env))
        if k == 'ArraySubscriptExpr':
            return self.load(self.lv(e, env))
        if k == 'UnaryOperator':
            return self.unary(e, env)
        if k == 'BinaryOperator':
            return self.binary(e, env)
        if k == 'CompoundAssignOperator':
            q = self.lv(e['inner'][0], env)
            v = self.arith(e['opcode'][:-1], self.load(q), self.ev(e['inner'][1], env))
            self.store(q, v)
            return self.load(q)
        if k == 'ConditionalOperator':
            a, b, c = e['inner']
            return self.ev(b if self.truth(a, env) else c, env)
        if k == 'CallExpr':
            return self.callexpr(e, env)
        if k == 'UnaryExprOrTypeTraitExpr' and e.get('name') == 'sizeof':
            q = e.get('argType', {}).get('qualType') or e['inner'][0]['type']['qualType']
            return {'f': 8, 'i': 4, 'p': 8}[kind_of(q)]
        raise CError('expression ' + k)

    def typed(self, v, q):
        ek = elem_kind(q)
        size = {'f': 8, 'i': 4}.get(ek)
        if size:
            v.buf.kind = ek
            v.buf.data = [x for x in v.buf.data[:len(v.buf.data) // size]]
        return v

    def callexpr(self, e, env):
        name = self.ev(e['inner'][0], env)
        args = [self.ev(c, env) for c in e['inner'][1:]]
        if name in self.p.fn:
            return self.call(name, args)
        if name in ('malloc', 'calloc'):
            n = args[0] * (args[1] if name == 'calloc' else 1)
            return Ptr(Buf(name + 'ed block', [UN if name == 'malloc' else 0] * n, '?'), 0)
        if name == 'free':
            if args[0].buf is not None:
                if args[0].buf.dead or args[0].off:
                    raise Fault('invalid free')
                args[0].buf.dead = True
            return None
        if name in ('memset',):
            q, v, n = args
            size = {'f': 8, 'i': 4}[q.buf.kind]
            if v != 0:
                raise CError('memset')
            for i in range(n // size):
                self.store(Ptr(q.buf, q.off + i), 0)
            return q
        if name in ('memcpy', 'memmove'):
            q, r, n = args
            size = {'f': 8, 'i': 4}[q.buf.kind]
            vals = [self.load(Ptr(r.buf, r.off + i)) for i in range(n // size)]
            for i, v in enumerate(vals):
                self.store(Ptr(q.buf, q.off + i), v)
            return q
        if name in self.m:
            return self.m[name](*args)
        if name == 'printf':
            return 0
        raise CError('call of ' + str(name))

    def unary(self, e, env):
        op = e['opcode']
        c = e['inner'][0]
        if op == '*':
            return self.load(self.ev(c, env))
        if op == '&':
            cc = c
            while cc['kind'] == 'ParenExpr':
                cc = cc['inner'][0]
            return self.lv(c, env)
        if op in ('++', '--'):
            q = self.lv(c, env)
            old = self.load(q)
            d = 1 if op == '++' else -1
            new = Ptr(old.buf, old.off + d) if isinstance(old, Ptr) else old + d
            self.store(q, new)
            return old if e.get('isPostfix') else new
        v = self.ev(c, env)
        if op == '-':
            return -v
        if op == '+':
            return v
        if op == '!':
            return 0 if self.truth(c, env) else 1
        if op == '~':
            return ~v
        raise CError('operator ' + op)

    def binary(self, e, env):
        op = e['opcode']
        a, b = e['inner']
        if op == '=':
            q = self.lv(a, env)
            v = self.ev(b, env)
            self.store(q, v)
            return v
        if op == ',':
            self.ev(a, env)
            return self.ev(b, env)
        if op == '&&':
            return 1 if self.truth(a, env) and self.truth(b, env) else 0
        if op == '||':
            return 1 if self.truth(a, env) or self.truth(b, env) else 0
        return self.arith(op, self.ev(a, env), self.ev(b, env))

    def arith(self, op, x, y):
        if isinstance(x, Ptr) or isinstance(y, Ptr):
            if op == '+':
                if isinstance(y, Ptr):
                    x, y = y, x
                return Ptr(x.buf, x.off + y)
            if op == '-' and isinstance(y, Ptr):
                if x.buf is not y.buf:
                    raise Fault('difference of pointers into different objects')
                return x.off - y.off
            if op == '-':
                return Ptr(x.buf, x.off - y)
            if op in ('==', '!='):
                return int((x.buf is y.buf and x.off == y.off) == (op == '=='))
            if op in ('<', '<=', '>', '>='):
                if x.buf is not y.buf:
                    raise Fault('comparison of pointers into different objects')
                x, y = x.off, y.off
            else:
                raise CError('pointer ' + op)
        ii = isinstance(x, int) and isinstance(y, int)
        if op == '+':
            return x + y
        if op == '-':
            return x - y
        if op == '*':
            return x * y
        if op == '/':
            if ii:
                if y == 0:
                    raise Fault('integer division by zero')
                q = abs(x) // abs(y)
                return q if (x >= 0) == (y >= 0) else -q
            return self.m['div'](x, y)
        if op == '%':
            if y == 0:
                raise Fault('integer division by zero')
            q = abs(x) % abs(y)
            return q if x >= 0 else -q
        if op == '<<':
            return x << y
        if op == '>>':
            return x >> y
        if op == '&':
            return x & y
        if op == '|':
            return x | y
        if op == '^':
            return x ^ y
        r = {'<': lambda: x < y, '<=': lambda: x <= y, '>': lambda: x > y, '>=': lambda: x >= y, '==': lambda: x == y, '!=': lambda: x != y}[op]()
        return int(r) if isinstance(r, bool) else r


# ------------------------------------------------------------------ the extension module as seen from Python
def _fmath(C):
    def toint(v):
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, int):
            return v
        if C.is_sym(v):
            if isinstance(v, C.SB):
                return int(bool(v))
            return int(C.trunc_(v))
        if isinstance(v, float):
            if v != v or abs(v) > 2**31:
                raise Fault('float out of the range of int')
            return int(v)
        return int(v)

    def todouble(v):
        if C.is_sym(v):
            if isinstance(v, C.SB):
                return float(bool(v))
            return v
        return float(v)

    def div(x, y):
        if C.is_sym(x) or C.is_sym(y):
            return x / y
        x, y = float(x), float(y)
        if y == 0.0:
            return math.nan if x == 0 or x != x else math.copysign(math.inf, x) * math.copysign(1.0, y)
        return x / y

    return dict(toint=toint, todouble=todouble, div=div, floor=lambda v: C.floor_(v) if C.is_sym(v) else math.floor(v) * 1.0,
                ceil=lambda v: C.ceil_(v) if C.is_sym(v) else math.ceil(v) * 1.0, fabs=abs, abs=abs, tanh=C.tanh_, sinh=C.sinh_, cosh=C.cosh_, exp=C.exp_, log=C.log_,
                sqrt=C.sqrt_, pow=C.pow_, fmax=C.maximum_, fmin=C.minimum_, sin=C.sin_, cos=C.cos_)


_prog = None


def prog():
    global _prog
    if _prog is None:
        _prog = Prog()
    return _prog


class SymClib:
    """stands for wafo.c_library: the C source executed symbolically"""

    def __init__(self, C, N, h=None):
        self.C, self.N, self.h = C, N, h

    def _run(self, name, args):
        it = Interp(prog(), _fmath(self.C))
        try:
            it.call(name, args)
        except Fault as f:
            self.h.check(False, 'C %s: %s' % (name, f))
        tr = getattr(self.h, 'cfuncs', None)
        if tr is not None:
            tr.update('source/c_library/c_functions.c:' + c for c in it.called)

    def _in(self, name, a):
        import numpy as np
        vals = [float(v) if isinstance(v, (int, np.number)) and not isinstance(v, bool) else v for v in np.asarray(a, dtype=object).ravel().tolist()]
        return Ptr(Buf(name, vals, 'f'), 0)

    def _out(self, name, n, kind, fill=UN):
        return Ptr(Buf(name, [fill] * n, kind), 0)

    def _arr(self, p, shape=None):
        import numpy as np
        d = p.buf.data
        if p.buf.kind == 'i':
            return np.array([0 if v is UN else v for v in d], dtype=np.int32)
        a = np.empty(len(d), dtype=object)
        for i, v in enumerate(d):
            a[i] = 0.0 if v is UN else v
        if shape:
            a = a.reshape(shape)
        return a.view(self.N.SymArray)

    def findcross(self, y, v):
        n = len(y)
        ind, info = self._out('ind', n, 'i'), self._out('info', 1, 'i')
        self._run('findcross', [self._in('y', y), v, ind, n, info])
        return self._arr(ind), self._arr(info)

    def findrfc(self, y, hmin):
        n = len(y)
        ind, info = self._out('ind', n, 'i'), self._out('info', 1, 'i')
        self._run('findrfc', [self._in('y1', y), hmin, ind, n, info])
        return self._arr(ind), self._arr(info)

    def findrfc3_astm(self, y):
        n = len(y)
        out, nout = self._out('array_out', 3 * n, 'f'), self._out('nout', 2, 'i')
        self._run('findrfc3_astm', [self._in('array_ext', y), out, n, nout])
        return self._arr(out, (n, 3)), self._arr(nout)

    def findrfc5_astm(self, y, t):
        n = len(y)
        out, nout = self._out('array_out', 5 * n, 'f'), self._out('nout', 2, 'i')
        self._run('findrfc5_astm', [self._in('array_ext', y), self._in('array_t', t), out, n, nout])
        return self._arr(out, (n, 5)), self._arr(nout)

    def disufq(self, rA, iA, w, kw, h, g, nmin, nmax, m, n):
        r, i = self._out('rvec', m * n, 'f'), self._out('ivec', m * n, 'f')
        self._run('disufq', [r, i, self._in('rA', rA), self._in('iA', iA), self._in('w', w), self._in('kw', kw), h, g, nmin, nmax, m, n])
        return self._arr(r), self._arr(i)

    def disufq2(self, rA, iA, w, kw, h, g, nmin, nmax, m, n):
        o = [self._out(k, m * n, 'f') for k in ('rsvec', 'isvec', 'rdvec', 'idvec')]
        self._run('disufq2', o + [self._in('rA', rA), self._in('iA', iA), self._in('w', w), self._in('kw', kw), h, g, nmin, nmax, m, n])
        return tuple(self._arr(q) for q in o)


# ------------------------------------------------------------------ concrete counterpart (replay)
_SIG = dict(
    findcross=[('in', 'y'), ('d', 'v'), ('oi', 'n'), ('n', ''), ('oi', '1')],
    findrfc=[('in', 'y'), ('d', 'v'), ('oi', 'n'), ('n', ''), ('oi', '1')],
    findrfc3_astm=[('in', 'y'), ('od', '3*n'), ('n', ''), ('oi', '2')],
    findrfc5_astm=[('in', 'y'), ('in', 't'), ('od', '5*n'), ('n', ''), ('oi', '2')],
    disufq=[('od', 'm*n'), ('od', 'm*n'), ('in', 'rA'), ('in', 'iA'), ('in', 'w'), ('in', 'kw'), ('d', 'h'), ('d', 'g'), ('i', 'nmin'), ('i', 'nmax'), ('i', 'm'), ('i', 'n')],
    disufq2=[('od', 'm*n')] * 4 + [('in', 'rA'), ('in', 'iA'), ('in', 'w'), ('in', 'kw'), ('d', 'h'), ('d', 'g'), ('i', 'nmin'), ('i', 'nmax'), ('i', 'm'), ('i', 'n')])

_DRV = r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "%(src)s"
static double *rd(int *n){ int i; double *p; if(scanf("%%d",n)!=1) exit(9); p=malloc(sizeof(double)*(*n?*n:1)); if(!*n){free(p);p=malloc(0);} for(i=0;i<*n;i++) if(scanf("%%lf",p+i)!=1) exit(9); return p; }
static void pd(double*p,int n){int i; for(i=0;i<n;i++) printf("%%.17g ",p[i]); printf("\n");}
static void pi_(int*p,int n){int i; for(i=0;i<n;i++) printf("%%d ",p[i]); printf("\n");}
int main(int argc,char**argv){
%(cases)s
 return 8;}
'''


class RealClib:
    """the C source compiled with the address and undefined-behaviour sanitizers, one process per call"""
    _exe = None

    def __init__(self, h):
        self.h = h

    @classmethod
    def exe(cls):
        if cls._exe is None:
            d = tempfile.mkdtemp(prefix='vsym_c_')
            atexit.register(shutil.rmtree, d, True)
            cases = []
            for f, sig in _SIG.items():
                pre, args, post = [], [], []
                first = True
                for j, (k, nm) in enumerate(sig):
                    if k == 'in':
                        pre.append('int n%d; double *a%d=rd(&n%d);' % (j, j, j))
                        args.append('a%d' % j)
                    elif k == 'd':
                        pre.append('double a%d; if(scanf("%%lf",&a%d)!=1) return 9;' % (j, j))
                        args.append('a%d' % j)
                    elif k == 'i':
                        pre.append('int a%d; if(scanf("%%d",&a%d)!=1) return 9;' % (j, j))
                        args.append('a%d' % j)
                    elif k == 'n':
                        pre.append('')
                        args.append('n%d' % [i for i, s in enumerate(sig) if s[0] == 'in'][0])
                    else:
                        pre.append('')
                        args.append('o%d' % j)
                n0 = [i for i, s in enumerate(sig) if s[0] == 'in'][0]
                dims = {'n': 'n%d' % n0, '1': '1', '2': '2', '3*n': '3*n%d' % n0, '5*n': '5*n%d' % n0}
                if f.startswith('disufq'):
                    dims['m*n'] = 'n%d' % n0
                alloc = []
                for j, (k, nm) in enumerate(sig):
                    if k in ('oi', 'od'):
                        t = 'int' if k == 'oi' else 'double'
                        alloc.append('%s *o%d=malloc(sizeof(%s)*(%s)); memset(o%d,0,sizeof(%s)*(%s));' % (t, j, t, dims[nm], j, t, dims[nm]))
                        post.append('%s(o%d,%s);' % ('pi_' if k == 'oi' else 'pd', j, dims[nm]))
                cases.append('if(!strcmp(argv[1],"%s")){%s %s %s(%s); %s return 0;}' % (f, ' '.join(pre), ' '.join(alloc), f, ','.join(args), ' '.join(post)))
            src = os.path.join(d, 'drv.c')
            with open(src, 'w') as fh:
                fh.write(_DRV % dict(src=CSRC, cases='\n'.join(cases)))
            exe = os.path.join(d, 'drv')
            r = subprocess.run(['gcc', '-w', '-g', '-O0', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', src, '-o', exe, '-lm'], capture_output=True, text=True)
            if r.returncode:
                raise CError('gcc: ' + r.stderr[-800:])
            cls._exe = exe
        return cls._exe

    def _call(self, name, args):
        import numpy as np
        toks = []
        sig = [s for s in _SIG[name] if s[0] in ('in', 'd', 'i')]
        for (k, _), a in zip(sig, args):
            if k == 'in':
                a = np.asarray(a, dtype=float).ravel()
                toks.append(str(len(a)))
                toks.extend(repr(float(v)) for v in a)
            else:
                toks.append(repr(float(a)) if k == 'd' else str(int(a)))
        import resource
        r = subprocess.run([self.exe(), name], input=' '.join(toks), capture_output=True, text=True,
                           env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0'), preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (resource.RLIM_INFINITY,) * 2) if resource.getrlimit(resource.RLIMIT_AS)[1] == resource.RLIM_INFINITY else None)
        if r.returncode:
            err = [ln for ln in r.stderr.splitlines() if 'ERROR' in ln or 'runtime error' in ln][:1]
            self.h.check(False, 'C %s: %s' % (name, (err or ['exit status %d' % r.returncode])[0]))
        lines = r.stdout.split('\n')
        outs = [s for s in _SIG[name] if s[0] in ('oi', 'od')]
        res = []
        for (k, _), ln in zip(outs, lines):
            res.append(np.array([int(v) for v in ln.split()], dtype=np.int32) if k == 'oi' else np.array([float(v) for v in ln.split()]))
        return tuple(res)

    def findcross(self, y, v):
        return self._call('findcross', [y, v])

    def findrfc(self, y, hmin):
        return self._call('findrfc', [y, hmin])

    def findrfc3_astm(self, y):
        a, b = self._call('findrfc3_astm', [y])
        return a.reshape(-1, 3), b

    def findrfc5_astm(self, y, t):
        a, b = self._call('findrfc5_astm', [y, t])
        return a.reshape(-1, 5), b

    def disufq(self, *a):
        return self._call('disufq', a)

    def disufq2(self, *a):
        return self._call('disufq2', a)


def clib(h):
    """the compiled library as an object with the interface of wafo.c_library"""
    if h.sym:
        from . import core as C, nparr as N
        return SymClib(C, N, h)
    return RealClib(h)
