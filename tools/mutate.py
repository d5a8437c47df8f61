"""mutation campaign: tools/mutate.py PXX [N] [SEED] mutates functions the check of PXX executes (one token change at a time, in a scratch copy of
/repo) and reports which mutants the quick check does not notice. A development aid: nothing registered uses it."""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
BASE = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, HERE)
from props import P  # noqa


def offsets(src):
    o, t = [], 0
    for l in src.split('\n'):
        o.append(t)
        t += len(l.encode()) + 1
    return o


CMP = {ast.Lt: ('<', '<='), ast.LtE: ('<=', '<'), ast.Gt: ('>', '>='), ast.GtE: ('>=', '>'), ast.Eq: ('==', '!='), ast.NotEq: ('!=', '==')}
BIN = {ast.Add: ('+', '-'), ast.Sub: ('-', '+'), ast.Mult: ('*', '/'), ast.Div: ('/', '*'), ast.FloorDiv: ('//', '/')}


def mutants(path, funcs):
    src = open(path).read()
    b = src.encode()
    off = offsets(src)
    tree = ast.parse(src)
    res = []

    def pos(line, col):
        return off[line - 1] + col

    def between(n1, n2, old, new):
        s, e = pos(n1.end_lineno, n1.end_col_offset), pos(n2.lineno, n2.col_offset)
        seg = b[s:e].decode()
        i = seg.find(old)
        if i >= 0 and seg.count(old) == 1:
            res.append((s + i, s + i + len(old), new, n1.end_lineno))

    def visit(node, qual, active):
        for ch in ast.iter_child_nodes(node):
            q, a = qual, active
            if isinstance(ch, (ast.FunctionDef, ast.ClassDef)):
                q = (qual + '.' if qual else '') + ch.name
                if isinstance(ch, ast.FunctionDef):
                    a = active or q in funcs
            if a and not isinstance(ch, ast.FunctionDef):
                one(ch)
            visit(ch, q, a)

    def one(n):
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            between(n.left, n.comparators[0], *CMP[type(n.ops[0])])
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            between(n.left, n.right, *BIN[type(n.op)])
        elif isinstance(n, ast.BoolOp):
            between(n.values[0], n.values[1], *(('and', 'or') if isinstance(n.op, ast.And) else ('or', 'and')))
        elif isinstance(n, ast.Constant) and type(n.value) in (int, float) and not isinstance(n.value, bool):
            s, e = pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)
            v = n.value
            res.append((s, e, repr(v + 1) if isinstance(v, int) else repr(v * 1.25 + (0.5 if v == 0 else 0)), n.lineno))
            if isinstance(v, int) and v > 0:
                res.append((s, e, repr(v - 1), n.lineno))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            s, e = pos(n.lineno, n.col_offset), pos(n.operand.lineno, n.operand.col_offset)
            res.append((s, e, '', n.lineno))
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'copy' and not n.args:
            s, e = pos(n.func.value.end_lineno, n.func.value.end_col_offset), pos(n.end_lineno, n.end_col_offset)
            res.append((s, e, '', n.lineno))
    # docstrings and constants in defaults are not touched: strings are never mutated
    visit(tree, '', False)
    return b, res


def main():
    pid = sys.argv[1]
    N = int(sys.argv[2]) if len(sys.argv) > 2 else 12
    seed = sys.argv[3] if len(sys.argv) > 3 else '1'
    ev = json.load(open(os.path.join(ROOT, 'evidence', pid + '.json')))
    fe = ev['coverage']['functions_encoded']
    work = '/tmp/mut.%s' % pid
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    subprocess.run(['cp', '-a', BASE, work + '/repo'], check=True)
    subprocess.run(['cp', '-a', ROOT, work + '/verif'], check=True)
    pool = []
    for f in P[pid]['files']:
        if not f.endswith('.py'):
            continue
        short = f[len('src/'):]
        names = {x.split(':')[1].replace('.<locals>', '') for x in fe if x.split(':')[0] == short}
        b, ms = mutants(BASE + '/' + f, names)
        pool += [(f, b) + m for m in ms]
    random.Random(pid + seed).shuffle(pool)
    env = dict(os.environ, VERIF_REPO=work + '/repo', PYTHONPATH=work + '/repo/src')
    live = []
    n = killed = und = 0
    for f, b, s, e, new, line in pool:
        if n >= N:
            break
        nb = b[:s] + new.encode() + b[e:]
        try:
            ast.parse(nb)
        except SyntaxError:
            continue
        n += 1
        dst = work + '/repo/' + f
        open(dst, 'wb').write(nb)
        try:
            r = subprocess.run(['/opt/venv/bin/python', 'check.py', pid, '--jobs', os.environ.get('JOBS', '4')], cwd=work + '/verif', env=env, capture_output=True, text=True, timeout=700)
            rc, o = r.returncode, r.stdout
        except subprocess.TimeoutExpired:
            rc, o = 'timeout', ''
        open(dst, 'wb').write(b)
        if rc == 1:
            killed += 1
        else:
            ol = b[:s].count(b'\n') + 1
            old = b.decode().split('\n')[ol - 1].strip()
            nw = nb.decode().split('\n')[ol - 1].strip()
            print('%s SURVIVES rc=%s und=%d %s:%d\n    - %s\n    + %s' % (pid, rc, o.count('UNDECIDED'), f, ol, old, nw), flush=True)
    print('%s: %d of %d mutants killed (pool %d)' % (pid, killed, n, len(pool)), flush=True)
    shutil.rmtree(work, ignore_errors=True)


main()
