"""python3 tools/mkseed.py SPEC.py [ID...]: build the planted bugs of SPEC.py (list SEEDS) in scratch copies, confirm them
(demo passes clean, fails patched, stable tests pass) and store them under seeded/."""
import json, os, re, shutil, subprocess, sys, glob, tempfile
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
want = sys.argv[2:]
BASE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONNOUSERSITE='1', MPLBACKEND='Agg', OMP_NUM_THREADS='1',
           OPENBLAS_NUM_THREADS='1', NUMBA_NUM_THREADS='1', PATH='/opt/venv/bin:' + os.environ['PATH'], MPLCONFIGDIR='/tmp/mplc')
ENV.pop('PYTHONPATH', None)


def sh(cmd, cwd, env=ENV, timeout=1500):
    return subprocess.run(['bash', '-c', cmd], cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout)


def one(s):
    sid = s['id']
    d = '/tmp/scr/' + sid
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs('/tmp/scr', exist_ok=True)
    subprocess.run(['cp', '-a', '/repo', d], check=True)
    try:
        sh('git checkout -q -- .', d)
        for f, old, new in s['edits']:
            p = os.path.join(d, f)
            t = open(p, encoding='utf-8', errors='surrogateescape', newline='').read()
            if '\r\n' in t:
                old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
            if t.count(old) != 1:
                return sid, 'edit matches %d times in %s' % (t.count(old), f)
            open(p, 'w', encoding='utf-8', errors='surrogateescape', newline='').write(t.replace(old, new))
        out = os.path.join('/tmp/scr', sid + '.out')
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        diff = subprocess.run(['git', 'diff'], cwd=d, capture_output=True).stdout
        open(out + '/patch.diff', 'wb').write(diff)
        open(out + '/demo.py', 'w').write(s['demo'])
        open(out + '/demo.sh', 'w').write('#!/bin/bash\nd=$(cd "$(dirname "$0")" && pwd)\nexport MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src"\nexec timeout 280 /opt/venv/bin/python -W ignore "$d/demo.py"\n')
        json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(out + '/meta.json', 'w'), indent=1)
        if any(f.endswith('.c') for f, _, _ in s['edits']):
            pass
        r0 = sh('bash %s/demo.sh' % out, '/repo')
        r1 = sh('bash %s/demo.sh' % out, d)
        if r0.returncode != 0:
            return sid, 'demo fails on the clean tree: ' + (r0.stdout + r0.stderr)[-600:]
        if r1.returncode == 0:
            return sid, 'demo passes with the patch'
        if 'NameError' in r1.stderr or 'SyntaxError' in r1.stderr or 'ImportError' in r1.stderr:
            return sid, 'demo: ' + r1.stderr[-500:]
        R = out + '/rep'
        os.makedirs(R)
        env = dict(ENV, PYTHONPATH=d + '/src')
        pt = ('python -m pytest -q -p no:cacheprovider -n 2 -p randomly --randomly-seed=1 --randomly-dont-reorganize --continue-on-collection-errors '
              '--disable-warnings -W ignore::DeprecationWarning -W ignore::SyntaxWarning -o junit_family=xunit2 ')
        sh(pt + '--timeout=300 --doctest-modules --junitxml=%s/main.xml --ignore=src/wafo/doc --ignore=src/wafo/wavemodels.py src' % R, d, env)
        T = 'src/wafo/stats/tests'
        if any(k in f for f, _, _ in s['edits'] for k in ('stats/', 'misc', 'kde')):
            sh(pt + '--timeout=60 --dist worksteal --doctest-modules --junitxml=%s/stats.xml --ignore=%s/test_continuous_basic.py '
               '--ignore=%s/test_discrete_basic.py --ignore=%s/test_distributions.py src/wafo/stats' % (R, T, T, T), d, env)
        sh('python /opt/vp/results.py %s/t.json "junit:%s/*.xml"' % (R, R), d)
        passed = set(json.load(open(R + '/t.json'))['passed'])
        base = {b for b in BASE if os.path.exists(R + '/stats.xml') or not b.startswith('src.wafo.stats')}
        shutil.rmtree(R)
        miss = sorted(base - passed)
        if miss:
            return sid, 'tests broken: %s' % miss[:6]
        dst = os.path.join(ROOT, 'seeded', sid)
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(out, dst)
        return sid, 'ok: ' + ((r1.stdout + r1.stderr).strip().splitlines() or ['?'])[-1][:150]
    finally:
        shutil.rmtree(d, ignore_errors=True)


with ThreadPoolExecutor(4) as ex:
    for sid, msg in ex.map(one, [s for s in ns['SEEDS'] if not want or s['id'] in want]):
        print(sid, msg, flush=True)
