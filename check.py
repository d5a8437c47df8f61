#!/opt/venv/bin/python
"""check.py PXX [--tier quick|thorough] [--case NAME]... [--replay FILE]"""
import argparse
import json
import os
import sys

os.environ.setdefault('MPLBACKEND', 'Agg')
os.environ['NUMBA_DISABLE_JIT'] = '1'
for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ[v] = '1'
sys.dont_write_bytecode = True
PY = '/opt/venv/bin/python'
if os.path.realpath(sys.prefix) != '/opt/venv' and os.environ.get('VSYM_REEXEC') != '1':
    os.environ['VSYM_REEXEC'] = '1'
    os.execv(PY, [PY] + [os.path.abspath(sys.argv[0])] + sys.argv[1:])
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

ap = argparse.ArgumentParser()
ap.add_argument('property')
ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
ap.add_argument('--case', action='append')
ap.add_argument('--jobs', type=int)
ap.add_argument('--replay')
ap.add_argument('--json', action='store_true')
ap.add_argument('-v', action='store_true')
a = ap.parse_args()
from vsym import runner  # noqa: E402
if a.replay:
    res = runner.replay_file(a.replay)
    if a.json:
        print('REPLAY-RESULTS ' + json.dumps(res))
    else:
        for r in res:
            print(*r)
    sys.exit(1 if any(r[0] == 'violation' for r in res) else 0)
sys.exit(runner.main(a.property, a.tier, a.case, a.jobs, a.v))
