"""writes properties.jsonl and MANIFEST.json from tools/props.py and the harnesses present"""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import P  # noqa

TECH = 'symbolic execution of the real Python code (numpy on z3 terms), SMT verdict over all values within bounds, counterexample replayed on the unpatched code'
lines, checks, napp = [], [], []
for k in sorted(P):
    p = P[k]
    has = os.path.exists(os.path.join(ROOT, 'harness', k.lower() + '.py'))
    if not has and 'na' not in p:
        print('skip', k)
        continue
    assert len(p['title']) <= 80, (k, len(p['title']))
    lines.append(json.dumps(dict(id=k, title=p['title'], statement=p['statement'],
                                 quantifier=dict(over=['inputs'], text=p['over']), why_tests_cant=p['why'],
                                 anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']]))))
    if 'na' in p:
        napp.append(dict(property=k, reason=p['na']))
        continue
    cmd = '/opt/venv/bin/python check.py %s --tier ' % k
    checks.append(dict(property=k, quick_cmd=cmd + 'quick', thorough_cmd=cmd + 'thorough', technique=p['technique'] or TECH,
                       level='model_checking', level_note=p['note'] or 'bounded: sizes stated per case in the evidence, all real values within them; see DESIGN.md'))
open(os.path.join(ROOT, 'properties.jsonl'), 'w').write('\n'.join(lines) + '\n')
json.dump(dict(version=1, setup_cmd='/opt/venv/bin/python tools/setup_check.py', checks=checks, not_applicable=napp),
          open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(napp), 'not applicable')
