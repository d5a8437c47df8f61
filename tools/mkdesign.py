"""writes DESIGN.md: tools/design_head.md, then per property what is decided (from tools/props.py and the harness), findings, planted bugs"""
import importlib
import json
import os
import re
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path[:0] = [HERE, ROOT]
from props import P  # noqa

out = [open(os.path.join(HERE, 'design_head.md')).read().rstrip(), '', '## Properties', '']
kf = json.load(open(os.path.join(ROOT, 'known_findings.json')))
COST = json.load(open(os.path.join(HERE, 'cost.json'))) if os.path.exists(os.path.join(HERE, 'cost.json')) else {}


def flat(s):
    return re.sub(r'\s+', ' ', s or '').strip()


for k in sorted(P):
    p = P[k]
    out.append('### %s %s' % (k, p['title']))
    out.append('')
    out.append(p['statement'])
    out.append('')
    if 'na' in p:
        out += ['Not applicable: ' + p['na'], '']
        continue
    if not os.path.exists(os.path.join(ROOT, 'harness', k.lower() + '.py')):
        out.pop(); out.pop(); out.pop(); out.pop()
        continue
    h = importlib.import_module('harness.' + k.lower())
    cs = h.cases('quick')
    th = h.cases('thorough')
    fns = []
    for c in cs:
        if c.fn not in fns:
            fns.append(c.fn)
    out.append('*Encoded code:* ' + '; '.join('%s' % b for a, b in p['mech']) + ' (modules loaded: ' + ', '.join(h.MODULES) + ').')
    out.append('')
    out.append('*Decided assertions and oracle:*')
    out.append('')
    for f in fns:
        mine = [c for c in cs if c.fn is f]
        b = []
        for c in mine:
            if c.bounds and c.bounds not in b:
                b.append(c.bounds)
        out.append('- `%s` (%d cases; bounds: %s)%s' % (f.__name__, len(mine), '; '.join(b[:8]) + ('; ...' if len(b) > 8 else ''),
                                                       ': ' + flat(f.__doc__) if f.__doc__ else ''))
    out.append('')
    extra = [c.name for c in th if c.name not in [x.name for x in cs]]
    if extra:
        out.append('*Thorough tier adds:* ' + ', '.join(extra[:25]) + (' ... (%d cases)' % len(extra) if len(extra) > 25 else '') + '.')
        out.append('')
    if getattr(h, 'ASSUMPTIONS', None):
        out.append('*Assumptions:* ' + '; '.join(flat(a) for a in h.ASSUMPTIONS) + '.')
        out.append('')
    if getattr(h, 'OUTSIDE', ''):
        out.append('*Outside:* ' + flat(h.OUTSIDE) + '.')
        out.append('')
    out.append('*Why tests cannot settle it:* ' + p['why'] + (' *Cost (quick):* about %s s.' % COST[k] if k in COST else ''))
    out.append('')

out += ['## Findings', '', 'Listed in known_findings.json; "known" entries are excluded by their specific region, "fixed" ones suppress nothing. Before a known region is left, the value there is required to be the right one or exactly the one the finding describes, so any other deviation in the region is still a violation.', '', 'Seen while working, not repaired and outside what the properties claim: TurningPoints(data) and TimeSeries(data) without args raise TypeError (`any(None)`).', '']
for f in kf:
    out.append('- %s (%s, %s): %s' % (f['id'], f['property'], f['status'], flat(f['what'])))
out += ['', '## Planted bugs', '', '| id | property | needs | caught by |', '|---|---|---|---|']
res = json.load(open(os.path.join(HERE, 'seed_results.json'))) if os.path.exists(os.path.join(HERE, 'seed_results.json')) else {}
sd = os.path.join(ROOT, 'seeded')
for d in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    m = json.load(open(os.path.join(sd, d, 'meta.json')))
    out.append('| %s | %s | %s | %s |' % (d, m['property'], flat(m['needs']), res.get(d, '?')))
out.append('')
tail = os.path.join(HERE, 'design_tail.md')
if os.path.exists(tail):
    out.append(open(tail).read())
open(os.path.join(ROOT, 'DESIGN.md'), 'w').write('\n'.join(out))
