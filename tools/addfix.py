"""append the fix commits of /repo that known_findings.json does not list: addfix.py PROP=commit[,commit] ..."""
import json, subprocess, sys
p = '/verif/known_findings.json'
k = json.load(open(p))
n = max(int(e['id'][1:]) for e in k if e['id'][0] == 'F')
for a in sys.argv[1:]:
    prop, cs = a.split('=')
    for c in cs.split(','):
        msg = subprocess.check_output(['git', '-C', '/repo', 'log', '-1', '--format=%s', c], text=True).strip()
        assert msg.startswith('fix: '), msg
        n += 1
        k.append({'id': 'F%02d' % n, 'property': prop, 'status': 'fixed', 'what': 'fixed: property=%s %s %s' % (prop, c, msg[5:])})
json.dump(k, open(p, 'w'), indent=1)
print(n)
