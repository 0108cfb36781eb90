"""Writes known_findings.json from the fix commits of /repo and the properties each one repairs."""
import json, os, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = json.load(open(H + '/tools/fixprops.json'))
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], text=True)
out = []
for l in log.splitlines():
    h, s = l.split(' ', 1)
    if not s.startswith('fix: '): continue
    for p in PROPS.get(s[5:], []) or sys.exit('no property for: ' + s):
        out.append({'property': p, 'status': 'fixed', 'commit': h, 'what': s[5:],
            'entry': 'fixed: property=%s %s %s' % (p, h, s[5:])})
json.dump(out, open(H + '/known_findings.json', 'w'), indent=1, ensure_ascii=False)
