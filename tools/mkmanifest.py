"""Writes MANIFEST.json from levels.json and properties.jsonl."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
levels = json.load(open(H + '/levels.json'))
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': [], 'not_applicable': [],
    'notes': 'Contract-based deductive verification of the real code with pyvc (lib/pyvc); see DESIGN.md. No hooks in /repo.'}
for p in props:
    i = p['id']
    l = levels.get(i)
    if l is None or not l.get('claimed', True):
        m['not_applicable'].append({'property': i, 'reason': (l or {}).get('reason', 'No check yet.')})
        continue
    m['checks'].append({'property': i, 'quick_cmd': 'python3 check.py %s --tier quick' % i,
        'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
        'technique': l['technique'], 'level': l['level'], 'level_note': l['note']})
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1)
