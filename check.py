#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--replay FILE]

Decides one property on /repo's current tree:
1. the deductive verifier (lib/prove.py) has to discharge every obligation of
   the contracts of the property, generated from the current source;
2. bounded stand-ins (lib/bounded.py) run the same property on the real code
   with an independent oracle: what no contract covers, and the search for a
   failing input behind a refuted obligation.
"""
import argparse
import json
import os
import subprocess
import sys
import time

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
VT = 'python3-vt'
PY = '/opt/venv/bin/python'
LIMITS = {'quick': dict(prove=420, bounded=25, hunt=90), 'thorough': dict(prove=1500, bounded=600, hunt=600)}

def run(cmd, timeout):
    env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', VERIF_REPO=REPO)
    p = subprocess.Popen(cmd, cwd=HERE, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
        start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        import signal
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        return None, out

def load(path):
    try:
        with open(path) as f: return json.load(f)
    except Exception:
        return None

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--no-prove', action='store_true')
    ap.add_argument('--bounded-s', type=float)
    a = ap.parse_args()
    tier = a.tier if a.tier in LIMITS else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    prop = a.prop
    if a.replay:
        r = load(a.replay)
        if r and r.get('case') is not None:
            rc, out = run([PY, 'lib/bounded.py', prop, '--replay', os.path.abspath(a.replay)], 600)
        else:
            print(json.dumps(r, indent=1))
            rc, out = run([VT, 'lib/prove.py', prop], 900)
        print(out)
        return 1 if rc else 0
    t0 = time.time()
    lim = LIMITS[tier]
    ev = os.path.join(HERE, 'evidence')
    os.makedirs(ev, exist_ok=True)
    tag = '%s-%d' % (prop, os.getpid())
    pj, bj = os.path.join(ev, '.prove-%s.json' % tag), os.path.join(ev, '.bounded-%s.json' % tag)

    prove = {'contracts': [], 'error': None}
    prove_out = ''
    if not a.no_prove:
        rc, prove_out = run([VT, 'lib/prove.py', prop, '--json', pj, '--tier', tier], lim['prove'])
        prove = load(pj) or {'contracts': [], 'error': 'the verifier gave no result (%s): %s' % (rc, prove_out[-600:])}
    obligations = discharged = 0
    refuted, undecided, names = [], [], {}
    backends = {}
    trusted, assumed, functions, stubs = [], set(), set(), set()
    solver_s = 0.0
    for c in prove['contracts']:
        solver_s += c['solver_s']
        assumed |= set(c['assumed']); functions |= set(c['functions']); stubs |= set(c['stubs'])
        for o in c['obligations']:
            obligations += 1
            key = c['name'] + '.' + o['name']
            n = names.setdefault(key, [0, 0])
            n[0] += 1
            if o['status'] == 'discharged':
                discharged += 1; n[1] += 1
                backends[o['backend']] = backends.get(o['backend'], 0) + 1
            elif o['status'] == 'refuted':
                refuted.append(dict(o, contract=c['name']))
            else:
                undecided.append('%s: solver gave no answer' % key)
        for u in sorted(set(c['unsupported'])): undecided.append('%s: %s' % (c['name'], u))
        for cv, ok in c['covers'].items():
            if not ok: undecided.append('%s: cover point not reachable: %s' % (c['name'], cv))
        if not c['obligations']: undecided.append('%s: no obligations generated' % c['name'])
    if prove['error']: undecided.append('verifier: ' + prove['error'].strip().split('\n')[-1])

    hints = [{'contract': r['contract'], 'obligation': r['name'], 'model': r['model']} for r in refuted[:40]]
    hj = os.path.join(ev, '.hints-%s.json' % tag)
    with open(hj, 'w') as f: json.dump(hints, f, default=str)
    secs = a.bounded_s if a.bounded_s is not None else (lim['hunt'] if refuted else lim['bounded'])
    rc, bout = run([PY, 'lib/bounded.py', prop, '--seconds', str(secs), '--seed', str(seed), '--tier', tier,
        '--json', bj, '--hints', hj], secs + 120)
    b = load(bj)
    for p in (pj, bj, hj):
        if os.path.exists(p): os.remove(p)
    if b is None:
        print('ERROR: the bounded stand-in gave no result (%s)\n%s' % (rc, bout[-2000:]))
        return 3

    known = [k for k in (load(os.path.join(HERE, 'known_findings.json')) or []) if k.get('property') == prop
        and k.get('status') == 'open']
    violations, known_hit = [], set()
    for f in b['failures']:
        ks = [k for k in known if k['signature'] in f['error']]
        if ks:
            known_hit.add(ks[0]['signature']); continue
        violations.append(f)
    for k in known:
        if k['signature'] in known_hit or k.get('always'):
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))

    code = 0
    nviol = 0
    replay = os.path.join('evidence', 'replay-%s.json' % prop)
    rp = os.path.join(HERE, replay)
    if os.path.exists(rp): os.remove(rp)
    if violations:
        f = violations[0]
        nviol = len(violations)
        ob = sorted({r['contract'] + '.' + r['name'] for r in refuted})
        with open(rp, 'w') as fh:
            json.dump({'property': prop, 'case': f['case'], 'error': f['error'], 'failed_obligations': ob[:20]}, fh, indent=1)
        print('failing input: %s' % f['error'][:1500])
        if ob: print('failed obligations: ' + ', '.join(ob[:10]))
        print('VIOLATION property=%s replay=%s' % (prop, replay))
        code = 1
    elif refuted:
        nviol = len({(r['contract'], r['name']) for r in refuted})
        with open(rp, 'w') as fh:
            json.dump({'property': prop, 'case': None, 'failed_obligations': refuted[:20], 'verifier_output': prove_out[-6000:]}, fh, indent=1, default=str)
        for r in refuted[:3]: print('failed obligation: %s.%s (%s) %s' % (r['contract'], r['name'], r['kind'], r['detail'][:300]))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, replay))
        code = 1
    elif obligations == 0 and b['evaluations'] == 0:
        print('ERROR: nothing was checked'); code = 3
    for u in undecided[:10]: print('UNDECIDED (left to the bounded stand-in): ' + u)

    meta = load(os.path.join(HERE, 'levels.json')) or {}
    m = meta.get(prop, {})
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': m.get('level', 'other'),
        'coverage': {
            'obligations': obligations, 'discharged': discharged,
            'checker_cmd': 'python3-vt lib/prove.py %s' % prop,
            'trusted_base': m.get('trusted', []) + ['pyvc (lib/pyvc): path exploration and models of builtins',
                'z3', 'cvc5 (queries z3 does not answer)', 'CPython'],
            'contracts': {c['name']: {'functions': c['funcs'], 'paths': c['paths'], 'obligations': len(c['obligations']),
                'discharged': sum(o['status'] == 'discharged' for o in c['obligations']),
                'undecided': sorted(set(c['unsupported']))[:5], 'cover_points': c['covers']} for c in prove['contracts']},
            'named_obligations': {k: '%d/%d' % (v[1], v[0]) for k, v in sorted(names.items())},
            'functions_executed_symbolically': sorted(functions),
            'functions_replaced_by_their_contracts': sorted(stubs),
            'backends': backends, 'solver_s': round(solver_s, 2),
            'undecided': undecided[:20],
            'bounded_note': 'bounded stand-in on the real code, never counted as proved',
            'evaluations': b['evaluations'], 'distinct_nontrivial': b['distinct'],
            'rule': b['rule'], 'samples': b['samples'],
            'explanation': m.get('explanation', ''),
        },
        'assumptions': m.get('assumptions', []) + sorted(assumed),
        'wall_s': round(time.time() - t0, 2), 'violations': nviol,
    }
    with open(os.path.join(ev, prop + '.json'), 'w') as f: json.dump(evidence, f, indent=1, default=str)
    print('%s: obligations %d/%d discharged, bounded evaluations %d (%d distinct), %.1fs' % (
        prop, discharged, obligations, b['evaluations'], b['distinct'], time.time() - t0))
    return code

if __name__ == '__main__':
    sys.exit(main())
