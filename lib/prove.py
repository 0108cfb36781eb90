"""Runs the contracts of a property:  python3-vt lib/prove.py C11 [--json out] [--tier quick]"""
import argparse
import importlib.util
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.append('/opt/venv/lib/python3.12/site-packages')
CONTRACTS = os.path.join(os.path.dirname(HERE), 'contracts')
sys.path.insert(0, CONTRACTS)

def load(prop=None):
    from pyvc import engine
    for f in sorted(os.listdir(CONTRACTS)):
        if f.endswith('.py') and not f.startswith('_'):
            importlib.import_module(f[:-3])
    return [c for c in engine.REGISTRY if prop is None or prop in c.props]

def empty(c, why):
    return dict(name=c.name, obligations=[], covers={}, paths=0, ended=0, assumed=[], stubs=[], functions=[],
        unsupported=[why], solver_s=0, queries=0, wall=0, funcs=c.funcs, pending=[])

def one(args):
    name, opts, stack, expand = args
    from pyvc import engine
    c = [c for c in engine.REGISTRY if c.name == name][0]
    try:
        r = engine.verify(c, opts, stack, expand)
        return dict(name=name, obligations=r.obligations, covers=r.covers, paths=r.paths, ended=r.ended,
            unsupported=r.unsupported, assumed=sorted(r.assumed), stubs=sorted(r.stubs), pending=r.pending,
            functions=sorted(r.functions), solver_s=r.solver_s, queries=r.queries, wall=r.wall, funcs=c.funcs)
    except BaseException as e:
        return empty(c, 'verifier error: ' + traceback.format_exc()[-800:])

def merge(a, b):
    for k in ('obligations', 'unsupported'): a[k] = a[k] + b[k]
    for k in ('assumed', 'stubs', 'functions'): a[k] = sorted(set(a[k]) | set(b[k]))
    for k in ('paths', 'ended', 'solver_s', 'queries', 'wall'): a[k] = a[k] + b[k]
    for k, v in b['covers'].items(): a['covers'][k] = a['covers'].get(k) or v
    return a

def run_all(cs, opts, j):
    if j == 1:
        return [one((c.name, opts, None, None)) for c in cs]
    with mp.get_context('fork').Pool(j, maxtasksperchild=4) as pool:
        out = {d['name']: d for d in pool.imap_unordered(one, [(c.name, opts, None, 24) for c in cs])}
        jobs = [(n, opts, [p], None) for n, d in out.items() for p in d['pending']]
        for d in pool.imap_unordered(one, jobs, chunksize=1):
            merge(out[d['name']], d)
    return [out[c.name] for c in cs]

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--json')
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--only')
    ap.add_argument('--names', help='exact names of contracts, separated by |')
    ap.add_argument('--debug', action='store_true')
    ap.add_argument('-j', type=int, default=8)
    a = ap.parse_args()
    if os.environ.get('PYTHONHASHSEED') != '0':
        os.environ['PYTHONHASHSEED'] = '0'
        os.execv(sys.executable, [sys.executable] + sys.argv)
    from pyvc import instr
    err = None
    out = []
    try:
        instr.install()
        cs = load(None if a.prop == 'all' else a.prop)
    except BaseException:
        err = traceback.format_exc()
        cs = []
    if a.names: cs = [c for c in cs if c.name in a.names.split('|')]
    if a.only: cs = [c for c in cs if a.only in c.name]
    opts = {'debug': a.debug}
    if a.tier == 'thorough': opts['cross'] = True
    out = run_all(cs, opts, 1 if a.debug else a.j) if cs else []
    if a.json:
        with open(a.json, 'w') as f: json.dump({'contracts': out, 'error': err}, f)
    if err: print(err)
    for d in out:
        st = {}
        for o in d['obligations']: st[o['status']] = st.get(o['status'], 0) + 1
        print('%-40s paths=%d ended=%d wall=%.1fs %s' % (d['name'], d['paths'], d['ended'], d['wall'], st))
        for u in sorted(set(d['unsupported'])): print('    UNSUPPORTED', u)
        for c, v in d['covers'].items():
            if not v: print('    UNREACHABLE', c)
        seen = set()
        for o in d['obligations']:
            if o['status'] != 'discharged' and (o['name'], o['status']) not in seen:
                seen.add((o['name'], o['status']))
                print('    %s %s %s %s model=%s' % (o['status'].upper(), o['name'], o['path'], o['detail'][:200], o['model']))

if __name__ == '__main__':
    main()
