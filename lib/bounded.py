"""Bounded stand-ins: runs the cases of bounded/<prop>.py on the real code.

A module bounded/cNN.py has
  RULE            how cases are made
  fixed()         iterable of cases that are always run (exhaustive domains, regressions)
  gen(rng, size)  a random case (JSON serializable)
  run(case)       raises Bad (or any exception of the code) when the property fails;
                  returns a hashable summary of the case (None: trivial)
  from_hint(h)    optional: cases for a refuted obligation
"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import random
import shutil
import sys
import tempfile
import time
import traceback
import warnings

sys.dont_write_bytecode = True
warnings.simplefilter('ignore')
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(os.path.dirname(HERE), 'bounded'))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, REPO)

class CaseTimeout(BaseException): pass

def attempt(mod, case, limit=20):
    """error text or None, and the summary"""
    import signal
    def onalarm(*a): raise CaseTimeout()
    signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(limit)
    try:
        s = mod.run(json.loads(json.dumps(case)))
        return None, s
    except CaseTimeout:
        return None, None
    except mod_skip():
        return None, None
    except Exception as e:
        tb = traceback.extract_tb(sys.exc_info()[2])
        where = ''
        for f in tb:
            if '/pdfme/' in f.filename: where = ' at %s:%s' % (os.path.basename(f.filename), f.name)
        return '%s: %s%s' % (type(e).__name__, e, where), None
    finally:
        signal.alarm(0)

def mod_skip():
    import common
    return common.Skip

def worker(args):
    prop, seed, wid, nw, end, tier, hints = args
    mod = importlib.import_module(prop.lower())
    out = {'n': 0, 'seen': set(), 'failures': [], 'samples': [], 'fixed': 0}
    def do(case):
        err, s = attempt(mod, case)
        out['n'] += 1
        if err:
            out['failures'].append({'case': case, 'error': err})
        elif s is not None:
            out['seen'].add(hash(repr(s)) if not isinstance(s, int) else s)
            if len(out['samples']) < 2 and out['n'] % 7 == 1: out['samples'].append(repr(case)[:600])
        return err
    if wid == 0 and hints and hasattr(mod, 'from_hint'):
        for h in hints:
            try: cs = list(mod.from_hint(h))
            except Exception: cs = []
            for c in cs[:20]:
                do(c)
    for i, case in enumerate(mod.fixed()):
        if i % nw == wid:
            do(case); out['fixed'] += 1
        if len(out['failures']) >= 5: break
    i = wid
    while time.time() < end and len(out['failures']) < 3 and hasattr(mod, 'gen'):
        rng = random.Random(seed * 1000003 + i)
        size = 1 + min(11, i // 60) if tier == 'quick' else 1 + min(16, i // 80)
        size = rng.randint(1, size)
        do(mod.gen(rng, size))
        i += nw
    return out

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--seconds', type=float, default=20)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--json')
    ap.add_argument('--hints')
    ap.add_argument('--replay')
    ap.add_argument('-j', type=int, default=8)
    a = ap.parse_args()
    if a.replay:
        mod = importlib.import_module(a.prop.lower())
        case = json.load(open(a.replay))['case']
        print(json.dumps(case)[:3000])
        os.environ['PDFME_SCRATCH'] = tempfile.mkdtemp(prefix='pdfme-check-')
        try:
            mod.run(case); print('the property holds on this input')
        except Exception as e:
            traceback.print_exc()
            sys.exit(1)
        finally:
            shutil.rmtree(os.environ['PDFME_SCRATCH'], ignore_errors=True)
        return
    hints = json.load(open(a.hints)) if a.hints and os.path.exists(a.hints) else []
    mod = importlib.import_module(a.prop.lower())
    os.environ['PDFME_SCRATCH'] = tempfile.mkdtemp(prefix='pdfme-check-')
    end = time.time() + a.seconds
    jobs = [(a.prop, a.seed, w, a.j, end, a.tier, hints) for w in range(a.j)]
    if a.j == 1: res = [worker(jobs[0])]
    else:
        with mp.get_context('fork').Pool(a.j) as pool:
            res = pool.map(worker, jobs, chunksize=1)
    shutil.rmtree(os.environ['PDFME_SCRATCH'], ignore_errors=True)
    seen = set()
    fails = []
    for r in res:
        seen |= r['seen']; fails += r['failures']
    fails.sort(key=lambda f: len(json.dumps(f['case'])))
    out = {'evaluations': sum(r['n'] for r in res), 'distinct': len(seen), 'rule': mod.RULE,
        'samples': [s for r in res for s in r['samples']][:4], 'failures': fails[:10]}
    if a.json: json.dump(out, open(a.json, 'w'))
    print('%s: %d evaluations, %d distinct, %d failures' % (a.prop, out['evaluations'], out['distinct'], len(fails)))
    for f in fails[:3]: print('  ', f['error'][:700]); print('     ', json.dumps(f['case'])[:1200])

if __name__ == '__main__':
    main()
