"""mutate.py [--func SUBSTR] [--ops del,loop,cond,num,cmp] [--out FILE]: changes every statement, condition, loop and constant
of the functions under contract, one at a time, and runs the contracts that execute the function; prints the changes that
no contract refutes or leaves undecided (a guide for stronger contracts: some of them change no behaviour)."""
import argparse, ast, copy, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')

def funcs(tree, mod):
    out = []
    def go(node, path):
        for n in ast.iter_child_nodes(node):
            if isinstance(n, ast.ClassDef): go(n, path + [n.name])
            elif isinstance(n, ast.FunctionDef): out.append(('pdfme.%s.%s' % (mod, '.'.join(path + [n.name])), n)); go(n, path + [n.name])
    go(tree, [])
    return out

def mutants(tree, fn, ops):
    """(description, apply) for the sites of fn; apply works on the nodes in place and gives an undo"""
    for parent in ast.walk(fn):
        for field in ('body', 'orelse', 'finalbody'):
            l = getattr(parent, field, None)
            if not isinstance(l, list): continue
            for i, s in enumerate(l):
                if not isinstance(s, ast.stmt): continue
                if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant): continue
                def rep(new, l=l, i=i, s=s):
                    def ap(): l[i] = new
                    def un(): l[i] = s
                    return ap, un
                if 'del' in ops and isinstance(s, (ast.Assign, ast.AugAssign, ast.Expr, ast.Delete, ast.Continue, ast.Break)):
                    yield ('del', s.lineno, ast.unparse(s)[:70]), rep(ast.Pass())
                if 'loop' in ops and isinstance(s, ast.For):
                    n = copy.copy(s); n.iter = ast.List([], ast.Load())
                    yield ('no loop', s.lineno, ast.unparse(s.iter)[:60]), rep(n)
                    n = copy.copy(s); n.body = s.body + [ast.Break()]
                    yield ('break', s.lineno, ast.unparse(s.iter)[:60]), rep(n)
                if 'loop' in ops and isinstance(s, ast.While):
                    yield ('if', s.lineno, ast.unparse(s.test)[:60]), rep(ast.If(s.test, [x for x in s.body], []))
                if 'cond' in ops and isinstance(s, (ast.If,)):
                    for v in (True, False):
                        n = copy.copy(s); n.test = ast.Constant(v)
                        yield ('if %s' % v, s.lineno, ast.unparse(s.test)[:60]), rep(n)
    for n in ast.walk(fn):
        if 'cond' in ops and isinstance(n, ast.IfExp):
            for v in (True, False):
                def ap(n=n, v=v): n.VC = n.test; n.test = ast.Constant(v)
                def un(n=n): n.test = n.VC
                yield ('ifexp %s' % v, n.lineno, ast.unparse(n)[:60]), (ap, un)
        if 'cond' in ops and isinstance(n, ast.BoolOp):
            for j in range(len(n.values)):
                def ap(n=n, j=j): n.VC = n.values; n.values = n.values[:j] + [ast.Constant(isinstance(n.op, ast.And))] + n.values[j+1:]
                def un(n=n): n.values = n.VC
                yield ('drop %s' % ast.unparse(n.values[j])[:30], n.lineno, ast.unparse(n)[:60]), (ap, un)
        if 'cmp' in ops and isinstance(n, ast.Compare) and len(n.ops) == 1:
            m = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq}.get(type(n.ops[0]))
            if m:
                def ap(n=n, m=m): n.VC = n.ops; n.ops = [m()]
                def un(n=n): n.ops = n.VC
                yield ('cmp', n.lineno, ast.unparse(n)[:60]), (ap, un)
        if 'num' in ops and isinstance(n, ast.Constant) and type(n.value) in (int, float):
            def ap(n=n): n.VC = n.value; n.value = n.value + 1
            def un(n=n): n.value = n.VC
            yield ('num', n.lineno, repr(n.value)), (ap, un)
        if 'num' in ops and isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub, ast.Mult, ast.Div)):
            def ap(n=n): n.VC = n.op; n.op = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult}[type(n.op)]()
            def un(n=n): n.op = n.VC
            yield ('op', n.lineno, ast.unparse(n)[:60]), (ap, un)

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--func', default='')
    ap.add_argument('--ops', default='del,loop,cond,num,cmp')
    ap.add_argument('--out')
    ap.add_argument('-j', type=int, default=7)
    a = ap.parse_args()
    ops = a.ops.split(',')
    base = tempfile.mkdtemp()
    env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
    prove = [os.environ.get('PYVT', 'python3-vt'), HERE + '/lib/prove.py', 'all']
    subprocess.run(prove + ['--json', base + '/base.json', '-j', str(a.j)], env=env, capture_output=True)
    r = json.load(open(base + '/base.json'))
    uses = {}
    for c in r['contracts']:
        for f in set(c['functions']) & (set(c['funcs']) | set(c['functions'])):
            if f not in c['stubs']: uses.setdefault(f, []).append((c['wall'], c['name'], f in c['funcs']))
    jobs = []
    for m in sorted(os.listdir(REPO + '/pdfme')):
        if not m.endswith('.py'): continue
        tree = ast.parse(open(REPO + '/pdfme/' + m).read())
        for q, fn in funcs(tree, m[:-3]):
            if a.func not in q or q not in uses: continue
            if not any(own for _, _, own in uses[q]): continue
            for d, (do, undo) in mutants(tree, fn, ops):
                do()
                ast.fix_missing_locations(tree)
                try: src = ast.unparse(tree)
                finally: undo()
                jobs.append((m, q, d, src))
    print(len(jobs), 'mutants', flush=True)
    def run(j):
        m, q, d, src = j
        t = tempfile.mkdtemp(dir=base)
        shutil.copytree(REPO + '/pdfme', t + '/pdfme', ignore=shutil.ignore_patterns('__pycache__'))
        open(t + '/pdfme/' + m, 'w').write(src)
        names = '|'.join(n for _, n, _ in sorted(uses[q]))
        try:
            subprocess.run(prove + ['--names', names, '-j', '1', '--json', t + '/o.json'], env=dict(env, VERIF_REPO=t), capture_output=True, timeout=400)
            r = json.load(open(t + '/o.json'))
            ref = [o['name'] for c in r['contracts'] for o in c['obligations'] if o['status'] == 'refuted']
            uns = [u for c in r['contracts'] for u in c['unsupported']] + ([r['error']] if r['error'] else [])
        except Exception as e: ref, uns = [], [str(e)[:80]]
        shutil.rmtree(t)
        return j, ref, uns
    n = {}
    f = open(a.out, 'w') if a.out else sys.stdout
    with ThreadPoolExecutor(a.j) as ex:
        for (m, q, d, _), ref, uns in ex.map(run, jobs):
            st = 'refuted' if ref else 'undecided' if uns else 'SURVIVED'
            n[st] = n.get(st, 0) + 1
            if not ref: print(st, q, d, sorted(set(uns))[:1] if not ref else '', file=f, flush=True)
    print(n)
    shutil.rmtree(base)
main()
