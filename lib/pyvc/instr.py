"""Mechanical instrumentation of the modules of /repo.

The source of every module of the package is parsed on every run, and the
function bodies are rewritten so that the operations that CPython resolves
natively on builtin types (loops, comprehensions, calls of len/isinstance/...,
string methods, ==, in, is, subscripts, truth tests) go through helpers, which
behave natively on concrete values.  Nothing of the code is dropped.
"""
import ast
import builtins
import copy
import importlib.abc
import importlib.machinery
import os
import sys

import z3

from . import engine as E
from .engine import SNum, SBool, SStr, SList, SDict, Unsupported, PathEnd

REPO = os.environ.get('VERIF_REPO', '/repo')
PKG = 'pdfme'

CALLS = {'len', 'isinstance', 'int', 'float', 'str', 'range', 'enumerate', 'zip',
    'sum', 'any', 'all', 'list', 'tuple', 'sorted', 'reversed', 'set', 'max', 'min',
    'ord', 'chr', 'type', 'dict', 'round', 'abs', 'hex'}
METHS = {'format', 'join', 'encode', 'decode', 'zfill', 'replace', 'split', 'strip',
    'startswith', 'endswith', 'isspace', 'rpartition', 'partition', 'rsplit', 'lower', 'upper',
    'find', 'index', 'hex', 'lstrip', 'rstrip', 'splitlines', 'isdigit', 'count',
    'ljust', 'rjust', 'title', 'extend', 'translate', 'get', 'fromkeys'}

class Poison:
    """value of a local that a loop may have changed and that its invariant
    does not describe"""
    def __init__(self, name): object.__setattr__(self, '_n', name)
    def _bad(self, *a, **k):
        E.CTX.abort(Unsupported('local %r changed by a loop and not described by its invariant'
            % object.__getattribute__(self, '_n')))
for _m in ('__getattribute__', '__bool__', '__eq__', '__ne__', '__lt__', '__gt__', '__le__',
        '__ge__', '__add__', '__radd__', '__sub__', '__rsub__', '__mul__', '__rmul__',
        '__truediv__', '__rtruediv__', '__neg__', '__iter__', '__getitem__', '__setitem__',
        '__call__', '__str__', '__format__', '__hash__', '__contains__', '__round__', '__len__',
        '__setattr__', '__index__', '__repr__'):
    setattr(Poison, _m, Poison._bad)
def is_poison(x): return builtins.type(x) is Poison

# ---------------------------------------------------------------------------
# runtime helpers

class Loop:
    def __init__(self, it, names, env, mut=()):
        self.names, self.mut = names, mut
        self.env = env
        self.new = {}
        self.it = it
        self.sym = builtins.isinstance(it, SList)
        self.injecting = False
    def __iter__(self):
        if not self.sym:
            if builtins.isinstance(self.it, (SDict,)):
                self.it = self.it.keys(); self.sym = True
            elif hasattr(builtins.type(self.it), '_vc_iter'):
                self.it = self.it._vc_iter(); self.sym = True
            else:
                yield from self.it
                return
        c = E.CTX
        c.alive()
        sl = self.it
        spec = sl.loop
        if spec is None:
            c.abort(Unsupported('loop over symbolic list %s without invariant' % sl.name))
        if sl.partial and not getattr(spec, 'partial_ok', False):
            c.abort(Unsupported('loop over a part of %s' % sl.name))
        st = LoopState(c, sl, self.env)
        spec.check(st, 0 if not builtins.isinstance(sl.n, SNum) else SNum(z3.IntVal(0)), Env(self.env), 'establish')
        if c.choose(2, 'loop') == 0:
            k = SNum(z3.Int(E.fresh_name('k')))
            c.assume(k >= 0); c.assume(k < sl.n)
            self.new = spec.havoc(st, k) or {}
            self.injecting = True
            elem = sl.at(k)
            frame = sys._getframe(1)
            snap = Snapshot(st, self.roots(), elem)
            c.cover('loop body of ' + sl.name)
            yield elem
            self.injecting = False
            c.alive()
            env2 = dict(sys._getframe(1).f_locals)
            spec.check(st, k + 1, Env(env2), 'preserve')
            snap.compare(c, sl.name)
            c.result.ended += 1
            c.abort(PathEnd('end of iteration'))
        else:
            self.new = spec.havoc(st, sl.n) or {}
            self.injecting = True
            for x in sl.tail:
                yield x
                self.injecting = False
            spec.completed = getattr(spec, 'completed', 0) + 1
    def roots(self):
        return [v for n, v in self.env.items() if n not in self.names and not (n in self.mut and n in self.new)]
    def mutated(self, fl):
        """locals not assigned in the loop but whose object it changes: the invariant may give another object"""
        return tuple(self.new[n] if n in self.new else fl.get(n, Poison(n)) for n in self.mut)
    def inject(self, targets):
        """values of the locals assigned in the loop, at an arbitrary iteration"""
        if not self.injecting:
            fl = sys._getframe(1).f_locals
            return tuple(fl.get(n, Poison(n)) for n in tuple(self.names) + tuple(self.mut))
        self.injecting = False
        fl = sys._getframe(1).f_locals
        out = []
        for n in self.names:
            if n in targets and n in fl and n not in self.new:
                out.append(fl[n])
            elif n in self.new:
                out.append(self.new[n])
            else:
                out.append(Poison(n))
        return tuple(out) + self.mutated(fl)
    def inject_exit(self):
        fl = sys._getframe(1).f_locals
        if not self.injecting:
            return tuple(fl.get(n, Poison(n)) for n in tuple(self.names) + tuple(self.mut))
        self.injecting = False
        return tuple(self.new.get(n, Poison(n)) for n in self.names) + self.mutated(fl)

class While(Loop):
    """a while loop: cut by the invariant a contract gives for it (stubs['while:function']), unrolled otherwise"""
    def __init__(self, where, names, env, mut=(), guard=None):
        spec = E.CTX.stubs.get('while:' + where) if E.CTX is not None else None
        self.guard = guard
        self.mut = mut
        self.names, self.env, self.new, self.injecting = names, env, {}, False
        self.spec, self.sym, self.mode = spec, spec is not None, None
    def __iter__(self):
        if not self.sym:
            while True: yield None
        c = E.CTX
        for i in builtins.range(getattr(self.spec, 'peel', 0)):
            self.peeling = True
            yield None
            self.env = dict(sys._getframe(1).f_locals)
            if self.leaves(c): return
        self.peeling = False
        c.alive()
        st = LoopState(c, None, self.env)
        self.spec.check(st, None, Env(self.env), 'establish')
        self.mode = c.choose(2, 'while')
        self.new = self.spec.havoc(st, None) or {}
        self.injecting = True
        snap = Snapshot(st, self.roots(), None)
        # what gets smaller in every iteration, if the contract says it: the loop ends
        variant = getattr(self.spec, 'variant', None)
        before = variant and variant(Env({**self.env, **self.new}))
        yield None
        c.alive()
        if self.mode == 0:
            env2 = dict(sys._getframe(1).f_locals)
            if self.leaves(c): return
            if variant:
                c.check('variant_not_negative', before >= 0, kind='inv')
                c.check('variant_decreases', variant(Env(env2)) < before, kind='inv')
            self.spec.check(st, None, Env(env2), 'preserve')
            snap.compare(c, 'while')
            c.result.ended += 1
            c.abort(PathEnd('end of iteration'))
        c.abort(Unsupported('while'))
    def leaves(self, c):
        """whether the loop ends after this iteration because its condition does not hold any more, in an iteration that (by the
        invariant) ends the loop: as with a break"""
        return self.guard is not None and hasattr(self.spec, 'ends') and self.spec.ends(c) and not truth(self.guard())
    def stop(self, t):
        t = truth(t)
        if not self.sym: return not t
        c = E.CTX
        if self.peeling:
            if not t: self.spec.completed = getattr(self.spec, 'completed', 0) + 1
            return not t
        if self.mode == 0:
            if not t: c.abort(PathEnd('no iteration'))
            c.cover('body of a while loop')
            return False
        if t: c.abort(PathEnd('not the end'))
        self.spec.completed = getattr(self.spec, 'completed', 0) + 1
        return True

class Env:
    """the locals of the frame at a point, for the invariants"""
    def __init__(self, d): self._d = d
    def __getitem__(self, n):
        if n not in self._d:
            E.CTX.abort(Unsupported('no local named %r for the invariant' % n))
        v = self._d[n]
        if is_poison(v): v._bad()
        return v
    def __contains__(self, n): return n in self._d
    def get(self, n, d=None): return self._d.get(n, d)

class LoopState:
    def __init__(self, ctx, sl, env):
        self.ctx, self.slist, self.pre = ctx, sl, Env(env)
        self.mod = set()
        self.data = {}
    def set(self, obj, attr, value):
        """havoc of obj.attr"""
        self.mod.add((id(obj), attr))
        self.data.setdefault('_keep', []).append(obj)
        setattr(obj, attr, value)
    def setitem(self, obj, key, value):
        self.mod.add((id(obj), ('item', key)))
        self.data.setdefault('_keep', []).append(obj)
        obj[key] = value
    def touch(self, obj):
        """everything of obj (a container or an object) may change"""
        self.mod.add((id(obj), None))
        self.data.setdefault('_keep', []).append(obj)

class Snapshot:
    """mechanical frame condition: what the body changes in objects that exist
    at the start of the iteration has to be havoced by the invariant"""
    def __init__(self, st, roots, elem):
        self.mod = st.mod
        self.seen = {}
        for r in roots: self.visit(r, 0)
        self.visit(elem, 0)
    def visit(self, o, depth):
        if depth > 12 or id(o) in self.seen: return
        t = builtins.type(o)
        if t in (str, bytes, int, float, bool, type(None), Poison) or builtins.isinstance(o, (SNum, SBool, SStr, type)):
            return
        if t is dict:
            self.seen[id(o)] = (o, dict(o))
            for v in list(o.values()): self.visit(v, depth + 1)
        elif t in (list,):
            self.seen[id(o)] = (o, list(o))
            for v in list(o): self.visit(v, depth + 1)
        elif t is tuple:
            for v in o: self.visit(v, depth + 1)
        elif t is set:
            self.seen[id(o)] = (o, set(o))
        elif t is SList:
            self.seen[id(o)] = (o, list(o.tail))
            for v in list(o.tail) + list(o.memo.values()): self.visit(v, depth + 1)
        elif t is SDict:
            self.seen[id(o)] = (o, (dict(o.extra), set(o.deleted)))
        elif t.__module__.startswith(PKG) or getattr(o, '_vc_ghost', False):
            if hasattr(o, '__dict__'):
                self.seen[id(o)] = (o, dict(o.__dict__))
                for v in list(o.__dict__.values()): self.visit(v, depth + 1)
    def compare(self, c, name):
        bad = []
        for i, (o, old) in self.seen.items():
            if (i, None) in self.mod: continue
            if builtins.isinstance(o, dict):
                for k in set(old) | set(o):
                    if (i, ('item', k)) in self.mod: continue
                    if k not in old or k not in o or not same(old[k], o[k]): bad.append('[%r]' % (k,))
            elif builtins.isinstance(o, list):
                if len(o) != len(old) or not all(same(a, b) for a, b in zip(o, old)): bad.append('list')
            elif builtins.isinstance(o, set):
                if o != old: bad.append('set')
            elif builtins.isinstance(o, SList):
                if len(o.tail) != len(old) or not all(same(a, b) for a, b in zip(o.tail, old)): bad.append('slist')
            elif builtins.isinstance(o, SDict):
                if o.extra != old[0] or o.deleted != old[1]: bad.append('sdict')
            else:
                for k in set(old) | set(o.__dict__):
                    if (i, k) in self.mod: continue
                    if k not in old or k not in o.__dict__ or not same(old[k], o.__dict__[k]):
                        bad.append('.%s of %s' % (k, builtins.type(o).__name__))
        if bad:
            c.abort(Unsupported('loop over %s changes what its invariant does not describe: %s' % (name, bad[:4])))

def same(a, b):
    if a is b: return True
    if is_poison(a) or is_poison(b): return False
    if builtins.isinstance(a, SNum) and builtins.isinstance(b, SNum):
        return a.e.eq(b.e)
    if builtins.isinstance(a, (SNum, SBool, SStr, SList)) or builtins.isinstance(b, (SNum, SBool, SStr, SList)):
        return False
    if builtins.type(a) is not builtins.type(b): return False
    if builtins.isinstance(a, (str, bytes, int, float, bool)): return a == b
    if builtins.isinstance(a, tuple): return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return False

def h_loop(it, names, env, mut=()):
    return Loop(it, names, env, mut)

def h_while(where, names, env, mut=(), guard=None):
    return While(where, names, env, mut, guard)

def symb(x):
    return builtins.isinstance(x, (SNum, SBool, SStr, SList, SDict, Poison))

def pytypes(x):
    """python type of a symbolic value"""
    if builtins.isinstance(x, SNum): return int if x.isint else float
    if builtins.isinstance(x, SBool): return bool
    if builtins.isinstance(x, SStr): return bytes if x.is_bytes else str
    if builtins.isinstance(x, SList): return x.kind
    if builtins.isinstance(x, SDict): return dict
    return None

def c_isinstance(x, t):
    if is_poison(x): x._bad()
    v = getattr(builtins.type(x), '_vc_isinstance', None)
    if v: return v(x, t)
    p = pytypes(x)
    if p is None:
        return builtins.isinstance(x, t)
    ts = t if builtins.isinstance(t, tuple) else (t,)
    return any(issubclass(p, y) for y in ts)

def c_type(x, *a):
    if a: return builtins.type(x, *a)
    p = pytypes(x)
    return builtins.type(x) if p is None else p

def c_len(x):
    if hasattr(builtins.type(x), '_vc_len'): return x._vc_len()
    if builtins.isinstance(x, SStr): return x.len
    if builtins.isinstance(x, SList):
        if E.CTX is not None and not builtins.any(l is x for l in E.CTX.measured): E.CTX.measured.append(x)
        return x.length()
    if builtins.isinstance(x, (str, bytes)) and E.has_token(x): return E.text_len(x)
    if hasattr(builtins.type(x), '_vc_len'): return x._vc_len()
    if builtins.isinstance(x, SDict): raise Unsupported('len of symbolic dict')
    return builtins.len(x)

def c_str(*a):
    if len(a) == 1:
        x = a[0]
        if hasattr(builtins.type(x), '_vc_str'): return x._vc_str()
        if builtins.isinstance(x, SStr) and not x.is_bytes: return x
        if builtins.isinstance(x, SBool): return 'True' if x else 'False'
        if symb(x) and not builtins.isinstance(x, SNum): raise Unsupported('str(%s)' % builtins.type(x))
        if hasattr(builtins.type(x), '_vc_str'): return x._vc_str()
    return builtins.str(*a)

def c_int(*a):
    if a and builtins.isinstance(a[0], str) and E.has_token(a[0]): a = (a[0].strip(),) + a[1:]
    if a and builtins.isinstance(a[0], SNum):
        x = a[0]
        if x.isint: return x
        e = E.simp(x.e)
        if z3.is_app_of(e, z3.Z3_OP_TO_REAL): return SNum(e.arg(0))
        r = SNum(z3.Int(E.fresh_name('trunc')))
        E.CTX.assume(SBool(z3.If(x.e >= 0,
            z3.And(z3.ToReal(r.e) <= x.e, x.e < z3.ToReal(r.e) + 1),
            z3.And(z3.ToReal(r.e) >= x.e, x.e > z3.ToReal(r.e) - 1))))
        return r
    if a and builtins.isinstance(a[0], SBool):
        return SNum(z3.If(a[0].e, z3.IntVal(1), z3.IntVal(0)))
    if a and hasattr(builtins.type(a[0]), '_vc_int'): return a[0]._vc_int(*a[1:])
    if a and (symb(a[0]) or E.has_token(a[0])):
        p = E.pieces(a[0]) if not builtins.isinstance(a[0], (SList, SDict)) else []
        if len(p) == 1 and builtins.isinstance(p[0], SNum) and p[0].isint and len(a) == 1: return p[0]
        raise Unsupported('int of a symbolic text')
    return builtins.int(*a)

def c_float(*a):
    if a and builtins.isinstance(a[0], SNum): return SNum(E.to_real(a[0].e))
    if a and hasattr(builtins.type(a[0]), '_vc_float'): return a[0]._vc_float()
    if a and (symb(a[0]) or E.has_token(a[0])):
        p = E.pieces(a[0].strip()) if builtins.isinstance(a[0], str) else []
        if len(p) == 1 and builtins.isinstance(p[0], SNum): return SNum(E.to_real(p[0].e))
        raise Unsupported('float of a symbolic text')
    return builtins.float(*a)

class SRange(SList):
    """range with symbolic limits (and a concrete positive step)"""
    def __init__(self, lo, hi, step=1):
        n = hi - lo
        if not builtins.isinstance(n, SNum): n = SNum(z3.IntVal(n))
        if step != 1: n = SNum((n.e + (step - 1)) / step)
        n = SNum(E.simp(z3.If(n.e >= 0, n.e, z3.IntVal(0))))
        mk = E.CTX.stubs.get('range_loop')
        loop = mk(lo, hi, step) if mk else None
        elem = lambda i: lo + i * step
        if loop is None and E.concrete(lo) == 0 and step == 1:
            # the indexes of a list: its loop specification is the one of the loop
            ls = [l for l in getattr(E.CTX, 'measured', []) if l.loop is not None and not l.tail and not l.partial and E.simp(E.const(l.n)).eq(E.simp(E.const(hi)))]
            if len({builtins.id(l.loop) for l in ls}) == 1:
                loop, of = ls[0].loop, ls[0]
                elem = lambda i: (of.at(i), i)[1]
        SList.__init__(self, 'range', n, elem, loop)
        self.lo, self.hi, self.step = lo, hi, step
        self.kind = builtins.range
    def contains(self, x):
        lo, hi = E.const(self.lo), E.const(self.hi)
        if not builtins.isinstance(x, SNum): x = SNum(E.const(x))
        c = [x.e >= lo, x.e < hi]
        if self.step != 1: c.append((x.e - lo) % self.step == 0)
        return SBool(z3.And(c))

def c_range(*a):
    if E.CTX is not None and 'range' in E.CTX.stubs: return E.CTX.stubs['range'](*a)
    if not any(builtins.isinstance(x, SNum) for x in a): return builtins.range(*a)
    lo, hi = (0, a[0]) if len(a) == 1 else a[:2]
    step = a[2] if len(a) > 2 else 1
    if builtins.isinstance(step, SNum) or step < 1: raise Unsupported('range with a symbolic or negative step')
    if E.concrete(lo) is not None and E.concrete(hi) is not None:
        return builtins.range(E.concrete(lo), E.concrete(hi), step)
    return SRange(lo, hi, step)

def c_enumerate(x, start=0):
    if builtins.isinstance(x, SList):
        r = SList(x.name, x.n, lambda i: (i + start, x.at(i)), x.loop)
        r.partial = x.partial
        r.tail = [(x.n + start + j, t) for j, t in builtins.enumerate(x.tail)]
        return r
    return builtins.enumerate(x, start)

def c_zip(*a, **k):
    if any(builtins.isinstance(x, (SList, SDict)) for x in a): raise Unsupported('zip of symbolic lists')
    return builtins.zip(*a, **k)

def c_sum(x, *a):
    if builtins.isinstance(x, SList): return hook('sum', x, *a)
    return builtins.sum(x, *a)
def c_any(x):
    if builtins.isinstance(x, SList): return hook('any', x)
    return builtins.any(truth(y) for y in x)
def c_all(x):
    if builtins.isinstance(x, SList): return hook('all', x)
    return builtins.all(truth(y) for y in x)
def c_max(*a, **k):
    if len(a) == 1 and builtins.isinstance(a[0], SList): return hook('max', a[0])
    if len(a) == 1: a = (no_tokens(a[0]),)
    else: no_tokens(a)
    return builtins.max(*a, **k)
def c_min(*a, **k):
    if len(a) == 1 and builtins.isinstance(a[0], SList): return hook('min', a[0])
    if len(a) == 1: a = (no_tokens(a[0]),)
    else: no_tokens(a)
    return builtins.min(*a, **k)
def c_list(*a):
    if a and hasattr(builtins.type(a[0]), '_vc_list'): return a[0]._vc_list()
    if a and builtins.isinstance(a[0], SList):
        x = a[0]
        t = SList if builtins.isinstance(x, SRange) else builtins.type(x)
        r = t(x.name, x.n, x.elem, x.loop); r.memo = x.memo; r.tail = list(x.tail)
        if hasattr(x, 'source'): r.source = x.source
        r.partial = x.partial
        return r
    if a and builtins.isinstance(a[0], SDict): return a[0].keys()
    if a and hasattr(builtins.type(a[0]), '_vc_iter'): return c_list(a[0]._vc_iter())
    return builtins.list(*a)
def c_tuple(*a):
    if a and builtins.isinstance(a[0], SList): return a[0]
    return builtins.tuple(*a)
def c_set(*a):
    if a and symb(a[0]): raise Unsupported('set of symbolic')
    return builtins.set(*a)
def c_dict(*a, **k):
    if a and symb(a[0]): raise Unsupported('dict of symbolic')
    return builtins.dict(*a, **k)
def c_sorted(x, **k):
    if builtins.isinstance(x, (SList, SDict)): return hook('sorted', x, **k)
    x = no_tokens(x)
    return builtins.sorted(x, **k)
def no_tokens(x):
    x = builtins.list(x)
    if any(symb(y) and not builtins.isinstance(y, (SNum, SBool)) or E.has_token(y) for y in x): raise Unsupported('order of symbolic texts')
    return x
def c_reversed(x):
    if builtins.isinstance(x, SList): return hook('reversed', x)
    return builtins.reversed(x)
def c_ord(x):
    if hasattr(builtins.type(x), '_vc_ord'): return x._vc_ord()
    return builtins.ord(x)
def c_chr(x):
    if builtins.isinstance(x, SNum): return hook('chr', x)
    if hasattr(builtins.type(x), '_vc_chr'): return x._vc_chr()
    return builtins.chr(x)
def c_hex(x):
    if hasattr(builtins.type(x), '_vc_hex'): return x._vc_hex()
    if builtins.isinstance(x, SNum): raise Unsupported('hex of a symbolic number')
    return builtins.hex(x)
def c_round(*a): return builtins.round(*a)
def c_abs(x): return builtins.abs(x)

def hook(name, *a, **k):
    h = E.CTX.stubs.get(name)
    if h is None: E.CTX.abort(Unsupported('%s over symbolic %s' % (name, getattr(a[0], 'name', '?'))))
    return h(*a, **k)

def truth_of(b):
    return b.e if builtins.isinstance(b, SBool) else z3.BoolVal(bool(b))

def blank_of(s):
    """whether an opaque text has only white space"""
    if 'blank' not in s.data:
        m = s.data.get('meth', {}).get('isspace')
        if m: s.data['blank'] = m(s)
        else:
            s.data['blank'] = b = SBool(z3.Bool(E.fresh_name('blank_' + s.name)))
            E.CTX.assume(SBool(z3.Implies(b.e, s.len.e > 0)))
    return s.data['blank']

def one_text(x):
    p = E.pieces(x) if builtins.isinstance(x, (str, bytes, SStr)) else []
    return p[0] if len(p) == 1 and builtins.isinstance(p[0], SStr) else None

def part_of(how, a, b):
    """whether an opaque text is a prefix, suffix or part of another: any text is of itself"""
    known = b.data.setdefault('parts', {})
    if (how, id(a)) not in known:
        known[how, id(a)] = r = SBool(z3.Bool(E.fresh_name(how)))
        b.data.setdefault('keep', []).append(a)
        e = E.str_eq(a, b)
        if e is True: E.CTX.assume(r)
        elif e is not False:
            E.CTX.assume(SBool(z3.Implies(e.e, r.e)))
            E.CTX.assume(SBool(z3.Implies(z3.And(r.e, a.len.e == b.len.e), e.e)))
    return known[how, id(a)]

def h_meth(obj, name, *args, **kw):
    if is_poison(obj): obj._bad()
    if builtins.isinstance(obj, SStr):
        m = obj.data.get('meth', {}).get(name)
        if m: return m(obj, *args, **kw)
        if name in ('encode', 'decode') and name == ('decode' if obj.is_bytes else 'encode'):
            if args and str(args[0]).lower() not in ('latin', 'latin-1', 'latin1', 'iso-8859-1', 'ascii') or not args and name == 'encode':
                E.CTX.abort(Unsupported('%s%s of opaque %s' % (name, args, obj.name)))
            o = obj.data.get('_conv')
            if o is None:
                o = object.__new__(SStr)
                o.name, o.is_bytes, o.maybe_empty, o.len = obj.name, not obj.is_bytes, obj.maybe_empty, obj.len
                o.data = dict(obj.data); o.tok = obj.tok     # the same text
                obj.data['_conv'] = o; o.data['_conv'] = obj; o.data['_base'] = obj
            return o
        if name == 'isspace' and not args: return blank_of(obj)
        if name in ('startswith', 'endswith') and len(args) == 1 and one_text(args[0]): return part_of(name, one_text(args[0]), obj)
        E.CTX.abort(Unsupported('text.%s of opaque %s' % (name, obj.name)))
    if builtins.isinstance(obj, (str, bytes)):
        if name == 'join':
            it = args[0]
            if builtins.isinstance(it, (SList, SDict)): return hook('join', it, obj)
            if hasattr(builtins.type(it), 'joined'): return it.joined(obj)
            items = [x._t() if builtins.isinstance(x, SStr) else x for x in it]
            return obj.join(items)
        if name == 'format':
            return obj.format(*args, **kw)
        if name in ('encode', 'decode'):
            if E.has_token(obj) and args and str(args[0]).lower() not in ('latin', 'latin-1', 'latin1', 'iso-8859-1'):
                E.CTX.abort(Unsupported('%s(%s)' % (name, args)))
            return getattr(obj, name)(*args, **kw)
        if E.has_token(obj) or any(E.has_token(a) or symb(a) for a in args):
            if name == 'zfill':
                p = E.pieces(obj)
                if len(p) == 1 and builtins.isinstance(p[0], SNum) and p[0].isint:
                    w = args[0]
                    E.CTX.check('zfill_width', (p[0] >= 0).e, kind='pre')
                    E.CTX.assume(p[0] < 10 ** w)
                    E.CTX.result.assumed.add('offsets have at most %d digits (files under 10 GB)' % w)
                    return E.CTX.token('z', E.Padded(p[0], w))
            if name in ('split', 'strip', 'lstrip', 'rstrip') and all(builtins.isinstance(p, (str, SNum)) or builtins.isinstance(p, SStr) and p.data.get('word') for p in E.pieces(obj)) \
                    and (not args or (args[0] and not any(ch in '0123456789.-+e' for ch in args[0]))):
                # the text of a number or of a word has neither blanks nor separators
                return getattr(obj, name)(*args, **kw)
            if name in ('rpartition', 'rsplit') and args and not E.has_token(args[0]) and (name == 'rpartition' or args[1:] == (1,)):
                p = E.pieces(obj)
                if p and builtins.isinstance(p[-1], str) and args[0] in p[-1]: return getattr(obj, name)(*args)
            if name == 'startswith' and builtins.isinstance(args[0], (str, bytes)):
                p = E.pieces(obj)
                a = args[0] if builtins.isinstance(args[0], str) else args[0].decode('latin')
                if p and builtins.isinstance(p[0], str) and (len(p[0]) >= len(a) or not a.startswith(p[0])): return p[0].startswith(a)
            if name == 'isspace' and not args:
                ps = E.pieces(obj)
                if any(builtins.isinstance(p, str) and not p.isspace() or not builtins.isinstance(p, (str, SStr)) for p in ps): return False
                rest = [p for p in ps if not builtins.isinstance(p, str)]
                return SBool(z3.And([z3.Or(truth_of(blank_of(p)), p.len.e == 0) for p in rest] + ([z3.Or([p.len.e > 0 for p in rest])] if len(rest) == len(ps) else [])))
            E.CTX.abort(Unsupported('%s of a symbolic text' % name))
    if name == 'fromkeys' and args and hasattr(builtins.type(args[0]), '_vc_unique'): return args[0]._vc_unique()
    if name == 'get' and builtins.isinstance(obj, dict) and args and symb(args[0]):
        for k in obj:
            if truth(h_eq(k, args[0])): return obj[k]
        return args[1] if len(args) > 1 else None
    if name == 'extend' and args and builtins.isinstance(args[0], SList):
        m = E.CTX.stubs.get('extend')
        if m: return m(obj, args[0])
        E.CTX.abort(Unsupported('extend by a symbolic list'))
    return getattr(obj, name)(*args, **kw)

def h_eq(a, b):
    if is_poison(a): a._bad()
    if is_poison(b): b._bad()
    if hasattr(builtins.type(a), '_vc_chr'): return a == b
    if hasattr(builtins.type(b), '_vc_chr'): return b == a
    if builtins.isinstance(a, SStr) or builtins.isinstance(b, SStr) or \
            (E.has_token(a) or E.has_token(b)):
        if not builtins.isinstance(a, (str, bytes, SStr)) or not builtins.isinstance(b, (str, bytes, SStr)):
            if hasattr(builtins.type(a), '_vc_eq') or hasattr(builtins.type(b), '_vc_eq'): return a == b
            return False
        return E.str_eq(a, b)
    return a == b
def h_ne(a, b):
    if hasattr(builtins.type(a), '_vc_chr') or hasattr(builtins.type(b), '_vc_chr'): return E.neg(h_eq(a, b))
    if builtins.isinstance(a, SStr) or builtins.isinstance(b, SStr) or E.has_token(a) or E.has_token(b) \
            or is_poison(a) or is_poison(b):
        return E.neg(h_eq(a, b))
    return a != b
def h_in(a, b):
    if is_poison(a): a._bad()
    if is_poison(b): b._bad()
    if builtins.isinstance(b, (list, tuple)):
        for x in b:
            r = h_eq(x, a) if not (x is a) else True
            if truth(r): return True
        return False
    if builtins.isinstance(a, SStr) and 'member' in a.data:
        r = a.data['member'](b)
        if r is not None: return r
    if builtins.isinstance(b, SRange): return b.contains(a)
    if builtins.isinstance(b, SStr) and '__contains__' in b.data.get('meth', {}): return b.data['meth']['__contains__'](b, a)
    if builtins.isinstance(b, SList): return hook('in', b, a)
    if builtins.isinstance(a, SStr) and builtins.isinstance(b, (dict, set, frozenset)):
        for x in b:
            if truth(h_eq(x, a)): return True
        return False
    if builtins.isinstance(b, (str, bytes, SStr)) and one_text(a) and one_text(b): return part_of('in', one_text(a), one_text(b))
    if builtins.isinstance(b, str) and E.has_token(b) and builtins.isinstance(a, str) and a in (':', ';', ',', ' ') and all(builtins.isinstance(p, (str, SNum)) or
            builtins.isinstance(p, SStr) and p.data.get('word') for p in E.pieces(b)):
        # neither numbers nor words have separators
        return any(a in p for p in E.pieces(b) if builtins.isinstance(p, str))
    if builtins.isinstance(b, (str, bytes, SStr)) and (E.has_token(b) or symb(b) or symb(a) or E.has_token(a)):
        E.CTX.abort(Unsupported('in symbolic text'))
    if builtins.isinstance(a, SNum) and builtins.isinstance(b, builtins.range):
        if b.step < 1: raise Unsupported('in range with negative step')
        return SBool(z3.And(a.e >= b.start, a.e < b.stop, (a.e - b.start) % b.step == 0))
    if builtins.isinstance(a, (SNum, SBool)) and builtins.isinstance(b, (dict, set)):
        for x in b:
            if truth(a == x): return True
        return False
    return a in b
def h_notin(a, b): return not truth(h_in(a, b))
def h_is(a, b):
    if is_poison(a): a._bad()
    if is_poison(b): b._bad()
    if builtins.isinstance(a, E.SBool) and builtins.isinstance(b, bool) or builtins.isinstance(b, E.SBool) and builtins.isinstance(a, bool):
        return bool(a == b) if builtins.isinstance(a, E.SBool) else bool(b == a)
    return a is b
def h_isnot(a, b): return not h_is(a, b)

def truth(x):
    if is_poison(x): x._bad()
    if builtins.isinstance(x, (str, bytes)) and E.has_token(x):
        return bool(E.neg(E.str_eq(x, '' if builtins.isinstance(x, str) else b'')))
    return bool(x)

class NumChar:
    """the first character of a number"""
    _vc_ghost = True
    def __eq__(self, o):
        if builtins.isinstance(o, str) and not E.has_token(o) and not (len(o) == 1 and o in '0123456789.-+'): return False
        raise Unsupported('first character of a number')
    def __ne__(self, o): return not self == o
    __hash__ = None

def h_getitem(o, i):
    if is_poison(o): o._bad()
    if is_poison(i): i._bad()
    if builtins.isinstance(o, SStr):
        m = o.data.get('meth', {}).get('__getitem__')
        if m: return m(o, i)
        E.CTX.abort(Unsupported('subscript of opaque text %s' % o.name))
    if builtins.isinstance(o, (str, bytes)) and E.has_token(o):
        ps = E.pieces(o)
        if builtins.isinstance(i, int) and i >= 0 and ps and builtins.isinstance(ps[0], str) and i < len(ps[0]):
            return ps[0][i] if builtins.isinstance(o, str) else ord(ps[0][i])
        if builtins.isinstance(i, int) and i == 0 and builtins.isinstance(o, str) and ps and builtins.isinstance(ps[0], SNum): return NumChar()
        E.CTX.abort(Unsupported('subscript of a symbolic text'))
    if builtins.isinstance(i, SNum) and builtins.isinstance(o, (list, tuple)):
        for j in builtins.range(-len(o), len(o)):
            if truth(i == j): return o[j]
        raise IndexError('list index out of range')
    if builtins.isinstance(i, (SStr, SNum)) and builtins.isinstance(o, dict):
        for k in o:
            if truth(h_eq(k, i)): return o[k]
        raise KeyError(i)
    return o[i]

def h_comp(kind, it, elt, cond):
    if builtins.isinstance(it, SDict): it = it.keys()
    if hasattr(builtins.type(it), '_vc_iter'): it = it._vc_iter()
    if hasattr(builtins.type(it), 'comp') and kind in ('gen', 'list') and cond is None: return it.comp(elt)
    if hasattr(builtins.type(it), 'comp_if') and kind in ('gen', 'list') and cond is not None: return it.comp_if(elt, cond)
    if builtins.isinstance(it, SList):
        if cond is not None and kind == 'list' and not it.tail: return h_filter(it, elt, cond)
        if cond is not None or kind in ('set', 'dict'):
            E.CTX.abort(Unsupported('%s comprehension over symbolic list %s' % (kind, it.name)))
        r = SList(it.name + '.map', it.n, lambda i: elt(it.at(i)), it.loop)
        r.tail = [elt(x) for x in it.tail]
        r.source, r.partial = it, it.partial
        return r
    g = (elt(x) for x in it if cond is None or truth(cond(x)))
    if kind == 'list': return list(g)
    if kind == 'set': return set(g)
    if kind == 'dict': return dict(g)
    return g

def h_comp2(it, inner, elt):
    """elt(x, y) for x in it for y in inner(x), of one list only"""
    if hasattr(builtins.type(it), '_vc_iter'): it = it._vc_iter()
    if not builtins.isinstance(it, (SList, SDict)): return (elt(x, y) for x in it for y in inner(x))
    n = SNum(z3.Int(E.fresh_name('flat')))
    E.CTX.assume(n >= 0)
    def elem(i): raise Unsupported('element of a list of lists')
    r = SList(it.name + '.flat', n, elem)
    r.flat = it, inner, elt
    return r

def h_filter(it, elt, cond):
    """[elt(x) for x in it if cond(x)]: every element is made of one of the list that satisfies cond; a contract may
    check what is dropped (hook 'filter')"""
    c = E.CTX
    h = c.stubs.get('filter')
    if h: h(it, cond)
    n = SNum(z3.Int(E.fresh_name('filtered')))
    c.assume(n >= 0); c.assume(n <= it.n)
    def elem(i):
        j = SNum(z3.Int(E.fresh_name('position')))
        c.assume(j >= 0); c.assume(j < it.n)
        x = it.at(j)
        if not truth(cond(x)): c.abort(PathEnd('filtered'))
        return elt(x)
    r = SList(it.name + '.filter', n, elem, it.loop)
    r.source, r.partial = it, it.partial or not h
    return r

def copy_of(v):
    r = SList(v.name, v.n, v.elem, v.loop); r.memo, r.tail, r.source, r.partial = v.memo, list(v.tail), v, v.partial
    return r

def with_head(head, v):
    """[*head, *v]"""
    h = len(head)
    def elem(i):
        for j in builtins.range(h):
            if truth(i == j): return head[j]
        return v.at(i - h)
    r = SList(v.name, v.n + h, elem, v.loop)
    r.tail, r.source, r.partial = list(v.tail), v, v.partial
    return r

def h_display(*parts):
    """[*a, b, ...]"""
    out = []
    for star, v in parts:
        if not star: out.append(v)
        elif builtins.isinstance(v, SList):
            if builtins.isinstance(out, SList): E.CTX.abort(Unsupported('display with symbolic lists'))
            out = with_head(out, v) if out else copy_of(v)
        else:
            for x in v: out.append(x)
    return out

def h_enter(name):
    if E.CTX is not None:
        E.CTX.result.functions.add(name)

HELPERS = {'VC_loop': h_loop, 'VC_while': h_while, 'VC_meth': h_meth, 'VC_eq': h_eq, 'VC_ne': h_ne,
    'VC_in': h_in, 'VC_notin': h_notin, 'VC_is': h_is, 'VC_isnot': h_isnot,
    'VC_truth': truth, 'VC_getitem': h_getitem, 'VC_comp': h_comp, 'VC_display': h_display, 'VC_comp2': h_comp2, 'VC_enter': h_enter}
for _n in CALLS:
    HELPERS['VC_c_' + _n] = globals()['c_' + _n]

# ---------------------------------------------------------------------------
# transformation

class Assigned(ast.NodeVisitor):
    def __init__(self): self.names = []
    def add(self, n):
        if n not in self.names: self.names.append(n)
    def visit_Name(self, node):
        if isinstance(node.ctx, (ast.Store, ast.Del)): self.add(node.id)
    def visit_FunctionDef(self, node): self.add(node.name)
    def visit_Lambda(self, node): pass
    def visit_ListComp(self, node): pass
    visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp
    def visit_ExceptHandler(self, node):
        self.generic_visit(node)

def assigned(stmts):
    a = Assigned()
    for s in stmts: a.visit(s)
    return [n for n in a.names if not n.startswith('VC_')]

MUTATORS = {'append', 'extend', 'insert', 'pop', 'update', 'add', 'clear', 'setdefault', 'remove', 'sort', 'reverse', 'discard', 'write'}

class Mutated(ast.NodeVisitor):
    """names whose object the statements change"""
    def __init__(self): self.names = []
    def add(self, e):
        while isinstance(e, ast.Subscript): e = e.value
        if isinstance(e, ast.Name) and e.id not in self.names: self.names.append(e.id)
    def visit_Call(self, node):
        if isinstance(node.func, ast.Attribute) and node.func.attr in MUTATORS: self.add(node.func.value)
        self.generic_visit(node)
    def visit_Subscript(self, node):
        if isinstance(node.ctx, (ast.Store, ast.Del)): self.add(node.value)
        self.generic_visit(node)
    def visit_AugAssign(self, node):
        self.add(node.target)
        self.generic_visit(node)

def mutated(stmts, assigned_, locals_):
    m = Mutated()
    for s in stmts: m.visit(s)
    return [n for n in m.names if n not in assigned_ and n in locals_ and not n.startswith('VC_')]

class Transform(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.stack = []
        self.infunc = 0
        self.n = 0
        self.locals = []

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        node.body = [self.visit(s) if isinstance(s, (ast.FunctionDef, ast.ClassDef)) else s for s in node.body]
        self.stack.pop()
        return node

    def visit_FunctionDef(self, node):
        self.stack.append(node.name)
        self.infunc += 1
        params = {a.arg for a in node.args.args + node.args.kwonlyargs + node.args.posonlyargs}
        self.locals.append(params | set(assigned(node.body)))
        body = []
        for s in node.body:
            r = self.visit(s)
            body.extend(r if isinstance(r, list) else [r])
        name = '%s.%s' % (self.mod, '.'.join(self.stack))
        enter = ast.Expr(call('VC_enter', ast.Constant(name)))
        node.body = [enter] + body
        self.locals.pop()
        self.infunc -= 1
        self.stack.pop()
        return node

    def generic_block(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            out.extend(r if isinstance(r, list) else [r])
        return out

    def visit_For(self, node):
        if not self.infunc: return node
        self.n += 1
        var = 'VC_l%d' % self.n
        names = assigned([node])
        targets = assigned([ast.Assign(targets=[node.target], value=ast.Constant(0))])
        mut = mutated([node], names, self.locals[-1] if self.locals else ())
        it = self.visit(node.iter)
        body = self.generic_block(node.body)
        orelse = self.generic_block(node.orelse)
        const = ast.Tuple([ast.Constant(n) for n in names], ast.Load())
        def inject(meth, args):
            v = ast.Call(ast.Attribute(ast.Name(var, ast.Load()), meth, ast.Load()), args, [])
            tgt = ast.Tuple([ast.Name(n, ast.Store()) for n in names + mut], ast.Store())
            return ast.If(ast.Attribute(ast.Name(var, ast.Load()), 'sym', ast.Load()),
                [ast.Assign([tgt], v)], [])
        tg = ast.Tuple([ast.Constant(n) for n in targets], ast.Load())
        init = ast.Assign([ast.Name(var, ast.Store())],
            call('VC_loop', it, const, ast.Call(ast.Name('locals', ast.Load()), [], []), ast.Tuple([ast.Constant(n) for n in mut], ast.Load())))
        new = ast.For(node.target, ast.Name(var, ast.Load()),
            [inject('inject', [tg])] + body, [inject('inject_exit', [])] + orelse)
        return [init, new]

    def test(self, e):
        return call('VC_truth', e)

    def visit_If(self, node):
        self.generic_visit(node)
        if self.infunc: node.test = self.test(node.test)
        return node
    def visit_While(self, node):
        if not self.infunc or node.orelse:
            self.generic_visit(node)
            if self.infunc: node.test = self.test(node.test)
            return node
        self.n += 1
        var = 'VC_l%d' % self.n
        names = assigned([node])
        mut = mutated([node], names, self.locals[-1] if self.locals else ())
        test = self.visit(node.test)
        body = self.generic_block(node.body)
        attr = lambda m: ast.Attribute(ast.Name(var, ast.Load()), m, ast.Load())
        tgt = ast.Tuple([ast.Name(n, ast.Store()) for n in names + mut], ast.Store())
        inject = ast.If(attr('sym'), [ast.Assign([tgt], ast.Call(attr('inject'), [ast.Tuple([], ast.Load())], []))], []) if names + mut else ast.Pass()
        init = ast.Assign([ast.Name(var, ast.Store())], call('VC_while', ast.Constant('%s.%s' % (self.mod, '.'.join(self.stack))),
            ast.Tuple([ast.Constant(n) for n in names], ast.Load()), ast.Call(ast.Name('locals', ast.Load()), [], []),
            ast.Tuple([ast.Constant(n) for n in mut], ast.Load()),
            *([] if any(isinstance(n, (ast.NamedExpr, ast.Await, ast.Yield, ast.YieldFrom)) for n in ast.walk(test)) else
                [ast.Lambda(ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), copy.deepcopy(test))])))
        new = ast.For(ast.Name('VC_w%d' % self.n, ast.Store()), ast.Name(var, ast.Load()),
            [inject, ast.If(ast.Call(attr('stop'), [test], []), [ast.Break()], [])] + body, [])
        return [init, new]
    def visit_IfExp(self, node):
        self.generic_visit(node)
        if self.infunc: node.test = self.test(node.test)
        return node
    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if self.infunc and isinstance(node.op, ast.Not): node.operand = self.test(node.operand)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if not self.infunc or len(node.ops) != 1: return node
        f = {ast.Eq: 'VC_eq', ast.NotEq: 'VC_ne', ast.In: 'VC_in', ast.NotIn: 'VC_notin',
            ast.Is: 'VC_is', ast.IsNot: 'VC_isnot'}.get(type(node.ops[0]))
        if f is None: return node
        return call(f, node.left, node.comparators[0])

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if self.infunc and isinstance(node.ctx, ast.Load) and not isinstance(node.slice, ast.Slice):
            return call('VC_getitem', node.value, node.slice)
        return node

    def visit_List(self, node):
        self.generic_visit(node)
        if not self.infunc or not isinstance(node.ctx, ast.Load) or not any(isinstance(e, ast.Starred) for e in node.elts): return node
        return call('VC_display', *[ast.Tuple([ast.Constant(isinstance(e, ast.Starred)), e.value if isinstance(e, ast.Starred) else e], ast.Load())
            for e in node.elts])

    def visit_Call(self, node):
        self.generic_visit(node)
        if not self.infunc: return node
        f = node.func
        if isinstance(f, ast.Name) and f.id in CALLS and not any(f.id in l for l in self.locals):
            node.func = ast.Name('VC_c_' + f.id, ast.Load())
        elif isinstance(f, ast.Attribute) and f.attr in METHS and not (
                isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == 'super'):
            return ast.Call(ast.Name('VC_meth', ast.Load()),
                [f.value, ast.Constant(f.attr)] + node.args, node.keywords)
        return node

    def comp(self, node, kind):
        self.generic_visit(node)
        if self.infunc and kind == 'gen' and len(node.generators) == 2 and all(isinstance(g.target, ast.Name) and not g.ifs for g in node.generators):
            a, b = node.generators
            lam = lambda names, e: ast.Lambda(ast.arguments(posonlyargs=[], args=[ast.arg(n) for n in names], kwonlyargs=[], kw_defaults=[], defaults=[]), e)
            return call('VC_comp2', a.iter, lam([a.target.id], b.iter), lam([a.target.id, b.target.id], node.elt))
        if not self.infunc or len(node.generators) != 1: return node
        g = node.generators[0]
        if isinstance(g.target, ast.Name):
            params = [g.target.id]; unpack = False
        elif isinstance(g.target, ast.Tuple) and all(isinstance(e, ast.Name) for e in g.target.elts):
            params = [e.id for e in g.target.elts]; unpack = True
        else:
            return node
        def lam(e):
            args = ast.arguments(posonlyargs=[], args=[ast.arg(p) for p in params], kwonlyargs=[], kw_defaults=[], defaults=[])
            l = ast.Lambda(args, e)
            if unpack:
                return ast.Lambda(ast.arguments(posonlyargs=[], args=[ast.arg('VC_t')], kwonlyargs=[], kw_defaults=[], defaults=[]),
                    ast.Call(l, [ast.Starred(ast.Name('VC_t', ast.Load()), ast.Load())], []))
            return l
        if kind == 'dict':
            elt = ast.Tuple([node.key, node.value], ast.Load())
        else:
            elt = node.elt
        cond = ast.Constant(None)
        if g.ifs:
            cond = lam(g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(ast.And(), g.ifs))
        return call('VC_comp', ast.Constant(kind), g.iter, lam(elt), cond)
    def visit_ListComp(self, node): return self.comp(node, 'list')
    def visit_SetComp(self, node): return self.comp(node, 'set')
    def visit_DictComp(self, node): return self.comp(node, 'dict')
    def visit_GeneratorExp(self, node): return self.comp(node, 'gen')

def call(f, *args):
    return ast.Call(ast.Name(f, ast.Load()), list(args), [])

class Loader(importlib.abc.Loader):
    def __init__(self, path, name, pkg):
        self.path, self.name, self.pkg = path, name, pkg
    def create_module(self, spec): return None
    def exec_module(self, module):
        src = open(self.path, encoding='utf8').read()
        tree = ast.parse(src, self.path)
        tree = Transform(self.name).visit(tree)
        ast.fix_missing_locations(tree)
        module.__dict__.update(HELPERS)
        exec(compile(tree, self.path, 'exec'), module.__dict__)

class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path, target=None):
        if name != PKG and not name.startswith(PKG + '.'): return None
        parts = name.split('.')
        base = os.path.join(REPO, *parts)
        if os.path.isdir(base):
            p = os.path.join(base, '__init__.py')
            return importlib.machinery.ModuleSpec(name, Loader(p, name, True), origin=p, is_package=True)
        p = base + '.py'
        if not os.path.exists(p): return None
        return importlib.machinery.ModuleSpec(name, Loader(p, name, False), origin=p)

_installed = False
def install():
    global _installed
    if _installed: return
    _installed = True
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, Finder())
    import importlib
    importlib.import_module(PKG)
    for f in sorted(os.listdir(os.path.join(REPO, PKG))):
        if f.endswith('.py') and f != '__init__.py':
            importlib.import_module(PKG + '.' + f[:-3])

def lookup(qual):
    """object for 'pdfme.module.Class.attr'; Unsupported if it is gone"""
    parts = qual.split('.')
    mod = sys.modules.get('.'.join(parts[:2]))
    if mod is None: raise Unsupported('module %s does not exist' % '.'.join(parts[:2]))
    o, parent = mod, None
    for p in parts[2:]:
        parent = o
        if p not in vars(o) and not hasattr(o, p): raise Unsupported('%s does not exist' % qual)
        o = vars(o)[p] if p in vars(o) else getattr(o, p)
    return parent, parts[-1], o

_restore = []
def reset_hooks():
    while _restore:
        obj, attr, val = _restore.pop()
        setattr(obj, attr, val)

def stub(qual, fn):
    """replaces a function by (the stub of) its contract everywhere"""
    parent, attr, old = lookup(qual)
    if E.CTX is not None: E.CTX.result.stubs.add(qual)
    raw = old
    _restore.append((parent, attr, raw))
    setattr(parent, attr, fn)
    if not isinstance(parent, type):
        for name, m in list(sys.modules.items()):
            if name.startswith(PKG + '.') and m is not parent:
                for k, v in list(vars(m).items()):
                    if v is old:
                        _restore.append((m, k, v))
                        setattr(m, k, fn)
    return old
