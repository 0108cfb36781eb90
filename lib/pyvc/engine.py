"""pyvc: a deductive verifier for the real Python code.

The functions of /repo are executed by CPython itself on *symbolic* values
(proxies that carry z3 terms).  Every branch on a symbolic condition forks the
execution (the function is re-executed with the other decision), loops over
symbolic sequences are cut with the invariants of the contracts, calls of
functions that have a contract of their own are replaced by that contract, and
every `check` of a contract becomes an obligation `path condition => goal` that
z3 (or cvc5) has to discharge.
"""
import builtins
import re
import sys
import time
from fractions import Fraction

import z3

class Unsupported(BaseException):
    """The code left the subset of the verifier: the contract is undecided."""

class PathEnd(BaseException):
    """The current path was cut (infeasible, or end of a loop iteration)."""

CTX = None      # the context of the contract being verified

# ---------------------------------------------------------------------------
# values

def fresh_name(base):
    c = CTX
    c.counter += 1
    return '%s!%d' % (base, c.counter)

def const(x):
    """python number -> z3 term"""
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(int(x))
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')):
            raise Unsupported('non finite float')
        f = Fraction(repr(x))
        return z3.RealVal(str(f))
    if isinstance(x, Fraction):
        return z3.RealVal(str(x))
    if isinstance(x, SNum):
        return x.e
    raise Unsupported('not a number: %r' % (x,))

def is_num(x):
    return isinstance(x, (int, float, Fraction, SNum)) and not isinstance(x, bool) \
        or isinstance(x, bool)

def to_real(e):
    return z3.ToReal(e) if z3.is_int(e) else e

def simp(e):
    return z3.simplify(e)

class SBool:
    __slots__ = ('e',)
    def __init__(self, e):
        self.e = e
    def __bool__(self):
        return CTX.fork(self.e)
    def __repr__(self):
        return 'SBool(%s)' % self.e
    def __eq__(self, o):
        if isinstance(o, SBool): return SBool(self.e == o.e)
        if isinstance(o, bool): return self if o else SBool(z3.Not(self.e))
        if o is None: return False
        raise Unsupported('SBool == %r' % (o,))
    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else SBool(z3.Not(r.e))
    __hash__ = None

class SNum:
    """int or float with a z3 term as its value. `isint` tells apart the
    python type int from float"""
    __slots__ = ('e',)
    def __init__(self, e):
        self.e = e

    @property
    def isint(self):
        return z3.is_int(self.e)

    def _bin(self, o, f, rev=False, real=False):
        if isinstance(o, SBool):
            o = SNum(z3.If(o.e, z3.IntVal(1), z3.IntVal(0)))
        if not is_num(o):
            return NotImplemented
        a, b = self.e, const(o)
        if rev: a, b = b, a
        if real or not (z3.is_int(a) and z3.is_int(b)):
            a, b = to_real(a), to_real(b)
        return f(a, b)
    def _arith(self, o, f, rev=False, real=False):
        r = self._bin(o, f, rev, real)
        return r if r is NotImplemented else SNum(simp(r))
    def _cmp(self, o, f):
        # an infinity is beyond every number (numbers here are mathematical)
        if type(o) is float and o in (float('inf'), float('-inf')):
            return SBool(z3.BoolVal(bool(f(0, 1 if o > 0 else -1))))
        r = self._bin(o, f)
        return r if r is NotImplemented else SBool(simp(r))

    def __add__(self, o): return self._arith(o, lambda a, b: a + b)
    def __radd__(self, o): return self._arith(o, lambda a, b: a + b, True)
    def __sub__(self, o): return self._arith(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._arith(o, lambda a, b: a - b, True)
    def __mul__(self, o):
        if isinstance(o, list): return repeated(o, self)
        return self._arith(o, lambda a, b: a * b)
    def __rmul__(self, o):
        if isinstance(o, list): return repeated(o, self)
        return self._arith(o, lambda a, b: a * b, True)
    def _div(self, o, rev):
        if not is_num(o): return NotImplemented
        den = const(self if rev else o)
        if bool(SBool(simp(den == 0))):
            raise ZeroDivisionError('division by zero')
        return self._arith(o, lambda a, b: a / b, rev, True)
    def __truediv__(self, o): return self._div(o, False)
    def __rtruediv__(self, o): return self._div(o, True)
    def _intop(self, o, f, rev):
        if not is_num(o): return NotImplemented
        a, b = self.e, const(o)
        if rev: a, b = b, a
        if not (z3.is_int(a) and z3.is_int(b)):
            raise Unsupported('// or % on floats')
        if not z3.is_int_value(b) or b.as_long() <= 0:
            if bool(SBool(simp(b == 0))): raise ZeroDivisionError('integer division or modulo by zero')
            if not bool(SBool(simp(b > 0))): raise Unsupported('// or % by a negative divisor')
        return SNum(simp(f(a, b)))
    def __floordiv__(self, o): return self._intop(o, lambda a, b: a / b, False)
    def __rfloordiv__(self, o): return self._intop(o, lambda a, b: a / b, True)
    def __mod__(self, o): return self._intop(o, lambda a, b: a % b, False)
    def __rmod__(self, o): return self._intop(o, lambda a, b: a % b, True)
    def __pow__(self, o):
        if o == 2: return self * self
        raise Unsupported('pow')
    def __neg__(self): return SNum(simp(-self.e))
    def __pos__(self): return self
    def __abs__(self):
        return SNum(simp(z3.If(self.e >= 0, self.e, -self.e)))
    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)
    def __eq__(self, o):
        if not (is_num(o) or isinstance(o, SBool)): return False
        return self._cmp(o, lambda a, b: a == b)
    def __ne__(self, o):
        if not (is_num(o) or isinstance(o, SBool)): return True
        return self._cmp(o, lambda a, b: a != b)
    __hash__ = None
    def __bool__(self):
        return CTX.fork(simp(self.e != 0))
    def __round__(self, n=None):
        if n is None:
            if self.isint: return self
            return CTX.round0(self)
        if self.isint: return self
        return CTX.roundn(self, n)
    def __index__(self):
        v = concrete(self)
        if v is None: raise Unsupported('symbolic number used as an index')
        return v
    def __int__(self):
        raise Unsupported('int() of a symbolic number')
    def __float__(self):
        raise Unsupported('float() of a symbolic number')
    def __str__(self): return CTX.token('n', self)
    def __repr__(self): return CTX.token('n', self) if CTX else 'SNum(%s)' % self.e
    def __format__(self, spec):
        if spec: raise Unsupported('format spec %r' % spec)
        return CTX.token('n', self)

def concrete(x):
    """python value of a term that is a literal, else None"""
    if isinstance(x, SNum):
        e = simp(x.e)
        if z3.is_int_value(e): return e.as_long()
        if z3.is_rational_value(e):
            return Fraction(e.numerator_as_long(), e.denominator_as_long())
        return None
    return x

class SStr:
    """An opaque text (str or bytes).  Only its identity (`key`), and its
    length are known; `data` are ghost attributes the contracts use."""
    def __init__(self, name, bytes_=False, maybe_empty=True, **data):
        self.name = name
        self.is_bytes = bytes_
        self.maybe_empty = maybe_empty
        self.data = data
        self.len = SNum(z3.Int(fresh_name('len_' + name)))
        CTX.assume(self.len >= (0 if maybe_empty else 1))
        self.tok = CTX.token('s', self)
    def _t(self):
        return self.tok.encode('latin') if self.is_bytes else self.tok
    def __str__(self): return self.tok
    def __format__(self, spec): return self.tok
    def __repr__(self): return 'SStr(%s)' % self.name
    def __add__(self, o): return self._t() + (o._t() if isinstance(o, SStr) else o)
    def __radd__(self, o): return (o._t() if isinstance(o, SStr) else o) + self._t()
    def __bool__(self):
        if not self.maybe_empty: return True
        return bool(self.len > 0)
    def __eq__(self, o):
        return str_eq(self, o)
    def __ne__(self, o):
        return neg(str_eq(self, o))
    def __hash__(self):
        return id(self)
    def __getitem__(self, i):
        m = self.data.get('meth', {}).get('__getitem__')
        if m: return m(self, i)
        raise Unsupported('subscript of opaque text %s' % self.name)
    def __getattr__(self, name):
        if name.startswith('__'): raise AttributeError(name)
        if name == 'meth': raise AttributeError(name)
        raise Unsupported('method %s of an opaque text' % name)

def neg(b):
    return (not b) if isinstance(b, bool) else SBool(z3.Not(b.e))

class SList:
    """A sequence of symbolic length.  elem(i) gives the element at position
    i (an SNum or an int), and is memoised on the term of i.  `loop` is the
    loop specification that cuts the loops over it."""
    source = None
    partial = False     # whether it does not have all the elements of the list it was made of
    def __init__(self, name, n, elem, loop=None, kind=list):
        self.name, self.n, self.elem, self.loop, self.kind = name, n, elem, loop, kind
        self.memo = {}
        self.tail = []
    def length(self):
        return self.n + len(self.tail)
    def at(self, i):
        key = str(simp(const(i)))
        if key not in self.memo:
            self.memo[key] = self.elem(i)
        return self.memo[key]
    def __getitem__(self, i):
        if isinstance(i, slice):
            return self.slice(i)
        if isinstance(i, int) and i < 0:
            if -i <= len(self.tail):
                return self.tail[i]
            i = self.n + (i + len(self.tail))
            if bool(i < 0): raise IndexError('list index out of range')
            return self.at(i)
        if bool(i < 0): raise Unsupported('negative symbolic index')
        if bool(i >= self.n):
            if self.tail:
                for j, t in enumerate(self.tail):
                    if bool(i == self.n + j): return t
            raise IndexError('list index out of range')
        return self.at(i)
    def slice(self, s):
        lo, hi = s.start or 0, s.stop
        if (isinstance(lo, SNum) or isinstance(hi, SNum)) and s.step is None and not self.tail:
            return self.window(lo, self.n if hi is None else hi)
        if self.tail or s.step not in (None, 1) or isinstance(lo, SNum) or lo < 0 or isinstance(hi, SNum) or not (hi is None or hi < 0):
            raise Unsupported('slice of a symbolic list')
        n = self.n - lo + (hi or 0)
        n = SNum(simp(z3.If(n.e >= 0, n.e, z3.IntVal(0))))
        r = SList('%s[%s:%s]' % (self.name, s.start, s.stop), n, lambda i: self.at(i + lo), self.loop, self.kind)
        r.source, r.partial, r.lo = self, self.partial or lo != 0 or hi is not None, lo
        return r
    def window(self, lo, hi):
        """self[lo:hi] for limits that are not negative"""
        if not (CTX.fork(const(lo) >= 0) and CTX.fork(const(hi) >= 0)): raise Unsupported('slice with negative symbolic limits')
        n, a, b = const(self.n), const(lo), const(hi)
        b = z3.If(b > n, n, b)
        ln = SNum(simp(z3.If(b > a, b - a, z3.IntVal(0))))
        r = SList('%s[:]' % self.name, ln, lambda i: self.at(i + lo), self.loop, self.kind)
        r.source, r.lo, r.partial = self, lo, True
        return r
    def append(self, x):
        if self.kind is not list: raise Unsupported('append')
        self.tail.append(x)
    def __delitem__(self, s):
        """del self[a:]"""
        if self.kind is not list or not isinstance(s, slice) or s.stop is not None or s.step is not None or s.start is None or self.tail:
            raise Unsupported('del of items of a symbolic list')
        self.n = self.window(0, s.start).n
    def __bool__(self):
        return bool(self.length() > 0)
    def __iter__(self):
        raise Unsupported('iteration over symbolic list %s outside a loop' % self.name)
    def __add__(self, o):
        if isinstance(o, list):
            r = SList(self.name, self.n, self.elem, self.loop, self.kind)
            r.memo, r.partial = self.memo, self.partial
            r.tail = self.tail + o
            return r
        raise Unsupported('+ of symbolic lists')
    def __getattr__(self, name):
        if name.startswith('__'): raise AttributeError(name)
        raise Unsupported('method %s of a symbolic list' % name)

def repeated(l, n):
    """[x] * n"""
    if len(l) != 1 or not n.isint: raise Unsupported('product of a list')
    return SList('repeated', SNum(simp(z3.If(n.e >= 0, n.e, z3.IntVal(0)))), lambda i: l[0])

class SDict:
    """A dict with a symbolic number of items: items() is an SList of pairs."""
    def __init__(self, name, items, has=None, extra=None):
        self.name, self._items, self.has = name, items, has or {}
        self.extra = dict(extra or {})
        self.deleted = set()
    def items(self):
        it = self._items
        if not self.extra: return it
        r = SList(it.name, it.n, it.elem, it.loop)
        r.memo, r.tail = it.memo, list(self.extra.items())
        return r
    def values(self):
        it = self.items()
        r = SList(it.name + '.values', it.n, lambda i: it.at(i)[1], it.loop)
        r.tail = [v for k, v in it.tail]
        return r
    def keys(self):
        it = self.items()
        r = SList(it.name + '.keys', it.n, lambda i: it.at(i)[0], it.loop)
        r.tail = [k for k, v in it.tail]
        return r
    def __delitem__(self, k):
        self.pop(k)
    def setdefault(self, k, v):
        if k not in self: self[k] = v
        return self[k]
    def __contains__(self, k):
        if k in self.extra: return True
        if k in self.deleted: return False
        if k in self.has: return bool(self.has[k])
        raise Unsupported('key %r of symbolic dict' % (k,))
    def __getitem__(self, k):
        if k in self.extra: return self.extra[k]
        raise Unsupported('key %r of symbolic dict' % (k,))
    def __setitem__(self, k, v):
        self.deleted.discard(k)
        self.extra[k] = v
    def pop(self, k, *default):
        if k in self.extra:
            self.deleted.add(k)
            return self.extra.pop(k)
        if k in self.deleted or (k in self.has and not bool(self.has[k])):
            if default: return default[0]
            raise KeyError(k)
        raise Unsupported('pop of symbolic dict')
    def get(self, k, d=None):
        if k in self: return self[k]
        return d

# ---------------------------------------------------------------------------
# texts with tokens

TOKEN = re.compile('\x02[a-z][0-9]+\x03')
TOKEN_B = re.compile(b'\x02[a-z][0-9]+\x03')

def has_token(s):
    if isinstance(s, str): return '\x02' in s and TOKEN.search(s) is not None
    if isinstance(s, (bytes, bytearray)): return b'\x02' in s and TOKEN_B.search(s) is not None
    return False

def pieces(s):
    """list of literal strs and token objects of a text"""
    if isinstance(s, SStr): return [s.data.get('_base', s)]
    if isinstance(s, (bytes, bytearray)): s = s.decode('latin')
    out = []
    i = 0
    for m in TOKEN.finditer(s):
        if m.start() > i: out.append(s[i:m.start()])
        out.append(CTX.tokens[m.group()[1:-1]])
        i = m.end()
    if i < len(s): out.append(s[i:])
    return out

def text_len(s):
    """length of a text with tokens (numbers: an unknown positive length that
    only depends on the token)"""
    total = 0
    for p in pieces(s):
        if isinstance(p, str): total = total + len(p)
        elif isinstance(p, SStr): total = total + p.len
        elif isinstance(p, Padded): total = total + p.width
        else: total = total + CTX.numlen(p)
    return total

class Padded:
    """zero padded decimal number of exactly `width` characters"""
    def __init__(self, num, width):
        self.num, self.width = num, width

def str_eq(a, b):
    """equality of two texts, as a python bool or an SBool"""
    if not isinstance(a, (str, bytes, SStr)) or not isinstance(b, (str, bytes, SStr)):
        return False
    isb = lambda x: x.is_bytes if isinstance(x, SStr) else isinstance(x, bytes)
    if isb(a) != isb(b): return False
    pa, pb = pieces(a), pieces(b)
    if all(isinstance(p, str) for p in pa + pb):
        return ''.join(pa) == ''.join(pb)
    if len(pa) == len(pb) and all(x is y or (isinstance(x, str) and x == y) for x, y in zip(pa, pb)):
        return True
    if pa == [] or pb == []:
        q = pa or pb
        conds = []
        for p in q:
            if isinstance(p, str) or not isinstance(p, SStr): return False
            conds.append(p.len.e == 0)
        return SBool(z3.And(conds))
    # same skeleton: number by number; formatting is a function of the number
    # (and its type), so equal texts have equal numbers; equal numbers may have
    # different texts (1 and 1.0)
    if not any(isinstance(p, SStr) for p in pa + pb):
        wa, wb = words_of(pa), words_of(pb)
        if len(wa) != len(wb): return False
        eqs = []
        for x, y in zip(wa, wb):
            if isinstance(x, str) and isinstance(y, str):
                if x != y: return False
                continue
            vx, vy = num_of(x), num_of(y)
            if vx is None or vy is None: return False
            eqs.append(to_real(const(vx)) == to_real(const(vy)))
        same = z3.And(eqs)
        b_ = z3.Bool(fresh_name('streq'))
        CTX.assume(SBool(z3.Implies(b_, same)))
        return SBool(b_)
    if len(pa) == 1 and len(pb) == 1 and isinstance(pa[0], SStr) and isinstance(pb[0], SStr):
        return CTX.opaque_eq(pa[0], pb[0])
    for x, y in ((pa, pb), (pb, pa)):
        if len(x) == 1 and isinstance(x[0], SStr) and all(isinstance(p, str) for p in y):
            return CTX.opaque_lit(x[0], ''.join(y))
    raise Unsupported('comparison of texts %r %r' % (a, b))

def words_of(ps):
    """blank separated words; every number must be a word by itself"""
    out = ['']
    for p in ps:
        if isinstance(p, str):
            parts = p.split(' ')
            out[-1] = join2(out[-1], parts[0])
            out.extend(parts[1:])
        else:
            out[-1] = join2(out[-1], p)
    return [w for w in out if not (isinstance(w, str) and w == '')]

def join2(a, b):
    if isinstance(a, str) and a == '': return b
    if isinstance(b, str) and b == '': return a
    if isinstance(a, str) and isinstance(b, str): return a + b
    if isinstance(a, str) and a == '[' : return b        # only used for equality
    if isinstance(b, str) and b == ']': return a
    raise Unsupported('number glued to text')

def num_of(w):
    if isinstance(w, str):
        try: return Fraction(w)
        except ValueError: return None
    if isinstance(w, SNum): return w
    return None

# ---------------------------------------------------------------------------
# obligations

class Result:
    def __init__(self, name):
        self.name = name
        self.obligations = []     # dicts name, status, backend, time, detail, model
        self.covers = {}
        self.paths = 0
        self.ended = 0
        self.unsupported = []
        self.assumed = set()
        self.stubs = set()
        self.functions = set()
        self.solver_s = 0.0
        self.queries = 0

class Context:
    def __init__(self, contract, opts):
        self.contract = contract
        self.opts = opts
        self.result = Result(contract.name)
        self.deadline = time.time() + opts.get('time', 120)

    def reset(self, prefix):
        self.prefix = prefix
        self.decisions = []
        self.todo = []
        self.counter = 0
        self.tokens = {}
        self.ntok = 0
        self.pc = []
        self.solver = z3.Solver()
        self.solver.set('timeout', self.opts.get('fork_ms', 3000))
        self.inputs = {}
        self.aborted = None
        self.rounds = {}
        self.numlens = {}
        self.op_eq = {}
        self.stubs = {}
        self.measured = []
        self.loops_active = []
        self.notes = []

    # -- state ---------------------------------------------------------------
    def abort(self, exc):
        self.aborted = exc
        raise exc

    def alive(self):
        if self.aborted is not None:
            raise self.aborted

    def assume(self, c):
        self.alive()
        if isinstance(c, SBool): c = c.e
        if c is True: return
        if c is False: self.abort(PathEnd('assumed false'))
        c = simp(c) if not z3.is_quantifier(c) else c
        if z3.is_true(c): return
        self.pc.append(c)
        self.solver.add(c)

    def sat(self, extra=None):
        t = time.time()
        if extra is not None:
            r = self.solver.check(extra)
        else:
            r = self.solver.check()
        self.result.solver_s += time.time() - t
        self.result.queries += 1
        return r

    def fork(self, e):
        self.alive()
        e = simp(e)
        if z3.is_true(e): return True
        if z3.is_false(e): return False
        if time.time() > self.deadline:
            self.abort(Unsupported('time limit of the contract'))
        i = len(self.decisions)
        if i < len(self.prefix):
            d = self.prefix[i]
            forced = None
        else:
            t = self.sat(e)
            if t == z3.unsat:
                d, forced = False, True
            else:
                f = self.sat(z3.Not(e))
                if f == z3.unsat:
                    d, forced = True, True
                else:
                    d, forced = True, False
            if forced is False:
                self.todo.append([x[0] for x in self.decisions] + [False])
        self.decisions.append((d, forced))
        c = e if d else simp(z3.Not(e))
        self.pc.append(c)
        self.solver.add(c)
        return d

    def choose(self, n, name='choice'):
        """nondeterministic choice of one of n alternatives"""
        for i in range(n - 1):
            b = z3.Bool(fresh_name(name))
            if self.fork(b): return i
        return n - 1

    # -- symbolic constructors -------------------------------------------------
    def real(self, name, inp=True):
        v = SNum(z3.Real(fresh_name(name)))
        if inp: self.inputs[name] = v
        return v
    def int(self, name, inp=True):
        v = SNum(z3.Int(fresh_name(name)))
        if inp: self.inputs[name] = v
        return v
    def bool(self, name, inp=True):
        v = SBool(z3.Bool(fresh_name(name)))
        if inp: self.inputs[name] = v
        return v

    def token(self, kind, obj):
        self.ntok += 1
        k = '%s%d' % (kind, self.ntok)
        self.tokens[k] = obj
        return '\x02' + k + '\x03'

    def numlen(self, num):
        key = str(num.e) if isinstance(num, SNum) else repr(num)
        if key not in self.numlens:
            v = SNum(z3.Int(fresh_name('numlen')))
            self.assume(v >= 1)
            self.numlens[key] = v
        return self.numlens[key]

    def roundn(self, x, n):
        key = (n, x.e.get_id())
        if key in self.rounds: return self.rounds[key][0]
        f = z3.Function('round%d' % n, z3.RealSort(), z3.RealSort())
        r = f(to_real(x.e))
        half = z3.RealVal(str(Fraction(1, 2 * 10 ** n)))
        xr = to_real(x.e)
        self.assume(SBool(z3.And(r - xr <= half, xr - r <= half,
            z3.Implies(xr >= 0, r >= 0), z3.Implies(xr <= 0, r <= 0))))
        # rounding is the identity on the numbers that are already rounded
        if z3.is_app(xr) and xr.decl().name() == 'round%d' % n:
            self.assume(SBool(r == xr))
        res = SNum(r)
        self.rounds[key] = (res, x)
        return res

    def round0(self, x):
        key = (0, x.e.get_id())
        if key in self.rounds: return self.rounds[key][0]
        r = z3.Int(fresh_name('round0'))
        half = z3.RealVal('1/2')
        self.assume(SBool(z3.And(z3.ToReal(r) - x.e <= half, x.e - z3.ToReal(r) <= half)))
        res = SNum(r)
        self.rounds[key] = (res, x)
        return res

    def opaque_eq(self, a, b):
        if a is b: return True
        key = tuple(sorted((id(a), id(b))))
        if key not in self.op_eq:
            v = z3.Bool(fresh_name('eq_%s_%s' % (a.name, b.name)))
            self.op_eq[key] = SBool(v)
            self.assume(SBool(z3.Implies(v, a.len.e == b.len.e)))
        return self.op_eq[key]

    def opaque_lit(self, a, lit):
        key = (id(a), lit)
        if key not in self.op_eq:
            v = z3.Bool(fresh_name('is_%s' % a.name))
            self.op_eq[key] = SBool(v)
            self.assume(SBool(z3.Implies(v, a.len.e == len(lit))))
            for (ka, kl), o in list(self.op_eq.items()):
                if ka == id(a) and isinstance(kl, str) and kl != lit:
                    self.assume(SBool(z3.Not(z3.And(o.e, v))))
            if lit == '':
                self.assume(SBool(v == (a.len.e == 0)))
        return self.op_eq[key]

    # -- obligations -------------------------------------------------------------
    def check(self, name, cond, kind='post', detail=''):
        """the obligation `path condition => cond`; afterwards cond is assumed"""
        self.alive()
        if isinstance(cond, SBool): g = cond.e
        elif isinstance(cond, bool): g = z3.BoolVal(cond)
        elif z3.is_expr(cond): g = cond
        else: raise Unsupported('check of %r' % (cond,))
        g = simp(g)
        t0 = time.time()
        status, backend, model = 'discharged', 'simplifier', None
        if not z3.is_true(g):
            backend = 'z3'
            s = z3.Solver()
            ms = self.opts.get('check_ms', 20000)
            s.set('timeout', min(ms, 3000))
            s.add(*self.pc)
            s.add(z3.Not(g))
            r = s.check()
            self.result.queries += 1
            if r == z3.unknown:
                r2 = cvc5_check(s, ms)
                if r2 == 'unsat': backend = 'cvc5'
                elif r2 == 'sat': status, backend = 'refuted', 'cvc5'
                else:
                    s.set('timeout', ms)
                    r = s.check()
                    if r == z3.unknown: status = 'unknown'
            if r == z3.sat:
                status = 'refuted'
                model = self.model_of(s.model())
            elif r == z3.unsat and backend == 'z3' and self.opts.get('cross') and self.result.queries % 7 == 0:
                r2 = cvc5_check(s, 5000)
                if r2 == 'sat': status = 'unknown'
        dt = time.time() - t0
        self.result.solver_s += dt
        if backend == 'simplifier':
            # a goal that simplifies to true still is an obligation of this path
            pass
        self.result.obligations.append({
            'name': name, 'kind': kind, 'status': status, 'backend': backend,
            'time': round(dt, 3), 'model': model,
            'path': ''.join('T' if d else 'F' for d, _ in self.decisions),
            'detail': detail or (str(g)[:300] if status != 'discharged' else '')})
        if status == 'discharged':
            if not z3.is_true(g):
                self.pc.append(g); self.solver.add(g)
        else:
            # the rest of the path is explored under the goal
            if self.sat(g) == z3.unsat:
                self.abort(PathEnd('after a refuted obligation'))
            self.pc.append(g); self.solver.add(g)

    def model_of(self, m):
        out = {}
        for name, v in self.inputs.items():
            try:
                if isinstance(v, (SNum, SBool)):
                    x = m.eval(v.e, model_completion=True)
                    if z3.is_rational_value(x) and not z3.is_int_value(x):
                        out[name] = float(Fraction(x.numerator_as_long(), x.denominator_as_long()))
                    elif z3.is_int_value(x): out[name] = x.as_long()
                    elif z3.is_true(x) or z3.is_false(x): out[name] = z3.is_true(x)
                    else: out[name] = str(x)
                else:
                    out[name] = v
            except Exception as e:     # pragma: no cover
                out[name] = 'eval failed: %s' % e
        return out

    def cover(self, name):
        """records that this point is reachable (guards against vacuity)"""
        self.alive()
        if self.result.covers.get(name): return
        self.result.covers[name] = self.sat() == z3.sat

def cvc5_check(solver, ms):
    import subprocess, tempfile, os
    smt = solver.to_smt2()
    try:
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
            f.write('(set-logic ALL)\n' + smt)
        try:
            p = subprocess.run(['cvc5', '--tlimit=%d' % ms, f.name],
                capture_output=True, text=True, timeout=ms / 1000 + 10)
        finally:
            os.unlink(f.name)
        out = p.stdout.strip().split('\n')[0]
        return out if out in ('sat', 'unsat') else 'unknown'
    except Exception:
        return 'unknown'

# ---------------------------------------------------------------------------
# contracts and exploration

class Contract:
    def __init__(self, name, fn, funcs, props, opts=None):
        self.name, self.fn, self.funcs, self.props = name, fn, funcs, props
        self.opts = opts or {}

REGISTRY = []

def contract(name, funcs=(), props=(), **opts):
    def deco(fn):
        REGISTRY.append(Contract(name, fn, list(funcs), list(props), opts))
        return fn
    return deco

def verify(c, opts=None, stack=None, expand=None):
    """explores all the paths of a contract (those that extend the decision
    prefixes of `stack`); with `expand`, stops when that many prefixes are
    pending and leaves them in the result"""
    global CTX
    o = {'time': 120, 'max_paths': 6000}
    o.update(opts or {}); o.update(c.opts)
    ctx = Context(c, o)
    from . import instr
    stack = [[]] if stack is None else list(stack)
    t0 = time.time()
    ctx.result.pending = []
    while stack:
        if expand and (len(stack) >= expand or time.time() - t0 > 4):
            ctx.result.pending = stack
            break
        prefix = stack.pop(0 if expand else -1)
        if ctx.result.paths >= o['max_paths'] or time.time() > ctx.deadline:
            ctx.result.unsupported.append('path or time limit (%d paths, %d pending)' % (
                ctx.result.paths, len(stack) + 1))
            break
        ctx.reset(prefix)
        CTX = ctx
        instr.reset_hooks()
        ctx.result.paths += 1
        try:
            try:
                c.fn(ctx)
                ctx.alive()
                ctx.result.ended += 1
            except Exception:
                if ctx.aborted is not None: raise ctx.aborted
                raise
        except PathEnd:
            pass
        except Unsupported as e:
            ctx.result.unsupported.append(str(e) + where(sys.exc_info()[2]))
        except Exception as e:
            import traceback
            repo = in_repo(sys.exc_info()[2])
            txt = '%s: %s%s' % (type(e).__name__, e, where(sys.exc_info()[2]))
            if repo and not isinstance(e, (TypeError, AttributeError, NotImplementedError)) and ctx.sat() == z3.sat:
                ctx.result.obligations.append({
                    'name': 'no_exception', 'kind': 'exception', 'status': 'refuted',
                    'backend': 'z3', 'time': 0, 'model': ctx.model_of(ctx.solver.model()),
                    'path': '', 'detail': txt})
            else:
                ctx.result.unsupported.append(txt)
                if o.get('debug'): traceback.print_exc()
        stack.extend(reversed(ctx.todo))
    ctx.result.wall = time.time() - t0
    CTX = None
    return ctx.result

def where(tb):
    out = ''
    while tb is not None:
        f = tb.tb_frame.f_code
        if '/pdfme/' in f.co_filename or 'contracts' in f.co_filename:
            out = ' at %s:%d' % (f.co_filename.split('/')[-1], tb.tb_lineno)
        tb = tb.tb_next
    return out

def in_repo(tb):
    """the exception was raised by the code of the package (or by a subscript or a number operation it does)"""
    frames = []
    while tb is not None:
        f = tb.tb_frame.f_code
        frames.append((f.co_filename, f.co_name))
        tb = tb.tb_next
    while frames and frames[-1][0].endswith(('pyvc/instr.py', 'pyvc/engine.py')) and frames[-1][1] in ('h_getitem', 'at', '__getitem__', '_div', '__truediv__', '__rtruediv__'):
        frames.pop()
    return bool(frames) and '/pdfme/' in frames[-1][0]
