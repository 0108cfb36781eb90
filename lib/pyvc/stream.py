"""Meaning of content streams whose numbers and texts may be symbolic: a lexer
for texts with tokens and an interpreter of the graphics and text operators
(PDF 32000-1, 8.4, 8.5, 9.3, 9.4) that folds a stream over a graphics state."""
from fractions import Fraction

import z3

from . import engine as E
from .engine import SNum, SBool, SStr, Unsupported

class BadStream(Exception):
    """the stream is not valid PDF"""

NUMCH = set('0123456789+-.')
WS = set(' \n\r\t\x00\x0c')
DELIM = set('()<>[]{}/%')

def chars(text):
    """flattens a text into characters and token objects"""
    out = []
    for p in E.pieces(text):
        if isinstance(p, str): out.extend(p)
        else: out.append(p)
    return out

def lex(text):
    cs = chars(text)
    out = []
    i, n = 0, len(cs)
    while i < n:
        c = cs[i]
        if isinstance(c, str) and c in WS:
            i += 1
        elif isinstance(c, SNum):
            j = i + 1
            if j < n and not (isinstance(cs[j], str) and (cs[j] in WS or cs[j] in DELIM)):
                raise BadStream('number glued to %r' % (cs[j],))
            out.append(('num', c)); i = j
        elif isinstance(c, SStr):
            out.append(('opaque', c)); i += 1
        elif isinstance(c, E.Padded):
            out.append(('num', c.num)); i += 1
        elif c in '[]':
            out.append((c,)); i += 1
        elif c == '(':
            depth, j, body = 1, i + 1, []
            while True:
                if j >= n: raise BadStream('unterminated string')
                d = cs[j]
                if not isinstance(d, str):
                    body.append(d); j += 1
                    continue
                if d == '\\':
                    body.append(d); j += 1
                    if j >= n: raise BadStream('unterminated string')
                    body.append(cs[j]); j += 1
                    continue
                if d == '(': depth += 1
                if d == ')':
                    depth -= 1
                    if depth == 0: break
                body.append(d); j += 1
            out.append(('str', body)); i = j + 1
        elif c == '/':
            j = i + 1; body = []
            while j < n and not (isinstance(cs[j], str) and (cs[j] in WS or cs[j] in DELIM)):
                body.append(cs[j]); j += 1
            out.append(('name', body)); i = j
        elif c == '-' and i + 1 < n and isinstance(cs[i + 1], SNum):
            # "-{}": only a number when the value is not negative
            v = cs[i + 1]
            j = i + 2
            if j < n and not (isinstance(cs[j], str) and (cs[j] in WS or cs[j] in DELIM)):
                raise BadStream('number glued to %r' % (cs[j],))
            out.append(('negnum', v)); i = j
        elif c in DELIM:
            raise BadStream('unexpected %r' % c)
        else:
            j = i; w = ''
            while j < n and isinstance(cs[j], str) and cs[j] not in WS and cs[j] not in DELIM:
                w += cs[j]; j += 1
            if j < n and isinstance(cs[j], SStr) and cs[j].data.get('starts_ws'): pass
            elif j < n and not isinstance(cs[j], str): raise BadStream('text glued to a number: %r' % w)
            if w[0] in NUMCH:
                try: out.append(('num', Fraction(w)))
                except ValueError: raise BadStream('bad number %r' % w)
                if 'e' in w or 'E' in w or '/' in w: raise BadStream('bad number %r' % w)
            else:
                out.append(('op', w))
            i = j
    return out

class GState:
    """graphics state; None: the value is not known (never set in the stream)"""
    FIELDS = ('fill', 'stroke', 'width', 'cap', 'dash', 'font', 'size', 'tw', 'ts', 'tx', 'ty', 'cx', 'cy')
    def __init__(self, **k):
        for f in self.FIELDS: setattr(self, f, None)
        self.cx = self.cy = 0
        self.__dict__.update(k)
        self.stack = []
        self.path = []
        self.events = []
        self.intext = False
        self.opaques = []
    def clone(self):
        g = GState(**{f: getattr(self, f) for f in self.FIELDS})
        g.stack, g.path, g.events = list(self.stack), list(self.path), []
        g.intext = self.intext
        return g

    def run(self, text, opaque=None):
        """folds the operators of text; `opaque(state, SStr)` gives the meaning
        of opaque parts"""
        args = []
        arr = None
        for t in lex(text):
            k = t[0]
            if k == 'num': v = t[1]
            elif k == 'negnum':
                E.CTX.check('nonnegative_after_minus_sign', (t[1] >= 0))
                v = -t[1]
            elif k in ('str', 'name'): v = t
            elif k == '[':
                if arr is not None: raise BadStream('nested array')
                arr = []; continue
            elif k == ']':
                if arr is None: raise BadStream(']')
                v, arr = arr, None
            elif k == 'opaque':
                if arr is not None: arr.append(t); continue
                if args: raise BadStream('operands before opaque text')
                if opaque is None: raise Unsupported('opaque text in a stream')
                opaque(self, t[1]); continue
            else:
                self.op(t[1], args); args = []
                continue
            if arr is not None: arr.append(v)
            else: args.append(v)
        if args or arr is not None: raise BadStream('operands without operator')
        return self

    def need(self, args, n, op, types=None):
        if len(args) != n: raise BadStream('%s with %d operands' % (op, len(args)))
        if types is None:
            for a in args:
                if not E.is_num(a): raise BadStream('%s with operand %r' % (op, a))

    def op(self, op, a):
        if op == 'q':
            self.need(a, 0, op)
            self.stack.append({f: getattr(self, f) for f in self.FIELDS if f not in ('tx', 'ty')})
        elif op == 'Q':
            self.need(a, 0, op)
            if not self.stack: raise BadStream('Q without q')
            self.__dict__.update(self.stack.pop())
        elif op == 'g': self.need(a, 1, op); self.fill = tuple(a)
        elif op == 'rg': self.need(a, 3, op); self.fill = tuple(a)
        elif op == 'G': self.need(a, 1, op); self.stroke = tuple(a)
        elif op == 'RG': self.need(a, 3, op); self.stroke = tuple(a)
        elif op == 'w': self.need(a, 1, op); self.width = a[0]
        elif op == 'J': self.need(a, 1, op); self.cap = a[0]
        elif op == 'd':
            if len(a) != 2 or not isinstance(a[0], list) or not E.is_num(a[1]): raise BadStream('d')
            self.dash = (tuple(a[0]), a[1])
        elif op == 'cm':
            self.need(a, 6, op)
            if self.path: raise BadStream('cm inside a path')
            if [E.concrete(x) for x in a[:4]] != [1, 0, 0, 1]: raise Unsupported('cm with scale')
            self.cx, self.cy = self.cx + a[4], self.cy + a[5]
        elif op == 're': self.need(a, 4, op); self.path.append(('re', a[0] + self.cx, a[1] + self.cy, a[2], a[3]))
        elif op == 'm': self.need(a, 2, op); self.path.append(('m', a[0] + self.cx, a[1] + self.cy))
        elif op == 'l':
            self.need(a, 2, op)
            if not self.path: raise BadStream('l without current point')
            self.path.append(('l', a[0] + self.cx, a[1] + self.cy))
        elif op in ('f', 'F'):
            self.need(a, 0, op)
            self.events.append(dict(kind='fill', path=self.path, color=self.fill)); self.path = []
        elif op == 'S':
            self.need(a, 0, op)
            self.events.append(dict(kind='stroke', path=self.path, color=self.stroke, width=self.width,
                cap=self.cap, dash=self.dash)); self.path = []
        elif op == 'BT':
            if self.intext: raise BadStream('BT in BT')
            self.intext = True; self.tx = self.ty = 0; self.px = 0
        elif op == 'ET':
            if not self.intext: raise BadStream('ET')
            self.intext = False
        elif op == 'Tm':
            self.need(a, 6, op)
            if [E.concrete(x) for x in a[:4]] != [1, 0, 0, 1]: raise Unsupported('Tm with scale')
            self.tx, self.ty = a[4], a[5]
        elif op == 'Td':
            self.need(a, 2, op)
            self.tx, self.ty = self.tx + a[0], self.ty + a[1]
            self.events.append(dict(kind='td', x=self.tx, y=self.ty, dx=a[0], dy=a[1]))
        elif op == 'Tf':
            if len(a) != 2 or a[0][0] != 'name': raise BadStream('Tf')
            self.font, self.size = a[0][1], a[1]
        elif op == 'Tw': self.need(a, 1, op); self.tw = a[0]
        elif op == 'Ts': self.need(a, 1, op); self.ts = a[0]
        elif op in ('Tj', 'TJ'):
            if len(a) != 1: raise BadStream(op)
            items = [a[0]] if op == 'Tj' else a[0]
            for it in items:
                if not (E.is_num(it) or it[0] in ('str', 'opaque')): raise BadStream(op)
            self.events.append(dict(kind='text', items=items, font=self.font, size=self.size,
                tw=self.tw, ts=self.ts, fill=self.fill, x=self.tx, y=self.ty))
        else:
            raise BadStream('unknown operator %r' % op)

HALF = Fraction(1, 2000)

def near(a, b, tol=HALF):
    """|a - b| <= tol as an SBool"""
    ea, eb = E.to_real(E.const(a)), E.to_real(E.const(b))
    t = z3.RealVal(str(tol))
    return SBool(E.simp(z3.And(ea - eb <= t, eb - ea <= t)))

def eq(a, b):
    ea, eb = E.to_real(E.const(a)), E.to_real(E.const(b))
    return SBool(E.simp(ea == eb))

def conj(*cs):
    return SBool(z3.And([c.e if isinstance(c, SBool) else z3.BoolVal(bool(c)) for c in cs]))
def disj(*cs):
    return SBool(z3.Or([c.e if isinstance(c, SBool) else z3.BoolVal(bool(c)) for c in cs]))
def implies(a, b):
    f = lambda c: c.e if isinstance(c, SBool) else z3.BoolVal(bool(c))
    return SBool(z3.Implies(f(a), f(b)))
def ite(c, a, b):
    if isinstance(c, bool): return a if c else b
    ea, eb = E.const(a), E.const(b)
    if z3.is_int(ea) != z3.is_int(eb): ea, eb = E.to_real(ea), E.to_real(eb)
    return SNum(z3.If(c.e, ea, eb))
