"""Arbitrary texts transformed character by character.

A MapStr stands for any text over an alphabet of units; `img` has what every unit became.  The operations that act on
each character by itself (replace of a single character, translate, comprehensions, encode, re.sub of a single character
pattern) are applied to the image of every unit of the alphabet, so that what holds for the images holds for all texts,
of any length."""
import re
from . import engine as E
from .engine import SNum, SBool, SStr, Unsupported

class MapStr(SStr):
    def __init__(self, name, img, bytes_=False, like=None):
        SStr.__init__(self, name, bytes_=bytes_)
        if like is not None: E.CTX.assume(E.SBool((self.len.e == 0) == (like.len.e == 0)))
        self.img = img
        self.data['meth'] = dict(replace=MapStr.replace_, translate=MapStr.translate_, encode=MapStr.encode_, decode=MapStr.decode_, hex=MapStr.hex_)
    def map(self, f, bytes_=None):
        cache = {}
        def g(s):
            if s not in cache: cache[s] = f(s)
            return cache[s]
        return MapStr(self.name, {u: g(s) for u, s in self.img.items()}, self.is_bytes if bytes_ is None else bytes_, self)
    def replace_(self, a, b, *n):
        tx = lambda x: x.decode('latin') if self.is_bytes else x
        a, b = tx(a), tx(b)
        if n or len(a) != 1 or E.has_token(a) or E.has_token(b): E.CTX.abort(Unsupported('replace(%r, %r) of any text' % (a, b)))
        return self.map(lambda s: s.replace(a, b))
    def translate_(self, t): return self.map(lambda s: s.translate(t))
    def encode_(self, enc='utf-8', *a):
        if a: E.CTX.abort(Unsupported('encode with errors'))
        return self.map(lambda s: s.encode(enc).decode('latin'), True)
    def decode_(self, enc='utf-8', *a):
        if a or enc.lower() not in ('latin', 'latin-1', 'latin1', 'iso-8859-1'): E.CTX.abort(Unsupported('decode'))
        return self.map(lambda s: s, False)
    def hex_(self, *a):
        if a: E.CTX.abort(Unsupported('hex'))
        return self.map(lambda s: s.encode('latin').hex(), False)
    def comp(self, elt):
        """[elt(c) for c in text], to be joined"""
        return MapItems(self, elt)
    def comp_if(self, elt, cond): return MapItems(self, elt, cond)

class MapItems:
    def __init__(self, s, elt, cond=None): self.s, self.elt, self.cond = s, elt, cond
    def comp(self, elt): return MapItems(self.s, lambda c: elt(self.elt(c)), self.cond)
    def joined(self, sep):
        if sep: E.CTX.abort(Unsupported('join with a separator'))
        def f(s):
            out = [self.elt(c) for c in s if self.cond is None or self.cond(c)]
            if not all(isinstance(x, str) and not E.has_token(x) for x in out): E.CTX.abort(Unsupported('comprehension over any text'))
            return ''.join(out)
        return self.s.map(f, False)

class Units(MapStr):
    """any text of ghost characters: a unit is a tuple of ghosts, which the code turns into characters one by one"""
    def __init__(self, name, units):
        MapStr.__init__(self, name, {u: (u,) for u in units})
    def map(self, f, bytes_=None):
        return MapStr(self.name, {u: f(s) for u, s in self.img.items()}, False, self)
    for _n in ('replace_', 'translate_', 'encode_', 'decode_', 'hex_'):
        exec('def %s(self, *a): E.CTX.abort(Unsupported("text of ghost characters"))' % _n)

class Domain:
    """a finite domain, all of whose values are computed with at once"""
    def __init__(self, values):
        self.values = list(values)
        self.keep = None                       # indices not excluded by the branches taken
    def indices(self): return range(len(self.values)) if self.keep is None else self.keep
    def split(self, bools):
        yes = [i for i in self.indices() if bools[i]]
        no = [i for i in self.indices() if not bools[i]]
        if not yes: return False
        if not no: return True
        if E.CTX.choose(2, 'branch') == 0: self.keep = yes; return True
        self.keep = no; return False

class Pt(SStr):
    """a value that depends on one element of a finite domain, known for every element"""
    _vc_ghost = True
    def __init__(self, dom, vals):
        self.dom, self.vals = dom, vals
        SStr.__init__(self, 'value')
        self.data['meth'] = {n: self.op(n) for n in ('encode', 'decode', 'hex', 'upper', 'lower', 'zfill', 'strip', 'lstrip', 'rstrip', 'replace', 'startswith',
            'endswith', 'rjust', 'ljust', '__getitem__')}
    def pt(self, f):
        out = [None] * len(self.vals)
        for i in self.dom.indices(): out[i] = f(self.vals[i])
        return Pt(self.dom, out)
    def op(self, name): return lambda o, *a, **k: self.pt(lambda v: getattr(v, name)(*a, **k)).boolean()
    def boolean(self):
        i = next(iter(self.dom.indices()))
        return self.dom.split(self.vals) if isinstance(self.vals[i], bool) else self
    def all(self): return [(self.dom.values[i], self.vals[i]) for i in self.dom.indices()]
    def _vc_len(self): return self.pt(len)
    def _vc_int(self, *a): return self.pt(lambda v: int(v, *a))
    def _vc_str(self): return self.pt(str)
    def _vc_chr(self): return self.pt(chr)
    def _vc_ord(self): return self.pt(ord)
    def _vc_hex(self): return self.pt(hex)
    def _vc_isinstance(self, t): return isinstance(self.vals[next(iter(self.dom.indices()))], t)
    def cmp(self, o, f):
        if isinstance(o, (Pt, SNum, SBool, SStr)) or E.has_token(o): E.CTX.abort(Unsupported('comparison of two symbolic values'))
        return self.pt(lambda v: f(v, o)).boolean()
    def __eq__(self, o): return self.cmp(o, lambda a, b: a == b)
    def __ne__(self, o): return self.cmp(o, lambda a, b: a != b)
    def __lt__(self, o): return self.cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self.cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self.cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self.cmp(o, lambda a, b: a >= b)
    def __getitem__(self, i): return self.pt(lambda v: v[i])
    def __hash__(self): return id(self)
    def __format__(self, spec): return self.pt(lambda v: format(v, spec)).tok if spec else self.tok
    def __str__(self): return self.tok
    def __bool__(self): return self.dom.split([None if v is None else bool(v) for v in self.vals])

def pt_text(text):
    """text made of literals and Pts of one domain -> [(value, text)]"""
    ps = E.pieces(text)
    dom = next((p.dom for p in ps if isinstance(p, Pt)), None)
    if dom is None or any(isinstance(p, Pt) and p.dom is not dom or not isinstance(p, (str, Pt)) for p in ps): return None
    def tx(v): return v.decode('latin') if isinstance(v, bytes) else str(v)
    return [(dom.values[i], ''.join(p if isinstance(p, str) else tx(p.vals[i]) for p in ps)) for i in dom.indices()]

class Re:
    """the module re, for patterns of one character"""
    _vc_ghost = True
    def __getattr__(self, n): return getattr(re, n)
    def sub(self, pat, rep, s, *a, **k):
        if not isinstance(s, MapStr): return re.sub(pat, rep, s, *a, **k)
        import re._parser as p
        if a or k or tuple(p.parse(pat).getwidth()) != (1, 1): E.CTX.abort(Unsupported('re.sub over any text'))
        return s.map(lambda x: re.sub(pat, rep, x))

ESC = {'n': 10, 'r': 13, 't': 9, 'b': 8, 'f': 12, '(': 40, ')': 41, '\\': 92}

def literal(img):
    """the bytes that an image reads as inside of a literal string whatever is around it; None when it depends on it"""
    out = []
    i = 0
    while i < len(img):
        c = img[i]
        if ord(c) > 255: return None
        if c == '\\':
            i += 1
            if i >= len(img): return None
            d = img[i]
            if d in ESC: out.append(ESC[d])
            elif d in '01234567':
                if len(img) < i + 3 or any(x not in '01234567' for x in img[i:i + 3]): return None
                v = int(img[i:i + 3], 8)
                if v > 255: return None
                out.append(v); i += 2
            elif d in '\r\n' : return None
            else: out.append(ord(d))
        elif c in '()\r': return None
        else: out.append(ord(c))
        i += 1
    return bytes(out)
