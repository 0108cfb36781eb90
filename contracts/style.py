"""C19: styles and colours."""
import re
from pyvc.engine import *
from pyvc.stream import *
from pyvc import instr
from textline import raw, ctx
from doc import same_value, Token
from parse import find
from _css import CSS

U, C = 'pdfme.utils.', 'pdfme.color.'

# --------------------------------------------------------------------------- colours

class HexText:
    """'#' and hexadecimal digits of any value and case"""
    _vc_ghost = True
    def __init__(self, units): self.u = units
    def _vc_isinstance(self, t): return issubclass(str, t)
    def _vc_len(self): return len(self.u)
    def __len__(self): return len(self.u)
    def __iter__(self): return iter([HexText([x]) for x in self.u])
    def __getitem__(self, i): return HexText(self.u[i] if isinstance(i, slice) else [self.u[i]])
    def __add__(self, o):
        if isinstance(o, HexText): return HexText(self.u + o.u)
        if isinstance(o, str) and set(o) <= {'#'}: return HexText(self.u + list(o))
        raise Unsupported('text of digits and other text')
    def __mul__(self, n): return HexText(self.u * n)
    def __eq__(self, o):
        if not isinstance(o, str) or len(o) != len(self.u): return False
        if all(a == b for a, b in zip(self.u, o) if a == '#' or b == '#') and not any((a == '#') != (b == '#') for a, b in zip(self.u, o)):
            if all(a == '#' for a in self.u): return True
            raise Unsupported('digit')
        return False
    def __ne__(self, o): return not self == o
    def __hash__(self): return id(self)
    def _vc_int(self, base=10):
        if base != 16 or not self.u or '#' in self.u: raise ValueError('digits')
        v = 0
        for d in self.u: v = v * 16 + d
        return v
    def upper(self): return self
    lower = upper
    def lstrip(self, c=None):
        u = list(self.u)
        while u and u[0] == '#' and c == '#': u = u[1:]
        return HexText(u)
    def startswith(self, s): return s == '#' and self.u[0] == '#'

class Re:
    """the module re: a text of digits matches when every one of a number of texts of digits does"""
    _vc_ghost = True
    def __getattr__(self, n):
        f = getattr(re, n)
        if n not in ('match', 'fullmatch', 'search'): return f
        def g(pat, s, *a):
            if not isinstance(s, HexText): return f(pat, s, *a)
            r = {f(pat, ''.join('#' if x == '#' else d[i % len(d)] for i, x in enumerate(s.u)), *a) is not None
                for d in list('0123456789abcdefABCDEF') + ['0a', 'Ff', '9A', 'f0', '0123456789ABCDEFabcdef'[::-1]]}
            if len(r) > 1: raise Unsupported('pattern %r' % pat)
            return Token('match') if r == {True} else None
        return g

def comps(vc, r, want):
    vc.check('components', isinstance(r, list) and len(r) == len(want))
    for i, (a, b) in enumerate(zip(r, want)): vc.check('component_%d' % i, isinstance(a, (int, float, SNum)) and near(a, b))

def rejected(vc, f, v):
    try: f(v); ok = False
    except Exception: ok = True
    vc.check('invalid_colours_are_rejected', ok, detail=repr(v))
    if not ok: vc.result.obligations[-1]['model'] = {'color': repr(v)}

NOT_HEX = [chr(i) for i in range(128) if chr(i) not in '0123456789abcdefABCDEF'] + ['\u00e9', '\u0660', '\uff10', '\u2028', '\x85', '\U0001d7ce']

@contract('parse_color', funcs=[C + 'parse_color'], props=['C19'])
def parse_color(vc):
    f = instr.lookup(C + 'parse_color')[2]
    instr.stub(C + 're', Re())
    kind = vc.choose(10, 'form')
    if kind == 0:
        vc.check('no_colour', f(None) is None and f('') is None)
    elif kind == 1:
        v = (vc.real('gray'), vc.int('gray'))[vc.choose(2, 'type')]
        comps(vc, f(v), [v])
    elif kind == 2:
        # the names are finitely many
        b = vc.choose(4, 'block')
        for n in sorted(CSS)[b::4]:
            r = f(n)
            ok = isinstance(r, list) and len(r) == 3 and all(abs(a - x / 255) < .0065 for a, x in zip(r, CSS[n]))
            vc.check('named_colour', ok, detail='%s is %r' % (n, r))
            if not ok: vc.result.obligations[-1]['model'] = {'color': n}
            r2 = f(n)
            vc.check('same_colour_again', r2 == r)
    elif kind == 3:
        n = (3, 4)[vc.choose(2, 'alpha')]
        d = [vc.int('digit%d' % i) for i in range(n)]
        for x in d: vc.assume(x >= 0); vc.assume(x <= 15)
        comps(vc, f(HexText(['#'] + d)), [x * 17 / 255 for x in d[:3]])
    elif kind == 4:
        n = (6, 8)[vc.choose(2, 'alpha')]
        d = [vc.int('digit%d' % i) for i in range(n)]
        for x in d: vc.assume(x >= 0); vc.assume(x <= 15)
        comps(vc, f(HexText(['#'] + d)), [(d[i] * 16 + d[i + 1]) / 255 for i in (0, 2, 4)])
    elif kind == 5:
        n = (1, 3)[vc.choose(2, 'components')]
        v = [(vc.real('c%d' % i), vc.int('c%d' % i))[vc.choose(2, 'type')] for i in range(n)]
        r = f((' ', ',')[vc.choose(2, 'separator')].join(str(x) for x in v))
        comps(vc, r, v)
    elif kind == 6:
        n = (1, 3)[vc.choose(2, 'components')]
        v = [(vc.real('c%d' % i), vc.int('c%d' % i))[vc.choose(2, 'type')] for i in range(n)]
        given = [str(x) if vc.choose(2, 'text') else x for x in v]
        arg = (list, tuple)[vc.choose(2, 'tuple')](given)
        comps(vc, f(arg), v)
        vc.check('argument_kept', len(arg) == n and all(a is b for a, b in zip(arg, given)))
    elif kind == 7:
        # one character that is not a digit, at every position
        n = (4, 5, 7, 9)[vc.choose(4, 'length')]
        for i in range(1, n):
            for c in NOT_HEX:
                for d in '0f': rejected(vc, f, '#' + d * (i - 1) + c + d * (n - 1 - i))
    elif kind == 8:
        # no other length is a colour
        for n in (0, 1, 2, 5, 7, 9, 10, 12):
            for d in '0f9A': rejected(vc, f, '#' + d * n) if n + 1 not in (4, 5, 7, 9) else None
    else:
        v = [vc.real('c%d' % i) for i in range(6)]
        for n in (0, 2, 5, 6):
            rejected(vc, f, v[:n]); rejected(vc, f, tuple(v[:n]))
            if n: rejected(vc, f, ' '.join(str(x) for x in v[:n])); rejected(vc, f, ','.join(str(x) for x in v[:n]))
        for x in ('x', 'redd', 'Red ', '0.1 0.2 x', 'x 1 1', '1,2,', ['a'], ['a', 'b', 'c'], [None], [[1]], [1, None, 1], {}, {'a': 1}, object(), b'red', {1, 2, 3}): rejected(vc, f, x)
    vc.cover('form %d' % kind)

@contract('PDFColor', funcs=[C + 'PDFColor.__init__', C + 'PDFColor.__str__'], props=['C06', 'C11', 'C19', 'C20'])
def colour(vc):
    cls = instr.lookup(C + 'PDFColor')[2]
    n = (0, 1, 3)[vc.choose(3, 'components')]
    v = [vc.real('c%d' % i) for i in range(n)] if n else None
    for x in v or (): vc.assume(x >= 0); vc.assume(x <= 1)
    parsed = []
    token = Token('colour')
    instr.stub(C + 'parse_color', lambda c: (parsed.append(c), v)[1] if c is token else vc.abort(Unsupported('parse_color')))
    stroke = vc.choose(2, 'stroke') == 1
    c = cls(token, stroke) if vc.choose(2, 'default') == 0 or stroke else cls(token)
    vc.check('colour_given', len(parsed) == 1 and parsed[0] is token)
    vc.check('components_given', c.color is None if v is None else len(c.color) == n and conj(*[eq(a, b) for a, b in zip(c.color, v)]))
    vc.check('form_given', c.stroke is stroke)
    def text(c, stroke):
        t = str(c)
        if v is None: vc.check('no_text_without_colour', t == ''); return
        ws = t.split(' ')
        ops = {1: ('g', 'G'), 3: ('rg', 'RG')}[n]
        vc.check('operator', len(ws) == n + 1 and ws[-1] == ops[stroke])
        for w, x in zip(ws, v):
            p = pieces(w)
            vc.check('component_written', len(p) == 1 and isinstance(p[0], SNum) and near(p[0], x, .00051))
    text(c, stroke)
    d = cls(c, not stroke)
    vc.check('colour_of_a_colour', d.stroke is (not stroke) and (d.color is None if v is None else len(d.color) == n and conj(*[eq(a, b) for a, b in zip(d.color, v)])))
    vc.check('the_other_is_kept', c.stroke is stroke and (v is None or d.color is not c.color) and c is not d)
    text(d, not stroke); text(c, stroke)
    same = d == c
    vc.check('forms_are_different', same is False or not same)
    e = cls(c, stroke)
    vc.check('equal', e == c)
    vc.cover('colour')

# --------------------------------------------------------------------------- style strings

FAMILY = 'decided by the families known'

class Families:
    """the families registered: which of them is the one asked for is not known"""
    def __init__(s, vc): s.vc, s.asked, s.fam = vc, None, None
    def check(s, st, k, env, mode):
        if mode == 'establish': return
        # an iteration that does not stop: the family is not this one
        vc = st.ctx
        vc.check('stops_at_the_family', neg(s.vc_same()), kind='inv')
    def vc_same(s): return str_eq(s.fam, s.asked)
    def havoc(s, st, k):
        out = {}
        for n, v in st.pre._d.items():
            if v is False: out[n] = False
        return out

class Attrs:
    """after every element of a style string, the style has its attribute as well"""
    def __init__(self, vc, fams): self.vc, self.fams = vc, fams
    def check(self, st, k, env, mode):
        vc = st.ctx
        if mode == 'establish':
            names = find(env, lambda v: v == {}, 'the style')
            return
        s = env._d[self.name]
        vc.check('attribute_is_valid', self.known_family() if self.valid is FAMILY else self.valid, kind='inv')
        want = dict(self.before)
        if self.attr is not None: want[self.attr] = self.value
        vc.check('attributes', isinstance(s, dict) and set(s) == set(want))
        for a, v in want.items():
            g = s.get(a)
            if a != self.attr: vc.check('other_attributes_are_kept', g is v)
            elif isinstance(v, bool): vc.check('flag', g is v)
            elif callable(v): vc.check('value', v(g))
            else: vc.check('value', same_value(g, v))
        vc.cover('attribute %s' % self.attr)
    def known_family(self):
        c = [self.added] + ([self.fams.vc_same()] if self.fams.fam is not None else [])
        return disj(*c)
    def havoc(self, st, k):
        vc = st.ctx
        self.name = find(st.pre, lambda v: isinstance(v, dict) and v == {}, 'the style')[0]
        self.before = {a: Token('old ' + a) for a in ('b', 'i', 'u', 'f', 'c', 'bg', 's', 'r')} if vc.choose(2, 'before') else {}
        self.last = d = dict(self.before)
        st.touch(d)
        return {self.name: d}

@contract('parse_style_str', funcs=[U + 'parse_style_str'], props=['C19'], time=200)
def style_string(vc):
    n = vc.int('elements'); vc.assume(n >= 1)
    fams = Families(vc)
    loop = Attrs(vc, fams)
    blank = lambda s, w: (s, '  ' + s + ' ')[vc.choose(2, 'blanks ' + w)]
    colours = []
    def colour(arg, *a):
        if a: vc.abort(Unsupported('PDFColor'))
        if loop.attr not in ('c', 'bg'): vc.abort(Unsupported('PDFColor'))
        if not bool(loop.known_colour): raise TypeError('colour')
        c = Token('colour'); colours.append((c, arg))
        return c
    instr.stub(U + 'PDFColor', colour)
    class Fonts:
        _vc_ghost = True
        class D:
            _vc_ghost = True
            def __contains__(self, x):
                if str_eq(x, loop.family) is not True: vc.abort(Unsupported('family'))
                return bool(loop.added)
        fonts = D()
    def reg(k):
        fams.fam = SStr('registered', maybe_empty=False, word=True)
        return (fams.fam, 'n')
    regs = SList('registered_fonts', vc.int('registered'), reg, fams)
    vc.assume(regs.n >= 0)
    def word(name): return SStr(name, maybe_empty=False, word=True)
    def elem(k):
        loop.valid, loop.attr, loop.value = True, None, None
        c = vc.choose(12, 'element')
        if c == 0: return ''
        if c == 1:
            loop.attr = 'biu'[vc.choose(3, 'flag')]; loop.value = True
            return blank(loop.attr, 'a')
        if c == 2:
            loop.attr = 'biu'[vc.choose(3, 'flag')]
            v = vc.choose(3, 'value')
            if v < 2: loop.value = v == 1; t = str(v)
            else:
                w = word('value'); t = str(w); loop.valid = False
                vc.assume(neg(str_eq(w, '0'))); vc.assume(neg(str_eq(w, '1')))
            return blank(loop.attr, 'a') + ':' + blank(t, 'v')
        if c == 3:
            loop.attr = 'f'; loop.family = fams.asked = loop.value = word('family')
            loop.added = vc.bool('added')
            loop.valid = FAMILY
            return blank('f', 'a') + ':' + blank(str(loop.family), 'v')
        if c in (4, 5):
            loop.attr = ('c', 'bg')[c - 4]
            w = word('colour')
            loop.known_colour = vc.bool('known colour')
            loop.valid = loop.known_colour
            loop.value = lambda g: any(g is x and str_eq(t, w) is True for x, t in colours)
            return blank(loop.attr, 'a') + ':' + blank(str(w), 'v')
        if c == 6:
            x = (vc.real('size'), vc.int('size'))[vc.choose(2, 'type')]
            loop.attr = 's'
            loop.value = lambda g: isinstance(g, SNum) and conj(eq(g, x), implies(x.isint, g.isint))
            return 's:' + blank(str(x), 'v')
        if c == 7:
            x = vc.real('rise')
            loop.attr, loop.value = 'r', x
            return 'r:' + blank(str(x), 'v')
        loop.valid = False
        if c == 8: return ('b:1:1', 's:1:2', 'f:a:b', ':::')[vc.choose(4, 'three parts')]
        if c == 9: return ('x', 's', 'f', 'c', 'bg', 'r', 'bb', 'b i', 'B', 'b,u')[vc.choose(10, 'no value')]
        if c == 10: return ('x:1', 'B:1', 'ss:1', 'bi:1', ':1', 'C:red', 'F:a')[vc.choose(7, 'unknown')]
        return ('s:', 's:a', 's:1 2', 's:1,2', 'r:', 'r:x', 'r:1;'[:3] + ',', 's:inf', 's:nan')[vc.choose(9, 'no number')]
    parts = SList('elements', n, elem, loop)
    text = SStr('style', maybe_empty=False, meth={'split': lambda o, sep: parts if sep == ';' else vc.abort(Unsupported('split'))})
    cls = instr.lookup('pdfme.fonts.PDFFont')[2]
    old = cls.registered_fonts
    cls.registered_fonts = SDict('registered_fonts', SList('registered_fonts', regs.n, lambda k: (regs.at(k), 'path'), fams))
    try:
        r = instr.lookup(U + 'parse_style_str')[2](text, Fonts())
    except ValueError:
        if loop.valid is FAMILY:
            vc.check('families_known_are_accepted', neg(loop.added) if isinstance(loop.added, SBool) else not loop.added)
            vc.check('all_the_families_registered_were_considered', getattr(fams, 'completed', 0) >= 1)
            vc.cover('unknown family')
        else:
            vc.check('valid_elements_are_accepted', loop.valid is False)
            vc.cover('rejected')
        return
    except TypeError:
        vc.check('only_unknown_colours_are_rejected', loop.valid is loop.known_colour)
        vc.check('unknown_colour', neg(loop.known_colour))
        vc.cover('unknown colour')
        return
    finally:
        cls.registered_fonts = old
    vc.check('style', r is loop.last)
    vc.check('all_the_elements', getattr(loop, 'completed', 0) == 1)
    vc.cover('parsed')

# --------------------------------------------------------------------------- formats

class Entries:
    """the copy of a dict has its keys with the copies of the values"""
    def check(self, st, k, env, mode): pass
    def havoc(self, st, k): return {}

@contract('copy', funcs=[U + 'copy'], props=['C19', 'C20'])
def copy_(vc):
    """a copy has new lists and dicts all the way down, with the same values (the induction step: the recursive calls are
    taken by the contract)"""
    f = instr.lookup(U + 'copy')[2]
    made = []
    def rec(o):
        c = Token('copy')
        made.append((o, c))
        return c
    c = vc.choose(5, 'value')
    if c == 0:
        n = vc.int('elements'); vc.assume(n >= 0)
        l = SList('list', n, lambda i: Token('element'))
        instr.stub(U + 'copy', rec)
        r = f(l)
        vc.check('new_list', isinstance(r, SList) and r is not l and not r.partial and r.tail == [])
        vc.check('as_many_elements', eq(r.n, n))
        i = vc.int('i'); vc.assume(i >= 0); vc.assume(i < n)
        x = r.at(i)
        vc.check('copies_of_the_elements', any(x is m and o is l.at(i) for o, m in made))
    elif c == 1:
        l = [Token('a'), Token('b'), Token('c')][:vc.choose(4, 'length')]
        b = list(l)
        instr.stub(U + 'copy', rec)
        r = f(l)
        vc.check('new_list', type(r) is list and r is not l and l == b)
        vc.check('copies_of_the_elements', len(r) == len(l) and all((o, x) in made for o, x in zip(l, r)))
    elif c == 2:
        d = {k: Token(k) for k in ('a', 'b', 'c')[:vc.choose(4, 'length')]}
        b = dict(d)
        instr.stub(U + 'copy', rec)
        r = f(d)
        vc.check('new_dict', type(r) is dict and r is not d and d == b)
        vc.check('copies_of_the_values', list(r) == list(d) and all((d[k], r[k]) in made for k in d))
    elif c == 3:
        x = {'a': [1, {'b': [2, []]}], 'c': {}, 'd': [[3]]}
        r = f(x)
        seen = []
        def walk(o):
            if isinstance(o, (list, dict)):
                seen.append(id(o))
                for y in (o.values() if isinstance(o, dict) else o): walk(y)
        walk(x); n = len(seen); walk(r)
        vc.check('equal', r == x)
        vc.check('nothing_shared', len(set(seen)) == 2 * n)
    else:
        for v in (vc.real('x'), 'text', True, None, Token('object')): vc.check('other_values_as_they_are', f(v) is v)
    vc.cover('value %d' % c)

@contract('process_style', funcs=[U + 'process_style'], props=['C19', 'C20'])
def process_style(vc):
    """a named format is copied, so that what is done with it does not change the formats of the document"""
    f = instr.lookup(U + 'process_style')[2]
    copies = []
    def cp(o):
        c = dict(o); copies.append((o, c)); return c
    instr.stub(U + 'copy', cp)
    name = SStr('name', maybe_empty=False)
    fmt = {'b': Token('b')}
    class Formats:
        _vc_ghost = True
        def __getitem__(self, k):
            if k is not name: vc.abort(Unsupported('format'))
            if not bool(known): raise KeyError(k)
            return fmt
        def __contains__(self, k):
            if k is not name: vc.abort(Unsupported('format'))
            return bool(known)
        def get(self, k, d=None): return fmt if k in self else d
    known = vc.bool('known')
    pdf = raw('pdfme.pdf.PDF', formats=Formats())
    c = vc.choose(5, 'style')
    if c == 0: vc.check('no_style', f(None) == {} and f(None, pdf) == {})
    elif c == 1: vc.check('no_formats', f(name) == {})
    elif c == 2:
        try: r = f(name, pdf)
        except Exception: vc.check('formats_known_are_accepted', neg(known)); vc.cover('unknown format'); return
        vc.check('formats_not_known_are_rejected', known)
        vc.check('copy_of_the_format', len(copies) == 1 and copies[0][0] is fmt and r is copies[0][1])
    elif c == 3:
        d = {'a': Token('a')}
        b = dict(d)
        r = f(d, pdf) if vc.choose(2, 'document') else f(d)
        vc.check('dict_as_given', r == b and d == b)
    else:
        for v in (1, [1], (1, 2), object(), 2.5):
            try: f(v, pdf); ok = False
            except Exception: ok = True
            vc.check('other_styles_are_rejected', ok)
    vc.cover('style %d' % c)
