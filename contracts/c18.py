"""C18: page numbers and page ranges."""
from pyvc.engine import *
from pyvc.stream import *
from pyvc import instr

def canonical_roman(n):
    out = ''
    for v, s in ((1000, 'M'), (900, 'CM'), (500, 'D'), (400, 'CD'), (100, 'C'), (90, 'XC'), (50, 'L'),
            (40, 'XL'), (10, 'X'), (9, 'IX'), (5, 'V'), (4, 'IV'), (1, 'I')):
        while n >= v:
            out += s; n -= v
    return out

@contract('to_roman.all_numbers', funcs=['pdfme.utils.to_roman'], props=['C18'])
def roman_all(vc):
    """the domain is finite and is enumerated completely"""
    f = instr.lookup('pdfme.utils.to_roman')[2]
    i = vc.choose(8, 'block')
    for n in range(max(1, i * 500), (i + 1) * 500):
        r = f(n)
        vc.check('roman', r == canonical_roman(n), detail='to_roman(%d) = %r' % (n, r))
        if r != canonical_roman(n): vc.result.obligations[-1]['model'] = {'n': n}
    vc.cover('block')

@contract('to_roman.out_of_domain', funcs=['pdfme.utils.to_roman'], props=['C18'])
def roman_out(vc):
    f = instr.lookup('pdfme.utils.to_roman')[2]
    n = vc.int('n')
    vc.assume(disj(n <= 0, n >= 4000))
    try:
        f(n)
        ok = False
    except Exception:
        ok = True
    vc.check('numbers_without_roman_numeral_are_rejected', ok)

class Pred:
    """a set of integers given by an uninterpreted predicate"""
    _vc_ghost = True
    def __init__(self, f): self.f = f
    def __contains__(self, x):
        return bool(SBool(self.f(x.e)))

class PartsLoop:
    def __init__(self, vc):
        self.vc = vc
        self.M = z3.Function('M', z3.IntSort(), z3.BoolSort())
    def container(self, env):
        for n, v in env._d.items():
            if type(v).__name__ == 'MuiltiRange': return v
        raise Unsupported('no range container')
    def check(self, st, k, env, mode):
        vc = st.ctx
        x = vc.int('page')
        vc.assume(x >= 0); vc.assume(x < 10 ** 9)
        mr = self.container(env)
        got = x in mr
        if mode == 'establish':
            vc.check('nothing_selected_at_the_start', not got, kind='inv')
        else:
            want = disj(SBool(self.M(x.e)), denotes(self.part, x))
            vc.check('part_selects_exactly_its_pages', want if got else SBool(z3.Not(want.e)), kind='inv')
            vc.cover('part processed, selected' if got else 'part processed, not selected')
    def havoc(self, st, k):
        mr = self.container(st.pre)
        mr.ranges = [Pred(self.M)]
        st.mod.add((id(mr), 'ranges'))
        st.touch(mr.ranges)
        return {}

def denotes(part, x):
    """pages (from 0) a part of a range string denotes, as in python slices of
    non negative numbers"""
    if len(part) == 1: return x == part[0]
    start = 0 if part[0] is None else part[0]
    stop = part[1]
    step = 1 if len(part) < 3 or part[2] is None else part[2]
    c = [x >= start]
    if stop is not None: c.append(x < stop)
    if step != 1:
        s = const(step); c.append(SBool((x.e - const(start)) % s == 0))
    return conj(*c)

@contract('parse_range_string', funcs=['pdfme.utils.parse_range_string', 'pdfme.utils.MuiltiRange.add',
    'pdfme.utils.MuiltiRange.__contains__'], props=['C18'])
def ranges(vc):
    f = instr.lookup('pdfme.utils.parse_range_string')[2]
    loop = PartsLoop(vc)
    n = vc.int('parts'); vc.assume(n >= 1)
    def elem(k):
        shape = vc.choose(3, 'components') + 1
        part, txt = [], []
        for i in range(shape):
            if shape > 1 and vc.choose(2, 'empty'):
                part.append(None); txt.append(('', ' ')[vc.choose(2, 'blank')])
            elif i == 2:
                s = vc.choose(3, 'step') + 1
                part.append(s); txt.append(str(s))
            else:
                v = vc.int('c%d' % i); vc.assume(v >= 0); vc.assume(v < 10 ** 9)
                part.append(v); txt.append((' {}', '{}')[vc.choose(2, 'blank')].format(v))
        loop.part = part
        return ':'.join(txt)
    parts = SList('parts', n, elem, loop)
    s = SStr('ranges', maybe_empty=False, meth={'split': lambda o, sep: parts if sep == ',' else vc.abort(Unsupported('split'))})
    res = f(s)
    x = vc.int('page')
    vc.assume(x >= 0); vc.assume(x < 10 ** 9)
    got = x in res
    m = SBool(loop.M(x.e))
    vc.check('pages_selected_are_those_of_the_parts', m if got else SBool(z3.Not(m.e)))
    vc.cover('result')

@contract('get_page_number', funcs=['pdfme.pdf.PDF.get_page_number', 'pdfme.pdf.PDF.page_index'], props=['C18'])
def page_number(vc):
    PDF = instr.lookup('pdfme.pdf.PDF')[2]
    pdf = object.__new__(PDF)
    off = vc.int('offset')
    pdf.page_numbering_offset = off
    style = ('arabic', 'roman')[vc.choose(2, 'style')]
    pdf.page_numbering_style = style
    pdf.context = {}
    calls = []
    def roman(n):
        vc.check('roman_argument_in_domain_or_rejected', True)
        calls.append(n)
        return SStr('roman')
    instr.stub('pdfme.utils.to_roman', roman)
    i = vc.int('index'); vc.assume(i >= 0)
    pdf.page_index = i                      # what add_page does
    r = pdf.context['$page']
    vc.check('index_kept', eq(pdf.page_index, i))
    if style == 'roman':
        vc.check('roman_of_position', len(calls) >= 1 and eq(calls[-1], i + 1 + off))
        vc.check('roman_text', isinstance(r, SStr) and r.name == 'roman' or pieces(r)[0].name == 'roman')
    else:
        ps = pieces(r)
        vc.check('arabic_text', len(ps) == 1 and isinstance(ps[0], SNum) and eq(ps[0], i + 1 + off))
    vc.cover('number set')
