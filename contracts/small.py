"""C01, C02, C04, C06, C17, C20: the small operations the others are built with."""
from pyvc.engine import *
from pyvc.stream import *
from pyvc import instr
from textline import raw, ctx
from doc import Token, same_value, document, args_are, record
from _maps import *

P = 'pdfme.'

@contract('PDFObject items', funcs=[P + 'parser.PDFObject.' + n for n in ('__init__', '__getitem__', '__setitem__', '__delitem__', '__contains__')], props=['C01', 'C02'])
def object_items(vc):
    Ref, Obj = instr.lookup(P + 'parser.PDFRef')[2], instr.lookup(P + 'parser.PDFObject')[2]
    ref = Ref(7)
    a, b, v = Token('a'), Token('b'), Token('v')
    d = {'A': a, 'B': b}
    if vc.choose(2, 'dict') == 0:
        o = Obj(ref, [a, b])
        vc.check('item_of_list', o[0] is a and o[1] is b and o.value[1] is b and o.id is ref)
        o[1] = v
        vc.check('item_set_in_list', o.value == [a, v])
        return
    o = Obj(ref, d)
    vc.check('object', o.id is ref and o.value is d and int(o.id) == 7)
    vc.check('item', o['A'] is a and o['B'] is b)
    vc.check('contains', 'A' in o and 'C' not in o)
    o['C'] = v
    vc.check('item_set', o.value == {'A': a, 'B': b, 'C': v})
    del o['A']
    vc.check('item_deleted', o.value == {'B': b, 'C': v})
    try: o['A']; vc.check('no_such_item', False)
    except KeyError: pass

@contract('PDFBase items', funcs=[P + 'base.PDFBase.' + n for n in ('__getitem__', '__setitem__', '__len__', 'add')], props=['C01'])
def base_items(vc):
    """objects are found by their ids: base[obj.id] is obj, for all the objects added"""
    n = vc.int('objects'); vc.assume(n >= 0)
    Obj = instr.lookup(P + 'parser.PDFObject')[2]
    class Ref(SNum):
        """PDFRef: an int"""
        def __init__(self, i): SNum.__init__(self, SNum(const(i)).e)
        def _vc_isinstance(self, t): return any(x in (Ref, int) for x in (t if isinstance(t, tuple) else (t,)))
    instr.stub(P + 'parser.PDFRef', Ref)
    old = SList('content', n, lambda i: Token('object'))
    b = raw(P + 'base.PDFBase', content=old, count=n + 1, trailer={})
    i = vc.int('id'); vc.assume(i >= 0); vc.assume(i <= n)
    if vc.choose(2, 'none') == 0:
        vc.assume(i == 0)
        vc.check('no_object_zero', b[i] is None); return
    vc.assume(i > 0)
    vc.check('object_by_its_id', b[i] is old.at(i - 1))
    v = {'K': Token('value')}
    o = b.add(v)
    vc.check('added', o.value is v and eq(o.id, n + 1) and eq(b.count, n + 2) and eq(instr.HELPERS['VC_c_len'](b.content), n + 1))
    vc.check('found_by_its_id', b[o.id] is o)
    vc.check('others_kept', b[i] is old.at(i - 1))

@contract('PDFColor comparisons', funcs=[P + 'color.PDFColor.' + n for n in ('__eq__', '__neq__')], props=['C11', 'C19'])
def colors(vc):
    C = P + 'color.PDFColor'
    a = raw(C, color=('x', 'y')[vc.choose(2, 'a')], stroke=vc.choose(2, 'as') == 1)
    b = raw(C, color=('x', 'y')[vc.choose(2, 'b')], stroke=vc.choose(2, 'bs') == 1)
    same = a.color == b.color and a.stroke == b.stroke
    vc.check('equal', (a == b) is same)
    vc.check('different', a.__neq__(b) is not same)
    none = raw(C, color=None, stroke=True)
    vc.check('none', (none == None) is True and (a == None) is False and a.__neq__(None) is True and none.__neq__(None) is False)
    vc.check('other_type', (a == 'x') is False)

@contract('PDFContentPart.add_top_margin', funcs=[P + 'content.PDFContentPart.add_top_margin'], props=['C14'])
def top_margin(vc):
    y = vc.real('y')
    starting = vc.choose(2, 'starting') == 1
    p = raw(P + 'content.PDFContentPart', y=y, starting=starting)
    m = vc.real('margin_top')
    has = vc.choose(2, 'margin')
    p.add_top_margin({'margin_top': m} if has else {})
    vc.check('below_by_the_margin', eq(p.y, y if starting or not has else y - m))
    vc.check('not_at_the_start', not p.starting)

@contract('PDFFont.register', funcs=[P + 'fonts.PDFFont.register'], props=['C20'])
def register(vc):
    F = instr.lookup(P + 'fonts.PDFFont')[2]
    kept = dict(F.registered_fonts)
    try:
        other = Token('other path')
        F.registered_fonts[('Other', 'n')] = other
        f, m, p = 'Family', ('n', 'b', 'i', 'bi')[vc.choose(4, 'mode')], Token('path')
        F.register(f, m, p)
        vc.check('registered', F.registered_fonts[(f, m)] is p)
        vc.check('others_kept', set(F.registered_fonts) == set(kept) | {('Other', 'n'), (f, m)} and F.registered_fonts[('Other', 'n')] is other
            and all(F.registered_fonts[k] is v for k, v in kept.items()))
    finally:
        F.registered_fonts.clear(); F.registered_fonts.update(kept)

@contract('PDF.add_font, size of the page', funcs=[P + 'pdf.PDF.add_font', P + 'pdf.PDF.width', P + 'pdf.PDF.height'], props=['C17', 'C20'])
def pdf_small(vc):
    log = []
    class Fonts:
        _vc_ghost = True
        def load_font(self, path, font_family, mode='n'): log.append((path, font_family, mode))
    pdf = document(vc, fonts=Fonts())
    a, b, c = Token('path'), Token('family'), Token('mode')
    pdf.add_font(a, b, c)
    vc.check('font_of_this_document', len(log) == 1 and all(x is y for x, y in zip(log[0], (a, b, c))))
    vc.check('size_of_the_page', conj(eq(pdf.width, pdf.page_.width), eq(pdf.height, pdf.page_.height)))

@contract('PDFTextBase.result', funcs=[P + 'text.PDFTextBase.result'], props=['C04', 'C06', 'C07', 'C09'])
def result(vc):
    names = dict(x='x', y='y', width='width', height='current_height', text_stream='text', graphics_stream='graphics', used_fonts='used_fonts', ids='ids')
    vals = {n: Token(n) for n in set(names.values()) | {'height', 'min_height', 'max_height'}}
    t = raw(P + 'text.PDFTextBase', **vals)
    r = t.result
    vc.check('result', set(r) == set(names) and all(r[k] is vals[a] for k, a in names.items()))

@contract('subs', funcs=[P + 'utils.subs'], props=['C01'])
def subs(vc):
    f = instr.lookup(P + 'utils.subs')[2]
    n, t = vc.int('n'), vc.int('m')
    vc.assume(n >= 0); vc.assume(t >= 0)
    r = f('{} {m} obj', n, m=t)
    ps = pieces(r)
    vc.check('filled_in', len(ps) == 4 and eq(ps[0], n) and eq(ps[2], t) and ps[1] in (b' ', ' ') and ps[3] in (b' obj', ' obj'))

@contract('base_font', funcs=[P + 'fonts.PDFStandardFont.base_font', P + 'fonts.PDFTrueTypeFont.base_font'], props=['C20'])
def base_font(vc):
    for c in ('PDFStandardFont', 'PDFTrueTypeFont'):
        t = Token('name')
        vc.check(c, raw(P + 'fonts.' + c, _base_font=t).base_font is t)
