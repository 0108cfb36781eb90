"""C04, C08, C09, C10, C13, C14, C16, C17, C18: the document - its pages, its cursor, and how texts, tables, content
boxes and images are put in its pages."""
import inspect

from pyvc.engine import *
from pyvc.stream import *
from pyvc import instr
from textline import raw, ctx
from page import page_of, geometry, at_start, all_, Ref
import page as page_m
import z3

D = 'pdfme.pdf.PDF'

def record(qual, log, effect=None, name=None):
    """replaces a method by its contract: the calls are logged, with their arguments by name"""
    f = instr.lookup(qual)[2]
    sig = inspect.signature(f)
    name = name or qual.split('.')[-1]
    def stub(*a, **k):
        b = sig.bind(*a, **k)
        b.apply_defaults()
        args = dict(b.arguments)
        args.pop('self', None)
        log.append((name, args))
        return effect(a[0], args) if effect else None
    return instr.stub(qual, stub)

class Token:
    """any object, that the code only passes on"""
    _vc_ghost = True
    def __init__(self, name, isa=None): self.name, self.isa = name, isa
    def _vc_isinstance(self, t):
        return self.isa is not None and (issubclass(self.isa, t) if not isinstance(t, tuple) else any(issubclass(self.isa, x) for x in t))
    def __repr__(self): return '<%s>' % self.name

def new_cursor(vc, page):
    page.x, page._y = vc.real('x'), vc.real('_y')

def document(vc, page=None, anywhere=True, **k):
    """a document with any number of pages whose current page, the last one unless it can be anywhere, has any geometry and cursor,
    and whose next pages have any other"""
    n = vc.int('previous pages'); vc.assume(n >= 0)
    page = page or page_of(vc)
    if anywhere:
        more = vc.int('next pages'); vc.assume(more >= 0)
        others = {}
        def at(i):
            if bool(eq(i, n)): return page
            if repr(i) not in others:
                q = others[repr(i)] = page_of(vc)
                q.page = raw('pdfme.parser.PDFObject', id=Ref('other page'), value={})
            return others[repr(i)]
        pages = SList('pages', n + 1 + more, at)
    else:
        pages = SList('pages', n, lambda i: Token('other page'))
        pages.append(page)
    pdf = raw(D, pages=pages, _page_index=n, context={}, base=page_m.Base())
    pdf.page_width, pdf.page_height, pdf.rotate_page = vc.real('next page width'), vc.real('next page height'), Token('next page rotation')
    pdf.margin = {k: vc.real('next page ' + k) for k in ('top', 'right', 'bottom', 'left')}
    for a, v in k.items(): setattr(pdf, a, v)
    pdf.page_ = page
    return pdf

def all_done(vc, *loops):
    """the loops that have to go over all their elements did, once"""
    for l in loops: vc.check('all_of_' + type(l).__name__.lower(), getattr(l, 'completed', 0) == 1)

def same_value(a, b):
    """a and b are the same object, or equal numbers"""
    if a is b: return True
    if isinstance(a, (SNum, int, float)) and isinstance(b, (SNum, int, float)): return eq(a, b)
    if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)): return str_eq(a, b)
    return False

def args_are(vc, name, args, want, others=None):
    for k, v in want.items():
        vc.check('%s_%s' % (name, k), k in args and same_value(args[k], v))
    rest = {k: v for k, v in args.items() if k not in want}
    if others is not None: vc.check(name + '_nothing_else', all(v is None for k, v in rest.items() if k not in others))

# --------------------------------------------------------------------------- sizes and margins

ISO = {'a5': (419.528, 595.276), 'a4': (595.276, 841.89), 'a3': (841.89, 1190.551), 'b5': (498.898, 708.661), 'b4': (708.661, 1000.63),
    'jis-b5': (515.906, 728.504), 'jis-b4': (728.504, 1031.812), 'letter': (612, 792), 'legal': (612, 1008), 'ledger': (792, 1224)}

@contract('get_page_size', funcs=['pdfme.utils.get_page_size'], props=['C17'])
def page_size(vc):
    f = instr.lookup('pdfme.utils.get_page_size')[2]
    c = vc.choose(4, 'form')
    if c == 0:
        s = vc.real('size')
        r = f(s); want = (s, s)
    elif c == 1:
        names = sorted(ISO)
        name = names[vc.choose(len(names), 'name')]
        r = f(name); want = ISO[name]
    else:
        w, h = vc.real('width'), vc.real('height')
        r = f([w, h] if c == 2 else (w, h)); want = (w, h)
    vc.check('two_numbers', isinstance(r, (tuple, list)) and len(r) == 2)
    vc.check('size', conj(near(r[0], want[0], Fraction(1, 100)), near(r[1], want[1], Fraction(1, 100))) if c == 1 else conj(eq(r[0], want[0]), eq(r[1], want[1])))

def css(v):
    """the sides that a list of margins denotes"""
    n = len(v)
    if n == 0: return [0] * 4
    if n == 1: return [v[0]] * 4
    if n == 2: return [v[0], v[1], v[0], v[1]]
    if n == 3: return [v[0], v[1], v[2], v[1]]
    return v[:4]

@contract('parse_margin', funcs=['pdfme.utils.parse_margin'], props=['C17', 'C19'])
def margins(vc):
    f = instr.lookup('pdfme.utils.parse_margin')[2]
    c = vc.choose(5, 'form')
    v = []
    if c == 0: m = v = vc.real('margin'); v = [m]
    elif c == 1: m = {'top': vc.real('top')}
    else:
        v = [vc.real('m%d' % i) for i in range(vc.choose(7, 'components'))]
        if c == 2: m = list(v)
        elif c == 3: m = tuple(v)
        else:
            if not v: v = [vc.real('m')]
            m = (' ', ',')[vc.choose(2, 'separator')].join(str(x) for x in v)
    before = list(m) if isinstance(m, list) else dict(m) if isinstance(m, dict) else None
    r = f(m)
    if c == 1: vc.check('dict_as_given', r == m and m == before); return
    if c == 2: vc.check('argument_kept', len(m) == len(before) and all(a is b for a, b in zip(m, before)))
    vc.check('four_sides', isinstance(r, dict) and set(r) == {'top', 'right', 'bottom', 'left'})
    for side, want in zip(('top', 'right', 'bottom', 'left'), css(v)): vc.check(side, eq(r[side], want))
    vc.cover('form %d' % c)

@contract('PDF.setup_page', funcs=[D + '.setup_page'], props=['C17'])
def setup_page(vc):
    w, h = vc.real('w'), vc.real('h')
    sizes, margins = [], []
    instr.stub('pdfme.utils.get_page_size', lambda s: (sizes.append(s), (w, h))[1])
    mg = {'top': vc.real('top'), 'left': vc.real('left'), 'right': vc.real('right'), 'bottom': vc.real('bottom')}
    instr.stub('pdfme.utils.parse_margin', lambda m: (margins.append(m), mg)[1])
    old = dict(page_width=vc.real('pw'), page_height=vc.real('ph'), rotate_page=vc.bool('rotate'), margin={'top': 0})
    pdf = raw(D, **old)
    size = Token('size') if vc.choose(2, 'size') else None
    margin = Token('margin') if vc.choose(2, 'margin') else None
    rotate = (None, True, False)[vc.choose(3, 'rotate')]
    pdf.setup_page(size, rotate, margin)
    vc.check('size_asked_for', sizes == ([size] if size else []) and (conj(eq(pdf.page_width, w), eq(pdf.page_height, h)) if size else pdf.page_width is old['page_width'] and pdf.page_height is old['page_height']))
    vc.check('margin_asked_for', margins == ([margin] if margin else []) and (pdf.margin == mg if margin else pdf.margin is old['margin']))
    vc.check('rotation_asked_for', pdf.rotate_page is (old['rotate_page'] if rotate is None else rotate))

# --------------------------------------------------------------------------- pages

class Sections:
    """every running section is put once in the page; it may leave the cursor anywhere"""
    def __init__(self, pdf, log): self.pdf, self.log = pdf, log
    def check(self, st, k, env, mode):
        vc = st.ctx
        calls = [a for n, a in self.log if n == '_content']
        if mode == 'establish': vc.check('no_section_yet', calls == [], kind='inv'); return
        vc.check('section_once', len(calls) == 1)
        for n in ('content', 'width', 'height', 'x', 'y'): vc.check('section_' + n, same_value(calls[0][n], self.cur[n]))
        vc.check('in_the_new_page', self.pages == [self.pdf.pages.tail[-1]])
        vc.cover('section')
    def havoc(self, st, k):
        self.log.clear(); self.pages = []
        p = self.pdf.pages.tail[-1]
        st.set(p, 'x', st.ctx.real('x')); st.set(p, '_y', st.ctx.real('_y'))
        st.touch(self.log)
        return {}

@contract('PDF.add_page', funcs=[D + '.add_page', D + '.page_index', D + '.page', 'pdfme.page.PDFPage.__init__'], props=['C08', 'C17', 'C18'], time=200)
def add_page(vc):
    log = []
    m = {'top': vc.real('top'), 'right': vc.real('right'), 'bottom': vc.real('bottom'), 'left': vc.real('left')}
    own = {k: vc.real('own ' + k) for k in m} if vc.choose(2, 'sides') else {'top': vc.real('own top')}
    w, h = vc.real('w'), vc.real('h')
    rot = vc.bool('rotate_page')
    sw, sh = vc.real('own w'), vc.real('own h')
    instr.stub('pdfme.utils.get_page_size', lambda s: (sw, sh) if s is size else vc.abort(Unsupported('get_page_size')))
    instr.stub('pdfme.utils.parse_margin', lambda x: dict(own) if x is margin else vc.abort(Unsupported('parse_margin')))
    pdf = document(vc, anywhere=False, page_width=w, page_height=h, rotate_page=rot, margin=dict(m))
    def content(self, args):
        sections.pages.append(self.page)
        new_cursor(vc, self.page)
    record(D + '._content', log, content)
    record(D + '.get_page_number', log, lambda self, a: 'number of %s' % ('new page' if same_index(self) else '?'))
    def same_index(self): return bool(eq(self._page_index, before + 1))
    before = pdf.pages.n
    sections = Sections(pdf, log)
    ns = vc.int('running sections'); vc.assume(ns >= 0)
    def elem(i):
        sections.cur = {'content': Token('content'), 'width': vc.real('rw'), 'height': vc.real('rh'), 'x': vc.real('rx'), 'y': vc.real('ry')}
        return dict(sections.cur)
    pdf.running_sections = SList('running_sections', ns, elem, sections)
    size = Token('size') if vc.choose(2, 'size') else None
    margin = Token('margin') if vc.choose(2, 'margin') else None
    rotate = (None, True, False)[vc.choose(3, 'rotate')]
    pdf.add_page(size, rotate, margin)
    all_done(vc, sections)
    vc.check('one_page_more', len(pdf.pages.tail) == 2 and pdf.pages.tail[0] is pdf.page_)
    p = pdf.pages.tail[1]
    vc.check('is_the_current_page', pdf.page is p and eq(pdf.page_index, before + 1))
    vc.check('number_of_the_page', pdf.context.get('$page') == 'number of new page')
    ew, eh = (sw, sh) if size else (w, h)
    turned = bool(rot) if rotate is None else rotate
    if turned: ew, eh = eh, ew
    vc.check('width', eq(p.width, ew)); vc.check('height', eq(p.height, eh))
    em = dict(m)
    if margin: em.update(own)
    for k, v in em.items(): vc.check('margin_' + k, eq(getattr(p, 'margin_' + k), v))
    at_start(vc, p, dict(width=ew, height=eh, **{'margin_' + k: v for k, v in em.items()}))
    vc.check('margin_of_the_document_kept', set(pdf.margin) == set(m) and all_(eq(pdf.margin[k], m[k]) for k in m))
    vc.cover('page')

@contract('PDF.add_running_section', funcs=[D + '.add_running_section'], props=['C18'])
def add_running(vc):
    l = [{'content': 1}]
    pdf = raw(D, running_sections=l)
    c = {'content': [1]}
    a = dict(content=c, width=vc.real('w'), height=vc.real('h'), x=vc.real('x'), y=vc.real('y'))
    pdf.add_running_section(*a.values())
    vc.check('added_last', len(pdf.running_sections) == 2 and pdf.running_sections[0] == {'content': 1})
    vc.check('as_given', set(pdf.running_sections[1]) == set(a) and all(pdf.running_sections[1][k] is v for k, v in a.items()))

# --------------------------------------------------------------------------- fonts

class Used:
    """the fonts used so far"""
    _vc_ghost = True
    def __init__(self, vc): self.has, self.entry, self.new = vc.bool('already used'), (SStr('font ref'), Ref('font')), {}
    def __contains__(self, k): return True if k in self.new else bool(self.has)
    def __getitem__(self, k): return self.new[k] if k in self.new else self.entry
    def __setitem__(self, k, v): self.new[k] = v

@contract('PDF._used_font', funcs=[D + '._used_font', D + '._add_or_get_font'], props=['C08', 'C20'])
def used_font(vc):
    made = []
    class Font:
        _vc_ghost = True
        def __init__(self): self.ref = SStr('ref', maybe_empty=False)
        def add_font(self, base):
            made.append((self, base))
            return raw('pdfme.parser.PDFObject', id=Ref('font object'), value={})
    class Fonts:
        _vc_ghost = True
        def get_font(self, f, m):
            return font if f is fam and m is mode else Font()
    font = Font()
    fam, mode = SStr('family', maybe_empty=False), SStr('mode', maybe_empty=False)
    pdf = document(vc, fonts=Fonts(), used_fonts=Used(vc))
    log = []
    record('pdfme.page.PDFPage.add_font', log)
    pdf._used_font(fam, mode)
    u = pdf.used_fonts
    vc.check('font_of_the_page', len(log) == 1)
    a = log[0][1]
    if made:
        vc.check('made_once', neg(u.has) if len(made) == 1 else False)
        vc.check('font_asked_for_in_this_document', made == [(font, pdf.base)])
        vc.check('remembered', list(u.new) == [(fam, mode)] and u.new[(fam, mode)][0] is font.ref)
        r = u.new[(fam, mode)]
        vc.check('page_has_it', a['font_ref'] is r[0] and a['font_obj_id'] is r[1] and repr(r[1]) == '<font object>')
    else:
        vc.check('made_before', u.has)
        vc.check('page_has_the_font_made_before', a['font_ref'] is u.entry[0] and a['font_obj_id'] is u.entry[1])
        vc.check('not_changed', u.new == {})

# --------------------------------------------------------------------------- images

class Images:
    """the images in the document by name"""
    _vc_ghost = True
    def __init__(self, vc, name): self.has, self.name, self.ref, self.new = vc.bool('already in the document'), name, Ref('image'), {}
    def __contains__(self, k):
        if k is not self.name: ctx().abort(Unsupported('name of the image'))
        return True if self.new else bool(self.has)
    def __getitem__(self, k): return self.new[k] if k in self.new else self.ref
    def __setitem__(self, k, v): self.new[k] = v

@contract('PDF.add_image', funcs=[D + '.add_image'], props=['C16', 'C17'])
def add_image(vc):
    name = SStr('image name', maybe_empty=False)
    iw, ih = vc.int('pixels wide'), vc.int('pixels high'); vc.assume(iw > 0); vc.assume(ih > 0)
    img = raw('pdfme.image.PDFImage', image_name=name, width=iw, height=ih, pdf_obj={'Type': b'/XObject'})
    images = Images(vc, name)
    pdf = document(vc, images=images)
    base = pdf.base
    class B(page_m.Base):
        def __getitem__(self, ref):
            if ref is images.ref: return raw('pdfme.parser.PDFObject', id=ref, value={})
            return self.of(ref)
    pdf.base = B()
    p = pdf.page
    draws = []
    def draw(self, args): draws.append((self, self.x, self._y, args))
    record('pdfme.page.PDFPage.add_image', [], draw)
    arg = lambda n: vc.real(n) if vc.choose(2, n) else None
    x, y, w, h = arg('x'), arg('y'), arg('width'), arg('height')
    for v in (w, h):
        if v is not None: vc.assume(v > 0)
    vc.assume(p.content_width > 0)
    x0, y0, H = p.x, p.y, p.height
    move = ('bottom', 'next', 'none')[vc.choose(3, 'move')]
    pdf.add_image(img, x=x, y=y, width=w, height=h, move=move)
    vc.check('drawn_once', len(draws) == 1 and draws[0][0] is p)
    _, dx, dy, a = draws[0]
    rw, rh = a['width'], a['height']
    if w is not None: vc.check('width_asked_for', eq(rw, w))
    if h is not None: vc.check('height_asked_for', eq(rh, h))
    if w is None and h is None: vc.check('as_wide_as_the_content', eq(rw, p.content_width))
    if w is None or h is None: vc.check('proportions', eq(rw * ih, rh * iw))
    ex, ey = x0 if x is None else x, y0 if y is None else y
    vc.check('left', eq(dx, ex))
    vc.check('top_at_the_cursor', eq(dy + rh, H - ey))
    made = [o for o in pdf.base.objects]
    if made:
        vc.check('one_object', len(made) == 1 and made[0].value is img.pdf_obj)
        vc.check('not_there_before', neg(images.has))
        vc.check('remembered', list(images.new) == [name] and images.new[name] is made[0].id)
        vc.check('image_drawn', a['image_obj_id'] is made[0].id)
    else:
        vc.check('there_before', images.has)
        vc.check('image_drawn', a['image_obj_id'] is images.ref and images.new == {})
    vc.check('cursor_x', eq(p.x, ex + rw if move == 'next' else ex))
    vc.check('cursor_y', eq(p.y, ey + rh if move == 'bottom' else ey))
    vc.cover(move)

@contract('PDF.image', funcs=[D + '.image', D + '.create_image'], props=['C16', 'C17'])
def image(vc):
    log = []
    made = Token('image object')
    class Img:
        def __new__(cls, image, extension=None, image_name=None):
            log.append(('PDFImage', dict(image=image, extension=extension, image_name=image_name)))
            return made
    instr.stub('pdfme.image.PDFImage', Img)
    record(D + '.add_image', log)
    pdf = document(vc)
    a = dict(image=Token('file'), extension=SStr('ext'), image_name=SStr('name'))
    b = dict(x=vc.real('x'), y=vc.real('y'), width=vc.real('w'), height=vc.real('h'), move=SStr('move'))
    pdf.image(**a, **b)
    vc.check('made_and_added', [n for n, _ in log] == ['PDFImage', 'add_image'])
    args_are(vc, 'image', log[0][1], a)
    args_are(vc, 'add', log[1][1], dict(b, pdf_image=made))

# --------------------------------------------------------------------------- the cursor

@contract('PDF._position_and_size', funcs=[D + '._position_and_size', 'pdfme.page.PDFPage.y'], props=['C17'])
def position(vc):
    pdf = document(vc)
    p = pdf.page
    arg = lambda n: vc.real(n) if vc.choose(2, n) else None
    x, y, w, h = arg('x'), arg('y'), arg('w'), arg('h')
    x0, y0 = p.x, p.y
    r = pdf._position_and_size(x, y, w, h)
    ex, ey = x0 if x is None else x, y0 if y is None else y
    vc.check('x', conj(eq(r[0], ex), eq(p.x, ex)))
    vc.check('y', conj(eq(r[1], p.height - ey), eq(p.y, ey)))
    vc.check('width', eq(r[2], p.width - p.margin_right - ex if w is None else w))
    vc.check('height', eq(r[3], p.height - p.margin_bottom - ey if h is None else h))

@contract('PDF._default_paragraph_style', funcs=[D + '._default_paragraph_style'], props=['C06', 'C07', 'C17'])
def default_paragraph(vc):
    d = dict(text_align=SStr('align'), line_height=vc.real('line_height'), indent=vc.real('indent'))
    pdf = document(vc, **d)
    p = pdf.page
    given = {n: Token(n) if vc.choose(2, n) else None for n in ('text_align', 'line_height', 'indent')}
    w, h = (vc.real('w'), vc.real('h')) if vc.choose(2, 'size') else (None, None)
    r = pdf._default_paragraph_style(w, h, **given)
    for n, v in given.items(): vc.check(n, r[n] is (d[n] if v is None else v))
    vc.check('width', eq(r['width'], p.width - p.margin_right - p.x if w is None else w))
    vc.check('height', eq(r['height'], p.height - p.margin_bottom - p.y if h is None else h))

@contract('PDF._init_text', funcs=[D + '._init_text'], props=['C06', 'C15'])
def init_text(vc):
    d = dict(font_family=Token('family'), font_size=Token('size'), font_color=Token('color'))
    pdf = document(vc, fonts=Token('fonts'), **d)
    want = {'f': d['font_family'], 's': d['font_size'], 'c': d['font_color']}
    sty = Token('style')
    def parse(s, fonts):
        vc.check('style_string', s == 'b;s:9' and fonts is pdf.fonts)
        return {'b': True, 's': 's of the string'}
    instr.stub('pdfme.utils.parse_style_str', parse)
    def process(s, p):
        vc.check('style_of_the_text', (s is None or s is sty) and p is pdf)
        return {} if s is None else {'c': 'c of the style', 's': 's of the style'}
    instr.stub('pdfme.utils.process_style', process)
    form = vc.choose(4, 'form')
    l = [Token('part')]
    if form == 0: c = SStr('text')
    elif form == 1: c = l
    elif form == 2: c = tuple(l)
    else:
        c = {'other': Token('other')}
        key = ('.', '.b;s:9', None)[vc.choose(3, 'key')]
        if key: c[key] = l
        if key == '.': instr.stub('pdfme.utils.parse_style_str', lambda s, f: {} if s == '' else vc.abort(Unsupported('style string')))
        if key == '.b;s:9': want.update(b=True, s='s of the string')
        if vc.choose(2, 'style'): c['style'] = sty; want.update(c='c of the style', s='s of the style')
    before = dict(c) if form == 3 else None
    r = pdf._init_text(c)
    vc.check('style', isinstance(r, dict) and set(r['style']) == set(want) and all(r['style'][k] is v or r['style'][k] == v for k, v in want.items()))
    if form == 3:
        vc.check('rest_as_given', {k for k in r if k != 'style'} == {k for k in c if k != 'style'})
        vc.check('definition_kept', dict(c) == before and (c.get('style') is sty or 'style' not in c))
        vc.check('parts', all(len(r[k]) == 1 and r[k][0] is l[0] for k in r if k.startswith('.')))
    else:
        v = r['.']
        if form == 0: vc.check('text', len(v) == 1 and v[0] is c)
        else: vc.check('parts', len(v) == 1 and v[0] is l[0])

@contract('PDF._create_text', funcs=[D + '._create_text'], props=['C04', 'C06', 'C07', 'C17'])
def create_text(vc):
    log = []
    pdf = document(vc, fonts=Token('fonts'))
    inited = Token('inited'); made = Token('made')
    ps = dict(width=Token('w'), height=Token('h'), text_align=Token('ta'), line_height=Token('lh'), indent=Token('in'))
    record(D + '._init_text', log, lambda s, a: inited)
    record(D + '._default_paragraph_style', log, lambda s, a: dict(ps))
    sig = inspect.signature(instr.lookup('pdfme.text.PDFTextBase.__init__')[2])
    sig2 = inspect.signature(instr.lookup('pdfme.text.PDFText.__init__')[2])
    class Text:
        def __new__(cls, *a, **k):
            b = sig2.bind(None, *a, **k); b.apply_defaults()
            log.append(('PDFText', dict(b.arguments))); return made
    instr.stub('pdfme.text.PDFText', Text)
    a = {n: Token(n) for n in ('content', 'width', 'height', 'text_align', 'line_height', 'indent', 'list_text', 'list_indent', 'list_style')}
    r = pdf._create_text(**a)
    d = {}
    for n, v in log: d.setdefault(n, []).append(v)
    vc.check('once', all(len(v) == 1 for v in d.values()) and set(d) == {'_init_text', '_default_paragraph_style', 'PDFText'} and r is made)
    args_are(vc, 'content', d['_init_text'][0], {'content': a['content']})
    args_are(vc, 'style', d['_default_paragraph_style'][0], {k: a[k] for k in ('width', 'height', 'text_align', 'line_height', 'indent')})
    args_are(vc, 'text', d['PDFText'][0], dict(ps, content=inited, fonts=pdf.fonts, pdf=pdf, **{k: a[k] for k in ('list_text', 'list_indent', 'list_style')}))

# --------------------------------------------------------------------------- texts in a page

class Fonts_:
    """every font used by the text is added once to the page"""
    def __init__(self, log): self.log = log
    def check(self, st, k, env, mode):
        vc = st.ctx
        c = [a for n, a in self.log if n == '_used_font']
        if mode == 'establish': vc.check('no_font_yet', c == [], kind='inv'); return
        vc.check('font_of_the_text', len(c) >= 1 and all(a['font_family'] is self.cur[0] and a['mode'] is self.cur[1] for a in c))
        vc.cover('font')
    def havoc(self, st, k):
        self.log[:] = [e for e in self.log if e[0] != '_used_font']
        st.touch(self.log)
        return {}
    def elem(self, i):
        self.cur = (SStr('family', maybe_empty=False), SStr('mode', maybe_empty=False))
        return self.cur

class Known:
    """a dict or set of which only whether it has a key is known"""
    _vc_ghost = True
    def __init__(self, vc, name): self.vc, self.name, self.keys_, self.new, self.old = vc, name, [], {}, Ref('old ' + name)
    def has(self, k):
        for key, b in self.keys_:
            r = str_eq(key, k)
            if r is True: return b
            if r is not False: self.vc.abort(Unsupported('keys of ' + self.name))
        b = self.vc.bool('in ' + self.name)
        self.keys_.append((k, b))
        return b
    def _vc_new(self, k): return any(str_eq(x, k) is True for x in self.new)
    def __contains__(self, k): return True if self._vc_new(k) else bool(self.has(k))
    def __getitem__(self, k):
        for x, v in self.new.items():
            if str_eq(x, k) is True: return v
        if not bool(self.has(k)): raise KeyError(k)
        return self.old
    def __setitem__(self, k, v): self.new[k] = v
    def add(self, k): self.new[k] = True

class Rects:
    """every rectangle of a link or a reference is one annotation of the page"""
    def __init__(self, ids): self.ids = ids
    def calls(self): return [e for e in self.ids.log if e[0] in ('add_link', 'add_reference')]
    def check(self, st, k, env, mode):
        vc = st.ctx
        c = self.calls()
        if mode == 'establish': vc.check('no_annotation_yet', c == [], kind='inv'); return
        vc.check('one_annotation', len(c) == 1)
        name, a = c[0]
        r, ids = self.cur, self.ids
        rect = a['rect']
        vc.check('rectangle', isinstance(rect, list) and len(rect) == 4 and conj(near(rect[0], ids.x + r[0]), near(rect[1], ids.y + r[1]), near(rect[2], ids.x + r[2]), near(rect[3], ids.y + r[3])))
        if ids.kind == 'ref': vc.check('refers_to_the_label', name == 'add_reference' and str_eq(a['dest'], str(ids.name)))
        else:
            vc.check('opens_the_address', name == 'add_link')
            want = [o for o in ids.pdf.base.objects]
            if want: vc.check('address', a['uri_id'] is want[-1].id)
            else: vc.check('address', a['uri_id'] is ids.pdf.uris.old and ids.pdf.uris.has(str(ids.name)))
        vc.cover('annotation ' + ids.kind)
    def havoc(self, st, k):
        self.ids.log[:] = [e for e in self.ids.log if e[0] not in ('add_link', 'add_reference')]
        st.touch(self.ids.log)
        return {}
    def elem(self, i):
        self.cur = [ctx().real('r%d' % j) for j in range(4)]
        return self.cur

class Levels:
    """the outlines of a level: under the last outline of the previous one"""
    _vc_ghost = True
    def __init__(self, depth, ids): self.depth, self.ids = depth, ids
    def append(self, o): self.ids.outlined.append((self.depth, o))
    def __getitem__(self, i):
        if i != -1: ctx().abort(Unsupported('outline that is not the last one'))
        return LastOutline(self)
class LastOutline:
    _vc_ghost = True
    def __init__(self, level): self.level = level
    def setdefault(self, k, v):
        if k != 'children' or v != []: ctx().abort(Unsupported('children of an outline'))
        return Levels(self.level.depth + 1, self.level.ids)

class Down:
    """after j steps: the outlines of level j + 1"""
    def __init__(self, ids, lo): self.ids, self.lo = ids, lo
    def name(self, env):
        ns = [n for n, v in env._d.items() if type(v) is Levels]
        if len(ns) != 1: ctx().abort(Unsupported('local with the outlines'))
        return ns[0]
    def check(self, st, k, env, mode):
        if mode == 'establish': self.local = self.name(env)
        st.ctx.check('level', eq(env[self.local].depth, k + 1), kind='inv')
    def havoc(self, st, k):
        return {self.local: Levels(k + 1, self.ids)}

class Ids:
    """every id does what its kind says, once"""
    def __init__(self, vc, pdf, log, x, y):
        self.pdf, self.log, self.x, self.y = pdf, log, x, y
        self.rects = Rects(self)
        self.outlined = []
    def elem(self, i):
        vc = ctx()
        self.kind = ('label', 'ref', 'uri', 'outline', 'other')[vc.choose(5, 'kind')]
        self.name = SStr('name', maybe_empty=False)
        self.id = ('$%s:' % self.kind if self.kind != 'other' else 'footnote') + self.name
        n = vc.int('rectangles'); vc.assume(n >= 0)
        self.n = n
        first = [vc.real('first%d' % j) for j in range(4)]
        def elem(j):
            if self.kind == 'label':
                if not bool(eq(j, 0)): vc.abort(Unsupported('rectangle of a label that is not the first'))
                return first
            return self.rects.elem(j)
        self.first = first
        self.outline_data = {'level': vc.int('level'), 'text': SStr('text'), 'label': SStr('label')}
        vc.assume(self.outline_data['level'] >= 1)
        return (self.id, SList('rects', n, elem, self.rects))
    def check(self, st, k, env, mode):
        vc = st.ctx
        pdf, log = self.pdf, self.log
        d, u, o = pdf.dests, pdf.uris, pdf.outlines_ids
        if mode == 'establish':
            vc.check('nothing_yet', d.new == {} and u.new == {} and o.new == {} and self.outlined == [] and pdf.base.objects == [], kind='inv')
            return
        page = pdf.page_
        shown = self.n > 0
        lab = self.kind == 'label'
        if lab:
            if d.new:
                vc.check('new_label', list(d.new) == [str(self.name)] or len(d.new) == 1 and str_eq(list(d.new)[0], str(self.name)))
                vc.check('not_a_label_before', conj(neg(d.has(str(self.name))), shown))
                v = list(d.new.values())[0]
                vc.check('page_of_the_label', len(v) == 5 and v[0] is page.page.id and v[1] == b'/XYZ')
                vc.check('position_of_the_label', conj(near(v[2], self.x + self.first[0]), near(v[3], self.y + self.first[3])))
            else: vc.check('label_known_or_not_shown', disj(neg(shown), d.has(str(self.name))))
        else: vc.check('no_label', d.new == {})
        if self.kind == 'uri':
            if u.new:
                vc.check('one_action', len(pdf.base.objects) == 1 and len(u.new) == 1 and str_eq(list(u.new)[0], str(self.name)))
                ob = pdf.base.objects[0]
                vc.check('action', list(u.new.values())[0] is ob.id and ob.value.get('S') == b'/URI' and str_eq(ob.value.get('URI'), str(self.name)))
                vc.check('not_an_action_before', neg(u.has(str(self.name))))
            else: vc.check('action_known_or_not_shown', pdf.base.objects == [] and disj(neg(shown), u.has(str(self.name))))
        else: vc.check('no_action', u.new == {} and pdf.base.objects == [])
        done = self.rects.completed
        vc.check('annotations', disj(neg(shown), done == 1) if self.kind in ('ref', 'uri') else done == 0)
        if self.kind == 'outline':
            if self.outlined:
                vc.check('one_outline', len(self.outlined) == 1)
                depth, data = self.outlined[0]
                vc.check('outline_as_requested', data is self.outline_data)
                vc.check('outline_in_its_level', eq(depth, self.outline_data['level']))
                vc.check('not_outlined_before', conj(neg(o.has(self.id)), shown))
                vc.check('outline_remembered', len(o.new) == 1 and str_eq(list(o.new)[0], self.id))
            else: vc.check('outline_known_or_not_shown', disj(neg(shown), o.has(self.id)))
        else: vc.check('no_outline', self.outlined == [] and o.new == {})
        vc.cover('id ' + self.kind)
    def havoc(self, st, k):
        vc = st.ctx
        pdf = self.pdf
        for n in ('dests', 'uris', 'outlines_ids'): o = Known(vc, n); st.set(pdf, n, o); st.touch(o); st.touch(o.keys_); st.touch(o.new)
        st.set(pdf.base, 'objects', []); st.touch(pdf.base.objects)
        st.touch(self.log)
        self.outlined = []
        self.rects.completed = 0
        return {}

@contract('PDF._add_text', funcs=[D + '._add_text'], props=['C04', 'C06', 'C07', 'C08', 'C09', 'C10', 'C17'], time=300)
def add_text(vc):
    log = []
    pdf = document(vc)
    pdf.dests, pdf.uris, pdf.outlines_ids = Known(vc, 'dests'), Known(vc, 'uris'), Known(vc, 'outlines_ids')
    p = pdf.page
    p.page = raw('pdfme.parser.PDFObject', id=Ref('page'), value={})
    vc.assume(p.width > 0)
    x, y, w, h = vc.real('x'), vc.real('y'), vc.real('w'), vc.real('h')
    ids = Ids(vc, pdf, log, x, y)
    pdf.outlines = Levels(1, ids)
    ts, gs = SStr('text stream'), SStr('graphics stream')
    out = SStr('stream')
    def gps(x_, y_, t, g):
        vc.check('stream_of_the_text', conj(eq(x_, x), eq(y_, y)) if t is ts and g is gs else False)
        return out
    instr.stub('pdfme.utils.get_paragraph_stream', gps)
    class Json:
        _vc_ghost = True
        def loads(self, s):
            vc.check('outline_of_the_id', str_eq(s, str(ids.name)))
            return ids.outline_data
    instr.stub('pdfme.pdf.json', Json())
    pages = []
    def on_page(self, a): pages.append(self)
    record('pdfme.page.PDFPage.add', log, on_page)
    record('pdfme.page.PDFPage.add_link', log, on_page)
    record('pdfme.page.PDFPage.add_reference', log, on_page)
    record(D + '._used_font', log)
    record(D + '._add_or_get_font', log, lambda s, a: (SStr('ref'), Ref('font')))
    fl = Fonts_(log)
    nf = vc.int('fonts'); vc.assume(nf >= 0)
    fonts = SList('used fonts', nf, fl.elem, fl)
    ni = vc.int('ids'); vc.assume(ni >= 0)
    vc.stubs['range_loop'] = lambda lo, hi, step: Down(ids, lo)
    move = ('bottom', 'next', 'none')[vc.choose(3, 'move')]
    x0, y0 = p.x, p.y
    pdf._add_text(ts, x, y, w, h, gs, fonts, SDict('ids', SList('ids', ni, ids.elem, ids)), move)
    all_done(vc, fl, ids)
    vc.check('added_once', [e[1]['content'] for e in log if e[0] == 'add'] == [out])
    vc.check('in_the_page', all(q is p for q in pages))
    vc.check('cursor_x', eq(p.x, x0 + w if move == 'next' else x0))
    vc.check('cursor_y', eq(p.y, y0 + h if move == 'bottom' else y0))
    vc.cover(move)

# --------------------------------------------------------------------------- flowing over the pages

class Flow:
    """`while not finished`: the rest of the same element is put at the margins of each page added, as big as its
    content; the element is the one the last call gave"""
    def __init__(self, pdf, log, what): self.pdf, self.log, self.what = pdf, log, what
    def check(self, st, k, env, mode):
        vc = st.ctx
        names = [n for n, _ in self.log]
        e = [n for n, v in env._d.items() if isinstance(v, Element)]
        if len(e) != 1: vc.abort(Unsupported('local with the element'))
        if mode == 'establish':
            self.local = e[0]
            vc.check('first_call', names == [self.what])
            self.first = self.log[0][1]
            vc.check('element_of_the_call', env[e[0]] is self.pdf.made)
            vc.cover('first')
            return
        vc.check('page_and_rest', names == ['add_page', self.what])
        a = self.log[1][1]
        p = self.pdf.page
        vc.check('page_of_the_document', all(v is None for v in self.log[0][1].values()))
        args_are(vc, 'rest', a, dict(content=self.elem, width=p.content_width, height=p.content_height, x=p.margin_left, y=p.margin_top, move='bottom'))
        vc.check('element_of_the_call', env[self.local] is self.pdf.made)
        vc.cover('rest')
    def havoc(self, st, k):
        vc = st.ctx
        self.elem = self.pdf.made       # the calls with an element give the same element
        st.set(self.elem, 'finished', vc.bool('finished'))
        self.log.clear()
        st.touch(self.log)
        st.set(self.pdf, 'made', self.elem)
        st.set(self.pdf, '_page_index', self.pdf._page_index); st.set(self.pdf, 'page_', self.pdf.page_)
        st.touch(self.pdf.pages)
        return {self.local: self.elem}

class Element:
    """a paragraph, table or content box: finished or not"""
    _vc_ghost = True
    def __init__(self, vc): self.finished = vc.bool('finished')

def flow(vc, what, opts):
    log = []
    pdf = document(vc, anywhere=False)
    p0 = pdf.page
    def page(self, a):
        q = page_of(vc)
        self.pages.tail[:] = [q]; self.page_ = q
    record(D + '.add_page', log, page)
    def put(self, a):
        e = a['content']
        if isinstance(e, Element): e.finished = vc.bool('finished')
        else: e = Element(vc)
        self.made = e
        return e
    pdf.made = None
    record(D + '._' + what, log, put)
    loop = Flow(pdf, log, '_' + what)
    vc.stubs['while:%s.%s' % (D, what)] = loop
    content = Token('content')
    given = {n: Token(n) if vc.choose(2, 'options') else None for n in opts[:1]}
    given.update({n: Token(n) for n in opts[1:]})
    getattr(pdf, what)(content, **given)
    vc.check('goes_on_while_not_finished', hasattr(loop, 'elem'))
    args_are(vc, 'first', loop.first, dict(given, content=content, x=p0.margin_left, width=p0.content_width, move='bottom'), others=())
    vc.check('until_it_is_finished', loop.elem.finished)
    vc.cover('end')

@contract('PDF.text', funcs=[D + '.text'], props=['C04', 'C17'])
def text(vc): flow(vc, 'text', ['text_align', 'line_height', 'indent', 'list_text', 'list_indent', 'list_style'])

@contract('PDF.table', funcs=[D + '.table'], props=['C13', 'C17'])
def table(vc): flow(vc, 'table', ['widths', 'style', 'borders', 'fills'])

@contract('PDF.content', funcs=[D + '.content'], props=['C14', 'C17'])
def content(vc): flow(vc, 'content', [])

class Laid:
    """a paragraph, table or content box by its contract: run lays it out, and its results are there afterwards"""
    _vc_ghost = True
    def __init__(self, vc, cls, log):
        self.cls, self.log = cls, log
        self.current_height = vc.real('height used')
        n = vc.int('fills'); m = vc.int('lines'); k = vc.int('parts')
        for v in (n, m, k): vc.assume(v >= 0)
        self.fills, self.lines, self.parts = [Token('fill')], [Token('line')], [Token('part')]
        self.result = {k: Token(k) for k in ('x', 'y', 'width', 'height', 'text_stream', 'graphics_stream', 'used_fonts', 'ids')}
    def _vc_isinstance(self, t): return t is self.cls
    def run(self, *a):
        self.log.append(('run', a))

def position_stub(vc, pdf, log):
    r = tuple(vc.real('p' + n) for n in ('x', 'y', 'w', 'h'))
    record(D + '._position_and_size', log, lambda s, a: r)
    return r

@contract('PDF._text', funcs=[D + '._text'], props=['C04', 'C07', 'C17'])
def text_(vc):
    log = []
    pdf = document(vc, anywhere=False)
    pos = position_stub(vc, pdf, log)
    laid = Laid(vc, instr.lookup('pdfme.text.PDFText')[2], log)
    record(D + '._create_text', log, lambda s, a: laid)
    record(D + '._add_text', log)
    again = vc.choose(2, 'again')
    content = laid if again else Token('content', str)
    a = {n: vc.real(n) if vc.choose(2, n) else None for n in ('width', 'height', 'x', 'y')}
    b = {n: Token(n) for n in ('text_align', 'line_height', 'indent', 'list_text', 'list_indent', 'list_style')}
    move = Token('move')
    r = pdf._text(content, **a, **b, move=move)
    vc.check('element', r is laid)
    vc.check('calls', [n for n, _ in log] == (['_position_and_size', 'run', '_add_text'] if again else ['_position_and_size', '_create_text', 'run', '_add_text']))
    args_are(vc, 'position', log[0][1], a)
    run_ = log[-2][1]
    if again: vc.check('goes_on_in_the_rectangle', len(run_) == 4 and all(p is q for p, q in zip(run_, pos)))
    else:
        args_are(vc, 'text', log[1][1], dict(b, content=content, width=pos[2], height=pos[3]))
        vc.check('position', len(run_) in (2, 4) and all(p is q for p, q in zip(run_, pos)))
    args_are(vc, 'added', log[-1][1], dict(laid.result, move=move))

def boxes(vc, what, cls, extra):
    """_table and _content"""
    log = []
    pdf = document(vc, anywhere=False)
    p = pdf.page
    pos = position_stub(vc, pdf, log)
    laid = Laid(vc, instr.lookup(cls)[2], log)
    record(D + '._create_' + what, log, lambda s, a: laid)
    record(D + '._add_graphics', log)
    record(D + '._add_parts', log)
    again = vc.choose(2, 'again')
    content = laid if again else Token('content')
    a = {n: vc.real(n) if vc.choose(2, n) else None for n in ('width', 'height', 'x', 'y')}
    b = {n: Token(n) for n in extra}
    move = ('bottom', 'next', 'none')[vc.choose(3, 'move')]
    x0, y0 = p.x, p.y
    r = getattr(pdf, '_' + what)(content, **a, **b, move=move)
    vc.check('element', r is laid)
    vc.check('calls', [n for n, _ in log] == ['_position_and_size'] + ([] if again else ['_create_' + what]) + ['run', '_add_graphics', '_add_parts'])
    args_are(vc, 'position', log[0][1], a)
    run_ = log[-3][1]
    if again: vc.check('goes_on_in_the_rectangle', len(run_) == 4 and all(q is v for q, v in zip(run_, pos)))
    else:
        vc.check('in_the_rectangle', len(run_) == 0 or len(run_) == 4 and all(q is v for q, v in zip(run_, pos)))
        args_are(vc, 'new', log[1][1], dict(b, content=content, x=pos[0], y=pos[1], width=pos[2], height=pos[3]))
    g = list(log[-2][1]['graphics'])
    vc.check('fills_and_then_lines', g == laid.fills + laid.lines)
    vc.check('parts', list(log[-1][1]['parts']) == laid.parts)
    vc.check('cursor_x', eq(p.x, x0 + pos[2] if move == 'next' else x0))
    vc.check('cursor_y', eq(p.y, y0 + laid.current_height if move == 'bottom' else y0))

@contract('PDF._table', funcs=[D + '._table'], props=['C12', 'C13', 'C17'])
def table_(vc): boxes(vc, 'table', 'pdfme.table.PDFTable', ['widths', 'style', 'borders', 'fills'])

@contract('PDF._content', funcs=[D + '._content'], props=['C14', 'C17'])
def content_(vc): boxes(vc, 'content', 'pdfme.content.PDFContent', [])

def creates(vc, what, cls, extra):
    log = []
    d = dict(font_family=Token('f'), font_size=Token('s'), font_color=Token('c'), text_align=Token('ta'), line_height=Token('lh'), indent=Token('in'))
    pdf = document(vc, fonts=Token('fonts'), **d)
    want = dict(f=d['font_family'], s=d['font_size'], c=d['font_color'], text_align=d['text_align'], line_height=d['line_height'], indent=d['indent'])
    sty = Token('style')
    def process(s, p):
        vc.check('style_of_the_element', (s is sty or s is None) and p is pdf)
        return {} if s is None else given
    given = {'s': 'own size', 'b': True}
    instr.stub('pdfme.utils.process_style', process)
    if has := vc.choose(2, 'style'): want.update(s='own size', b=True)
    sig = inspect.signature(instr.lookup(cls + '.__init__')[2])
    made = Token('made')
    class New:
        def __new__(c, *a, **k):
            b = sig.bind(None, *a, **k); b.apply_defaults()
            log.append(dict(b.arguments)); return made
    instr.stub(cls, New)
    a = {n: Token(n) for n in ['width', 'height', 'x', 'y'] + [e for e in extra if e != 'style']}
    if what == 'table': content = Token('content'); r = pdf._create_table(content, style=sty if has else None, **a)
    else:
        content = {'content': [Token('element')]}
        if has: content['style'] = sty
        before = dict(content)
        r = pdf._create_content(content, **a)
        vc.check('definition_kept', content == before)
    vc.check('made', r is made and len(log) == 1)
    args_are(vc, 'new', log[0], dict(a, fonts=pdf.fonts, pdf=pdf))
    got = log[0].get('style') if what == 'table' else log[0]['content'].get('style')
    vc.check('style', isinstance(got, dict) and set(got) == set(want) and all(got[k] is v or got[k] == v for k, v in want.items()))
    vc.check('style_of_the_caller_kept', given == {'s': 'own size', 'b': True} and got is not given)
    c = log[0]['content']
    if what == 'table': vc.check('content', c is content)
    else: vc.check('content', c['content'] is content['content'] and set(c) == {'content', 'style'})

@contract('PDF._create_table', funcs=[D + '._create_table', D + '._default_content_style'], props=['C12', 'C13', 'C20'])
def create_table(vc): creates(vc, 'table', 'pdfme.table.PDFTable', ['widths', 'style', 'borders', 'fills'])

@contract('PDF._create_content', funcs=[D + '._create_content', D + '._default_content_style'], props=['C14', 'C15', 'C20'])
def create_content(vc): creates(vc, 'content', 'pdfme.content.PDFContent', [])

@contract('PDF._add_graphics', funcs=[D + '._add_graphics'], props=['C11', 'C12'])
def add_graphics(vc):
    log = []
    pdf = document(vc)
    g, out = [Token('graphic')], SStr('stream')
    instr.stub('pdfme.utils.create_graphics', lambda x: out if list(x) == g else vc.abort(Unsupported('graphics')))
    def on(self, a): vc.check('in_the_page', self is pdf.page_)
    record('pdfme.page.PDFPage.add', log, on)
    pdf._add_graphics(g)
    vc.check('added_once', [a['content'] for _, a in log] == [out])

class Parts:
    """every part is put once in the page, where it says"""
    def __init__(self, pdf, log): self.pdf, self.log = pdf, log
    def check(self, st, k, env, mode):
        vc = st.ctx
        if mode == 'establish': vc.check('nothing_yet', self.log == [], kind='inv'); return
        part, p = self.cur, self.pdf.page_
        vc.check('once', len(self.log) == 1)
        n, a = self.log[0]
        want = {k: v for k, v in self.given.items() if k != 'type'}
        if self.given['type'] == 'paragraph':
            vc.check('as_a_paragraph', n == '_add_text')
            args_are(vc, 'paragraph', a, want)
        else:
            vc.check('as_an_image', n == 'add_image')
            y = want.pop('y')
            args_are(vc, 'image', a, want)
            # part: the lower side, from the bottom; add_image: the upper side, from the top
            vc.check('image_top', eq(p.height - a['y'], y + want['height']))
        vc.check('part_kept', part == self.given and all(part[k] is v for k, v in self.given.items()))
        vc.cover(self.given['type'])
    def havoc(self, st, k):
        vc = st.ctx
        self.log.clear(); st.touch(self.log)
        p = self.pdf.page_
        st.set(p, 'x', vc.real('x')); st.set(p, '_y', vc.real('_y'))
        return {}
    def elem(self, i):
        vc = ctx()
        keys = ('x', 'y', 'width', 'height')
        d = {k: vc.real(k) for k in keys}
        if vc.choose(2, 'type'): d.update(type='image', pdf_image=Token('image'))
        else: d.update(type='paragraph', text_stream=Token('ts'), graphics_stream=Token('gs'), used_fonts=Token('uf'), ids=Token('ids'))
        self.given = dict(d)
        self.cur = d
        return d

@contract('PDF._add_parts', funcs=[D + '._add_parts'], props=['C12', 'C13', 'C14', 'C16', 'C17'])
def add_parts(vc):
    log = []
    pdf = document(vc)
    p = pdf.page
    move = lambda self, a: new_cursor(vc, self.page)
    record(D + '._add_text', log, move)
    record(D + '.add_image', log, move)
    loop = Parts(pdf, log)
    n = vc.int('parts'); vc.assume(n >= 0)
    x, y = p.x, p._y
    pdf._add_parts(SList('parts', n, loop.elem, loop))
    all_done(vc, loop)
    vc.check('cursor_kept', conj(eq(p.x, x), eq(p._y, y)))
    vc.cover('end')

@contract('PDF.output', funcs=[D + '.output'], props=['C01', 'C08', 'C09', 'C10'])
def output(vc):
    log = []
    n = vc.int('pages'); vc.assume(n >= 0)
    class B:
        _vc_ghost = True
        def output(self, buffer): log.append(('output', {'buffer': buffer}))
    pdf = raw(D, base=B(), pages=SList('pages', n, lambda i: None))
    for m in ('_build_pages_tree', '_build_dests', '_build_outlines'): record(D + '.' + m, log)
    buf = Token('buffer')
    try: pdf.output(buf)
    except Exception:
        if vc.aborted is not None: raise
        vc.check('only_without_pages', n == 0); vc.check('nothing_written', log == [])
        return
    names = [x for x, _ in log]
    vc.check('has_pages', n > 0)
    vc.check('trees_built_once_before_writing', sorted(names[:-1]) == ['_build_dests', '_build_outlines', '_build_pages_tree'] and names[-1] == 'output')
    d = dict(log)
    vc.check('all_the_pages', d['_build_pages_tree']['page_list'] is pdf.pages and d['_build_pages_tree']['first_level'] is True)
    vc.check('buffer', d['output']['buffer'] is buf)
    vc.cover('written')

@contract('PDF.__init__', funcs=[D + '.__init__'], props=['C08', 'C17', 'C20'])
def init(vc):
    log = []
    record(D + '.setup_page', log)
    record(D + '._add_or_get_font', log)
    names = ('page_numbering_offset', 'page_numbering_style', 'font_family', 'font_size', 'font_color', 'text_align', 'line_height', 'indent', 'outlines_level')
    given = {n: Token(n) for n in names}
    setup = {n: Token(n) for n in ('page_size', 'rotate_page', 'margin')}
    cls = instr.lookup(D)[2]
    a, b = object.__new__(cls), object.__new__(cls)
    a.__init__(**given, **setup)
    for n, v in given.items(): vc.check(n, getattr(a, n) is v)
    args_are(vc, 'setup', [x for n, x in log if n == 'setup_page'][0], setup)
    vc.check('catalog', a.root.value.get('Type') == b'/Catalog' and a.base.trailer.get('Root') is a.root.id)
    b.__init__()
    mutable = ('formats', 'context', 'dests', 'uris', 'pages', 'running_sections', 'outlines', 'outlines_ids', 'base', 'root', 'fonts', 'used_fonts', 'images')
    for n in mutable: vc.check('own_' + n, getattr(a, n) is not getattr(b, n))
    for n in ('formats', 'dests', 'uris', 'pages', 'running_sections', 'outlines', 'outlines_ids', 'used_fonts', 'images'):
        vc.check('empty_' + n, len(getattr(a, n)) == 0)
    vc.check('own_base', a.base.trailer is not b.base.trailer and a.fonts.fonts is not b.fonts.fonts)
    d = {n: x for n, x in log}
    args_are(vc, 'default', [x for n, x in log if n == 'setup_page'][1], dict(page_size='a4', rotate_page=False, margin=56.693))
    for n, v in dict(page_numbering_offset=0, page_numbering_style='arabic', font_family='Helvetica', font_size=11, font_color=0.1,
            text_align='l', line_height=1.1, indent=0, outlines_level=1).items():
        vc.check('default_' + n, getattr(b, n) == v)
    vc.cover('init')
