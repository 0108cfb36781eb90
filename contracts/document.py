"""C14, C15, C17, C18: documents made of sections - the pages of a section, what is repeated in them, and footnotes."""
import inspect

from pyvc.engine import *
from pyvc.stream import *
from pyvc import instr
from textline import raw, ctx, run
from doc import same_value, Token, args_are, record, all_done
from table import Out, same_style, Bools
from parse import find
from _maps import *
import z3

M = 'pdfme.document.'
B = M + 'PDFDocument'
PROPS = ('page_size', 'rotate_page', 'margin')

def method(name): return instr.lookup(B + '.' + name)[2]

# --------------------------------------------------------------------------- running sections

class EachRunning:
    """the running sections before k were added once, in order"""
    def __init__(self, d): self.d = d
    def check(self, st, k, env, mode):
        vc, d = st.ctx, self.d
        if mode == 'establish':
            vc.check('those_of_the_page_before_are_dropped', d.pdf.running_sections == [] and not d.added)
            return
        d.step(vc)
    def havoc(self, st, k):
        self.d.added.clear(); st.touch(self.d.added)
        return {}

@contract('PDFDocument._set_running_sections', funcs=[B + '._set_running_sections', 'pdfme.utils.copy'], props=['C18'])
def set_running(vc):
    pw, ph = vc.real('page_width'), vc.real('page_height')
    margin = {k: vc.real('margin ' + k) for k in ('left', 'right', 'top', 'bottom')}
    given = dict(margin)
    class Pdf:
        _vc_ghost = True
        def add_running_section(self, *a, **k):
            d.added.append((a, k))
    names = ('content', 'width', 'height', 'x', 'y')
    d = raw(B, pdf=Pdf(), added=[])
    d.pdf.running_sections = [Token('of the page before')]
    section = {'content': [Token('content')]}
    want = {}
    f = vc.choose(4, 'field')
    field = ('width', 'height', 'x', 'y')[f]
    cases = {'width': {'left': margin['left'], 'right': margin['right'], 'full': pw}, 'height': {'top': margin['top'], 'bottom': margin['bottom'], 'full': ph},
        'x': {'left': margin['left'], 'right': pw - margin['right']}, 'y': {'top': margin['top'], 'bottom': ph - margin['bottom']}}
    values = dict(width=pw - margin['left'] - margin['right'], height=ph - margin['top'] - margin['bottom'], x=0, y=0)
    ks = [None] + sorted(cases[field]) + ['number']
    c = ks[vc.choose(len(ks), 'value')]
    if c == 'number': section[field] = values[field] = vc.real(field)
    elif c is not None: section[field] = c; values[field] = cases[field][c]
    if c is None and vc.choose(2, 'all numbers'):
        for k in values: section[k] = values[k] = vc.real(k)
    if c is None and vc.choose(2, 'style'): section['style'] = Token('style')
    before = dict(section); inner = list(section['content'])
    name = SStr('name of a section')
    other = Token('other section')
    d.running_sections = Map('running_sections', lambda k: section if same_key(k, name) else other)
    def step(vc):
        vc.check('added_once', len(d.added) == 1)
        a, k = d.added[0]
        a = dict(zip(names, a)); a.update(k)
        for n in values: vc.check(n, n in a and eq(a[n], values[n]))
        got = a['content']
        vc.check('content', isinstance(got, dict) and got['content'] == inner and got.get('style') is before.get('style'))
        vc.check('definition_kept', section == before and section['content'] == inner and got is not section and got['content'] is not section['content'])
        vc.check('margins_kept', margin == given)
    d.step = step
    n = vc.int('sections'); vc.assume(n >= 0)
    loop = EachRunning(d)
    method('_set_running_sections')(d, SList('names', n, lambda i: name, loop), pw, ph, margin)
    vc.check('all_of_them', getattr(loop, 'completed', 0) == 1)

# --------------------------------------------------------------------------- sections

@contract('PDFDocument.run', funcs=[B + '.run', B + '.output'], props=['C18', 'C17'])
def run_document(vc):
    log = []
    record(B + '._process_section', log)
    class Each:
        def check(self, st, k, env, mode):
            if mode == 'establish': vc.check('none_yet', not log); return
            vc.check('section_once', len(log) == 1 and log[0][1]['section'] is sections.at(self.k))
        def havoc(self, st, k):
            self.k = k; log.clear(); st.touch(log)
            return {}
    loop = Each()
    n = vc.int('sections'); vc.assume(n >= 0)
    sections = SList('sections', n, lambda i: Token('section'), loop)
    outs = []
    class Pdf:
        _vc_ghost = True
        def output(self, buffer): outs.append(buffer)
    d = raw(B, sections=sections, pdf=Pdf())
    method('run')(d)
    vc.check('all_the_sections', loop.completed == 1 and not log)
    b = Token('buffer')
    method('output')(d, b)
    vc.check('written_once', outs == [b])

class Names:
    """a list of names of running sections, by how it is made"""
    _vc_ghost = True
    def __init__(self, how, *of): self.how, self.of, self.given = how, of, False
    def _vc_list(self): return Names('same', self)
    def _vc_unique(self): return Names('unique', self)
    def comp_if(self, elt, cond):
        t = Token('name')
        if elt(t) is not t: ctx().abort(Unsupported('names'))
        return Names('filter', self, cond)
    def extend(self, l):
        ctx().check('lists_of_the_definition_kept', not self.given)
        old = Names(self.how, *self.of)
        self.how, self.of = 'plus', (old, l)
    def __iter__(self): ctx().abort(Unsupported('names'))

def plain(n):
    while isinstance(n, Names) and n.how == 'same': n = n.of[0]
    return n

class Excluded:
    def __init__(self): self.memo = {}
    def __contains__(self, t):
        if id(t) not in self.memo: self.memo[id(t)] = (ctx().choose(2, 'excluded') == 1, t)
        return self.memo[id(t)][0]

class Ranges:
    """page_args and running_sections are what the page ranges before k make of them"""
    def __init__(self, x): self.x = x
    def check(self, st, k, env, mode):
        vc, x = st.ctx, self.x
        if mode == 'establish':
            self.args = find(env, lambda v: type(v) is dict and set(v) == set(PROPS), 'the arguments of the page')[0]
            self.names = find(env, lambda v: isinstance(v, Names) or type(v) is list and not v, 'the running sections')
            if len(self.names) != 1: vc.abort(Unsupported('locals'))
            self.names = self.names[0]
            self.alias = env[self.names] is x.running
            a = env[self.args]
            vc.check('page_of_the_section', all(a[k] is x.section_args.get(k, x.defaults[k]) for k in PROPS))
            vc.check('running_sections_of_the_section', plain(env[self.names]) is x.running if x.running is not None else env[self.names] == [])
            return
        r, a, n = x.ranges[-1], env[self.args], plain(env[self.names])
        inside = r['pages'].inside
        vc.check('page_of_this_range', r['pages'].asked is not None and eq(r['pages'].asked, x.page_n))
        st_ = r.get('style', {}) if inside else {}
        vc.check('page_of_the_range', set(a) == set(PROPS) and all(a[k] is st_.get(k, self.old[k]) for k in PROPS))
        rs = r.get('running_sections') if inside else None
        if rs is None: vc.check('running_sections_kept', n is self.old_names)
        else:
            add = rs.get('include')
            if add is not None:
                vc.check('included', n.how == 'plus' and n.of[1] is add)
                n = plain(n.of[0])
            elif n.how == 'plus':
                vc.check('included', n.of[1] == [])
                n = plain(n.of[0])
            if n.how == 'filter':
                t = Token('any name')
                vc.check('excluded', plain(n.of[0]) is self.old_names and instr.truth(n.of[1](t)) is not (t in rs['exclude'] if 'exclude' in rs else False))
            else: vc.check('excluded', 'exclude' not in rs and n is self.old_names)
            vc.cover('running sections of a range')
        vc.check('range_kept', r == x.before_range)
    def havoc(self, st, k):
        x = self.x
        self.old = {k: Token('any ' + k) for k in PROPS}
        self.old_names = Names('any')
        a = dict(self.old)
        n = Names('same', self.old_names)
        n.given = self.alias
        x.final = a, n
        return {self.args: a, self.names: n}

class Pages:
    """every page of the section so far was made, once, and the section was not over"""
    def __init__(self, x): self.x = x
    def check(self, st, k, env, mode):
        vc, x = st.ctx, self.x
        if mode == 'preserve':
            x.page(vc)
            vc.check('another_page_if_it_is_not_over', not x.d.section.finished)
    def havoc(self, st, k):
        vc, x, d = st.ctx, self.x, self.x.d
        x.log.clear(); st.touch(x.log); st.touch(x.ranges)
        st.touch(d.pdf); st.touch(d.section); st.touch(d)
        x.page_n = vc.int('pages'); vc.assume(x.page_n >= 0)
        d.pdf.pages = SList('pages', x.page_n, lambda i: Token('page'))
        return {}

@contract('PDFDocument._process_section', funcs=[B + '._process_section'], props=['C17', 'C18'], time=150)
def process_section(vc):
    class X: pass
    x = X()
    x.log, x.ranges = [], []
    log = x.log
    x.defaults = {k: Token('default ' + k) for k in PROPS}
    own = {}
    instr.stub('pdfme.utils.process_style', lambda s, pdf=None: (log.append(('style', s, pdf)), own)[1])
    class Content:
        _vc_ghost = True
        finished = False
        def __init__(self): self.finished = False
        def setup(self, x=None, y=None, width=None, height=None): log.append(('section.setup', x, y, width, height))
    class Pdf:
        _vc_ghost = True
        def __init__(self):
            self.pages = SList('pages', vc.int('pages at first'), lambda i: Token('page'))
            vc.assume(self.pages.n >= 0)
            self.page_numbering_offset, self.page_numbering_style = Token('old offset'), Token('old style')
        def _create_content(self, *a):
            log.append(('create', a)); self.made = Content(); return self.made
        def setup_page(self, **k):
            log.append(('setup_page', k))
            self.page_width, self.page_height = vc.real('page_width'), vc.real('page_height')
            self.rotate_page = vc.choose(2, 'rotated') == 1
            self.margin = {m: vc.real('margin ' + m) for m in ('top', 'bottom', 'left', 'right')}
        def add_page(self): log.append(('add_page',))
    pdf = Pdf()
    d = x.d = raw(B, pdf=pdf, style={'b': Token('bold'), 'margin': Token('margin of the document')}, page_defaults=dict(x.defaults), x=vc.real('x'), y=vc.real('y'), width=vc.real('w'), height=vc.real('h'))
    doc_style = dict(d.style)
    record(B + '._set_running_sections', log)
    def content(s, a): s.section.finished = vc.choose(2, 'finished') == 1
    record(B + '._add_content', log, content)
    # the section
    c = vc.choose(4, 'section style')
    if c == 1: own.update({'page_size': Token('size'), 'b': Token('other')})
    if c == 2: own.update({'page_numbering_offset': vc.int('offset'), 'page_numbering_style': Token('numbering')})
    if c == 3: own.update({'page_numbering_offset': vc.int('offset'), 'page_numbering_reset': True})
    section = {'content': Token('elements')}
    if c: section['style'] = Token('style')
    x.running = None
    if vc.choose(2, 'running') == 1: x.running = section['running_sections'] = Names('of the section'); x.running.given = True
    given = dict(section)
    x.section_args = {k: own.get(k, doc_style.get(k)) for k in PROPS if k in own or k in doc_style}
    old_offset, old_style = pdf.page_numbering_offset, pdf.page_numbering_style
    pages_at_first = pdf.pages.n
    class In:
        def __init__(self): self.asked, self.inside = None, vc.choose(2, 'in the range') == 1
        def __contains__(self, n): self.asked = n; return self.inside
    def a_range(i):
        r = {'pages': In()}
        if r['pages'].inside:
            if vc.choose(2, 'range style'): r['style'] = {'margin': Token('margin of the range'), 'b': Token('bold')}
            k = vc.choose(4, 'range running')
            if k: r['running_sections'] = {n: Excluded() if n == 'exclude' else Names('included') for n in (('exclude',), ('include',), ('exclude', 'include'))[k - 1]}
        x.ranges.append(r)
        x.before_range = dict(r)
        return r
    ranges = Ranges(x)
    n = vc.int('ranges'); vc.assume(n >= 0)
    d.per_page = SList('per_page', n, a_range, ranges)
    none = []
    def names(l): return plain(l)
    real_list = instr.HELPERS['VC_c_list']
    vc.stubs['while:' + B + '._process_section'] = Pages(x)
    def page(vc):
        ops = [l[0] for l in log]
        vc.check('one_page', sorted(ops) == sorted(['setup_page', 'section.setup', '_set_running_sections', 'add_page', '_add_content']))
        vc.check('in_order', ops.index('setup_page') < ops.index('section.setup') and ops.index('setup_page') < ops.index('_set_running_sections') < ops.index('add_page') < ops.index('_add_content')
            and ops.index('section.setup') < ops.index('_add_content'))
        get = lambda n: [l for l in log if l[0] == n][0]
        args, nm = x.final
        vc.check('all_the_ranges', getattr(ranges, 'completed', 0) == 1)
        k = get('setup_page')[1]
        vc.check('page', set(k) == set(PROPS) and all(k[a] is args[a] for a in PROPS))
        w, h = pdf.page_width, pdf.page_height
        if pdf.rotate_page: w, h = h, w
        m = pdf.margin
        _, sx, sy, sw, sh = get('section.setup')
        vc.check('content_inside_the_margins', conj(eq(sx, m['left']), eq(sy, h - m['top']), eq(sx + sw, w - m['right']), eq(sy - sh, m['bottom'])))
        vc.check('rectangle_of_the_page', conj(eq(d.x, sx), eq(d.y, sy), eq(d.width, sw), eq(d.height, sh)))
        r = get('_set_running_sections')[1]
        vc.check('once_each', plain(r['running_sections']).how == 'unique' and plain(plain(r['running_sections']).of[0]) is plain(nm))
        vc.check('sizes_of_the_page', conj(eq(r['page_width'], w), eq(r['page_height'], h)) and r['margin'] is m)
        vc.cover('page')
    x.page = page
    method('_process_section')(d, section)
    x.page(vc)
    vc.check('until_it_is_over', d.section.finished)
    vc.check('definition_kept', section == given and same_style(d.style, doc_style) and same_style(d.page_defaults, x.defaults))

@contract('PDFDocument._process_section numbering', funcs=[B + '._process_section'], props=['C18', 'C14'])
def section_numbering(vc):
    """what is set before the first page of a section"""
    class Stop(Exception): pass
    log = []
    own = {}
    instr.stub('pdfme.utils.process_style', lambda s, pdf=None: (log.append((s, pdf)), own)[1])
    class Pdf:
        _vc_ghost = True
        def __init__(self):
            self.pages = SList('pages', vc.int('pages'), lambda i: Token('page'))
            vc.assume(self.pages.n >= 0)
            self.page_numbering_offset, self.page_numbering_style = Token('old offset'), Token('old style')
        def _create_content(self, content, width, height, x=None, y=None):
            self.args = content, width, height, x, y
            self.made = Token('content'); return self.made
        def setup_page(self, **k): raise Stop
    pdf = Pdf()
    d = raw(B, pdf=pdf, style={'b': Token('bold')}, page_defaults={}, x=vc.real('x'), y=vc.real('y'), width=vc.real('w'), height=vc.real('h'))
    d.per_page = []
    doc = {'b': Token('bold'), 'i': Token('italics')}
    if vc.choose(2, 'in the document'): doc['page_numbering_offset'] = vc.int('offset of the document')
    d.style = dict(doc)
    if vc.choose(2, 'offset'): own['page_numbering_offset'] = vc.int('offset')
    if vc.choose(2, 'style'): own['page_numbering_style'] = Token('numbering')
    c = vc.choose(3, 'reset')
    if c: own['page_numbering_reset'] = c == 1
    own['b'] = Token('other')
    section = {'content': Token('elements'), 'style': Token('style')}
    given, styles = dict(section), dict(own)
    old = pdf.page_numbering_offset, pdf.page_numbering_style
    try: method('_process_section')(d, section)
    except Stop: pass
    merged = dict(doc); merged.update(own)
    want = merged.get('page_numbering_offset', old[0])
    if c == 1: vc.check('numbers_begin_again', eq(pdf.page_numbering_offset, -pdf.pages.n))
    else: vc.check('offset', same_value(pdf.page_numbering_offset, want))
    vc.check('style_of_the_numbers', pdf.page_numbering_style is merged.get('page_numbering_style', old[1]))
    vc.check('own_style', log == [(given['style'], pdf)])
    vc.check('content_of_the_section', d.section is pdf.made and pdf.args[0] is not section and set(pdf.args[0]) == set(given) and pdf.args[0]['content'] is given['content'] and same_style(pdf.args[0]['style'], merged))
    vc.check('definition_kept', section == given and same_style(d.style, doc) and same_style(own, styles))

# --------------------------------------------------------------------------- footnotes

class Lay:
    """what a content box shows when it goes on from a state in a height"""
    def __init__(self, vc, state, height):
        self.state, self.height = state, height
        self.fills, self.lines, self.parts = [Token('fill')], [Token('line')], [Token('part')]
        self.used = vc.real('height used')
        vc.assume(self.used >= 0); vc.assume(self.used <= height)
        self.finished = vc.choose(2, 'finished') == 1
        self.after = Token('state after')

@contract('PDFDocument._add_content', funcs=[B + '._add_content'], props=['C21', 'C17', 'C14', 'C15'], time=150)
def add_content(vc):
    started = vc.choose(2, 'started') == 1
    events = []
    X, Y, W, H = (vc.real(n) for n in ('x', 'y', 'width', 'height'))
    bottom = vc.real('bottom'); vc.assume(eq(Y - H, bottom)); vc.assume(H > 0); vc.assume(W > 0); vc.assume(bottom >= 0)
    gap = vc.real('footnotes_margin'); vc.assume(gap > 0)
    beginning = {'section_element_index': 0, 'section_delayed': [], 'children_memory': []}
    first = Token('state saved') if started else None
    class Section:
        _vc_ghost = True
        def __init__(self):
            self.pdf_content_part = Token('part') if started else None
            self.now = first
            self.height, self.x, self.y, self.width = H, X, Y, W
            self.finished = False
            self.lay = None
            self.runs = []
        def _vc_isinstance(self, t): return t is instr.lookup('pdfme.content.PDFContent')[2]
        def get_state(self):
            s = {k: Token(k) for k in beginning}
            if self.now is None: return dict(beginning, section_delayed=[], children_memory=[])
            self.saved = getattr(self, 'saved', []) + [(s, self.now)]
            return dict(s)
        def set_state(self, section_element_index=None, section_delayed=None, children_memory=None):
            s = dict(section_element_index=section_element_index, section_delayed=section_delayed, children_memory=children_memory)
            for a, b in getattr(self, 'saved', []):
                if all(s[k] is a[k] for k in s): self.now = b; return
            vc.check('state_of_a_box', s == beginning)
            self.now = None
        def run(self, x=None, y=None, width=None, height=None):
            for n, v in (('x', x), ('y', y), ('width', width), ('height', height)):
                if v is not None: setattr(self, n, v)
            vc.check('rectangle_of_the_page', conj(eq(self.x, X), eq(self.y, Y), eq(self.width, W)))
            self.pdf_content_part = self.pdf_content_part or Token('part')
            self.lay = l = Lay(vc, self.now, self.height)
            self.now = l.after
            self.fills, self.lines, self.parts, self.current_height = l.fills, l.lines, l.parts, l.used
            if l.finished: self.finished = True
            self.runs.append(l)
    sec = Section()
    class Page:
        _vc_ghost = True
        def __init__(self): self.x, self._y, self.content_width = X, Y, W
        def add(self, content): events.append(('add', content))
    class Pdf:
        _vc_ghost = True
        def __init__(self): self.page = Page(); self.margin = {'bottom': bottom, 'left': X, 'top': vc.real('top'), 'right': vc.real('right')}
        def _add_graphics(self, graphics): events.append(('graphics', list(graphics)))
        def _add_parts(self, parts): events.append(('parts', list(parts)))
        def _content(self, content, width=None, height=None, x=None, y=None, move='bottom'):
            if x is not None or y is not None: vc.abort(Unsupported('position'))
            p = self.page
            if content is sec:
                vc.check('height_is_given', height is not None)
                sec.run(p.x, p._y, W if width is None else width, height)
            else:
                content.place(p.x, p._y, W if width is None else width, height)
            events.append(('graphics', content.fills + content.lines))
            events.append(('parts', list(content.parts)))
            if move == 'bottom': p._y = p._y - content.current_height
            return content
    pdf = Pdf()
    class Notes:
        _vc_ghost = True
        def __init__(self, h):
            self.current_height = h
            self.fills, self.lines, self.parts = [Token('fill of the notes')], [Token('line of the notes')], [Token('part of the notes')]
        def _vc_isinstance(self, t): return t is instr.lookup('pdfme.content.PDFContent')[2]
        def place(self, x, y, w, h):
            self.x, self.y = x, y
            vc.check('notes_in_the_width', conj(eq(x, X), eq(w, W)))
            vc.check('room_for_the_notes', True if h is None else h >= self.current_height)
    made = []
    def notes(s, a):
        vc.check('notes_of_the_layout', sec.lay is not None)
        if made and made[0][1] is None: vc.abort(Unsupported('notes'))
        if vc.choose(2, 'notes'):
            h = vc.real('height of the notes'); vc.assume(h > 0)
            # a page laid out again in less height shows no more references
            if made and made[0][1] is not None: vc.assume(h <= made[0][1].current_height)
            made.append((sec.lay, Notes(h)))
        else: made.append((sec.lay, None))
        return made[-1][1]
    record(B + '._process_footnotes', [], notes)
    d = raw(B, section=sec, pdf=pdf, x=X, y=Y, width=W, height=H, footnotes_margin=gap)
    try: method('_add_content')(d)
    except Exception as e:
        if type(e) is not Exception: raise
        h = made[0][1].current_height
        vc.check('only_if_the_notes_do_not_fit', len(made) == 1 and not events and disj(h + gap + 20 >= H))
        vc.cover('too large'); return
    shown = sec.lay
    vc.check('goes_on_where_it_was', shown is not None and all(l.state is first for l in sec.runs) and sec.now is shown.after)
    vc.check('over_when_all_is_shown', sec.finished is shown.finished)
    vc.check('notes_of_what_is_shown', made and made[-1][0] is shown)
    final = made[-1][1]
    want = [('graphics', shown.fills + shown.lines), ('parts', shown.parts)]
    if final is None:
        vc.check('content_shown', [e for e in events if e[0] != 'add'] == want and all(e[0] != 'add' for e in events))
        if made[0][1] is None:
            vc.check('whole_page', eq(shown.height, H))
            vc.check('cursor', conj(eq(pdf.page._y, Y - shown.used), eq(pdf.page.x, X)))
            vc.cover('no notes')
        return
    vc.check('whole_page_less_the_notes', eq(shown.height, H - made[0][1].current_height - gap))
    low = Y - shown.height
    drawn = [e for e in events if e[0] != 'add']
    vc.check('content_and_notes', drawn == want + [('graphics', final.fills + final.lines), ('parts', final.parts)])
    vc.check('notes_over_the_margin', final.y - final.current_height >= bottom)
    vc.check('notes_below_the_content', final.y <= low)
    add = [e[1] for e in events if e[0] == 'add']
    vc.check('line', len(add) == 1)
    g = GState(tx=None, ty=None)
    g.run(add[0])
    ok = len(g.events) == 1 and g.events[0]['kind'] == 'stroke' and [p[0] for p in g.events[0]['path']] == ['m', 'l'] and not g.stack and not g.path
    vc.check('line_is_drawn', ok and g.stroke is None and g.width is None and g.events[0]['color'] is not None and g.events[0]['width'] is not None)
    (_, x1, y1), (_, x2, y2) = g.events[0]['path']
    r = Fraction(1, 1000)
    vc.check('line_is_horizontal', eq(y1, y2))
    vc.check('line_between_content_and_notes', conj(y1 >= final.y - r, y1 <= low + r))
    vc.check('line_from_the_margin', conj(near(x1, X, r), x2 > x1))
    vc.cover('notes')


class Elements:
    """the elements before k were visited once, in order, with the same list of notes"""
    def __init__(self, log, what): self.log, self.what = log, what
    def check(self, st, k, env, mode):
        vc = st.ctx
        if mode == 'establish': vc.check('nothing_yet', not self.log); return
        self.what(vc)
    def havoc(self, st, k):
        self.log.clear(); st.touch(self.log)
        return {}

@contract('PDFDocument._process_footnotes', funcs=[B + '._process_footnotes'], props=['C21'])
def process_footnotes(vc):
    log = []
    n = vc.choose(3, 'notes')
    made = Token('content box')
    def find_(s, a):
        vc.check('none_yet', a['page_footnotes'] == [])
        for i in range(n): a['page_footnotes'].append(Token('note %d' % i))
        log.append(list(a['page_footnotes']))
    record(B + '._check_footnotes', [], find_)
    record(B + '._get_footnotes_obj', log, lambda s, a: made)
    r = method('_process_footnotes')(raw(B))
    if n == 0: vc.check('none', r is None and log == [[]])
    else: vc.check('notes_of_the_page', r is made and len(log) == 2 and log[1][1]['page_footnotes'] == log[0])

@contract('PDFDocument._check_footnotes', funcs=[B + '._check_footnotes'], props=['C21'])
def check_footnotes(vc):
    log = []
    record(B + '._check_footnote', log)
    notes = Token('notes')
    class S: pass
    s = S()
    def elem(i):
        s.ids = Token('ids')
        s.par = vc.choose(2, 'kind') == 0
        return dict({'type': 'paragraph', 'ids': s.ids} if s.par else {'type': 'image', 'pdf_image': Token('image')}, **{k: vc.real(k) for k in ('x', 'y', 'width', 'height')})
    def each(vc):
        vc.check('paragraphs', len(log) == (1 if s.par else 0))
        if s.par: vc.check('its_references', log[0][1]['ids'] is s.ids and log[0][1]['page_footnotes'] is notes)
    loop = Elements(log, each)
    n = vc.int('parts'); vc.assume(n >= 0)
    sec = Token('section'); sec.parts = SList('parts', n, elem, loop)
    method('_check_footnotes')(raw(B, section=sec), notes)
    all_done(vc, loop)

class Id:
    """an id in the text: the one of a note, by its number, or any other"""
    _vc_ghost = True
    P = '$footnote:'
    def __init__(self, number): self.number = number
    def startswith(self, p):
        if p == self.P: return self.number is not None
        ctx().abort(Unsupported('prefix of an id'))
    def digits(self):
        if self.number is None: ctx().abort(Unsupported('number of an id'))
        return Digits(self.number)
    def __getitem__(self, s):
        if not isinstance(s, slice) or s.start != len(self.P) or s.stop is not None or s.step not in (None, 1): ctx().abort(Unsupported('part of an id'))
        return self.digits()
    def removeprefix(self, p):
        if p != self.P: ctx().abort(Unsupported('prefix of an id'))
        return self.digits()
    def split(self, c, m=-1):
        if c != ':' : ctx().abort(Unsupported('split'))
        return ['$footnote', self.digits()]
    rsplit = split
    def replace(self, a, b):
        if a != self.P or b != '': ctx().abort(Unsupported('replace'))
        return self.digits()
    def partition(self, c): return ['$footnote', ':', self.split(c)[1]]
    def __hash__(self): return id(self)
    def __eq__(self, o):
        if o is self: return True
        ctx().abort(Unsupported('comparison of an id'))

class Digits:
    _vc_ghost = True
    def __init__(self, n): self.n = n
    def _vc_int(self): return self.n

class Found:
    """the notes of the page so far: any number, and those added since"""
    _vc_ghost = True
    def __init__(self, vc): self.n, self.added = vc.int('notes'), []; vc.assume(self.n >= 0)
    def _vc_len(self): return self.n + len(self.added)
    def append(self, x): self.added.append(x)

@contract('PDFDocument._check_footnote', funcs=[B + '._check_footnote'], props=['C21'])
def check_footnote(vc):
    total = vc.int('notes of the document'); vc.assume(total >= 0)
    notes = Notes_(total)
    found = Found(vc)
    class Context:
        _vc_ghost = True
        def __init__(self): self.sets = []
        def __setitem__(self, k, v): self.sets.append((k, v))
    pdf = Token('pdf'); pdf.context = Context()
    class S: pass
    s = S()
    def elem(i):
        k = None
        if vc.choose(2, 'of a note'):
            k = vc.int('number'); vc.assume(k >= 0); vc.assume(k < total)
        s.id, s.rects = Id(k), SList('rects', vc.int('rects'), lambda j: Token('rect'))
        vc.assume(s.rects.n > 0)     # PDFText.run adds a rectangle for each id it finds
        return s.id, s.rects
    class Each:
        def check(self, st, k, env, mode):
            if mode == 'establish': vc.check('nothing_yet', not found.added and not pdf.context.sets); return
            sets = pdf.context.sets
            if found.added:
                vc.check('shown_in_the_page', s.rects.n > 0)
                vc.check('its_note', s.id.number is not None and len(found.added) == 1 and eq(notes.index_of(found.added[0]), s.id.number))
                vc.check('its_number', len(sets) == 1 and sets[0][0] is s.id and eq(sets[0][1], self.before + 1))
                vc.cover('note')
            else: vc.check('all_the_notes', s.id.number is None and not sets)
        def havoc(self, st, k):
            found.added.clear(); st.touch(found.added); st.touch(notes.got); st.touch(pdf.context.sets); pdf.context.sets.clear()
            found.n = self.before = vc.int('notes before'); vc.assume(found.n >= 0); st.touch(found)
            return {}
    loop = Each()
    n = vc.int('ids'); vc.assume(n >= 0)
    class Ids:
        _vc_ghost = True
        def items(self): return SList('ids', n, elem, loop)
    method('_check_footnote')(raw(B, footnotes=notes, pdf=pdf), Ids(), found)
    all_done(vc, loop)

class Notes_:
    """the notes of the document"""
    _vc_ghost = True
    def __init__(self, n): self.n, self.got = n, []
    def _vc_len(self): return self.n
    def __getitem__(self, i):
        vc = ctx()
        vc.check('note_of_the_document', conj(i >= 0, i < self.n))
        t = Token('note'); self.got.append((t, i)); return t
    def index_of(self, t):
        for a, i in self.got:
            if a is t: return i
        return -1

@contract('PDFDocument._get_footnotes_obj', funcs=[B + '._get_footnotes_obj', 'pdfme.utils.copy'], props=['C21'])
def get_footnotes(vc):
    log = []
    formats = {'a format': {'i': Token('italics')}}
    class Content:
        _vc_ghost = True
        def run(self, x=None, y=None, width=None, height=None):
            for n, v in (('x', x), ('y', y), ('width', width), ('height', height)): vc.check('laid_out_in_the_page', v is None or eq(v, getattr(d, n)))
            log.append('run')
    made = Content()
    class Pdf:
        _vc_ghost = True
        def __init__(self): self.formats = formats
        def _create_content(self, content, width=None, height=None, x=None, y=None):
            log.append((content, dict(width=width, height=height, x=x, y=y))); return made
    d = raw(B, pdf=Pdf(), x=vc.real('x'), y=vc.real('y'), width=vc.real('w'), height=vc.real('h'))
    class S: pass
    s = S()
    s.out = None
    def elem(i):
        k = vc.choose(3, 'style')
        s.i = i
        s.note = {'.': [Token('text')], 'label': Token('label')}
        s.style = {}
        if k == 1: s.style = s.note['style'] = {'b': Token('bold')}
        if k == 2: s.note['style'], s.style = 'a format', formats['a format']
        s.before = dict(s.note); s.before_style = dict(s.style); s.text = list(s.note['.'])
        return s.note
    class Each:
        def check(self, st, k, env, mode):
            if mode == 'establish':
                f = find(env, lambda v: type(v) is dict and v.get('content') == [] or type(v) is list and not v, 'the notes')
                self.made = {n: dict(env[n]) if isinstance(env[n], dict) else None for n in f}
                return
            vc.check('one_each', len(s.out.added) == 1)
            got = s.out.added[0]
            vc.check('note', isinstance(got, dict) and got is not s.note and set(got) == set(s.before) | {'style'} and got['label'] is s.note['label'] and list(got['.']) == s.text)
            style = dict(got['style'])
            ps = pieces(style.pop('list_text', ''))
            vc.check('number_of_the_note', len(ps) >= 1 and not isinstance(ps[0], (str, SStr)) and eq(ps[0], self.k + 1) and all(isinstance(p, str) and not any(c.isalnum() for c in p) for p in ps[1:]))
            vc.check('style_of_the_number', style.pop('list_style', None) == '$footnote')
            vc.check('style', same_style(style, s.before_style))
            vc.check('definition_kept', s.note == s.before and (not isinstance(s.note.get('style'), dict) or s.note['style'] == s.before_style) and set(formats) == {'a format'} and set(formats['a format']) == {'i'})
            vc.cover('note')
        def havoc(self, st, k):
            self.k = k
            s.out = Out()
            st.touch(s.out.added)
            return {n: s.out if v is None else dict(v, content=s.out) for n, v in self.made.items()}
    loop = Each()
    n = vc.int('notes'); vc.assume(n >= 1)
    r = method('_get_footnotes_obj')(d, SList('notes', n, elem, loop))
    all_done(vc, loop)
    vc.check('one_box', r is made and len(log) == 2 and log[1] == 'run')
    content, a = log[0]
    vc.check('content', set(content) == {'style', 'content'} and content['style'] == '$footnotes' and content['content'] is s.out)
    vc.check('in_the_page', conj(*(eq(a[k], getattr(d, k)) for k in a)))

@contract('PDFDocument._traverse_document_footnotes', funcs=[B + '._traverse_document_footnotes'], props=['C21', 'C20'])
def traverse(vc):
    """every reference below the element is marked once, by induction over the definition"""
    log = []
    trav = method('_traverse_document_footnotes')
    record(B + '._traverse_document_footnotes', log)
    class Context:
        _vc_ghost = True
        def __init__(self): self.sets = []
        def __setitem__(self, k, v): self.sets.append((k, v))
    pdf = Token('pdf'); pdf.context = Context()
    found = Found(vc)
    d = raw(B, footnotes=found, pdf=pdf)
    marked = lambda: found.added or pdf.context.sets
    c = vc.choose(4, 'element')
    if c == 0:
        class S: pass
        s = S()
        def elem(i): s.e = Token('child'); return s.e
        def each(vc): vc.check('every_child', len(log) == 1 and log[0][1]['element'] is s.e and not marked())
        loop = Elements(log, each)
        n = vc.int('children'); vc.assume(n >= 0)
        l = SList('children', n, elem, loop)
        trav(d, l)
        all_done(vc, loop)
        vc.check('only_its_children', not marked())
        return
    if c == 1:
        kids = {'a': [Token('x')], 'b': {'content': Token('y')}, 'c': (Token('z'),), 'd': Token('other', str), 'e': 1.5, 'f': None, 'g': 'text'}
        before = dict(kids)
        trav(d, kids)
        got = [a['element'] for _, a in log if isinstance(a['element'], (list, tuple, dict))]
        vc.check('every_child', len(got) == 3 and all(x is kids[k] for x, k in zip(got, 'abc')))
        vc.check('not_marked', not marked() and kids == before)
        return
    if c == 2:
        trav(d, (Token('text', str), 1.5, None, 'text')[vc.choose(4, 'value')])
        vc.check('nothing', not marked() and not log)
        return
    k = vc.choose(6, 'note')
    t = Token('text', str)
    note = (t, [t], (t,), {'.': t, 'style': {'b': 1}}, vc.int('number'), 7.5)[k]
    e = {'footnote': note}
    ids = None
    if vc.choose(2, 'ids'): ids = e['ids'] = ['an id']
    n = found.n
    trav(d, e)
    vc.check('not_inside_the_note', not log)
    vc.check('one_note', len(found.added) == 1 and len(pdf.context.sets) == 1)
    got = found.added[0]
    if k == 3: vc.check('as_given', got is note and note == {'.': t, 'style': {'b': 1}})
    elif k < 3: vc.check('text', isinstance(got, dict) and set(got) == {'.'} and got['.'] is note)
    else: vc.check('text_of_the_number', isinstance(got, dict) and set(got) == {'.'} and str_eq(got['.'], str(note) if k == 5 else instr.HELPERS['VC_c_str'](note)))
    vc.check('ids', len(e['ids']) == (1 if ids is None else 2) and (ids is None or e['ids'][0] == 'an id'))
    name = e['ids'][-1]
    ps = pieces(name)
    vc.check('id_of_the_note', len(ps) == 2 and ps[0] == '$footnote:' and eq(ps[1], n))
    vc.check('shows_its_number', str_eq(e['var'], name) and str_eq(pdf.context.sets[0][0], name))
    vc.check('style_of_the_number', e['style'] == '$footnote')
    vc.check('nothing_else', e['footnote'] is note and set(e) == {'footnote', 'ids', 'var', 'style'})

# --------------------------------------------------------------------------- the definition

STYLES = dict(f='font_family', s='font_size', c='font_color', text_align='text_align', line_height='line_height', indent='indent')
NUMBERING = ('page_numbering_offset', 'page_numbering_style')

@contract('PDFDocument.__init__', funcs=[B + '.__init__', 'pdfme.utils.copy'], props=['C17', 'C18', 'C20', 'C21'])
def init_document(vc):
    log = []
    sig = inspect.signature(instr.lookup('pdfme.pdf.PDF.__init__')[2])
    class New:
        def __new__(c, *a, **k):
            b = sig.bind(None, *a, **k)
            pdf = Token('pdf')
            pdf.given = {n: v for n, v in b.arguments.items() if n != 'self'}
            pdf.page_width, pdf.page_height, pdf.rotate_page, pdf.margin = vc.real('w'), vc.real('h'), vc.bool('rotate'), Token('margin')
            pdf.context, pdf.formats = {'$page': Token('page')}, {'default': Token('default')}
            log.append(('PDF', pdf)); return pdf
    instr.stub('pdfme.pdf.PDF', New)
    record(B + '._traverse_document_footnotes', log, lambda s, a: log.append((list(s.footnotes), s.pdf)))
    ranges, asked = [], []
    instr.stub('pdfme.utils.parse_range_string', lambda t: (asked.append(t), ranges.append(Token('range')), ranges[-1])[2])
    style = {}
    c = vc.choose(3, 'style')
    if c:
        for k in list(STYLES) + list(PROPS + NUMBERING) + ['outlines_level', 'b', 'margin_bottom']:
            if c == 2 or k in ('s', 'page_size', 'page_numbering_offset', 'b'): style[k] = Token(k)
    doc = {}
    if c: doc['style'] = style
    before_style = dict(style)
    per = None
    k = vc.choose(3, 'definition')
    if k: doc['sections'] = [Token('section')]
    if k == 2:
        doc['formats'] = {'own': Token('own'), '$footnote': Token('own style of the numbers'), '$footnotes': Token('own style of the notes')}
        doc['running_sections'] = {'head': Token('head')}
    class Each:
        def check(self, st, k, env, mode):
            if mode == 'establish':
                vc.check('none_yet', d.per_page == [] and not ranges); return
            vc.check('one_each', len(out.added) == 1 and len(ranges) == 1 and asked[-1] is self.pages)
            r = out.added[0]
            vc.check('rules_of_the_range', isinstance(r, dict) and set(r) == set(self.before) and r['pages'] is ranges[0]
                and all(same_style(r[n], self.before[n]) if isinstance(self.before[n], dict) else r[n] is self.before[n] for n in r if n != 'pages'))
            vc.check('definition_kept', self.range == self.before)
        def havoc(self, st, k):
            asked.clear(); ranges.clear(); out.added.clear()
            for l in (asked, ranges, out.added): st.touch(l)
            st.set(d, 'per_page', out)
            return {}
        def elem(self, i):
            self.pages = SStr('pages')
            self.range = {'pages': self.pages}
            if vc.choose(2, 'rules'): self.range.update(style={'margin': Token('margin')}, running_sections={'exclude': Token('names')})
            self.before = dict(self.range)
            return self.range
    out = Out()
    loop = Each()
    if vc.choose(2, 'per_page'):
        n = vc.int('ranges'); vc.assume(n >= 0)
        per = doc['per_page'] = SList('ranges', n, loop.elem, loop)
    before = dict(doc)
    context = (None, {'name': Token('value')})[vc.choose(2, 'context')]
    d = raw(B)
    method('__init__')(d, doc, context) if context is not None else method('__init__')(d, doc)
    pdf = d.pdf
    vc.check('one_document', log[0][0] == 'PDF' and log[0][1] is pdf and [l[0] for l in log if isinstance(l[0], str)] == ['PDF', '_traverse_document_footnotes'])
    want = {v: style[k] for k, v in STYLES.items() if k in style}
    want.update({k: style[k] for k in PROPS + NUMBERING + ('outlines_level',) if k in style})
    given = dict(pdf.given)
    if 'outlines_level' not in want: vc.check('levels', given.pop('outlines_level', 1) == 1)
    vc.check('arguments', set(given) == set(want) and all(given[k] is want[k] for k in want))
    vc.check('page_defaults', set(d.page_defaults) == set(PROPS) and d.page_defaults['margin'] is pdf.margin and d.page_defaults['rotate_page'] is pdf.rotate_page
        and conj(*(eq(a, b) for a, b in zip(d.page_defaults['page_size'], (pdf.page_width, pdf.page_height)))))
    vc.check('style', same_style(d.style, style) and d.style is not style)
    f = dict(pdf.formats)
    vc.check('formats', set(f) == {'$footnote', '$footnotes'} | set(doc.get('formats', {})) and all(f[k] is v for k, v in doc.get('formats', {}).items()))
    if k != 2: vc.check('numbers_are_raised_and_small', f['$footnote'].get('r') == .5 and f['$footnote'].get('s') == 6)
    vc.check('context', set(pdf.context) == {'$page'} | set(context or ()) and all(pdf.context[n] is v for n, v in (context or {}).items()))
    vc.check('sections', d.sections is doc['sections'] if k else d.sections == [])
    vc.check('running_sections', d.running_sections is doc['running_sections'] if k == 2 else d.running_sections == {})
    vc.check('footnotes_of_all_sections', log[-2:] == [log[-2], ([], pdf)] and log[-2][1]['element'] is d.sections or log[-1][0] == '_traverse_document_footnotes' and log[-1][1]['element'] is d.sections)
    vc.check('no_notes_yet', d.footnotes == [] and d.footnotes_margin > 0)
    vc.check('definition_kept', doc == before and style == before_style)
    if per is not None: all_done(vc, loop); vc.check('ranges', d.per_page is out)
    else: vc.check('no_ranges', d.per_page == [])

@contract('build_pdf', funcs=['pdfme.document.build_pdf'], props=['C17', 'C18', 'C20'])
def build(vc):
    log = []
    sig = inspect.signature(instr.lookup(B + '.__init__')[2])
    class Doc:
        def __init__(self, *a, **k):
            b = sig.bind(self, *a, **k); b.apply_defaults()
            log.append(('made', b.arguments['document'], b.arguments['context']))
        def run(self): log.append(('run', self))
        def output(self, buffer): log.append(('output', self, buffer))
    instr.stub(B, Doc)
    f = instr.lookup('pdfme.document.build_pdf')[2]
    doc, buffer, context = Token('definition'), Token('buffer'), Token('context')
    if vc.choose(2, 'context'): f(doc, buffer, context)
    else: context = None; f(doc, buffer)
    vc.check('made_laid_out_and_written', [l[0] for l in log] == ['made', 'run', 'output'])
    vc.check('definition', log[0][1] is doc and log[0][2] is context)
    vc.check('written_to_the_buffer', log[2][2] is buffer and log[2][1] is log[1][1])
