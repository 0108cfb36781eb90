"""C04, C12, C13, C15: tables.

Columns have any widths: the sum of the widths of the ones before a column is a function of the column that never decreases."""
import inspect

from pyvc.engine import *
from pyvc.stream import *
from pyvc import instr
from textline import raw, ctx
from doc import same_value, Token, args_are, record
from c11 import sym_color
from _maps import *
import z3

M = 'pdfme.table.'
B = M + 'PDFTable'

# --------------------------------------------------------------------------- columns

class Columns:
    """the widths of the columns as parts of the width of the table"""
    def __init__(self, vc, k='cols_count'):
        self.n = vc.int(k); vc.assume(self.n >= 1)
        self.f = z3.Function(fresh_name('left_of'), z3.IntSort(), z3.RealSort())
        vc.assume(SBool(self.f(z3.IntVal(0)) == 0)); vc.assume(SBool(self.f(self.n.e) == 1))
        self.widths = SList('widths', self.n, self.width)
        self.widths.columns = self
        vc.stubs['sum'] = self.sum
    def left(self, i):
        return SNum(self.f(const(i)))
    def width(self, i):
        w = SNum(simp(self.f(const(i + 1)) - self.f(const(i))))
        ctx().assume(w >= 0)
        return w
    def between(self, lo, hi): return SNum(simp(self.f(const(hi)) - self.f(const(lo))))
    def sum(self, l, *a):
        src = l
        lo = 0
        while getattr(src, 'source', None) is not None:
            lo, src = lo + getattr(src, 'lo', 0), src.source
        if src is not self.widths or a: ctx().abort(Unsupported('sum'))
        return self.between(lo, lo + l.n)

def table(vc, cls=None, **k):
    """a table at any point of its layout"""
    cols = Columns(vc)
    t = object.__new__(cls or instr.lookup(B)[2]); t.__dict__.update(dict( x=vc.real('x'), y=vc.real('y'), width=vc.real('width'), height=vc.real('height'), widths=cols.widths, cols_count=cols.n,
        current_index=vc.int('current_index'), fonts=Token('fonts'), pdf=Token('pdf')))
    vc.assume(t.current_index >= 0)
    for a, v in k.items(): setattr(t, a, v)
    t.__dict__['cols_'] = cols
    return t

def method(name): return instr.lookup(B + '.' + name)[2]

# --------------------------------------------------------------------------- what is in a cell

class Inner:
    """a paragraph, table or content box by its contracts: it is laid out by `run` as far as it fits in the rectangle it has, from the
    state it has, and then it tells what is drawn, its height and whether it is finished"""
    _vc_ghost = True
    def __init__(self, kind, cls):
        vc = ctx()
        self._kind, self._log = kind, []
        self._sig = inspect.signature(cls.setup)
        self.finished = vc.choose(2, 'finished before') == 1
    def setup(self, *a, **k):
        b = self._sig.bind(self, *a, **k); b.apply_defaults()
        self._log.append(('setup', {n: v for n, v in b.arguments.items() if n != 'self'}))
    def set_state(self, **k): self._log.append(('set_state', k))
    def run(self, *a, **k):
        vc = ctx()
        if a or k: vc.abort(Unsupported('arguments of run'))
        self._log.append(('run', self.finished))
        self.finished = self._end = vc.choose(2, 'finished') == 1
        self.current_height = self._height = vc.real('current_height')
        self._parts = {n: SList('inner_' + n, vc.int('n'), lambda i: Token('part')) for n in ('parts', 'lines', 'fills')}
        for n, v in self._parts.items(): setattr(self, n, v)
        self._result = {'x': vc.real('rx'), 'content': Token('stream')}
        if self._kind != 'text': return None
        self.last_part, self.last_word = vc.int('last_part'), vc.int('last_word')
        vc.assume(self.last_part >= 0); vc.assume(self.last_word >= 0)
        return self._result
    def get_state(self):
        self._log.append(('get_state',))
        self._state = {'section': Token('section')}
        return self._state

def inner_class(cls, kind, made):
    """the class by the contract of its constructor"""
    sig = inspect.signature(cls.__init__)
    def make(*a, **k):
        o = Inner(kind, cls)
        b = sig.bind(o, *a, **k); b.apply_defaults()
        o._args = {n: v for n, v in b.arguments.items() if n != 'self'}
        o.finished = False
        made.append(o)
        return o
    return make

class Out:
    """a list where what is drawn is added"""
    _vc_ghost = True
    def __init__(self): self.added = []
    def append(self, x): self.added.append(x)
    def extend(self, l): self.added.append(('all', l))

def paragraph_part(part, result):
    """the result of a paragraph, as a part"""
    return isinstance(part, dict) and set(part) == set(result) | {'type'} and part['type'] == 'paragraph' and all(part[k] is result[k] for k in result if k != 'type')

def new_delayed(vc):
    return {'cell_style': Token('cell_style'), 'colspan': vc.int('colspan'), 'rowspan': vc.int('rowspan'), 'row': vc.int('row')}

def process(vc, kind, qual, name, key, props):
    made = []
    cls, cls_ = instr.lookup(qual)[2], instr.lookup(B)[2]
    run_method = instr.lookup(B + '.' + name)[2]
    args_of = defaults(cls)
    instr.stub(M + qual.split('.')[-1], inner_class(cls, kind, made))
    vc.stubs['extend'] = lambda o, l: o.extend(l) if isinstance(o, Out) else vc.abort(Unsupported('extend'))
    t = table(vc, cls_, parts=Out(), lines=Out(), fills=Out())
    outs = t.parts, t.lines, t.fills
    x, y, w, h = (vc.real(n) for n in ('cell_x', 'cell_y', 'cell_w', 'cell_h'))
    delayed = new_delayed(vc)
    before = dict(delayed)
    style = {}
    resumed = vc.choose(2, 'resumed') == 1
    given = None
    if resumed:
        old = Inner(kind, cls)
        state = {'section_index': vc.int('section_index'), 'other': Token('other')}
        element = {'delayed': old, 'type': kind, 'state': state, 'cell_style': Token('cell_style')}
    else:
        inner = Token('definition')
        element = {key: inner} if key else {'.b': inner}
        if props:
            c = vc.choose(len(props) + 1, 'property')
            if c: given = props[c - 1]
        if given: (style if kind == 'text' else element)[given] = Token('value of ' + given)
    style['b'] = Token('bold')
    sbefore = dict(style)
    args = dict(element=element, x=x, y=y, width=w, height=h, style=style, delayed=delayed)
    r = run_method(t, **args)
    if resumed:
        vc.check('the_one_that_was_not_finished_goes_on', not made)
        o = old
        log = [l for l in o._log if l[0] != 'get_state']
        vc.check('restored_and_run', len(log) == 3 and {l[0] for l in log[:2]} == {'setup', 'set_state'} and log[2][0] == 'run')
        log = {l[0]: l[1] for l in log}
        args_are(vc, 'rectangle', log['setup'], dict(x=x, y=y, width=w, height=h))
        vc.check('from_the_state_saved', set(log['set_state']) == set(state) and all(log['set_state'][k] is state[k] for k in state))
        vc.check('not_finished_until_it_is_laid_out', log['run'] is False)
    else:
        vc.check('one_is_made', len(made) == 1)
        o = made[0]
        a = o._args
        args_are(vc, 'new', a, dict(x=x, y=y, width=w, height=h, pdf=t.pdf, fonts=t.fonts))
        vc.check('from_the_definition', a['content'] is (inner if kind == 'table' else element))
        if kind == 'table': vc.check('style_of_the_cell', same_style(a['style'], sbefore))
        else: vc.check('style_of_the_cell', 'style' in element and same_style(element['style'], sbefore) and element[key or '.b'] is inner)
        for p in props: vc.check('property_' + p, a[p] is ((style if kind == 'text' else element)[p] if p == given else None) or p != given and p in args_of and a[p] == args_of[p])
        vc.check('laid_out_once', [l[0] for l in o._log if l[0] != 'get_state'] == ['run'])
    # the result
    if kind == 'text':
        vc.check('drawn_once', len(t.parts.added) == 1 and paragraph_part(t.parts.added[0], o._result) and not t.lines.added and not t.fills.added)
    else:
        for n in ('parts', 'lines', 'fills'):
            got = getattr(t, n).added
            vc.check('%s_drawn_once' % n, len(got) == 1 and isinstance(got[0], tuple) and got[0][1] is o._parts[n])
    vc.check('same_lists', t.parts is outs[0] and t.lines is outs[1] and t.fills is outs[2])
    vc.check('height', isinstance(r, tuple) and len(r) == 2 and eq(r[0], o._height))
    vc.check('whether_it_is_finished', instr.truth(r[1]) == o._end)
    if o._end:
        vc.cover('finished')
    else:
        vc.check('kept_for_the_next_rectangle', delayed.get('delayed') is o and delayed.get('type') == kind)
        names = [l[0] for l in o._log]
        vc.check('state_is_saved', delayed.get('state') is getattr(o, '_state', None) is not None and names.index('get_state') > names.index('run'))
        vc.cover('not finished')
    vc.check('rest_of_the_cell', all(delayed.get(k) is v for k, v in before.items()))

def same_style(a, b):
    return isinstance(a, dict) and set(a) == set(b) and all(a[k] is b[k] for k in a)

def defaults(cls):
    return {n: p.default for n, p in inspect.signature(cls.__init__).parameters.items() if p.default is not p.empty}

PAR = ('text_align', 'line_height', 'indent', 'list_text', 'list_style', 'list_indent')

@contract('PDFTable.process_text', funcs=[B + '.process_text'], props=['C04', 'C13', 'C15'])
def process_text(vc): process(vc, 'text', 'pdfme.text.PDFText', 'process_text', None, PAR)

@contract('PDFTable.process_content', funcs=[B + '.process_content'], props=['C13', 'C14', 'C15'])
def process_content(vc): process(vc, 'content', 'pdfme.content.PDFContent', 'process_content', 'content', ())

@contract('PDFTable.process_table', funcs=[B + '.process_table'], props=['C12', 'C13', 'C15'])
def process_table(vc): process(vc, 'table', 'pdfme.table.PDFTable', 'process_table', 'table', ('widths', 'borders', 'fills'))

@contract('PDFTable.process_image', funcs=[B + '.process_image'], props=['C13', 'C16'])
def process_image(vc):
    made = []
    class Image:
        _vc_ghost = True
        def __init__(self, *a, **k):
            self.args = a, k
            self.width, self.height = vc.real('pixels_w'), vc.real('pixels_h')
            vc.assume(self.width > 0); vc.assume(self.height > 0)
            made.append(self)
    sig = inspect.signature(instr.lookup('pdfme.image.PDFImage')[2].__init__)
    instr.stub(M + 'PDFImage', Image)
    t = table(vc, parts=Out(), lines=Out(), fills=Out())
    x, y, w, h = (vc.real(n) for n in ('cell_x', 'cell_y', 'cell_w', 'cell_h'))
    vc.assume(w > 0)
    delayed = new_delayed(vc); before = dict(delayed)
    if vc.choose(2, 'resumed'):
        im = Image(); made.clear()
        element = {'delayed': im, 'type': 'image', 'cell_style': Token('cell_style')}
        r = method('process_image')(t, element, x, y, w, h, delayed)
        vc.check('same_image', not made)
    else:
        element = {'image': Token('file')}
        for k in ('extension', 'image_name'):
            if vc.choose(2, k): element[k] = Token(k)
        r = method('process_image')(t, element, x, y, w, h, delayed)
        vc.check('one_image', len(made) == 1)
        im = made[0]
        b = sig.bind(im, *im.args[0], **im.args[1]); b.apply_defaults()
        b = b.arguments
        vc.check('image_of_the_cell', b['image'] is element['image'] and b['extension'] is element.get('extension') and b['image_name'] is element.get('image_name'))
    ih = w * im.height / im.width
    vc.check('result', isinstance(r, tuple) and len(r) == 2)
    if instr.truth(r[1]):
        vc.check('fits', ih <= h)
        vc.check('drawn_once', len(t.parts.added) == 1 and not t.lines.added and not t.fills.added)
        p = t.parts.added[0]
        vc.check('image', p.get('type') == 'image' and p.get('pdf_image') is im)
        vc.check('where', conj(eq(p['x'], x), eq(p['y'] + p['height'], y)))
        vc.check('as_wide_as_the_cell', eq(p['width'], w))
        vc.check('aspect', eq(p['height'] * im.width, w * im.height))
        vc.check('height', eq(r[0], p['height']))
        vc.check('nothing_kept', delayed == before)
        vc.cover('placed')
    else:
        vc.check('does_not_fit', ih >= h)
        vc.check('not_drawn', not t.parts.added and not t.lines.added and not t.fills.added)
        vc.check('no_height', eq(r[0], 0))
        vc.check('kept_for_the_next_rectangle', delayed.get('delayed') is im and delayed.get('type') == 'image' and all(delayed.get(k) is v for k, v in before.items()))
        vc.cover('delayed')

# --------------------------------------------------------------------------- one cell

KINDS = ('text', 'image', 'content', 'table')

@contract('PDFTable.add_cell', funcs=[B + '.add_cell', B + '._is_delayed_type', B + '.is_type'], props=['C12', 'C13'], time=200)
def add_cell(vc):
    log = []
    cols_fill = {}
    mk = lambda n: (lambda s, a: {'width': vc.real('border'), 'name': n, 'args': a})
    borders = []
    def get_border(s, a):
        b = {'width': vc.real('border'), 'color': Token('color')}
        borders.append((a, b))
        return b
    record(B + '.get_border', log, get_border)
    covered = vc.choose(2, 'covered') == 1
    def is_span(s, a): return covered
    record(B + '.is_span', log, is_span)
    record(B + '.process_borders', log, lambda s, a: a.update(x_abs=s.x_abs))
    delayed = any_map('delayed', lambda k: {'old': k})
    rowspan_m = any_map('rowspan', lambda k: {'rows': vc.int('rows'), 'cols': vc.int('cols')})
    heights = any_map('heights_mem', lambda k: vc.real('height of the span'))
    first = vc.bool('first_row')
    t = table(vc, parts=Out(), lines=Out(), fills=Out(), delayed=delayed, rowspan=rowspan_m, heights_mem=heights, fills_mem=any_map('fills_mem', lambda k: {}),
        max_height=vc.real('max_height'), first_row=first, colspan=vc.int('colspan left'), y_abs=vc.real('y_abs'), row_max_height=vc.real('row_max_height'))
    col = vc.int('col'); vc.assume(col >= 0); vc.assume(col < t.cols_count)
    index, mh = t.current_index, t.max_height
    vc.assume(mh >= 0)
    is_delayed = vc.bool('is_delayed')
    colspan = rowspan = row = None
    kind = None
    cell_style, style = {'cell_margin_left': Token('margin')}, {'b': True}
    element = Token('element')
    own = {}
    if not covered:
        c = vc.choose(9, 'content')
        if c == 8: own = {'style': Token('style')}
        elif c < 4:
            kind = KINDS[c]
            if c == 0: own = {('.', '.b;u')[vc.choose(2, 'style of the text')]: Token('text')}
            else: own = {kind: Token(kind)}
        else:
            kind = KINDS[c - 4]
            own = {'delayed': Token('delayed'), 'type': kind, 'cell_style': cell_style, 'state': Token('state')}
        has = (('colspan', 'rowspan', 'row'), (), ('colspan',), ('rowspan',))[vc.choose(4, 'spans')]
        for n in ('colspan', 'rowspan'):
            if n in has: own[n] = vc.int(n); vc.assume(own[n] >= 1)
        if 'row' in has: own['row'] = vc.int('row'); vc.assume(own['row'] <= index); vc.assume(own['row'] >= 0)
        colspan, rowspan = own.get('colspan', 1), own.get('rowspan', 1)
        row = own.get('row', index)
        vc.assume(col + colspan <= t.cols_count)
    record(B + '.get_cell_style', log, lambda s, a: (own, style, cell_style))
    x, y, w, h, px, py = (vc.real(n) for n in ('x_', 'y_', 'w_', 'h_', 'padd_x', 'padd_y'))
    record(B + '.get_cell_dimensions', log, lambda s, a: (x, y, w, h, px, py))
    record(B + '._setup_cell_fill', log)
    end = {}
    def processed(s, a):
        end['height'], end['finished'] = vc.real('real_height'), vc.choose(2, 'finished') == 1
        vc.assume(end['height'] >= 0)
        end['delayed'] = a['delayed']
        end['row'] = dict(a['delayed'])
        if not end['finished']: a['delayed']['delayed'] = Token('not finished')
        return end['height'], end['finished']
    for k in KINDS: record(B + '.process_' + k, log, processed)
    method('add_cell')(t, col, element, is_delayed)
    xa = t.x + t.cols_.left(col) * t.width
    names = [l[0] for l in log]
    get = lambda n: [a for m, a in log if m == n]
    # borders
    b = get('process_borders')
    vc.check('borders_of_the_cell_once', len(b) == 1)
    vc.check('borders_at_the_left_of_the_column', eq(b[0]['x_abs'], xa))
    vc.check('borders_of_the_column', eq(b[0]['col'], col))
    def asked(border, vert):
        for a, d in borders:
            if d is border: return conj(eq(a['i'], index), eq(a['j'], col), a['is_vert'] is vert)
        return False
    vc.check('left_border', asked(b[0]['border_left'], True))
    vc.check('top_border', asked(b[0]['border_top'], False))
    s = get('is_span')
    vc.check('spans_of_the_cell', len(s) == 1 and eq(s[0]['col'], col) and s[0]['is_delayed'] is is_delayed
        and s[0]['border_left'] is b[0]['border_left'] and s[0]['border_top'] is b[0]['border_top'] and names.index('is_span') < names.index('process_borders'))
    done = [m for m in names if m in ['process_' + k for k in KINDS]]
    if covered:
        vc.check('covered_is_not_rendered', not done and 'get_cell_style' not in names)
        vc.check('nothing_else', unchanged(delayed) and unchanged(rowspan_m) and unchanged(heights) and eq(t.max_height, mh) and '_setup_cell_fill' not in names)
        vc.cover('covered')
        return
    g = get('get_cell_style')
    vc.check('of_this_cell', len(g) == 1 and g[0]['element'] is element)
    vc.check('left_of_the_column', eq(t.x_abs, xa))
    vc.check('columns_that_it_covers', eq(t.colspan, colspan - 1))
    left = rowspan - 1 - (index - row)
    # rows that it covers
    if not rowspan_m.writes: vc.check('no_more_rows', left <= 0)
    else:
        vc.check('more_rows', left > 0)
        v = rowspan_m.writes[-1][1]
        vc.check('rows_that_it_covers', only_change(rowspan_m, col, v) and isinstance(v, dict) and eq(v['rows'], left) and eq(v['cols'], colspan - 1))
    d = get('get_cell_dimensions')
    vc.check('dimensions', len(d) == 1 and eq(d[0]['col'], col) and d[0]['border_left'] is b[0]['border_left'] and d[0]['border_top'] is b[0]['border_top']
        and d[0]['cell_style'] is cell_style and eq(d[0]['rowspan'], left) and eq(d[0]['colspan'], colspan - 1))
    f = get('_setup_cell_fill')
    vc.check('fill', len(f) == 1 and eq(f[0]['col'], col) and f[0]['cell_style'] is cell_style and eq(f[0]['width'], w + px) and eq(f[0]['rowspan'], left) and eq(f[0]['row'], row))
    if kind is None:
        vc.check('nothing_to_render', not done)
        vc.check('an_empty_cell_is_finished', only_change(delayed, col, ABSENT) and (not delayed.writes or delayed.at(col) is ABSENT))
        hh = 0
    else:
        vc.check('rendered_once', done == ['process_' + kind])
        a = get('process_' + kind)[0]
        vc.check('its_content', a['element'] is own)
        vc.check('in_its_rectangle', conj(*[eq(a[k], v) for k, v in zip(('x', 'y', 'width', 'height'), (x, y, w, h))]))
        if 'style' in a: vc.check('with_its_style', a['style'] is style)
        r = end['row']
        vc.check('what_the_rest_will_need', r.get('cell_style') is cell_style and eq(r.get('colspan', -1), colspan) and eq(r.get('rowspan', -1), rowspan) and eq(r.get('row', -1), row))
        if end['finished']: vc.check('no_longer_pending', only_change(delayed, col, ABSENT))
        else: vc.check('pending', only_change(delayed, col, end['delayed']))
        hh = end['height']
    if instr.truth(hh > 0): hh = hh + py
    elif not instr.truth(first): hh = 4
    else: hh = 0
    if instr.truth(left > 0):
        vc.check('height_for_its_last_row', not heights.writes == () and eq(heights.at(col), hh) and only_change(heights, col, heights.at(col)))
        vc.check('not_the_height_of_the_row', eq(t.max_height, mh))
        vc.cover('more rows')
    else:
        vc.check('heights_kept', unchanged(heights))
        vc.check('height_of_the_row', conj(t.max_height >= mh, t.max_height >= hh, disj(eq(t.max_height, mh), eq(t.max_height, hh))))
        vc.cover('one row')

@contract('PDFTable.get_cell_dimensions', funcs=[B + '.get_cell_dimensions'], props=['C12'])
def dimensions(vc):
    log = []
    given = {}
    def get_border(s, a):
        b = {}
        if vc.choose(2, 'has width'): b['width'] = vc.real('border_width'); vc.assume(b['width'] >= 0)
        given[len(log)] = (a, b)
        return b
    record(B + '.get_border', log, get_border)
    t = table(vc, x_abs=vc.real('x_abs'), y_abs=vc.real('y_abs'), row_max_height=vc.real('row_max_height'))
    col, colspan, rowspan = vc.int('col'), vc.int('colspan'), vc.int('rowspan')
    vc.assume(col >= 0); vc.assume(colspan >= 0); vc.assume(col + colspan < t.cols_count)
    bl, bt = ({} if vc.choose(2, n) else {'width': vc.real(n + '_width')} for n in ('left', 'top'))
    m = {k: vc.real('margin_' + k) for k in ('top', 'right', 'bottom', 'left')}
    st = {'cell_margin_' + k: v for k, v in m.items()}
    r = method('get_cell_dimensions')(t, col, bl, bt, st, rowspan, colspan)
    vc.check('six_numbers', isinstance(r, tuple) and len(r) == 6)
    br = bb = None
    for a, b in given.values():
        if a['is_vert']:
            vc.check('right_border', conj(eq(a['i'], t.current_index), eq(a['j'], col + colspan + 1))); br = b
        else:
            vc.check('bottom_border', conj(eq(a['i'], t.current_index + rowspan + 1), eq(a['j'], col))); bb = b
    vc.check('borders_of_the_cell', br is not None and bb is not None)
    half = lambda b: b.get('width', 0) / 2
    x, y, w, h, px, py = r
    left, right = t.x_abs, t.x_abs + t.cols_.between(col, col + colspan + 1) * t.width
    vc.check('left_of_the_content', eq(x, left + half(bl) + m['left']))
    vc.check('right_of_the_content', eq(x + w, right - half(br) - m['right']))
    vc.check('top_of_the_content', eq(y, t.y_abs - half(bt) - m['top']))
    vc.check('bottom_of_the_content', eq(y - h, t.y_abs - t.row_max_height + half(bb) + m['bottom']))
    vc.check('padding', conj(eq(px, right - left - w), eq(py, t.row_max_height - h)))

# --------------------------------------------------------------------------- spans

@contract('PDFTable.is_span', funcs=[B + '.is_span'], props=['C12', 'C13'])
def is_span(vc):
    rows, cols = vc.int('rows left'), vc.int('columns')
    vc.assume(rows >= 1); vc.assume(cols >= 0)
    has = vc.choose(2, 'span from above') == 1
    memory = {'rows': rows, 'cols': cols}
    col = vc.int('col')
    rowspan = Map('rowspan', lambda k: memory if has and same_key(k, col) else ABSENT)
    height = vc.real('height of the span')
    heights = Map('heights_mem', lambda k: height if has_height and same_key(k, col) else ABSENT)
    fill = {'add_later': True, 'height': vc.real('h')}
    fills = Map('fills_mem', lambda k: fill if has_fill and same_key(k, col) else ABSENT)
    has_height, has_fill = has and vc.choose(2, 'height known') == 1, has and vc.choose(2, 'filled') == 1
    colspan, inside, is_delayed = vc.int('colspan'), vc.bool('is_rowspan'), vc.bool('is_delayed')
    vc.assume(colspan >= 0)
    mh = vc.real('max_height'); vc.assume(mh >= 0)
    t = table(vc, rowspan=rowspan, heights_mem=heights, fills_mem=fills, colspan=colspan, is_rowspan=inside, max_height=mh)
    bl, bt = ({'width': vc.real(n + '_width'), 'color': Token('color')} for n in ('left', 'top'))
    lw, tw = bl['width'], bt['width']
    r = method('is_span')(t, col, bl, bt, is_delayed)
    r = instr.truth(r)
    vc.check('colors_kept', set(bl) == {'width', 'color'} == set(bt))
    later = fill['add_later']
    if not has:
        vc.check('covered_by_the_cell_at_its_left', SBool(z3.BoolVal(r) == (colspan > 0).e))
        vc.check('memory_kept', unchanged(rowspan) and unchanged(fills) and unchanged(heights) and later is True and eq(t.max_height, mh))
        if r:
            vc.check('columns_left', eq(t.colspan, colspan - 1))
            vc.check('no_border_inside', eq(bl['width'], 0))
            vc.check('top_border_only_of_the_first_row', eq(bt['width'], ite(inside, 0, tw)))
            if instr.truth(colspan > 1): vc.check('same_span', SBool(truth_of(t.is_rowspan) == inside.e))
            else: vc.check('last_column', neg(truth_(t.is_rowspan)))
            vc.cover('covered by colspan')
        else:
            vc.check('borders_kept', conj(eq(bl['width'], lw), eq(bt['width'], tw)))
            vc.check('no_columns_left', eq(t.colspan, colspan))
            vc.cover('not covered')
        return
    vc.check('covered_by_the_cell_above', SBool(z3.BoolVal(r) == z3.Not(is_delayed.e)))
    vc.check('left_border_kept', eq(bl['width'], lw))
    if not r:
        vc.check('borders_of_the_cell', eq(bt['width'], tw))
        vc.check('memory_kept', unchanged(rowspan) and eq(memory['rows'], rows) and eq(memory['cols'], cols) and later is True and eq(t.max_height, mh))
        return
    vc.check('no_border_inside', eq(bt['width'], 0))
    vc.check('columns_that_it_covers', conj(eq(t.colspan, cols), SBool(truth_of(t.is_rowspan) == (cols > 0).e)))
    vc.check('heights_kept', unchanged(heights))
    if rowspan.writes:
        vc.check('last_row', rows == 1)
        vc.check('span_ends', only_change(rowspan, col, ABSENT))
        if has_fill: vc.check('fill_ends', not later)
        vc.check('height_of_the_row', conj(t.max_height >= mh, t.max_height >= height if has_height else True, disj(eq(t.max_height, mh), eq(t.max_height, height) if has_height else False)))
        vc.cover('last row')
    else:
        vc.check('one_row_less', conj(rows > 1, eq(memory['rows'], rows - 1), eq(memory['cols'], cols)))
        vc.check('fill_goes_on', later is True)
        vc.check('height_is_not_of_this_row', eq(t.max_height, mh))

def truth_of(b): return b.e if isinstance(b, SBool) else z3.BoolVal(bool(b))
def truth_(b): return SBool(truth_of(b))

# --------------------------------------------------------------------------- styles of a cell

SIDES = ('top', 'right', 'bottom', 'left')

@contract('PDFTable.get_cell_style', funcs=[B + '.get_cell_style'], props=['C12', 'C19'], time=200)
def cell_style(vc):
    t = table(vc, style={'cell_margin': Token('margin of the table'), 'cell_fill': Token('fill of the table'), 'b': Token('b'), 'f': Token('f')})
    side = SIDES[vc.choose(4, 'side')]
    ms = 'cell_margin_' + side
    if vc.choose(2, 'side of the table'): t.style[ms] = Token('side of the table')
    base = dict(t.style)
    parsed, own = {}, {}
    log = []
    instr.stub('pdfme.utils.parse_style_str', lambda s, fonts: (log.append(('parse', s, fonts)), parsed)[1])
    instr.stub('pdfme.utils.process_style', lambda s, pdf=None: (log.append(('process', s, pdf)), own)[1])
    c = vc.choose(7, 'element')
    txt = SStr('text', maybe_empty=True)
    if c == 6:
        cs = {'cell_margin_top': Token('m')}
        el = {'delayed': Token('delayed'), 'type': 'text', 'cell_style': cs}
        r = method('get_cell_style')(t, el)
        vc.check('style_it_had', r[2] is cs and r[0].get('delayed') is el['delayed'] and r[0].get('type') == 'text')
        return
    if c == 0: el, want = None, {'.': ''}
    elif c == 1: el, want = txt, {'.': txt}
    elif c == 2: el = SList('texts', vc.int('n'), lambda i: Token('x')); want = {'.': el}
    elif c == 3: el = vc.real('number'); want = {'.': str(el)}
    elif c == 4: el = {'.b;s:1': txt, 'style': Token('style'), 'colspan': 2}; want = dict(el)
    else: el = {'image': Token('image'), 'style': Token('style')}; want = dict(el)
    orig = dict(el) if isinstance(el, dict) else None
    for n, d in (('parsed', parsed), ('own', own)):
        if n == 'parsed' and c == 5: continue
        for k in ((), ('cell_margin',), (ms, 'cell_fill'), ('cell_margin', ms, 'cell_fill', 'b'))[vc.choose(4, n)]: d[k] = Token('%s of %s' % (k, n))
    r = method('get_cell_style')(t, el)
    vc.check('three', isinstance(r, tuple) and len(r) == 3)
    e, st, cs = r
    vc.check('content', isinstance(e, dict) and set(e) == set(want) and all(same_content(e[k], want[k]) for k in want))
    if orig is not None:
        vc.check('definition_is_not_the_one_changed', e is not el and el == orig)
    vc.check('style_of_the_table_kept', set(t.style) == set(base) and all(t.style[k] is base[k] for k in base))
    p = [x for x in log if x[0] == 'parse']
    if c == 4: vc.check('style_string', len(p) == 1 and p[0][1] == 'b;s:1' and p[0][2] is t.fonts)
    else: vc.check('no_style_string', all(x[1] == '' for x in p))
    q = [x for x in log if x[0] == 'process']
    vc.check('own_style', len(q) == 1 and q[0][1] is (el.get('style') if orig is not None else None) and q[0][2] is t.pdf)
    mine = dict(parsed) if c not in (5,) and (c == 4 or p) else {}
    mine.update(own)
    full = dict(base); full.update(mine)
    for s in SIDES:
        k = 'cell_margin_' + s
        vc.check('margin_' + s, cs.get(k) is (full[k] if k in full else full['cell_margin']))
    vc.check('fill', ('cell_fill' in cs) == ('cell_fill' in mine) and ('cell_fill' not in mine or cs['cell_fill'] is mine['cell_fill']))
    vc.check('inherited_by_its_content', set(st) == {k for k in full if not k.startswith('cell_')} and all(st[k] is full[k] for k in st))

def same_content(a, b):
    if isinstance(b, SList): return a is b or isinstance(a, SList) and a.source is b and not a.partial and a.at(i_ := ctx().int('any')) is b.at(i_)
    return same_value(a, b)

class Color:
    _vc_ghost = True
    def __init__(self, color, stroke=False): self.of, self.stroke = color, stroke

@contract('PDFTable._setup_cell_fill', funcs=[B + '._setup_cell_fill'], props=['C12'])
def cell_fill(vc):
    instr.stub(M + 'PDFColor', Color)
    own, named, general = Token('own'), Token('of the position'), Token('of the table')
    st = {}
    c = vc.choose(3, 'own')
    if c: st['cell_fill'] = own if c == 1 else None
    row, col = vc.int('row'), vc.int('col')
    n = vc.choose(3, 'named')
    inner = Map('fills of the row', lambda k: (named if n == 2 else ABSENT) if same_key(k, col) else (Token('other') if vc.choose(2, 'other column') else ABSENT))
    defs = Map('fills_defs', lambda k: (inner if n else ABSENT) if same_key(k, row) else (Map('other row', lambda k: Token('other')) if vc.choose(2, 'other row') else ABSENT))
    style = {}
    g = vc.choose(3, 'general')
    if g: style['cell_fill'] = general if g == 1 else None
    mem = any_map('fills_mem', lambda k: {})
    t = table(vc, style=style, fills_defs=defs, fills_mem=mem, x_abs=vc.real('x_abs'), y_abs=vc.real('y_abs'))
    w, left = vc.real('w'), vc.int('rows left')
    method('_setup_cell_fill')(t, col, st, w, left, row)
    color = st['cell_fill'] if 'cell_fill' in st else named if n == 2 else style.get('cell_fill')
    if color is None:
        vc.check('not_filled', unchanged(mem))
        return
    vc.check('filled', bool(mem.writes) and isinstance(mem.writes[-1][1], dict))
    f = mem.writes[-1][1]
    vc.check('only_the_cell', only_change(mem, col, f))
    vc.check('color', isinstance(f.get('color'), Color) and f['color'].of is color and not instr.truth(f['color'].stroke))
    vc.check('type', f.get('type') == 'fill')
    vc.check('corner', conj(eq(f['x'], t.x_abs), eq(f['y'], t.y_abs)))
    vc.check('size', conj(eq(f['width'], w), eq(f['height'], 0)))
    vc.check('until_its_last_row', SBool(truth_of(f.get('add_later', False)) == (left > 0).e))

# --------------------------------------------------------------------------- borders

def border(vc, name, width=None):
    """what is set for a border: a pen"""
    w = vc.real(name + '_width') if width is None else width
    vc.assume(w >= 0)
    return {'width': w, 'color': Pen(vc.int(name + '_color')), 'style': ('solid', 'dashed')[vc.choose(2, name + '_style')]}

class Pen:
    """a colour: equal to the ones of the same value"""
    _vc_ghost = True
    def __init__(self, n): self.n = n
    def __eq__(self, o): return isinstance(o, Pen) and eq(self.n, o.n)
    def __ne__(self, o): return neg(self == o)
    __hash__ = None

def pen_is(a, b):
    return conj(eq(a['width'], b['width']), a['color'] == b['color'], a['style'] == b['style'])

@contract('PDFTable.get_border', funcs=[B + '.get_border', 'pdfme.utils.copy'], props=['C12'])
def get_border(vc):
    i, j = vc.int('i'), vc.int('j')
    vert = vc.choose(2, 'vertical') == 1
    has = vc.choose(3, 'set')
    mine, default, wrong = border(vc, 'mine'), border(vc, 'default'), border(vc, 'wrong')
    before = {k: dict(v) for k, v in (('mine', mine), ('default', default))}
    line = Map('line', lambda k: mine if has == 2 and same_key(k, j) else ABSENT)
    right = Map('borders', lambda k: (line if has else ABSENT) if same_key(k, i) else ABSENT)
    other = Map('other borders', lambda k: Map('other line', lambda k: wrong))
    t = table(vc, default_border=default, borders_v=right if vert else other, borders_h=other if vert else right)
    r = method('get_border')(t, i, j, vert)
    want = mine if has == 2 else default
    vc.check('pen', isinstance(r, dict) and set(r) == {'width', 'color', 'style'} and r['width'] is want['width'] and r['color'] is want['color'] and r['style'] == want['style'])
    vc.check('a_copy', r is not mine and r is not default)
    vc.check('kept', mine == before['mine'] and default == before['default'])
    vc.check('borders_kept', unchanged(line) and unchanged(right))

@contract('PDFTable.compare_borders', funcs=[B + '.compare_borders', 'pdfme.color.PDFColor.__eq__'], props=['C12'])
def compare_borders(vc):
    a, b = border(vc, 'a'), border(vc, 'b')
    a['color'], b['color'] = sym_color(vc, 'a', True), sym_color(vc, 'b', True)
    a.update(type='line', x1=vc.real('x1'))
    t = table(vc)
    r = instr.truth(method('compare_borders')(t, a, b))
    ca, cb = a['color'].color, b['color'].color
    same = conj(eq(a['width'], b['width']), a['style'] == b['style'], len(ca) == len(cb) and conj(*[eq(x, y) for x, y in zip(ca, cb)]))
    vc.check('same_pen', same if r else neg(same))

def corners(vc, l):
    return {k: l[k] for k in ('x1', 'x2', 'y1', 'y2') if k in l}

@contract('PDFTable.process_borders', funcs=[B + '.process_borders'], props=['C11', 'C12'], time=300)
def process_borders(vc):
    def compare(self, a, b):
        same = pen_is(a, b)
        return instr.truth(same)
    instr.stub(B + '.compare_borders', compare)
    t = table(vc, x_abs=vc.real('x_abs'), y_abs=vc.real('y_abs'))
    vc.assume(t.width > 0)
    col = vc.int('col'); vc.assume(col >= 0); vc.assume(col <= t.cols_count)
    last_col = not instr.truth(col < t.cols_count)
    # lines being drawn
    top_active, v_active = vc.choose(2, 'top line') == 1, vc.choose(2, 'vertical line') == 1
    def line(name, active):
        if not active: return [Token('older')] if vc.choose(2, name + ' older') else []
        l = border(vc, name)
        vc.assume(l['width'] > 0)
        l['type'] = 'line'
        return [Token('older'), l]
    top, vert = line('top', top_active), line('vertical', v_active)
    if top_active: top[-1].update(x1=vc.real('tx1'), x2=vc.real('tx2'), y1=t.y_abs, y2=t.y_abs)
    if v_active:
        vx = vc.real('vx')
        vert[-1].update(x1=vx, x2=vx, y1=vc.real('vy1'))
        if vc.choose(2, 'has y2'): vert[-1]['y2'] = vc.real('vy2')
    old_top, old_vert = list(top), list(vert)
    tb = dict(top[-1]) if top_active else None
    vb = dict(vert[-1]) if v_active else None
    vline = {'list': vert, 'interrupted': not v_active}
    t.top_lines, t.top_lines_interrupted = top, not top_active
    t.vert_lines = Map('vert_lines', lambda k: vline if same_key(k, col) else {'list': [], 'interrupted': True})
    bl, bt = border(vc, 'left'), border(vc, 'new_top')
    if last_col: bt = {}
    elif vc.choose(2, 'no left'): bl = {}
    lw, tw = bl.get('width', 0), bt.get('width', 0)
    pl, pt = dict(bl), dict(bt)
    method('process_borders')(t, col, bl, bt)
    right = t.x_abs + t.cols_.between(col, col + 1) * t.width if not last_col else None
    hc = [lw] + ([vb['width']] if v_active else [])
    vcs = [tw] + ([tb['width']] if top_active else [])
    def near_(d, widths):
        """at most half the width of one of the lines that meet"""
        return conj(d >= 0, disj(*[d <= w / 2 for w in widths]))
    # horizontal
    if top_active:
        vc.check('top_line_kept', t.top_lines[1] is old_top[1] and t.top_lines[0] is old_top[0])
        l = old_top[1]
        vc.check('top_line_same_pen', pen_is(l, tb) )
        vc.check('top_line_start', conj(eq(l['x1'], tb['x1']), eq(l['y1'], t.y_abs), eq(l['y2'], t.y_abs)))
    else: vc.check('top_lines_kept', len(t.top_lines) >= len(old_top) and all(a is b for a, b in zip(old_top, t.top_lines)))
    n_new = len(t.top_lines) - len(old_top)
    vc.check('at_most_one_line', n_new in (0, 1))
    if instr.truth(tw > 0):
        vc.check('line_goes_on', not instr.truth(t.top_lines_interrupted))
        l = t.top_lines[-1]
        vc.check('pen_of_the_border', pen_is(l, pt))
        vc.check('to_the_right_of_the_cell', eq(l['x2'], right))
        if n_new:
            vc.check('horizontal', l.get('type') == 'line' and conj(eq(l['y1'], t.y_abs), eq(l['y2'], t.y_abs)))
            vc.check('from_the_left_of_the_cell', near_(t.x_abs - l['x1'], hc))
            if top_active: vc.check('previous_line_ends', near_(old_top[1]['x2'] - tb['x2'], hc))
            vc.cover('new top line')
        else:
            vc.check('same_line', top_active)
            vc.cover('top line goes on')
    else:
        vc.check('no_line', n_new == 0)
        vc.check('interrupted', instr.truth(t.top_lines_interrupted))
        if top_active: vc.check('line_ends', near_(old_top[1]['x2'] - tb['x2'], hc))
    # vertical
    vc.check('same_vertical_line', vline['list'] is vert and all(a is b for a, b in zip(old_vert, vert)) and len(vert) - len(old_vert) in (0, 1))
    n_new = len(vert) - len(old_vert)
    if v_active:
        l = old_vert[1]
        vc.check('vertical_same_pen', pen_is(l, vb))
        vc.check('vertical_start', conj(eq(l['x1'], vb['x1']), eq(l['x2'], vb['x2']), eq(l['y1'], vb['y1'])))
        vc.check('vertical_reaches_the_row', 'y2' in l and near_(t.y_abs - l['y2'], vcs))
    if instr.truth(lw > 0):
        vc.check('vertical_goes_on', not instr.truth(vline['interrupted']))
        l = vert[-1]
        vc.check('pen_of_the_left_border', pen_is(l, pl))
        if n_new:
            vc.check('vertical_at_the_left', l.get('type') == 'line' and conj(eq(l['x1'], t.x_abs), eq(l['x2'], t.x_abs)))
            vc.check('vertical_from_the_top', near_(l['y1'] - t.y_abs, vcs))
            vc.cover('new vertical line')
        else: vc.check('same_vertical', v_active)
    else:
        vc.check('no_vertical', n_new == 0)
        vc.check('vertical_interrupted', instr.truth(vline['interrupted']))

# --------------------------------------------------------------------------- rows

def copy_of(v): return v.copy() if isinstance(v, (list, dict)) else v

class Bools:
    """the flags (locals that are True, False or a word) stay as they are while the loop goes on"""
    def note(self, env): self.v = {n: v for n, v in env._d.items() if type(v) in (bool, SBool, str) and not n.startswith('VC_')}
    def same(self, env):
        for n, v in self.v.items():
            w = env._d.get(n)
            if w is not v and not (type(v) is str and type(w) is str and w == v): ctx().abort(Unsupported('a local changes'))

class RowCells:
    """the first k cells of the row were added, each once, in its column"""
    def __init__(self, t, log, is_delayed): self.t, self.log, self.is_delayed, self.b = t, log, is_delayed, Bools()
    def check(self, st, k, env, mode):
        vc, t = st.ctx, self.t
        calls = [a for n, a in self.log if n == 'add_cell']
        if mode == 'establish':
            self.b.note(env)
            vc.check('no_cell_yet', not calls)
            vc.check('new_row', conj(eq(t.max_height, 0), eq(t.colspan, 0), not instr.truth(t.is_rowspan)))
            vc.check('room_left', eq(t.row_max_height, t.height - self.t.start))
            vc.check('top_of_the_row', eq(t.y_abs, t.y - self.t.start))
            vc.check('no_lines_yet', len(t.top_lines) == 0 and instr.truth(t.top_lines_interrupted))
            return
        vc.check('cell_added_once', len(calls) == 1)
        a = calls[0]
        vc.check('in_its_column', eq(a['col'], self.k))
        vc.check('cell_of_the_row', a['element'] is t.row_.at(self.k))
        vc.check('as_delayed', a['is_delayed'] is self.is_delayed)
        self.b.same(env)
    def havoc(self, st, k):
        self.k = k
        self.log.clear()
        vc, t = st.ctx, self.t
        m = vc.real('max_height'); vc.assume(m >= 0)
        st.set(t, 'max_height', m)
        t.highest = m
        return dict(self.b.v)

class Pending:
    """the pending cells before the k-th have more rows"""
    def __init__(self): self.b, self.all = Bools(), False
    def check(self, st, k, env, mode):
        if mode == 'establish': self.b.note(env)
        else:
            st.ctx.check('goes_on_only_if_it_has_more_rows', self.now is not None and self.now())
            self.b.same(env)
    def havoc(self, st, k):
        if st.ctx is not None and k is self.n: self.all = True
        return dict(self.b.v)

class SpanHeights:
    """what is left of the height of the first k cells with more rows"""
    def __init__(self, t): self.t, self.b = t, Bools()
    def check(self, st, k, env, mode):
        vc, t = st.ctx, self.t
        if mode == 'establish':
            self.b.note(env)
            self.m, self.old = t.heights_mem, t.heights_mem
            self.mh = t.max_height
            return
        key, h = self.pair(self.k)
        # (a loop that only looks at them)
        if t.max_height is not self.mh_ or self.m.at(key) is h: vc.abort(Unsupported('another loop'))
        vc.check('height_left', only_change(self.m, key, self.m.at(key)) and eq(self.m.at(key), h - t.max_height))
        self.b.same(env)
    def pair(self, i): return self.old.view.at(i)
    def havoc(self, st, k):
        t = self.t
        self.k = k
        old, mh = self.old, t.max_height
        self.mh_ = mh
        last = k is old.view.n
        if last:
            m = Map('heights_mem', lambda c: ABSENT if old.at(c) is ABSENT else old.at(c) - mh)
            st.set(t, 'heights_mem', m)
        else: st.touch(self.m)
        return dict(self.b.v)

class RowFills:
    """the first k fills grew by the row, and the ones that end in it are drawn"""
    def __init__(self, t): self.t, self.b = t, Bools()
    def check(self, st, k, env, mode):
        vc, t = st.ctx, self.t
        if mode == 'establish': self.b.note(env); self.m = t.fills_mem; return
        col, f = self.cur
        b = self.before
        grown = b['height'] + t.max_height
        vc.check('fill_grows', eq(f['height'], grown))
        vc.check('fill_rest', f['x'] is b['x'] and f['width'] is b['width'] and f['color'] is b['color'])
        ends = disj(neg(truth_(b['add_later'])) if 'add_later' in b else True, t.ret_() == 'interrupt')
        if t.fills.added:
            vc.check('fill_ends', ends)
            vc.check('fill_drawn_once', len(t.fills.added) == 1 and t.fills.added[0] is f)
            vc.check('fill_is_over', only_change(self.m, col, ABSENT))
            vc.check('bottom_of_the_fill', eq(f['y'], b['y'] - grown))
            vc.cover('fill drawn')
        else:
            vc.check('fill_goes_on', neg(ends))
            vc.check('fill_kept', unchanged(self.m) and eq(f['y'], b['y']))
        self.b.same(env)
    def havoc(self, st, k):
        t = self.t
        if k is self.m.view.n: return dict(self.b.v)
        self.cur = self.m.view.at(k)
        self.before = dict(self.cur[1])
        st.touch(self.cur[1]); st.touch(self.m); st.touch(t.fills); st.touch(t.fills.added)
        return dict(self.b.v)

def listed_map(vc, name, value, loop=None):
    """a dict with any number of keys, known one by one"""
    n = vc.int('size of ' + name); vc.assume(n >= 0)
    m = Map(name, lambda k: ABSENT)
    view = SList(name, n, lambda i: (vc.int('key of ' + name), value()), loop)
    def make(k):
        for kv in view.memo.values():
            if same_key(kv[0], k): return kv[1]
        return ABSENT if not vc.choose(2, 'in ' + name) else value()
    m = Map(name, make, view)
    return m

@contract('PDFTable.add_row', funcs=[B + '.add_row'], props=['C12', 'C13', 'C15'], time=200)
def add_row(vc):
    log = []
    record(B + '.add_cell', log, lambda s, a: vc.bool('move_next'))
    record(B + '.process_borders', log, lambda s, a: a.update(x_abs=s.x_abs))
    asked = []
    def get_border(s, a):
        b = {'width': vc.real('border')}
        asked.append((a, b))
        return b
    record(B + '.get_border', log, get_border)
    first = vc.choose(2, 'first row') == 1
    t = table(vc, current_height=vc.real('current_height'), first_row=first, parts=Out(), lines=Out(), fills=Out())
    t.start = t.current_height
    is_delayed = vc.bool('is_delayed')
    t.row_ = row = SList('row', t.cols_count, lambda i: Token('cell'), RowCells(t, log, is_delayed))
    pend = Pending()
    colspans = []
    def cell():
        c = vc.int('colspan'); vc.assume(c >= 1)
        return {'colspan': c, 'rowspan': Token('r')}
    t.delayed = listed_map(vc, 'delayed', cell, pend)
    pend.n = t.delayed.view.n
    t.rowspan = any_map('rowspan', lambda k: {'rows': 1})
    cur = []
    pend.now = lambda: t.rowspan.at(t.delayed.view.at(cur[-1])[0]) is not ABSENT if cur else None
    orig = t.delayed.view.elem
    def elem(i):
        cur.append(i)
        return orig(i)
    t.delayed.view.elem = elem
    sh = SpanHeights(t)
    t.heights_mem = listed_map(vc, 'heights_mem', lambda: vc.real('span_height'), sh)
    def fill():
        f = {'type': 'fill', 'x': vc.real('fx'), 'y': vc.real('fy'), 'width': vc.real('fw'), 'height': vc.real('fh'), 'color': Token('color')}
        c = vc.choose(3, 'add_later')
        if c: f['add_later'] = c == 1
        return f
    rf = RowFills(t)
    t.fills_mem = listed_map(vc, 'fills_mem', fill, rf)
    S = vc.int('columns pending')
    widths_sum = vc.stubs['sum']
    used = {}
    def sum_(l, *a):
        if getattr(l.source if l.source is not None else l, 'of', None) is t.delayed:
            i = vc.int('any'); vc.assume(i >= 0); vc.assume(i < t.delayed.view.n)
            vc.check('columns_pending', l.at(i) is t.delayed.view.at(i)[1]['colspan'])
            used['S'] = True
            return S
        return widths_sum(l, *a)
    vc.stubs['sum'] = sum_
    def max_(l):
        # [max_height, *heights]
        i = vc.int('any')
        vc.assume(i >= 0); vc.assume(i < t.heights_mem.view.n)
        if getattr(l.source, 'of', None) is not t.heights_mem or l.tail: vc.abort(Unsupported("max"))
        extra = simp(const(l.n) - const(t.heights_mem.view.n))
        if not z3.is_int_value(extra): vc.abort(Unsupported("max"))
        r = vc.real('highest')
        for j in range(extra.as_long()): vc.assume(r >= l.at(j))
        t.highest_of = [l.at(j) for j in range(extra.as_long())]
        t.max_of_spans = r
        return r
    vc.stubs['max'] = max_
    vc.stubs['extend'] = lambda o, l: o.extend(l) if isinstance(o, Out) else vc.abort(Unsupported('extend'))
    t.top_lines = [Token('stale line')]
    mine = []
    def ret_():
        inside = instr.truth(S == t.cols_count)
        return 'interrupt' if inside or not pend.all else 'continue'
    t.ret_ = ret_
    lost = instr.truth(neg(row.length() == t.cols_count))
    r = method('add_row')(t, row, is_delayed)
    vc.check('all_the_cells', row.loop.completed == 1)
    if r == 'cancel':
        vc.check('only_an_empty_first_row', first and eq(t.highest, 0))
        vc.check('no_longer_first', not t.first_row)
        vc.cover('cancel')
        return
    vc.check('not_an_empty_first_row', not first or instr.truth(t.highest > 0))
    vc.check('no_longer_first', not t.first_row)
    vc.check('pending_columns_are_looked_at', used.get('S', False) or not pend.all)
    want = ret_()
    vc.check('goes_on_if_nothing_of_it_is_pending', r == want)
    if want == 'interrupt':
        vc.check('as_high_as_its_cells', t.max_height is getattr(t, 'max_of_spans', None) and any(x is t.highest for x in t.highest_of))
        vc.cover('interrupt')
    else:
        vc.check('as_high_as_its_highest_cell', t.max_height is t.highest)
        vc.cover('continue')
    b = [a for n, a in log if n == 'process_borders']
    vc.check('right_border_once', len(b) == 1 and eq(b[0]['col'], t.cols_count))
    vc.check('at_the_right_of_the_table', eq(b[0]['x_abs'], t.x + t.width))
    vc.check('no_top_border_there', b[0]['border_top'].get('width', 0) == 0)
    a = [a for a, x in asked if x is b[0]['border_left']]
    vc.check('right_border', len(a) == 1 and eq(a[0]['i'], t.current_index) and eq(a[0]['j'], t.cols_count) and a[0]['is_vert'] is True)
    vc.check('top_lines_drawn_once', len(t.lines.added) == 1 and t.lines.added[0][1] is t.top_lines)
    vc.check('next_row_below', eq(t.current_height, t.start + t.max_height))
    all_loops = [sh, rf]
    if any(getattr(l, 'completed', 0) > 1 for l in all_loops): vc.abort(Unsupported('another loop'))
    vc.check('heights_and_fills', all(getattr(l, 'completed', 0) == 1 for l in all_loops))

class Rows:
    """the rows before current_index were added once, in order"""
    peel = 1
    def __init__(self, t, log): self.t, self.log, self.b = t, log, Bools()
    def ends(self, vc):
        calls = [a for n, a in self.log if n == 'add_row']
        return len(calls) == 1 and calls[0]['action'] != 'continue'
    def check(self, st, k, env, mode):
        vc, t = st.ctx, self.t
        if mode == 'establish':
            self.b.note(env)
            self.one(vc, t.index_now, True)
            return
        self.one(vc, self.index, False)
        self.b.same(env)
    def variant(self, env): return self.t.content.n - self.t.current_index
    def one(self, vc, index, first):
        t = self.t
        calls = [a for n, a in self.log if n == 'add_row']
        vc.check('row_added_once', len(calls) == 1)
        row_is(vc, t, calls[0], index, first and t.top_of_page)
        vc.check('goes_on_after_a_whole_row', calls[0]['action'] == 'continue')
        vc.check('next_row', eq(t.current_index, index + 1))
        vc.cover('row')
    def havoc(self, st, k):
        vc, t = st.ctx, self.t
        self.log.clear()
        self.index = vc.int('index'); vc.assume(self.index > t.index_now)
        st.set(t, 'current_index', self.index)
        h = vc.real('current_height'); vc.assume(h >= t.current_height)
        st.set(t, 'current_height', h)
        st.set(t, 'delayed', listed_map(vc, 'delayed', lambda: {}))
        return dict(self.b.v)

def row_is(vc, t, call, index, top):
    """the row is the one of the content, with the cells that span from above when it is the first of a page"""
    row = call['row']
    vc.check('not_as_delayed', not instr.truth(call['is_delayed']))
    if top:
        vc.check('spans_go_on', isinstance(row, Token) and getattr(row, 'of', None) is not None and row.of['row'] is t.content.at(index) and not instr.truth(row.of['is_delayed']))
    else: vc.check('row_of_the_content', row is t.content.at(index))

class Closing:
    """the bottom borders of the first k columns"""
    def __init__(self, t, log): self.t, self.log, self.b, self.line = t, log, Bools(), Token('line')
    def check(self, st, k, env, mode):
        vc, t = st.ctx, self.t
        if mode == 'establish' and getattr(self, 'completed', 0): vc.abort(Unsupported('another loop'))
        b = [a for n, a in self.log if n == 'process_borders']
        if mode == 'establish':
            self.b.note(env)
            vc.check('no_border_yet', not b and len(t.top_lines) == 0 and instr.truth(t.top_lines_interrupted))
            return
        vc.check('bottom_border_once', len(b) == 1)
        vc.check('bottom_of_its_column', eq(b[0]['col'], self.k))
        vc.check('at_its_left', eq(b[0]['x_abs'], t.x + t.cols_.left(self.k) * t.width))
        vc.check('at_the_bottom', eq(b[0]['y_abs'], t.y - t.current_height))
        vc.check('no_vertical_line', b[0]['border_left'].get('width', 0) == 0)
        a = [a for a, x in t.asked if x is b[0]['border_top']]
        vc.check('border_below_the_row', len(a) == 1 and eq(a[0]['i'], t.current_index) and eq(a[0]['j'], self.k) and not instr.truth(a[0]['is_vert']))
        self.b.same(env)
    def havoc(self, st, k):
        self.k = k
        self.log[:] = [x for x in self.log if x[0] != 'process_borders']
        st.set(self.t, 'x_abs', st.ctx.real('x_abs'))
        st.touch(self.t.top_lines); st.touch(self.t.asked)
        if k is st.slist.n: self.t.top_lines.append(self.line)
        return dict(self.b.v)

@contract('PDFTable.run', funcs=[B + '.run', B + '.setup'], props=['C12', 'C13', 'C15'], time=200)
def run_table(vc):
    log = []
    def add_row(s, a):
        a['action'] = ('continue', 'interrupt', 'cancel')[vc.choose(3, 'action')]
        a['index'] = s.current_index
        h = vc.real('row_height'); vc.assume(h >= 0)
        s.current_height = s.current_height + h
        s.delayed = listed_map(vc, 'delayed', lambda: {})
        return a['action']
    record(B + '.add_row', log, add_row)
    def cells(s, a):
        r = Token('row with spans')
        r.of = a
        if isinstance(a['row'], SList):
            i = vc.int('any'); vc.assume(i >= 0); vc.assume(i < a['row'].n)
            a['same'] = conj(eq(a['row'].n, s.cols_count), a['row'].at(i) is s.delayed.get(i))
        return r
    record(B + '.continue_cells', log, cells)
    record(B + '.process_borders', log, lambda s, a: a.update(x_abs=s.x_abs, y_abs=s.y_abs))
    t = table(vc)
    t.asked = []
    def get_border(s, a):
        b = {'width': vc.real('border')}
        t.asked.append((a, b))
        return b
    record(B + '.get_border', log, get_border)
    n = vc.int('rows'); vc.assume(n >= 1)
    t.content = SList('content', n, lambda i: Token('row'))
    t.finished = False
    t.x_abs, t.y_abs = vc.real('old x_abs'), vc.real('old y_abs')
    t.delayed = pending = listed_map(vc, 'delayed', lambda: {})
    t.index_now = start = t.current_index
    for a in ('parts', 'lines', 'fills', 'fills_mem', 'heights_mem', 'rowspan', 'vert_lines', 'current_height'): setattr(t, a, Token('of the previous page'))
    rows = vc.stubs['while:' + B + '.run'] = Rows(t, log)
    closing = Closing(t, log)
    def range_loop(lo, hi, step):
        return closing
    vc.stubs['range_loop'] = range_loop
    t.top_of_page = None
    vc.stubs['extend'] = lambda o, l: o.append(l)
    given = {}
    for k in ('x', 'y', 'width', 'height'):
        if vc.choose(2, 'new rectangle') if k == 'x' else 'x' in given: given[k] = vc.real('new_' + k)
    old = {k: getattr(t, k) for k in ('x', 'y', 'width', 'height')}
    # what happens with what is pending
    has_pending = instr.truth(pending.view.n > 0)
    state = {}
    def before_rows():
        pass
    real = instr.lookup(B + '.add_row')[2]
    def first_calls(s, *a, **k):
        """the height at the first row, to know whether it is at the top of the page"""
        if t.top_of_page is None and not (has_pending and not state): t.top_of_page = instr.truth(s.current_height == 0)
        if not state:
            state['first'] = True
            state['initial'] = tuple(copy_of(v) for v in (s.parts, s.lines, s.fills, s.fills_mem, s.heights_mem, s.rowspan)) + (s.vert_lines, s.current_height)
            state['shared'] = s.parts is s.lines or s.lines is s.fills or s.parts is s.fills
        r = real(s, *a, **k)
        if 'pending' not in state and has_pending:
            state['pending'] = log[-1][1]
            if r == 'continue': t.index_now = start + 1; log.clear()
        return r
    instr.stub(B + '.add_row', first_calls)
    method('run')(t, **given)
    for k in old: vc.check('rectangle_' + k, eq(getattr(t, k), given.get(k, old[k])))
    if 'initial' in state:
        p, l, f, fm, hm, rs, vl, h = state['initial']
        vc.check('nothing_drawn_yet', p == [] and l == [] and f == [] and not state['shared'])
        vc.check('no_spans_yet', fm == {} and hm == {} and rs == {} and eq(h, 0))
        ok = isinstance(vl, SList) and not vl.tail
        if not ok: vc.abort(Unsupported('vertical lines'))
        vc.check('a_line_for_every_border', eq(vl.n, t.cols_count + 1))
        i = vc.int('any'); vc.assume(i >= 0); vc.assume(i < vl.n)
        v = vl.at(i)
        vc.check('no_vertical_lines_yet', isinstance(v, dict) and v['list'] == [] and v['interrupted'] is True)
    # pending cells first
    calls = [a for n_, a in log if n_ == 'add_row']
    cancel = bool(calls) and calls[-1]['action'] == 'cancel'
    if has_pending:
        a = state.get('pending')
        vc.check('pending_cells_first', a is not None and isinstance(a['row'], Token) and getattr(a['row'], 'of', None) is not None)
        src = a['row'].of['row']
        vc.check('spans_of_pending', instr.truth(a['row'].of['is_delayed']) and instr.truth(a['is_delayed']))
        if not isinstance(src, SList): vc.abort(Unsupported('row'))
        vc.check('row_of_pending_cells', a['row'].of['same'])
        if a['action'] != 'continue':
            vc.check('the_row_is_not_over', eq(t.current_index, start) and calls == [a])
            cancel = False
            vc.cover('pending again')
    if cancel:
        vc.check('nothing_drawn', all(isinstance(x, list) and not x for x in (t.parts, t.lines, t.fills)))
        vc.check('not_finished', t.finished is False)
        vc.cover('cancelled')
        return
    if calls and not (has_pending and calls[-1] is state.get('pending')):
        last = calls[-1]
        vc.check('one_row_at_a_time', len(calls) == 1)
        if last['action'] == 'continue':
            row_is(vc, t, last, t.index_now, t.top_of_page)
            vc.check('only_row', conj(eq(t.current_index, t.index_now + 1), t.current_index >= n))
        if last['action'] == 'interrupt':
            idx = last['index']
            first = instr.truth(idx == t.index_now) if isinstance(idx, SNum) else idx == t.index_now
            row_is(vc, t, last, idx, first and t.top_of_page)
            vc.check('interrupted_row_is_not_over', eq(t.current_index, idx))
            vc.cover('interrupted')
    elif not calls and not has_pending: pass
    # the end of the page
    vc.check('bottom_borders', getattr(closing, 'completed', 0) == 1)
    b = [a for n_, a in log if n_ == 'process_borders']
    vc.check('right_end', len(b) == 1 and eq(b[0]['col'], t.cols_count) and eq(b[0]['x_abs'], t.x + t.width) and eq(b[0]['y_abs'], t.y - t.current_height)
        and b[0]['border_left'].get('width', 0) == 0 and b[0]['border_top'].get('width', 0) == 0)
    flat = [l for l in t.lines if isinstance(l, SList) and 'flat' in l.__dict__]
    vc.check('top_lines_once', len([l for l in t.lines if l is closing.line]) == 1)
    vc.check('vertical_lines_once', len(flat) == 1)
    vc.check('nothing_else_drawn', len(t.lines) == 2)
    it, inner, elt = flat[0].flat
    if it is not t.vert_lines: vc.abort(Unsupported('vertical lines'))
    d, one = {'list': Token('list'), 'interrupted': True}, Token('line')
    vc.check('all_the_vertical_lines', inner(d) is d['list'] and elt(d, one) is one and not it.partial)
    done = conj(t.current_index >= n, neg(t.delayed.view.n > 0))
    stopped = bool(calls) and calls[-1]['action'] != 'continue'
    vc.check('the_page_is_used', disj(t.current_index >= n, stopped))
    vc.check('finished_at_the_end', SBool(z3.BoolVal(t.finished is True) == truth_of(done)))
    vc.cover('page')

# --------------------------------------------------------------------------- what tables are made of

class Whole(SList): pass

@contract('PDFTable.__init__', funcs=[B + '.__init__', B + '.setup', B + '.set_default_border'], props=['C12', 'C13'])
def table_init(vc):
    log = []
    record(B + '.setup_borders', log)
    record(B + '.setup_fills', log)
    instr.stub(M + 'PDFColor', Color)
    own = {}
    given = []
    instr.stub('pdfme.utils.process_style', lambda s, pdf=None: (given.append((s, pdf)), own)[1])
    for ks in ((), ('cell_margin', 'cell_fill', 'b'), ('border_width', 'border_color', 'border_style'))[vc.choose(3, 'style')]: own[ks] = Token(ks)
    mine = dict(own)
    rows, cols = vc.int('rows'), vc.int('cols')
    vc.assume(rows >= 0); vc.assume(cols >= 0)
    first = SList('row', cols, lambda i: Token('cell'))
    content = SList('content', rows, lambda i: first)
    x, y, w, h = (vc.real(n) for n in 'xywh')
    kw = {}
    total = None
    c = vc.choose(3, 'widths')
    if c:
        n = cols if c == 1 else vc.int('widths')
        vc.assume(n >= 0)
        ws = kw['widths'] = SList('widths', n, lambda i: vc.real('width'))
        total = vc.real('total'); vc.assume(total > 0)
        vc.stubs['sum'] = lambda l, *a: total if l is ws and not a else vc.abort(Unsupported('sum'))
    lists = vc.choose(2, 'lists') == 1
    if lists: kw['borders'], kw['fills'] = SList('borders', vc.int('n'), lambda i: None), SList('fills', vc.int('n'), lambda i: None)
    style = kw['style'] = Token('style')
    pdf, fonts = Token('pdf'), Token('fonts')
    t = raw(B)
    try: method('__init__')(t, content, fonts, x, y, w, h, pdf=pdf, **kw)
    except (PathEnd, Unsupported): raise
    except Exception as e:
        vc.check('widths_do_not_match', c == 2 and instr.truth(neg(eq(kw['widths'].n, cols))), detail=str(e))
        return
    vc.check('rectangle', conj(eq(t.x, x), eq(t.y, y), eq(t.width, w), eq(t.height, h)))
    vc.check('what_it_has', t.content is content and t.fonts is fonts and t.pdf is pdf)
    vc.check('from_its_first_row', eq(t.current_index, 0) and t.finished is False)
    if instr.truth(disj(eq(rows, 0), eq(cols, 0))): vc.cover('empty'); return
    vc.check('columns', eq(t.cols_count, cols))
    vc.check('nothing_pending', t.delayed == {} and t.first_row is True)
    vc.check('a_width_for_every_column', isinstance(t.widths, SList) and not t.widths.tail and not t.widths.partial and eq(t.widths.n, cols))
    i = vc.int('any'); vc.assume(i >= 0); vc.assume(i < cols)
    if c: vc.check('proportional_widths', eq(t.widths.at(i) * total, kw['widths'].at(i)))
    else: vc.check('equal_widths', eq(t.widths.at(i) * cols, 1))
    vc.check('its_style', len(given) == 1 and given[0] == (style, pdf))
    st = {'cell_margin': 5, 'cell_fill': None}
    st.update({k: v for k, v in mine.items() if not k.startswith('border_')})
    vc.check('style', set(t.style) == set(st) and all(t.style[k] is v or t.style[k] == v for k, v in st.items()))
    d = t.default_border
    vc.check('border_width', d['width'] is mine['border_width'] if 'border_width' in mine else d['width'] == 0.5)
    vc.check('border_color', isinstance(d['color'], Color) and (d['color'].of is mine['border_color'] if 'border_color' in mine else d['color'].of == 0) and d['color'].stroke is True)
    vc.check('border_style', d['style'] is mine['border_style'] if 'border_style' in mine else d['style'] == 'solid')
    for n_ in ('borders', 'fills'):
        a = [a for m, a in log if m == 'setup_' + n_]
        vc.check(n_, len(a) == 1 and (a[0][n_] is kw[n_] if lists else a[0][n_] == []))
    vc.cover('table')

@contract('PDFTable.get_state', funcs=[B + '.get_state', B + '.set_state', 'pdfme.utils.copy'], props=['C15', 'C13'])
def table_state(vc):
    inner = {'section_index': 1, 'x': [Token('a')]}
    obj = Token('paragraph')
    d = {0: {'delayed': obj, 'type': 'text', 'state': inner, 'cell_style': {'cell_margin_top': vc.real('m')}, 'colspan': 2, 'rowspan': 1, 'row': 0}, 3: {'delayed': Token('other'), 'state': {}}}
    t = table(vc, delayed=d)
    # the cells that are pending are never changed, they are replaced (see PDFTable.add_cell): the dict of all of them must be a new one
    def same(a, b):
        if isinstance(b, dict): return isinstance(a, dict) and set(a) == set(b) and all(same(a[k], b[k]) for k in b)
        if isinstance(b, list): return isinstance(a, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
        return a is b or a == b
    idx = t.current_index
    s = method('get_state')(t)
    vc.check('state', set(s) == {'current_index', 'delayed'} and eq(s['current_index'], idx))
    vc.check('a_copy_of_what_is_pending', same(s['delayed'], d) and s['delayed'] is not d and t.delayed is d)
    u = table(vc, delayed={1: {}})
    was = u.delayed, u.current_index
    c = vc.choose(3, 'all')
    if c == 2:
        method('set_state')(u, current_index=idx, delayed={})
        vc.check('nothing_pending', eq(u.current_index, idx) and u.delayed == {})
    elif c:
        method('set_state')(u, **s)
        vc.check('restored', eq(u.current_index, idx) and same(u.delayed, s['delayed']) and u.delayed is not s['delayed'])
    else:
        method('set_state')(u)
        vc.check('kept', u.delayed is was[0] and eq(u.current_index, was[1]))

# --------------------------------------------------------------------------- positions

class Slices:
    """range(count), by the slices taken of it"""
    _vc_ghost = True
    def __init__(self, *a): self.args, self.slices = a, []
    def __getitem__(self, s):
        if not isinstance(s, slice): raise Unsupported('index of a range')
        r = Slices(*self.args)
        r.slices = self.slices + [s]
        return r

@contract('PDFTable.parse_range_string', funcs=[B + '.parse_range_string'], props=['C12'])
def parse_range(vc):
    count = vc.int('count'); vc.assume(count >= 0)
    t = table(vc)
    f = method('parse_range_string')
    c = vc.choose(3, 'form')
    if c == 2:
        n = vc.int('numbers'); vc.assume(n >= 1)
        nums = SList('numbers', n, lambda i: str(vc.int('number')))
        s = SStr('text', maybe_empty=False)
        def split(s_, sep=None):
            if sep != ',': vc.abort(Unsupported('split'))
            return nums
        s.data['meth'] = dict(split=split, __contains__=lambda s_, x: False if x == ':' else vc.abort(Unsupported('in')))
        r = f(t, s, count)
        if not isinstance(r, SList): vc.abort(Unsupported('list of positions'))
        i = vc.int('any'); vc.assume(i >= 0); vc.assume(i < n)
        vc.check('as_many', eq(r.length(), n) and not r.partial)
        v = pieces(nums.at(i))[0]
        vc.check('position', eq(r.at(i), ite(v < 0, count + v, v)))
        return
    vc.stubs['range'] = Slices
    if c == 0: parts = [None, None]; s = ''
    else:
        k = 2 + vc.choose(2, 'step')
        parts = [vc.int('part') if vc.choose(2, 'part') else None for i in range(k)]
        blank = ' ' if vc.choose(2, 'blanks') else ''
        s = ':'.join(blank + (str(p) if p is not None else '') for p in parts)
    r = f(t, s, count)
    if not isinstance(r, Slices): vc.abort(Unsupported('positions'))
    vc.check('of_all_the_positions', len(r.args) == 1 and eq(r.args[0], count) or len(r.args) == 2 and r.args[0] == 0 and eq(r.args[1], count))
    vc.check('one_slice', len(r.slices) < 2)
    sl = r.slices[0] if r.slices else slice(None)
    got = [sl.start, sl.stop, sl.step]
    want = parts + [None] * (3 - len(parts))
    for n_, a, b in zip(('start', 'stop', 'step'), got, want):
        vc.check(n_, a is None if b is None else a is not None and eq(a, b))

class Quiet:
    """a loop that only gives its elements"""
    def check(self, st, k, env, mode):
        if mode == 'preserve': self.after(st.ctx)
    def havoc(self, st, k): self.k = k; return {}
    def after(self, vc): pass

@contract('PDFTable.parse_pos_string', funcs=[B + '.parse_pos_string'], props=['C12'])
def parse_pos(vc):
    log, out = [], []
    names = SStr('rows', word=True), SStr('cols', word=True)
    for n_ in names: vc.assume(n_.len > 0)
    counts = vc.int('rows'), vc.int('cols')
    loops = Quiet(), Quiet()
    lists = []
    def ranges(s, a):
        i = 0 if same_key(a['count'], counts[0]) and a['count'] is counts[0] else 1
        if a['count'] is not counts[i]: vc.check('count', False)
        l = SList('positions', vc.int('n'), lambda j: vc.int('position'), loops[i])
        lists.append((i, a['data'], l))
        return l
    record(B + '.parse_range_string', log, ranges)
    both = vc.choose(2, 'both') == 1
    pos = str(names[0]) + (';' + str(names[1]) if both else '')
    t = table(vc)
    def after(vc_):
        vc.check('position_given_once', len(out) == 1)
        i, j = out[0]
        l = {k: v for k, d, v in lists}
        vc.check('row_and_column', i is l[0].at(loops[0].k) and j is l[1].at(loops[1].k))
        vc.cover('position')
    loops[1].after = after
    for p in method('parse_pos_string')(t, pos, counts):
        out.append(p)
    vc.check('two_ranges', sorted(k for k, d, v in lists) == [0, 1])
    for k, d, v in lists:
        want = names[k] if k == 0 or both else None
        vc.check('range_%d' % k, str_eq(d, want) if want is not None else d in (':', ''))
    vc.check('all_the_rows', getattr(loops[0], 'completed', 0) == 1 or bool(out))

class Nothing:
    """invariant of loops whose effect is checked at any of their iterations"""
    def __init__(self, touch=(), check=None): self.what, self.f = touch, check
    def check(self, st, k, env, mode):
        if mode == 'preserve' and self.f: self.f(st.ctx, self.k, env)
    def havoc(self, st, k):
        self.k = k
        for o in self.what(): st.touch(o)
        return {}

def nested(name):
    def row(k):
        if not ctx().choose(2, 'row of ' + name): return ABSENT
        return Map('row of ' + name, lambda j: Token('old') if ctx().choose(2, 'cell of ' + name) else ABSENT)
    return Map(name, row)

def positions(vc, log, loop):
    """parse_pos_string by its contract"""
    def given(s, a):
        n = vc.int('positions'); vc.assume(n >= 0)
        l = SList('positions', n, lambda i: (vc.int('i'), vc.int('j')), loop)
        a['list'] = l
        return l
    record(B + '.parse_pos_string', log, given)

def written_once(vc, m, i, j):
    """the value given to the position, the only change of the dict of dicts"""
    rows = [v for k, v in m.writes if v is not ABSENT]
    vc.check('only_that_row', all(same_key(k, i) for k, v in m.writes) and len(m.writes) <= 1)
    row = m.at(i)
    ok = isinstance(row, Map)
    vc.check('row_of_the_position', ok and (row is m.base(i) or m.base(i) is ABSENT))
    vc.check('only_that_position', len(row.writes) >= 1 and all(same_key(k, j) for k, v in row.writes))
    return row.at(j)

@contract('PDFTable.setup_borders', funcs=[B + '.setup_borders'], props=['C12'])
def setup_borders(vc):
    log = []
    instr.stub(M + 'PDFColor', Color)
    default = {'width': vc.real('default width'), 'color': Token('default color'), 'style': 'solid'}
    dbefore = dict(default)
    rows = vc.int('rows'); vc.assume(rows >= 1)
    t = table(vc, content=SList('content', rows, lambda i: None), default_border=default)
    own = {}
    for k in ('width', 'color', 'style'):
        if vc.choose(2, k): own[k] = Token(k)
    c = vc.choose(5, 'pos')
    where = SStr('where', maybe_empty=True)
    if c < 4: own['pos'] = 'vVhH'[c] + str(where)
    given = dict(own)
    vert = c < 2
    old = {}
    def prepare():
        # the borders set before: any
        if 'v' not in old:
            old['v'], old['h'] = t.borders_v, t.borders_h
        return [t]
    def at_position(vc, k, env):
        a = [a for n, a in log if n == 'parse_pos_string']
        vc.check('positions_once', len(a) == 1)
        i, j = a[0]['list'].at(k)
        m, o = (t.borders_v, t.borders_h) if vert else (t.borders_h, t.borders_v)
        vc.check('other_borders_kept', unchanged(o) and not o.writes)
        b = written_once(vc, m, i, j)
        vc.check('border', isinstance(b, dict) and b is not default and b is not own and set(b) == {'width', 'color', 'style'})
        vc.check('width', b['width'] is own.get('width', dbefore['width']))
        vc.check('style', b['style'] is own.get('style') if 'style' in own else b['style'] == 'solid')
        vc.check('color', isinstance(b['color'], Color) and b['color'].of is own.get('color', dbefore['color']) and b['color'].stroke is True)
        vc.cover('border of a position')
    inner = Nothing(lambda: [t.borders_v, t.borders_h], at_position)
    positions(vc, log, inner)
    class Borders:
        def check(self, st, k, env, mode):
            vc = st.ctx
            if mode == 'establish':
                vc.check('no_borders', t.borders_h == {} and t.borders_v == {} and t.borders_h is not t.borders_v)
                return
            a = [a for n, a in log if n == 'parse_pos_string']
            if c == 4: vc.check('no_positions', not a)
            else:
                vc.check('all_the_positions', len(a) == 1 and getattr(inner, 'completed', 0) == 1)
                vc.check('where', str_eq(a[0]['pos'], where))
                n = a[0]['counts']
                vc.check('lines_of_the_grid', len(n) == 2 and eq(n[0], rows if vert else rows + 1) and eq(n[1], t.cols_count + 1 if vert else t.cols_count))
            vc.check('definition_kept', own == given and default == dbefore)
        def havoc(self, st, k):
            st.set(t, 'borders_h', nested('borders_h')); st.set(t, 'borders_v', nested('borders_v'))
            st.touch(t.borders_h); st.touch(t.borders_v)
            return {}
    loop = Borders()
    bs = SList('borders', vc.int('borders'), lambda i: own, loop)
    vc.assume(bs.n >= 0)
    method('setup_borders')(t, bs)
    vc.check('all_the_borders', getattr(loop, 'completed', 0) == 1)

@contract('PDFTable.setup_fills', funcs=[B + '.setup_fills'], props=['C12'])
def setup_fills(vc):
    log = []
    rows = vc.int('rows'); vc.assume(rows >= 1)
    t = table(vc, content=SList('content', rows, lambda i: None))
    own = {'color': Token('color')}
    where = SStr('where', maybe_empty=True)
    has = vc.choose(2, 'pos') == 1
    if has: own['pos'] = where
    given = dict(own)
    def at_position(vc, k, env):
        a = [a for n, a in log if n == 'parse_pos_string']
        i, j = a[0]['list'].at(k)
        vc.check('color', written_once(vc, t.fills_defs, i, j) is own['color'])
        vc.cover('fill of a position')
    inner = Nothing(lambda: [t.fills_defs], at_position)
    positions(vc, log, inner)
    class Fills:
        def check(self, st, k, env, mode):
            vc = st.ctx
            if mode == 'establish': vc.check('no_fills', t.fills_defs == {}); return
            a = [a for n, a in log if n == 'parse_pos_string']
            if not has: vc.check('no_positions', not a)
            else:
                vc.check('all_the_positions', len(a) == 1 and getattr(inner, 'completed', 0) == 1)
                n = a[0]['counts']
                vc.check('where', str_eq(a[0]['pos'], where))
                vc.check('cells', len(n) == 2 and eq(n[0], rows) and eq(n[1], t.cols_count))
            vc.check('definition_kept', own == given)
        def havoc(self, st, k):
            st.set(t, 'fills_defs', nested('fills')); st.touch(t.fills_defs)
            return {}
    loop = Fills()
    fs = SList('fills', vc.int('fills'), lambda i: own, loop)
    vc.assume(fs.n >= 0)
    method('setup_fills')(t, fs)
    vc.check('all_the_fills', getattr(loop, 'completed', 0) == 1)

class Array:
    """a list of numbers or cells of a length that is not known: every position has any value until it is changed"""
    _vc_ghost = True
    def __init__(self, name, value): self.cells, self.writes, self.value = Map(name, value), (), value
    def __getitem__(self, i):
        if isinstance(i, slice): ctx().abort(Unsupported('slice'))
        for lo, hi, v in reversed(self.writes):
            if instr.truth(conj(lo <= i, neg(hi <= i))): return v
        return self.cells.at(i)
    def __setitem__(self, i, v):
        if isinstance(i, slice):
            if i.step is not None or not isinstance(v, (SList, list)): ctx().abort(Unsupported('slice'))
            n = v.length() if isinstance(v, SList) else len(v)
            if instr.truth(neg(eq(n, i.stop - i.start))): ctx().abort(Unsupported('the list changes its length'))
            self.writes = self.writes + ((i.start, i.stop, v.at(0) if isinstance(v, SList) else v[0]),)
        else: self.writes = self.writes + ((i, i + 1, v),)
    def _vc_len(self): ctx().abort(Unsupported('length'))

class SpanRows:
    """the rows above: `ends` has, for every column, the row after the last one of the last cell that covers it"""
    partial_ok = True
    def __init__(self, x): self.x = x
    def check(self, st, k, env, mode):
        vc, x = st.ctx, self.x
        if mode == 'establish':
            x.locals(env)
            vc.check('rows_above', x.upto(st.slist))
            vc.check('nothing_is_covered', x.all_zero)
            vc.check('row_given', x.row_given)
            return
        if getattr(x.cells_loop, 'completed', 0) != 1: vc.abort(Unsupported('row'))
    def havoc(self, st, k):
        self.x.k = k
        return self.x.arrays(st)

class SpanCells:
    def __init__(self, x): self.x = x
    def check(self, st, k, env, mode):
        x = self.x
        if mode == 'preserve': x.step(st.ctx)
    def havoc(self, st, k):
        self.x.col = k
        return self.x.arrays(st)

@contract('PDFTable.continue_cells', funcs=[B + '.continue_cells'], props=['C13', 'C12'])
def continue_cells(vc):
    style_log = []
    own = {}
    if vc.choose(2, 'filled'): own['cell_fill'] = Token('fill')
    instr.stub('pdfme.utils.process_style', lambda s, pdf=None: (style_log.append((s, pdf)), own)[1])
    is_delayed = vc.choose(2, 'is_delayed') == 1
    t = table(vc, delayed=any_map('delayed', lambda k: {}))
    class X: pass
    x = X()
    x.cells_loop = SpanCells(x)
    cell = {}
    kind = vc.choose(3, 'cell')
    if kind == 0: content_cell = SStr('text')
    else:
        content_cell = cell
        if kind == 2:
            for n in ('rowspan', 'colspan'): cell[n] = vc.int(n); vc.assume(cell[n] >= 1)
            cell['style'] = Token('style')
        cell['.'] = Token('content')
    before = dict(cell)
    rs, cs = cell.get('rowspan', 1), cell.get('colspan', 1)
    x.rowlist = lambda i: SList('cells', t.cols_count, lambda j: content_cell, x.cells_loop)
    n = vc.int('rows'); vc.assume(n > t.current_index)
    t.content = SList('content', n, x.rowlist, SpanRows(x))
    row = SList('row', t.cols_count, lambda i: Token('cell'))
    def locals_(env):
        x.ends_name = [m for m, v in env._d.items() if isinstance(v, SList) and v.name == 'repeated']
        x.row_name = [m for m, v in env._d.items() if isinstance(v, SList) and v.name == 'row' and v is not row]
        if len(x.ends_name) != 1 or len(x.row_name) != 1: vc.abort(Unsupported('locals'))
        e = env[x.ends_name[0]]
        x.all_zero = conj(eq(e.n, t.cols_count), eq(e.at(0), 0))
        i = vc.int('any'); vc.assume(i >= 0); vc.assume(i < row.n)
        x.row_given = conj(eq(env[x.row_name[0]].n, row.n), env[x.row_name[0]].at(i) is row.at(i))
    x.locals = locals_
    last = t.current_index + (1 if is_delayed else 0)
    def upto(l):
        return conj(eq(l.n, last), l.at(0) is not None)
    x.upto = upto
    def arrays(st):
        e = Array('ends', lambda k: vc.int('end'))
        r = Array('new row', lambda k: Token('old cell'))
        x.e, x.r = e, r
        st.touch(e); st.touch(r)
        return {x.ends_name[0]: e, x.row_name[0]: r}
    x.arrays = arrays
    def step(vc):
        e, r, i, col = x.e, x.r, x.k, x.col
        end = e.cells.at(col)
        skipped = not e.writes
        vc.check('covered_or_plain', SBool(z3.BoolVal(skipped) == truth_of(disj(end > i, kind == 0))) if kind else skipped)
        vc.check('content_kept', cell == before)
        if skipped:
            vc.check('cell_kept', not r.writes)
            return
        vc.check('columns_that_it_covers', len(e.writes) == 1 and eq(e.writes[0][0], col) and eq(e.writes[0][1], col + cs) and eq(e.writes[0][2], i + rs))
        goes_on = i + rs > t.current_index
        pending = is_delayed and col in t.delayed
        if r.writes:
            vc.check('only_cells_that_reach_the_row', conj(goes_on, not pending))
            c = r.writes[0][2]
            vc.check('in_its_column', len(r.writes) == 1 and eq(r.writes[0][0], col) and eq(r.writes[0][1], col + 1))
            vc.check('the_rest_of_the_cell', isinstance(c, dict) and c is not cell and eq(c.get('rowspan', 1), rs) and eq(c.get('colspan', 1), cs) and eq(c.get('row', -1), i))
            vc.check('without_its_content', c.get('.') == '' and not set(c) - {'.', 'rowspan', 'colspan', 'row', 'style'})
            vc.check('fill_of_the_cell', (c.get('style') == {'cell_fill': own['cell_fill']}) if own else not c.get('style'))
            vc.check('its_style', len(style_log) == 1 and style_log[0] == (cell.get('style'), t.pdf))
            vc.cover('goes on')
        else: vc.check('cells_that_reach_the_row', neg(conj(goes_on, not pending)))
    x.step = step
    r = method('continue_cells')(t, row, is_delayed)
    vc.check('all_the_rows', getattr(t.content.loop, 'completed', 0) == 1)
    vc.check('the_new_row', r is x.r)
