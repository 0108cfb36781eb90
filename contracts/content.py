"""C14, C15, C13, C04, C07, C16: content boxes.

Coordinates are those of the PDF page: y decreases downwards; a box has columns of the same width, and its elements go
from `y` down to `max_y` in the current column."""
import inspect

from pyvc.engine import *
from pyvc.stream import *
from pyvc import instr
from textline import raw, ctx
from doc import same_value, Token, args_are, record
from table import Bools, Inner, inner_class, Out, same_style, defaults, PAR, paragraph_part
from _maps import *
import z3

M = 'pdfme.content.'
P = M + 'PDFContentPart'
C = M + 'PDFContent'

def method(name): return instr.lookup(P + '.' + name)[2]

def part(vc, cls=None, **k):
    """a box at any point of its layout"""
    p = raw(C, parts=Out(), lines=Out(), fills=Out(), fonts=Token('fonts'), pdf=Token('pdf'))
    b = object.__new__(cls or instr.lookup(P)[2])
    b.__dict__.update(dict(p=p, parent=None, is_root=True, last=True, style={'margin_bottom': vc.real('inherited margin')},
        min_x=vc.real('min_x'), min_y=vc.real('min_y'), max_y=vc.real('max_y'), x=vc.real('old x'), y=vc.real('y'), width=vc.real('old width'),
        full_width=vc.real('full_width'), max_height=vc.real('old max_height'), last_bottom=vc.real('last_bottom'),
        cols_n=vc.int('cols_n'), cols_gap=vc.real('cols_gap'), col_width=vc.real('col_width'), column=vc.int('column'),
        starting=vc.bool('starting'), section_element_index=vc.int('section_element_index'), element_index=vc.int('element_index'),
        section_delayed=Token('section_delayed'), delayed=Token('delayed'), children_memory=Token('children_memory'), partial_children_memory=None,
        will_reset=vc.bool('will_reset'), resetting=vc.bool('resetting'), parts_index=vc.int('parts_index'), lines_index=vc.int('lines_index'),
        fills_index=vc.int('fills_index'), minim_diff_last=None, minim_diff=None, minim_forward=None, column_info={}))
    vc.assume(b.cols_n >= 1); vc.assume(b.column >= 0); vc.assume(b.column < b.cols_n)
    for a, v in k.items(): setattr(b, a, v)
    return b

def kept(vc, b, old, but=(), name='rest_of_the_box'):
    """the attributes that the function may not change"""
    for n, v in old.items():
        if n in but: continue
        w = b.__dict__.get(n, ABSENT)
        if w is not v: vc.check(name, same_value(w, v), detail=n)
    vc.check(name, set(old) <= set(b.__dict__))

def left(b): return b.min_x + b.column * (b.col_width + b.cols_gap)

MARGINS = ('margin_left', 'margin_right', 'margin_top', 'margin_bottom')

def margins(vc):
    """a style with some of the margins"""
    st = {}
    if vc.choose(2, 'margins'):
        for n in MARGINS: st[n] = vc.real(n)
    return st

def top_of(vc, b, style, add_top_margin):
    """where the next element begins"""
    if instr.truth(b.starting): return b.y
    return b.y - b.last_bottom - (style.get('margin_top', 0) if add_top_margin else 0)

def rectangle(vc, b, style, add_top_margin):
    y = top_of(vc, b, style, add_top_margin)
    ml, mr = style.get('margin_left', 0), style.get('margin_right', 0)
    h = y - b.max_y
    return dict(x=left(b) + ml, y=y, width=b.col_width - ml - mr, height=ite(h > 0, h, 0))

SCRATCH = ('x', 'width', 'max_height')

@contract('PDFContentPart.update_dimensions', funcs=[P + '.update_dimensions', P + '.get_min_x'], props=['C14'])
def update_dimensions(vc):
    b = part(vc)
    st = margins(vc)
    old = dict(b.__dict__)
    y, starting = b.y, instr.truth(b.starting)
    method('update_dimensions')(b, st)
    ml, mr = st.get('margin_left', 0), st.get('margin_right', 0)
    vc.check('left', eq(b.x, left(b) + ml))
    vc.check('right', eq(b.x + b.width, left(b) + b.col_width - mr))
    vc.check('below_the_last_margin', eq(b.y, y if starting else y - b.last_bottom))
    vc.check('height_left', conj(b.max_height >= 0, disj(eq(b.y - b.max_height, b.max_y), conj(eq(b.max_height, 0), b.y <= b.max_y))))
    vc.check('min_x', eq(method('get_min_x')(b), left(b)))
    kept(vc, b, old, SCRATCH + ('y',))

def nothing_drawn(vc, b, name='nothing_drawn'):
    vc.check(name, not b.p.parts.added and not b.p.lines.added and not b.p.fills.added)

def placed(vc, b, old, height, style, top, done):
    """where the box goes on after an element"""
    if done:
        vc.check('goes_on_below', eq(b.y, top - height))
        vc.check('no_longer_at_the_top', instr.truth(b.starting) is False)
        vc.check('bottom_margin', eq(b.last_bottom, style.get('margin_bottom', 0)))
    else:
        vc.check('nothing_placed', conj(eq(b.y, old['y']), eq(b.last_bottom, old['last_bottom'])) and b.starting is old['starting'])
    kept(vc, b, old, SCRATCH + ('y', 'starting', 'last_bottom'))

def flow(vc, kind, qual, name, props):
    """paragraphs and tables: as much of them as fits goes in the rectangle left in the column"""
    made = []
    cls, b_ = instr.lookup(qual)[2], instr.lookup(P)[2]
    run_method = method(name)
    args_of = defaults(cls)
    instr.stub(M + qual.split('.')[-1], inner_class(cls, kind, made))
    vc.stubs['extend'] = lambda o, l: o.extend(l) if isinstance(o, Out) else vc.abort(Unsupported('extend'))
    b = part(vc, b_)
    outs = b.p.parts, b.p.lines, b.p.fills
    style = margins(vc)
    style['b'] = Token('bold')
    element_style = {'b': Token('own')}
    key = {'text': 'paragraph', 'table': 'table_delayed'}[kind]
    given = None
    resumed = vc.choose(2, 'resumed') == 1
    if resumed:
        o_ = Inner(kind, cls)
        state = {'section_index': vc.int('section_index'), 'other': Token('other')}
        element = {key: o_, 'style': element_style, 'state': state}
    else:
        inner = Token('definition')
        element = {'.b' if kind == 'text' else 'table': inner, 'style': Token('style')}
        if props:
            c = vc.choose(len(props) + 1, 'property')
            if c: given = props[c - 1]
        if given: (style if kind == 'text' else element)[given] = Token('value of ' + given)
    before, sbefore = dict(element), dict(style)
    add_parts, top_margin = ((True, True), (True, False), (False, True), (False, False))[vc.choose(4, 'flags') if given is None else 0]
    old = dict(b.__dict__)
    rect = rectangle(vc, b, style, top_margin)
    r = run_method(b, element, style, element_style, add_parts, top_margin)
    if resumed:
        vc.check('the_one_that_was_not_finished_goes_on', not made)
        o = o_
        log = [l for l in o._log if l[0] != 'get_state']
        vc.check('restored_and_run', len(log) == 3 and {l[0] for l in log[:2]} == {'setup', 'set_state'} and log[2][0] == 'run')
        log = {l[0]: l[1] for l in log}
        args_are(vc, 'rectangle', log['setup'], rect)
        vc.check('from_the_state_saved', set(log['set_state']) == set(state) and all(log['set_state'][k] is state[k] for k in state))
        vc.check('not_finished_until_it_is_laid_out', log['run'] is False)
    else:
        vc.check('one_is_made', len(made) == 1)
        o = made[0]
        a = o._args
        args_are(vc, 'new', a, dict(rect, pdf=b.p.pdf, fonts=b.p.fonts))
        if kind == 'table': vc.check('definition', a['content'] is inner and same_style(a['style'], sbefore))
        else: vc.check('definition', a['content'].get('.b') is inner and same_style(a['content'].get('style'), sbefore))
        for p in props: vc.check('property_' + p, a[p] is ((style if kind == 'text' else element)[p] if p == given else None) or p != given and p in args_of and a[p] == args_of[p])
        vc.check('laid_out_once', [l[0] for l in o._log if l[0] != 'get_state'] == ['run'])
    vc.check('element_of_the_user_kept', element == before and same_style(style, sbefore))
    vc.check('same_lists', b.p.parts is outs[0] and b.p.lines is outs[1] and b.p.fills is outs[2])
    if not add_parts: nothing_drawn(vc, b, 'only_measured')
    elif kind == 'text':
        vc.check('drawn_once', len(b.p.parts.added) == 1 and paragraph_part(b.p.parts.added[0], o._result) and not b.p.lines.added and not b.p.fills.added)
    else:
        for n in ('parts', 'lines', 'fills'):
            got = getattr(b.p, n).added
            vc.check('%s_drawn_once' % n, len(got) == 1 and isinstance(got[0], tuple) and got[0][1] is o._parts[n])
    placed(vc, b, old, o._height, style, rect['y'], instr.truth(o._height > 0))
    vc.check('answer', isinstance(r, dict))
    if o._end:
        vc.check('finished', not r.get('delayed') and not r.get('next') and not r.get('flow'))
        vc.cover('finished')
    else:
        d = r.get('delayed')
        vc.check('goes_on_in_the_next_column', r.get('next') is True and isinstance(d, dict) and d is not element)
        names = [l[0] for l in o._log]
        vc.check('kept_for_the_next_column', d.get(key) is o and d.get('style') == element_style)
        vc.check('state_is_saved', d.get('state') is getattr(o, '_state', None) is not None and names.index('get_state') > names.index('run'))
        vc.cover('not finished')

@contract('PDFContentPart.process_text', funcs=[P + '.process_text', P + '.update_dimensions'], props=['C14', 'C04', 'C15', 'C05'])
def process_text(vc): flow(vc, 'text', 'pdfme.text.PDFText', 'process_text', PAR)

@contract('PDFContentPart.process_table', funcs=[P + '.process_table', P + '.update_dimensions'], props=['C14', 'C13', 'C15'])
def process_table(vc): flow(vc, 'table', 'pdfme.table.PDFTable', 'process_table', ('widths', 'borders', 'fills'))

@contract('PDFContentPart.process_image', funcs=[P + '.process_image', P + '.update_dimensions'], props=['C14', 'C16'])
def process_image(vc):
    """an image is placed whole: as wide as the column if it fits below, or as small as the style lets it be; it is left for later otherwise"""
    made = []
    class Image:
        _vc_ghost = True
        def __init__(self, *a, **k):
            self.args = a, k
            self.width, self.height = vc.real('pixels_w'), vc.real('pixels_h')
            vc.assume(self.width > 0); vc.assume(self.height > 0)
            made.append(self)
    sig = inspect.signature(instr.lookup('pdfme.image.PDFImage')[2].__init__)
    instr.stub(M + 'PDFImage', Image)
    b = part(vc)
    style = margins(vc)
    least = None
    if vc.choose(2, 'min_height'):
        least = style['min_height'] = vc.real('min_height'); vc.assume(least > 0)
    place = (None, 'normal', 'flow')[vc.choose(3, 'image_place')]
    if place: style['image_place'] = place
    shrinks = False
    add_parts, top_margin, shrink = ((True, True, False), (True, False, False), (False, True, False), (True, False, True), (False, False, True))[vc.choose(5, 'flags')]
    if shrink: style['shrink'] = True
    element = {'image': Token('file')}
    if vc.choose(2, 'named'):
        for k in ('extension', 'image_name'): element[k] = Token(k)
    tries = None
    if vc.choose(2, 'tried'):
        tries = element['tries'] = vc.int('tries'); vc.assume(tries >= 0); vc.assume(tries < 50)
    before, sbefore = dict(element), dict(style)
    old = dict(b.__dict__)
    rect = rectangle(vc, b, style, top_margin)
    vc.assume(rect['width'] > 0)
    r = method('process_image')(b, element, style, add_parts, top_margin, shrink)
    vc.check('one_image', len(made) == 1)
    im = made[0]
    a = sig.bind(im, *im.args[0], **im.args[1]); a.apply_defaults()
    a = a.arguments
    vc.check('image_of_the_element', a['image'] is element['image'] and a['extension'] is element.get('extension') and a['image_name'] is element.get('image_name'))
    vc.check('style_kept', same_style(style, sbefore))
    vc.check('answer', isinstance(r, dict))
    space = rect['height']
    natural = rect['width'] * im.height / im.width
    if not r.get('delayed'):
        vc.check('goes_on', not r.get('next') and not r.get('flow'))
        vc.check('definition_kept', element == before)
        placed_ = rect['y'] - b.y
        vc.check('fits_in_the_column', placed_ <= space)
        if add_parts:
            vc.check('drawn_once', len(b.p.parts.added) == 1 and not b.p.lines.added and not b.p.fills.added)
            i = b.p.parts.added[0]
            vc.check('image', i.get('type') == 'image' and i.get('pdf_image') is im)
            vc.check('aspect', eq(i['height'] * im.width, i['width'] * im.height))
            vc.check('where', conj(eq(i['y'], b.y), eq(i['y'] + i['height'], rect['y'])))
            vc.check('centered', eq(2 * i['x'] + i['width'], 2 * rect['x'] + rect['width']))
            if least is None: vc.check('whole_width', eq(i['width'], rect['width']))
            elif shrink: vc.check('height', disj(eq(i['height'], natural), eq(i['height'], least)))
            else: vc.check('height', disj(eq(i['height'], natural), conj(eq(i['height'], space), least <= space)))
            if least is not None: vc.check('shrunk_only_if_needed', implies(conj(natural < space, True if not shrink else natural <= least), eq(i['height'], natural)))
        else: nothing_drawn(vc, b, 'only_measured')
        if least is not None: vc.check('not_smaller_than_asked', disj(placed_ >= least, eq(placed_, natural)))
        placed(vc, b, old, placed_, style, rect['y'], True)
        vc.cover('placed')
    else:
        vc.check('does_not_fit', conj(natural >= space, True if least is None else least > space) if not shrink or least is None else least > space)
        nothing_drawn(vc, b)
        vc.check('placed_later', r['delayed'] is element)
        vc.check('what_goes_before', (bool(r.get('next')), bool(r.get('flow'))) == ((True, False) if place == 'normal' else (False, True)))
        vc.check('definition_kept', all(element.get(k) is v for k, v in before.items() if k != 'tries') and eq(element['tries'], (tries or 0) + 1 if tries is None else tries + 1) and set(element) - {'tries'} == set(before) - {'tries'})
        placed(vc, b, old, 0, style, rect['y'], False)
        vc.cover('delayed')

# --------------------------------------------------------------------------- boxes in boxes

def saved_state(vc):
    child = {'index': vc.int('index of the child'), 'delayed': SList('pending of the child', vc.int('n'), lambda i: Token('pending'))}
    vc.assume(child['delayed'].n >= 0)
    return child

def memory(vc, name):
    """where the boxes inside go on: from the innermost one to the one of the element that goes on"""
    n = vc.int(name + ' depth'); vc.assume(n >= 0)
    inner = SList(name, n, lambda i: Token('inner state'))
    return inner, saved_state(vc)

class Memory:
    """a list [inner..., state of the child]"""
    _vc_ghost = True
    def __init__(self, vc, name): self.child, self.inner = saved_state(vc), Token('inner of ' + name)
    def _vc_len(self):
        n = ctx().int('depth'); ctx().assume(n >= 1); return n
    def __getitem__(self, i):
        if isinstance(i, slice):
            if (i.start, i.stop, i.step) != (None, -1, None): ctx().abort(Unsupported('slice'))
            return self.inner
        if i != -1: ctx().abort(Unsupported('subscript'))
        return self.child
    def __bool__(self): return True
    def pop(self, *a): ctx().abort(Unsupported('the memory is changed'))

@contract('PDFContentPart.process_child', funcs=[P + '.process_child', P + '.update_dimensions'], props=['C14', 'C15'])
def process_child(vc):
    made = []
    cls = instr.lookup(P)[2]
    sig = inspect.signature(cls.__init__)
    class Child:
        """a box by its contract"""
        _vc_ghost = True
        def __init__(self, *a, **k):
            bound = sig.bind(self, *a, **k); bound.apply_defaults()
            self._args = {n: v for n, v in bound.arguments.items() if n != 'self'}
            self._parent = dict(b.__dict__)
            self.section_element_index, self.element_index = 0, 0
            self.section_delayed, self.delayed, self.children_memory, self.partial_children_memory = [], [], [], None
            made.append(self)
        def run(self):
            self._before = dict(self.__dict__)
            self._runs = getattr(self, '_runs', 0) + 1
            self._parent_run = dict(b.__dict__)
            self.min_y, self.max_y, self.y = vc.real('child min_y'), vc.real('child max_y'), vc.real('child y')
            self.cols_n = vc.int('child columns'); vc.assume(self.cols_n >= 1)
            self._action = ('continue', 'interrupt', 'break', 'partial_next')[vc.choose(4, 'action')]
            # what the box inside asks of this one (next_section)
            if c == 0 and vc.choose(2, 'next section') == 1:
                b.y, b.starting = vc.real('new y'), True
            self._y, self._starting, self._bottom = b.y, b.starting, b.last_bottom
            return self._action
    f = method('process_child')
    instr.stub(P, Child)
    b = part(vc, cls)
    style = margins(vc)
    style['b'] = Token('bold')
    sbefore = dict(style)
    goes_on = partial = None
    c = vc.choose(4, 'memory')
    if c % 2: b.children_memory = goes_on = Memory(vc, 'memory')
    else: b.children_memory = []
    if c > 1: b.partial_children_memory = partial = Memory(vc, 'partial')
    top_margin = not 'margin_top' in style or c or vc.choose(2, 'add_top_margin') == 0
    element = {'content': Token('content')}
    last = Token('last')
    old = dict(b.__dict__)
    rect = rectangle(vc, b, style, top_margin)
    first = instr.truth(b.element_index == b.section_element_index)
    r = f(b, element, style, last, top_margin)
    vc.check('one_box', len(made) == 1 and made[0]._runs == 1)
    c = made[0]
    a = c._args
    vc.check('of_the_element', a['content'] is element and element.keys() == {'content'})
    vc.check('of_this_box', a['parent'] is b and a['pdf_content'] is b.p and a['last'] is last)
    args_are(vc, 'rectangle', a, dict(min_x=left(b), width=b.col_width, min_y=rect['y'], max_y=old['max_y']))
    vc.check('style_of_the_elements', same_style(a['inherited_style'], sbefore) and a['inherited_style'] is not style and same_style(style, sbefore))
    s = c._before
    # the newest memory
    m = partial if partial is not None else goes_on if goes_on is not None and first else None
    if m is not None:
        ch = m.child
        vc.check('goes_on_where_it_was', eq(s['section_element_index'], ch['index']) and eq(s['element_index'], ch['index']))
        for n in ('section_delayed', 'delayed'):
            l = s[n]
            vc.check('goes_on_with_what_was_pending', l is not ch['delayed'] and copy_is(vc, l, ch['delayed']))
        vc.check('not_the_same_lists', s['section_delayed'] is not s['delayed'])
        vc.check('boxes_inside_go_on_too', s['children_memory'] is m.inner)
        vc.cover('goes on')
    else:
        vc.check('from_the_beginning', s['section_element_index'] == 0 and s['element_index'] == 0 and s['section_delayed'] == [] and s['delayed'] == [] and s['children_memory'] == [])
    if partial is not None: vc.check('partial_memory_is_used_once', c._parent_run['partial_children_memory'] is None and b.partial_children_memory is None)
    # a section of a box inside may have been finished in another column
    if c._action == 'partial_next':
        vc.check('where_the_next_column_begins', eq(b.y, c._y) and b.starting is c._starting and eq(b.last_bottom, c._bottom))
    else:
        h = c.min_y - (c.max_y if instr.truth(c.cols_n > 1) else c.y)
        if instr.truth(h > 0):
            vc.check('goes_on_below', eq(b.y, c._y - h))
            vc.check('bottom_margin', eq(b.last_bottom, style.get('margin_bottom', 0)))
            vc.check('no_longer_at_the_top', instr.truth(b.starting) is False)
        else: vc.check('nothing_placed', conj(eq(b.y, old['y']), eq(b.last_bottom, c._bottom)))
    if c._action == 'continue':
        vc.check('finished', isinstance(r, dict) and not r.get('delayed') and not r.get('next') and not r.get('flow'))
        vc.check('no_longer_at_the_top_', instr.truth(b.starting) is False)
        vc.cover('finished')
    else: vc.check('not_finished', r == c._action)
    kept(vc, b, old, SCRATCH + ('y', 'starting', 'last_bottom', 'partial_children_memory'))

def copy_is(vc, l, src):
    """l is a list with what src has"""
    if not isinstance(l, SList): return False
    i = vc.int('any'); vc.assume(i >= 0); vc.assume(i < src.n)
    return conj(eq(l.n, src.n), l.at(i) is src.at(i))

# --------------------------------------------------------------------------- columns and sections

@contract('PDFContentPart.setup', funcs=[P + '.setup', P + '.go_to_beginning', P + '.save_output_indexes', P + '.__init__', P + '.get_state', P + '.set_state'], props=['C14', 'C15'])
def setup_part(vc):
    """all the columns have the same width, and with the gaps between them they are as wide as the box"""
    log = []
    own = {}
    seen = []
    instr.stub(M + 'process_style', lambda s, pdf=None: (seen.append((s, pdf)), own)[1])
    cls = instr.lookup(P)[2]
    setup = method('setup')
    p = raw(C, parts=SList('parts', vc.int('parts'), lambda i: Token('part')), lines=SList('lines', vc.int('lines'), lambda i: Token('line')),
        fills=SList('fills', vc.int('fills'), lambda i: Token('fill')), fonts=Token('fonts'), pdf=Token('pdf'))
    info = {}
    if vc.choose(2, 'count'): info['count'] = vc.int('count'); vc.assume(info['count'] >= 1)
    if vc.choose(2, 'gap'): info['gap'] = vc.real('gap')
    x, y, w, top = vc.real('min_x'), vc.real('min_y'), vc.real('width'), vc.real('max_y')
    content = {}
    elements = None
    if vc.choose(2, 'elements'): elements = content['content'] = Token('elements')
    if info or vc.choose(2, 'cols'): content['cols'] = info
    inherited = (None, {}, {'margin_bottom': Token('inherited margin'), 'b': Token('inherited'), 'i': Token('inherited i')})[vc.choose(3, 'inherited')]
    if vc.choose(2, 'style'):
        content['style'] = Token('style'); own['b'] = Token('own')
        if vc.choose(2, 'own margin'): own['margin_bottom'] = Token('own margin')
    parent = None
    if vc.choose(2, 'parent'): parent = raw(P)
    given = dict(content)
    ini = None if inherited is None else dict(inherited)
    b = cls(content, p, x, w, y, top, parent, True, inherited)
    vc.check('what_it_is_part_of', b.p is p and b.parent is parent and b.last is True and b.is_root is (parent is None))
    want = {'margin_bottom': 5}
    want.update(ini or {}); want.update(own)
    vc.check('style', set(b.style) == set(want) and all(b.style[k] is v or b.style[k] == v for k, v in want.items()) and b.style is not inherited and b.style is not own)
    vc.check('own_style', seen == [(content.get('style'), p.pdf)])
    vc.check('elements', b.elements is elements if elements is not None else b.elements == [])
    vc.check('definition_kept', content == given and inherited == ini)
    vc.check('from_the_beginning', b.section_element_index == 0 and b.section_delayed == [] and b.children_memory == [] and b.partial_children_memory is None)
    checked(vc, b, x, y, w, top, info)
    vc.check('first_element', b.element_index == 0 and b.delayed == [] and b.delayed is not b.section_delayed)
    # in the next page, it goes on where it was
    inner = Token('pending')
    pend = {'delayed': [inner]}
    index = vc.int('section_element_index')
    sd, cm = [pend], [{'index': 1, 'delayed': [inner]}]
    cls.set_state(b, index, sd, cm)
    # (what is pending is never changed in place: another list with the same dicts is as good)
    deep = lambda l, m: l == m and l is not m
    vc.check('state_is_set', eq(b.section_element_index, index) and deep(b.section_delayed, sd) and deep(b.children_memory, cm) and b.partial_children_memory is None)
    st = cls.get_state(b)
    vc.check('state', set(st) == {'section_element_index', 'section_delayed', 'children_memory'} and eq(st['section_element_index'], index))
    vc.check('state_does_not_change_with_the_box', deep(st['section_delayed'], b.section_delayed) and deep(st['children_memory'], b.children_memory))
    x, y, w, top = vc.real('min_x'), vc.real('min_y'), vc.real('width'), vc.real('max_y')
    keep = {n: b.__dict__[n] for n in ('p', 'parent', 'last', 'style', 'elements', 'section_element_index', 'section_delayed', 'children_memory')}
    setup(b, x, w, y, top)
    checked(vc, b, x, y, w, top, info)
    vc.check('goes_on_where_it_was', eq(b.element_index, index) and deep(b.delayed, sd) and b.delayed is not b.section_delayed)
    kept(vc, b, keep)

def checked(vc, b, x, y, w, top, info):
    n = info.get('count', 1)
    vc.check('rectangle', conj(eq(b.min_x, x), eq(b.min_y, y), eq(b.max_y, top)))
    vc.check('columns', eq(b.cols_n, n))
    gap = info.get('gap')
    if gap is None: vc.check('default_gap', conj(b.cols_gap >= 7, b.cols_gap >= w / 25, disj(eq(b.cols_gap, 7), eq(b.cols_gap, w / 25))))
    else: vc.check('gap', eq(b.cols_gap, gap))
    vc.check('columns_and_gaps_are_the_width', eq(n * b.col_width + (n - 1) * b.cols_gap, w))
    vc.check('at_the_top_of_the_first_column', conj(eq(b.x, x), eq(b.y, y), eq(b.column, 0), eq(b.last_bottom, 0)) and b.starting is True)
    vc.check('height', eq(b.max_height, y - top))
    vc.check('not_balancing', b.will_reset is False and b.resetting is False and b.minim_diff is None and b.minim_diff_last is None and not b.minim_forward)
    for k in ('parts', 'lines', 'fills'):
        vc.check('drawn_before', eq(getattr(b, k + '_index'), getattr(b.p, k).n))

@contract('PDFContentPart.next_section', funcs=[P + '.next_section', P + '.get_min_x', P + '.go_to_beginning', P + '.save_output_indexes'], props=['C14', 'C15'], time=120)
def next_section(vc):
    """the next column of the box, or its first column in the next section of the box it is in"""
    log = []
    new = {'min_x': vc.real('new min_x'), 'min_y': vc.real('new min_y')}
    cls = instr.lookup(P)[2]
    f = method('next_section')
    class Parent:
        _vc_ghost = True
        def next_section(self, children_memory):
            vc.check('with_its_memory', children_memory is not None)
            self.memory = children_memory
            self.calls = getattr(self, 'calls', 0) + 1
            self.answer = ('dict', 'interrupt', 'break', 'partial_next')[vc.choose(4, 'answer of the parent')]
            return dict(new) if self.answer == 'dict' else self.answer
    b = part(vc, cls)
    n = [vc.int(k) for k in ('parts', 'lines', 'fills')]
    for k, c in zip(('parts', 'lines', 'fills'), n): setattr(b.p, k, SList(k, c, lambda i: Token('drawn')))
    inner = Token('pending')
    has_delayed = vc.choose(2, 'delayed') == 1
    b.delayed = [{'delayed': [inner]}] if has_delayed else []
    index = b.element_index
    given = partial = None
    if vc.choose(2, 'from inside'): given = [{'index': vc.int('inside'), 'delayed': [{'x': inner}]}]
    if vc.choose(2, 'partial memory'): partial = b.partial_children_memory = [{'index': vc.int('partial'), 'delayed': []}]
    if vc.choose(2, 'parent'): b.parent, b.is_root = Parent(), False
    old = dict(b.__dict__)
    was = dict(b.delayed[0]) if b.delayed else None
    r = f(b) if given is None else f(b, given)
    deep = lambda l, m: isinstance(l, list) and len(l) == len(m) and l is not m and all(set(x) == set(y) and all(same_value(x[k], y[k]) or x[k] == y[k] for k in y) for x, y in zip(l, m))
    if not instr.truth(eq(old['column'], b.cols_n - 1)):
        vc.check('next_column', eq(b.column, old['column'] + 1))
        vc.check('top_of_the_column', eq(b.y, old['min_y']) and b.starting is True)
        ch = ['column', 'y', 'starting']
        if given is None: vc.check('goes_on', r == 'retry')
        elif has_delayed:
            # what is pending of this box goes before what is inside
            vc.check('pending_first', r == 'partial_next')
            vc.check('memory_of_the_box_inside', deep(b.partial_children_memory, given))
            ch.append('partial_children_memory')
        else: vc.check('box_inside_goes_on_there', isinstance(r, dict) and eq(r['min_x'], left(b)) and eq(r['min_y'], b.min_y))
        kept(vc, b, old, ch)
        vc.cover('next column')
        return
    if instr.truth(b.resetting):
        vc.check('does_not_fit', r == 'break' and b.minim_forward is True)
        kept(vc, b, old, ('minim_forward',))
        vc.cover('balancing')
        return
    src = given if given is not None else partial or []
    vc.check('goes_on_with_this_element', eq(b.section_element_index, index))
    vc.check('goes_on_with_what_is_pending', deep(b.section_delayed, old['delayed']))
    vc.check('boxes_inside_go_on_too', deep(b.children_memory, src))
    changes = ['section_element_index', 'section_delayed', 'children_memory']
    if b.parent is None:
        vc.check('next_page', r == 'interrupt')
        kept(vc, b, old, changes)
        vc.cover('next page')
        return
    m = b.parent.memory
    vc.check('memory_for_the_parent', b.parent.calls == 1 and len(m) == len(src) + 1 and deep(m[:-1], src) and m is not b.children_memory and eq(m[-1]['index'], index) and deep(m[-1]['delayed'], old['delayed']) and m[-1]['delayed'] is not b.section_delayed)
    if b.parent.answer != 'dict':
        vc.check('answer_of_the_parent', r == b.parent.answer)
        kept(vc, b, old, changes)
        return
    vc.check('new_section', conj(eq(b.min_x, new['min_x']), eq(b.min_y, new['min_y'])))
    vc.check('first_column', conj(eq(b.column, 0), eq(b.y, b.min_y), eq(b.x, b.min_x)) and b.starting is True)
    for k, c in zip(('parts', 'lines', 'fills'), n): vc.check('drawn_before', eq(getattr(b, k + '_index'), c))
    if given is None: vc.check('goes_on', r == 'retry')
    else: vc.check('box_inside_goes_on_there', isinstance(r, dict) and eq(r['min_x'], left(b)) and eq(r['min_y'], b.min_y))
    kept(vc, b, old, changes + ['min_x', 'min_y', 'x', 'y', 'column', 'starting', 'parts_index', 'lines_index', 'fills_index'])
    vc.cover('new section')

@contract('PDFContentPart.reset', funcs=[P + '.reset', P + '.go_to_beginning'], props=['C14'])
def reset(vc):
    """the box is laid out again from its beginning with another height, between nothing and the height it has"""
    b = part(vc)
    drawn = {k: SList(k, vc.int(k), lambda i: Token('drawn')) for k in ('parts', 'lines', 'fills')}
    for k, l in drawn.items():
        setattr(b.p, k, l)
        i = getattr(b, k + '_index')
        vc.assume(i >= 0); vc.assume(i <= l.n)
    bottom = vc.real('bottom of the box')
    vc.assume(b.min_y > bottom)
    c = vc.choose(3, 'attempt')
    b.partial_children_memory = Token('partial memory')
    b.section_delayed = [{'delayed': [Token('pending')]}]
    forward = b.minim_forward = vc.choose(2, 'forward') == 1
    if c == 0: vc.assume(eq(b.max_y, bottom))
    else:
        d = b.minim_diff = vc.real('minim_diff')
        vc.assume(d > 0); vc.assume(b.max_y >= bottom + d)
        vc.assume(b.max_y + d <= b.min_y)
        if c == 2:
            b.minim_diff_last = vc.real('minim_diff_last')
            vc.assume(disj(eq(b.minim_diff_last, 2 * d), eq(b.minim_diff_last, d / 2)))
            vc.assume(b.minim_diff_last > 0)
    old = dict(b.__dict__)
    r = method('reset')(b)
    if not instr.truth(r):
        vc.check('last_attempt_fits', not forward)
        vc.check('precise', c == 2 and old['minim_diff_last'] - old['minim_diff'] < 1)
        for k, l in drawn.items(): vc.check('drawing_kept', getattr(b.p, k) is l)
        kept(vc, b, old, name='drawing_kept')
        vc.cover('end')
        return
    for k, l in drawn.items():
        i = getattr(b, k + '_index')
        new = getattr(b.p, k)
        if not isinstance(new, SList): vc.abort(Unsupported('what is drawn'))
        j = vc.int('any'); vc.assume(j >= 0); vc.assume(j < i)
        vc.check('what_was_drawn_before_%s' % k, conj(eq(new.n, i), new.at(j) is l.at(j)) and not new.tail)
    vc.check('at_the_top_of_the_first_column', conj(eq(b.y, b.min_y), eq(b.x, b.min_x), eq(b.column, 0)) and b.starting is True)
    vc.check('balancing', b.resetting is True and b.will_reset is False and b.partial_children_memory is None)
    vc.check('from_its_first_element', eq(b.element_index, b.section_element_index) and b.delayed == b.section_delayed and b.delayed is not b.section_delayed)
    vc.check('height', conj(b.max_y < b.min_y, b.max_y >= bottom))
    if c: vc.check('direction', b.max_y < old['max_y'] if forward else b.max_y > old['max_y'])
    vc.check('step', b.minim_diff > 0)
    if c == 0: vc.check('half', eq(b.max_y + b.max_y, b.min_y + bottom))
    kept(vc, b, old, ('y', 'x', 'column', 'starting', 'resetting', 'will_reset', 'partial_children_memory', 'element_index', 'delayed', 'max_y', 'minim_diff', 'minim_diff_last'))
    vc.cover('again')

# --------------------------------------------------------------------------- elements

def element_of(vc):
    """an element of each kind, and the method for it"""
    c = vc.choose(9, 'element')
    t = Token('definition')
    return (({'.': t}, 'text'), ({'style': Token('style'), '.b;u': t}, 'text'), ({'paragraph': t, 'state': {}}, 'text'), ({'image': t}, 'image'), ({'table': t}, 'table'),
        ({'table_delayed': t, 'state': {}}, 'table'), ({'content': t}, 'child'), ({'group': t}, 'group'), ({'content': t, 'style': {}}, 'child'))[c]

@contract('PDFContentPart.process', funcs=[P + '.process', P + '.parse_element'], props=['C14', 'C04', 'C13', 'C16'])
def process_element(vc):
    log = []
    answer = Token('answer')
    st, es = {'b': Token('style')}, {'i': Token('own')}
    record(P + '.get_element_styles', log, lambda s, a: (st, es))
    for k in ('text', 'image', 'table', 'child', 'group'): record(P + '.process_' + k, log, lambda s, a: answer)
    b = part(vc)
    c = vc.choose(5, 'form')
    if c == 0: element, kind = element_of(vc)
    else:
        element = (None, SStr('text'), [SStr('text')], (SStr('text'),), vc.real('number'))[c]
        kind = 'text'
        if c == 4: element = SStr('text of a number')
    last = Token('last')
    old = dict(b.__dict__)
    def unwrapped(e): return e is element if c == 0 else isinstance(e, dict) and set(e) == {'.'} and (e['.'] is element or c == 1 and str_eq(e['.'], element))
    before = dict(element) if c == 0 else None
    r = method('process')(b, element, last)
    vc.check('once', [n for n, a in log] == ['get_element_styles', 'process_' + kind])
    s, a = log[0][1], log[1][1]
    vc.check('style_of_the_element', unwrapped(s['element']) and s['inherited_style'] is b.style)
    e = a.get('group_element', a.get('element'))
    vc.check('the_element', unwrapped(e) and (before is None or element == before))
    vc.check('its_style', a['style'] is st and a.get('element_style', es) is es)
    if kind == 'child': vc.check('last', a['last'] is last)
    for k in ('add_parts', 'add_top_margin'):
        if k in a: vc.check('drawn_below_the_one_before', a[k] is True)
    if 'shrink_image' in a: vc.check('as_big_as_it_can', not a['shrink_image'])
    vc.check('answer', r is answer)
    kept(vc, b, old)

@contract('PDFContentPart.get_element_styles', funcs=[P + '.get_element_styles'], props=['C19', 'C14', 'C06'])
def get_element_styles(vc):
    seen = []
    parsed, own = {'b': Token('parsed b'), 'u': Token('parsed u')}, {'b': Token('own b'), 's': Token('own s')}
    instr.stub(M + 'parse_style_str', lambda s, fonts: (seen.append((s, fonts)), parsed)[1])
    instr.stub(M + 'process_style', lambda s, pdf=None: (seen.append((s, pdf)), own)[1])
    b = part(vc)
    element, kind = element_of(vc)
    inherited = {'b': Token('inherited b'), 'i': Token('inherited i'), 'u': Token('inherited u')}
    old = dict(b.__dict__); before = dict(element), dict(inherited), dict(parsed), dict(own)
    r = method('get_element_styles')(b, element, inherited)
    vc.check('two_styles', isinstance(r, tuple) and len(r) == 2)
    want = dict(inherited)
    text = [k for k in element if k.startswith('.')]
    calls = []
    if text:
        want.update(parsed)
        calls.append((text[0][1:], b.p.fonts))
    want.update(own)
    calls.append((element.get('style'), b.p.pdf))
    vc.check('parsed', seen == calls)
    vc.check('the_own_style_wins', same_style(r[0], want) and r[0] is not inherited)
    vc.check('own_style', same_style(r[1], own))
    vc.check('nothing_is_changed', (element, inherited, parsed, own) == before)
    kept(vc, b, old)

STOPS = ('interrupt', 'break', 'partial_next')

def answers(vc, stops=STOPS):
    """what a method that places an element may answer: finished, finished later in the next column, later when it fits, or a stop"""
    c = vc.choose(6 if stops else 3, 'answer')
    if c == 0: return {'delayed': None, 'next': False}
    if c == 1: return {'delayed': {'rest': [Token('rest')]}, 'next': True}
    if c == 2: return {'delayed': {'whole': [Token('whole')]}, 'next': False, 'flow': True}
    return stops[c - 3]

class Elements:
    """the elements before element_index were processed once, in order"""
    def __init__(self, b, log): self.b, self.log = b, log
    def check(self, st, k, env, mode):
        vc, b = st.ctx, self.b
        if mode == 'establish':
            vc.check('from_the_current_element', eq(b.element_index, b.index_now))
            return
        one_element(vc, b, self.log, self.index, True)
    def variant(self, env): return self.b.elements.n - self.b.element_index
    def havoc(self, st, k):
        vc, b = st.ctx, self.b
        self.log.clear(); st.touch(self.log)
        self.index = vc.int('index'); vc.assume(self.index >= b.index_now)
        vc.assume(disj(self.index <= b.elements.n, eq(self.index, b.index_now)))
        st.set(b, 'element_index', self.index)
        b.delayed = Out()
        st.set(b, 'delayed', b.delayed); st.touch(b.delayed.added)
        return {}

def one_element(vc, b, log, index, goes_on):
    vc.check('processed_once', len(log) == 1)
    a = log[0][1]
    vc.check('in_order', conj(index >= 0, index < b.elements.n) if False else (a['element'] is b.elements.at(index)))
    vc.check('whether_it_is_the_last', same_bool(a['last'], eq(index, b.elements.n - 1)))
    ans = a['answer']
    if goes_on:
        vc.check('goes_on_when_it_is_over', isinstance(ans, dict) and not ans.get('next'))
        vc.check('next_element', eq(b.element_index, index + 1))
    d = ans.get('delayed') if isinstance(ans, dict) else None
    vc.check('pending', b.delayed.added == ([d] if d else []))

def same_bool(a, b):
    t = lambda x: x.e if isinstance(x, SBool) else z3.BoolVal(bool(x))
    return SBool(t(a) == t(b))

@contract('PDFContentPart.add_elements', funcs=[P + '.add_elements'], props=['C14', 'C04', 'C13'])
def add_elements(vc):
    log = []
    def processed(s, a):
        a['answer'] = answers(vc)
        return a['answer']
    record(P + '.process', log, processed)
    b = part(vc, delayed=Out())
    n = vc.int('elements'); vc.assume(n >= 0)
    b.elements = SList('elements', n, lambda i: Token('element'))
    vc.assume(b.element_index >= 0)
    b.index_now = b.element_index
    spec = vc.stubs['while:' + P + '.add_elements'] = Elements(b, log)
    old = dict(b.__dict__)
    r = method('add_elements')(b)
    if r == 'continue':
        vc.check('all_the_elements', disj(eq(b.element_index, n), conj(eq(b.element_index, b.index_now), b.index_now > n)))
        vc.check('no_more_elements', not log)
        vc.cover('end')
    else:
        vc.assume(spec.index < n)
        one_element(vc, b, log, spec.index, False)
        ans = log[0][1]['answer']
        if r == 'next':
            vc.check('goes_on_in_the_next_column', isinstance(ans, dict) and ans.get('next') is True)
            vc.check('next_element', eq(b.element_index, spec.index + 1))
            vc.cover('next column')
        else:
            vc.check('stopped', r == ans)
            vc.check('goes_on_with_this_element', eq(b.element_index, spec.index))
            vc.cover('stopped')
    kept(vc, b, old, ('element_index', 'delayed'))

class Pending:
    """the list of the elements that are pending: the first n ones did not fit yet, and the others are to be tried"""
    _vc_ghost = True
    def __init__(self, n): self.n, self.ops, self.copies = n, [], []
    def _vc_len(self): return self.n
    def __bool__(self): return bool(self.n > 0)
    def __getitem__(self, i):
        for o in reversed(self.ops):
            if o[0] == 'pop' or not same_key(o[1], i): ctx().abort(Unsupported('pending'))
            return o[2]
        e = Token('pending'); e.at = i
        return e
    def __setitem__(self, i, v): self.ops.append(('set', i, v))
    def pop(self, i=None):
        if i is None: i = self.n - 1
        self.ops.append(('pop', i)); self.n = self.n - 1
    def __delitem__(self, i): self.pop(i)

class Delayed:
    """the pending elements before n were tried once, in order, and did not fit"""
    def __init__(self, b, log): self.b, self.log = b, log
    def check(self, st, k, env, mode):
        vc, b = st.ctx, self.b
        if mode == 'establish':
            ns = [m for m, v in env._d.items() if type(v) is int or isinstance(v, SNum)]
            if len(ns) != 1: vc.abort(Unsupported('locals'))
            self.local = ns[0]
            vc.check('from_the_first_one', eq(env[self.local], 0))
            return
        ans = one_pending(vc, b, self.log, self.n, self.count)
        vc.check('goes_on', isinstance(ans, dict) and not ans.get('next'))
        vc.check('next_one', eq(env[self.local], self.n + (1 if ans.get('delayed') else 0)))
    def variant(self, env): return self.b.delayed.n - env[self.local]
    def havoc(self, st, k):
        vc, b = st.ctx, self.b
        self.log.clear(); st.touch(self.log)
        self.n, self.count = vc.int('n'), vc.int('pending')
        vc.assume(self.n >= 0); vc.assume(self.n <= self.count)
        st.set(b, 'delayed', Pending(self.count))
        st.touch(b.delayed); st.touch(b.delayed.ops)
        return {self.local: self.n}

def one_pending(vc, b, log, n, count):
    calls = [a for m, a in log if m == 'process']
    vc.check('processed_once', len(calls) == 1)
    a = calls[0]
    vc.check('in_order', isinstance(a['element'], Token) and same_key(getattr(a['element'], 'copied').at, n))
    vc.check('not_the_last_one', not a['last'])
    ans = a['answer']
    ops = b.delayed.ops
    if not isinstance(ans, dict): vc.check('kept', not ops)
    elif ans.get('delayed'): vc.check('rest_of_it_is_kept', len(ops) == 1 and ops[0][0] == 'set' and same_key(ops[0][1], n) and ops[0][2] == ans['delayed'] and ops[0][2]['x'] is not ans['delayed']['x'])
    else: vc.check('not_pending', len(ops) == 1 and ops[0][0] == 'pop' and same_key(ops[0][1], n))
    return ans

@contract('PDFContentPart.add_delayed', funcs=[P + '.add_delayed'], props=['C14', 'C04', 'C13'])
def add_delayed(vc):
    log = []
    def processed(s, a):
        c = answers(vc)
        if isinstance(c, dict) and c.get('delayed'): c['delayed'] = {'x': [Token('rest')]}
        a['answer'] = c
        return c
    record(P + '.process', log, processed)
    real = instr.lookup('pdfme.utils.copy')[2]
    def cp(o):
        if isinstance(o, Token) and hasattr(o, 'at'):
            t = Token('copy'); t.copied = o
            return t
        return real(o)
    instr.stub(M + 'copy', cp)
    b = part(vc)
    n = vc.int('elements'); vc.assume(n >= 0)
    b.elements = SList('elements', n, lambda i: Token('element'))
    count = vc.int('pending at first'); vc.assume(count >= 0)
    b.delayed = Pending(count)
    spec = vc.stubs['while:' + P + '.add_delayed'] = Delayed(b, log)
    old = dict(b.__dict__)
    r = method('add_delayed')(b)
    calls = [a for m, a in log if m == 'process']
    if not calls:
        vc.check('all_of_them', b.delayed.n == spec.n)
        wait = conj(b.delayed.n > 0, b.element_index >= n)
        vc.check('answer', r in ('next', 'continue') and same_bool(r == 'next', wait))
        vc.cover(r)
    else:
        ans = one_pending(vc, b, log, spec.n, spec.count)
        if isinstance(ans, dict): vc.check('goes_on_in_the_next_column', r == 'next' and ans.get('next') is True)
        else: vc.check('stopped', r == ans)
        vc.cover('stopped')
    kept(vc, b, old, ('delayed',))

# --------------------------------------------------------------------------- the whole box

@contract('PDFContentPart.run', funcs=[P + '.run', P + '.process_add_ans', P + '.is_element_resetting'], props=['C14', 'C04', 'C13'], time=150)
def run_part(vc):
    """a box is over when all its elements and the pending ones were placed; with columns, when they were placed in the last
    attempt to balance them; otherwise what stopped it is passed on"""
    log = []
    def delays(s, a):
        s.delayed = Pending(vc.int('pending')); vc.assume(s.delayed.n >= 0)
        s.partial_children_memory = None if vc.choose(2, 'partial') else Token('partial memory')
    def add(what):
        def f(s, a):
            delays(s, a)
            a['answer'] = ('continue', 'next', 'interrupt', 'break', 'partial_next')[vc.choose(5, what)]
            # a box inside stops because it does not fit in this attempt, or to balance the columns of this box
            if a['answer'] == 'break':
                if s.resetting: s.minim_forward = True
                else: s.will_reset = vc.choose(2, 'will reset') == 1
            return a['answer']
        return f
    record(P + '.add_delayed', log, add('delayed'))
    record(P + '.add_elements', log, add('elements'))
    def section(s, a):
        a['answer'] = ('retry', 'interrupt', 'break', 'partial_next')[vc.choose(4, 'section')]
        if a['answer'] == 'break' and s.resetting: s.minim_forward = True
        if a['answer'] == 'partial_next': s.partial_children_memory = None if vc.choose(2, 'memory') else Token('partial memory')
        return a['answer']
    record(P + '.next_section', log, section)
    def reset_(s, a):
        # the contract of reset: it only ends after an attempt where all of it fits
        a['answer'] = True if s.will_reset and not s.resetting or s.minim_forward else vc.choose(2, 'another attempt') == 1
        if s.resetting:
            fits = log[-2][0] == 'add_elements' and log[-2][1]['answer'] == 'continue'
            vc.check('higher_only_if_it_does_not_fit', bool(s.minim_forward) is not fits)
        if a['answer']:
            s.will_reset, s.resetting = False, True
            s.partial_children_memory = None
            s.delayed = Pending(vc.int('pending')); vc.assume(s.delayed.n >= 0)
        return a['answer']
    record(P + '.reset', log, reset_)
    def start(s, a):
        if vc.choose(2, 'of the parent') == 0: s.will_reset = True
    record(P + '.start_resetting', log, start)
    record(P + '.last_child_of_resetting', log, lambda s, a: a.setdefault('answer', vc.choose(2, 'last child') == 1))
    b = part(vc)
    b.delayed = Pending(vc.int('pending')); vc.assume(b.delayed.n >= 0)
    b.will_reset = b.resetting = False
    class Loop:
        def check(self, st, k, env, mode):
            if mode == 'preserve': again(vc, b, log)
        def havoc(self, st, k):
            log.clear(); st.touch(log)
            st.set(b, 'delayed', Pending(vc.int('pending'))); vc.assume(b.delayed.n >= 0)
            st.set(b, 'partial_children_memory', None if vc.choose(2, 'partial') else Token('partial memory'))
            st.set(b, 'will_reset', False)
            st.set(b, 'resetting', vc.choose(2, 'resetting') == 1)
            st.set(b, 'minim_forward', vc.choose(2, 'forward') == 1)
            return {}
    vc.stubs['while:' + P + '.run'] = Loop()
    old = dict(b.__dict__)
    r = method('run')(b)
    names = [n for n, a in log]
    adds = [(n, a['answer']) for n, a in log if n in ('add_delayed', 'add_elements')]
    vc.check('pending_first', names[:1] == ['add_delayed'] and names.count('add_delayed') == 1 and names.count('add_elements') <= 1)
    last = adds[-1]
    if r == 'continue':
        vc.check('after_the_last_element', last == ('add_elements', 'continue') and adds[0][1] == 'continue')
        vc.check('nothing_is_pending', eq(b.delayed.n, 0))
        rest = [n for n in names if n not in ('add_delayed', 'add_elements')]
        if instr.truth(b.cols_n > 1):
            if b.resetting: vc.check('balanced', rest == ['reset'] and b.minim_forward is False)
            else: vc.check('balanced_with_the_box_it_is_in', rest == ['last_child_of_resetting'] and log[-1][1]['answer'] is True)
            vc.cover('balanced')
        elif b.resetting: vc.check('balanced', rest == ['reset'])
        else:
            vc.check('not_balanced', not rest)
            vc.cover('end')
    else:
        vc.check('stopped', r in STOPS)
        over = last == ('add_elements', 'continue')
        if over:
            # the columns of the box it is in will be balanced
            vc.check('balanced_with_the_box_it_is_in', r == 'break' and names[-1] == 'start_resetting' and not b.will_reset and not b.resetting and b.cols_n > 1)
            vc.cover('balanced outside')
        elif last[1] == 'next': vc.check('answer_of_the_section', names[-1] == 'next_section' and r == log[-1][1]['answer'])
        else: vc.check('answer_of_the_element', r == last[1] and names[-1] == last[0])
        if r == 'break' and not over: vc.check('the_box_is_not_balancing', not b.will_reset and not b.resetting)
        if r == 'partial_next' and last[1] == 'partial_next': vc.check('not_for_this_box', b.partial_children_memory is None)
        vc.cover('stopped')
    kept(vc, b, old, ('delayed', 'partial_children_memory', 'will_reset', 'resetting', 'minim_forward'))

def again(vc, b, log):
    """why the box is laid out further: what is pending can be placed in another column, or the columns are balanced"""
    names = [n for n, a in log]
    adds = [(n, a['answer']) for n, a in log if n in ('add_delayed', 'add_elements')]
    last = adds[-1]
    if last == ('add_elements', 'continue'):
        vc.check('something_is_left', b.delayed.n > 0 if names[-1] == 'add_elements' else names[-1] == 'reset' and log[-1][1]['answer'] is True)
    elif last[1] == 'next': vc.check('next_column', names[-1] == 'next_section' and log[-1][1]['answer'] == 'retry' or names[-1] == 'reset' and log[-1][1]['answer'] is True)
    elif last[1] == 'partial_next': vc.check('box_inside_goes_on', b.partial_children_memory is not None)
    elif last[1] == 'break': vc.check('another_attempt', names[-1] == 'reset' and log[-1][1]['answer'] is True)
    else: vc.check('not_stopped', False, detail=str(last))

@contract('PDFContentPart.start_resetting', funcs=[P + '.start_resetting', P + '.last_child_of_resetting'], props=['C14'])
def start_resetting(vc):
    """the columns of the outermost box that ends here are balanced, and not those of the boxes inside it"""
    calls = []
    class Parent:
        _vc_ghost = True
        def __init__(self):
            self.cols_n, self.resetting, self.will_reset = vc.int('columns of the parent'), vc.choose(2, 'resetting') == 1, False
            self.delayed = SList('pending of the parent', vc.int('n'), lambda i: Token('pending'))
            vc.assume(self.delayed.n >= 0); vc.assume(self.cols_n >= 1)
        def start_resetting(self): calls.append('start'); 
        def last_child_of_resetting(self):
            calls.append('last')
            self.answer = vc.choose(2, 'answer') == 1
            return self.answer
    b = part(vc, last=vc.choose(2, 'last') == 1)
    if vc.choose(2, 'parent'): b.parent = Parent()
    b.will_reset = False
    old = dict(b.__dict__)
    p = b.parent
    r = method('last_child_of_resetting')(b)
    outside = bool(p is not None and b.last and (p.resetting or calls == ['last']))
    if p is None or not b.last: vc.check('not_the_last_one', r is False and not calls)
    elif p.resetting: vc.check('last_of_one_that_is_balanced', r is True and not calls)
    else: vc.check('of_the_outer_box', calls == ['last'] and r is p.answer)
    kept(vc, b, old)
    calls.clear()
    method('start_resetting')(b)
    if p is not None and b.last and instr.truth(conj(p.cols_n > 1, eq(p.delayed.n, 0))):
        vc.check('outer_box', calls == ['start'] and not b.will_reset)
        vc.cover('outer')
    else:
        vc.check('this_box', not calls and b.will_reset is True)
        vc.cover('this')
    kept(vc, b, old, ('will_reset',))

# --------------------------------------------------------------------------- groups

@contract('PDFContentPart.process_group_element', funcs=[P + '.process_group_element', P + '.parse_element'], props=['C14'])
def process_group_element(vc):
    log = []
    answer = Token('answer')
    st, es = {'b': Token('style')}, {'i': Token('own')}
    record(P + '.get_element_styles', log, lambda s, a: (dict(st), es))
    for k in ('text', 'image', 'table'): record(P + '.process_' + k, log, lambda s, a: answer)
    b = part(vc)
    c = vc.choose(4, 'form')
    if c == 0: element, kind = element_of(vc)
    else:
        element = (None, SStr('text'), [SStr('text')], (SStr('text'),))[c]
        kind = 'text'
    def unwrapped(e): return e is element if c == 0 else isinstance(e, dict) and set(e) == {'.'} and (e['.'] is element or c == 1 and str_eq(e['.'], element))
    inherited = {'u': Token('inherited')}
    add, margin, shrink = ((True, False, False), (False, True, True), (True, True, False))[vc.choose(3, 'flags')]
    mh = vc.real('min_height') if vc.choose(2, 'min_height') else None
    old = dict(b.__dict__)
    try: r = method('process_group_element')(b, element, inherited, add, margin, mh, shrink)
    except Exception as e:
        vc.check('not_allowed', kind in ('child', 'group') and type(e) is Exception and 'not allowed' in str(e))
        vc.check('nothing_is_placed', [n for n, a in log] == ['get_element_styles'])
        return
    vc.check('allowed', kind not in ('child', 'group'))
    vc.check('once', [n for n, a in log] == ['get_element_styles', 'process_' + kind])
    s, a = log[0][1], log[1][1]
    vc.check('style_of_the_element', unwrapped(s['element']) and s['inherited_style'] is inherited)
    vc.check('the_element', unwrapped(a['element']) and a.get('element_style', es) is es)
    want = dict(st)
    if mh is not None: want['min_height'] = mh
    if kind == 'image':
        want['shrink'] = a['style'].get('shrink')
        vc.check('image_can_be_made_smaller', bool(want['shrink']) and a['shrink_image'] is shrink)
    vc.check('its_style', same_style(a['style'], want))
    vc.check('drawn_or_measured', a['add_parts'] is add and a['add_top_margin'] is margin)
    vc.check('answer', r is answer)
    kept(vc, b, old)

class Heights(Map):
    """the images of the group with a least height"""
    def __init__(self, g, k):
        Map.__init__(self, 'images', lambda i: g.least(i) if instr.truth(i < k) else ABSENT)
        self.count = g.count(k)
    def _vc_len(self):
        if self.writes: ctx().abort(Unsupported('number of images'))
        return self.count

class Pass:
    """a loop over the elements of a group.  The first one looks for the images with a least height; in the others every element before k
    was placed once, in order"""
    def __init__(self, g): self.g, self.n = g, 0
    def check(self, st, k, env, mode):
        vc, g = st.ctx, self.g
        if mode == 'establish':
            self.n += 1
            self.names = None
            if self.n == 1:
                dicts = [m for m, v in env._d.items() if type(v) is dict and not v]
                zeros = [m for m, v in env._d.items() if type(v) is int and v == 0]
                if len(dicts) != 1 or len(zeros) != 1: vc.abort(Unsupported('locals'))
                self.images, self.size = dicts[0], zeros[0]
            else:
                b, (y, s, l) = g.b, g.initial
                want = y if instr.truth(s) else y - g.style.get('margin_top', 0)
                vc.check('from_the_place_of_the_group', conj(eq(b.y, want), eq(b.last_bottom, l)) and b.starting is s)
                vc.check('an_attempt_with_shrunk_images', len(g.ends) < 2 or g.ends[-1] == 'all')
                self.b = Bools(); self.b.note(env)
            return
        if self.n == 1:
            m = env[self.images]
            h = g.least(self.k)
            vc.check('image_with_least_height', only_change(m, self.k, h) if h is not ABSENT else unchanged(m) and not m.writes)
            vc.check('sum_of_the_heights', eq(env[self.size], g.sum(self.k) + (0 if h is ABSENT else h)))
            vc.check('only_looked_at', not g.log)
            return
        a = self.call()
        d = g.log[-1][1]['answer']
        if not a['add_element']: vc.check('fits', d['delayed'] is None)
        self.b.same(env)
    def call(self):
        vc, g = ctx(), self.g
        vc.check('placed_once', len(g.log) == 1)
        a = g.log[0][1]
        vc.check('in_order', a['element'] is g.element(self.k))
        vc.check('style_of_the_group', same_style(a['inherited_style'], g.style))
        vc.check('margin_between_the_elements', same_bool(a['add_top_margin'], self.k > 0))
        if not a['add_element']:
            vc.check('measured_before_it_is_drawn', not g.ends or g.ends == ['break'])
            vc.check('least_height_of_the_style', a['min_height'] is None)
            vc.check('whole_images_first', instr.truth(a['shrink_image']) is bool(g.ends))
        else:
            vc.check('drawn_if_it_fits', bool(g.ends) and g.ends[-1] == 'all')
            vc.check('as_it_was_measured', instr.truth(a['shrink_image']) is (len(g.ends) == 2))
            h, m = g.least(self.k), a['min_height']
            if h is ABSENT: vc.check('no_least_height', m is None)
            elif g.style.get('shrink'): vc.check('least_height', m is not None and eq(m, h))
            elif m is None: vc.check('least_height', False)
            else:
                S, room = g.S_n, g.room
                # it is one of the images counted
                vc.assume(g.count(g.n) >= 1); vc.assume(S >= h)
                room = ite(room > 0, room, 0)
                vc.check('not_smaller', m >= h)
                vc.check('they_still_fit', m * S <= h * (S + room))
                vc.check('no_room_is_wasted', m * S >= h * (S + room - 0.00001))
            vc.cover('drawn')
        return a
    def havoc(self, st, k):
        vc, g = st.ctx, self.g
        self.k = k
        g.log.clear(); st.touch(g.log)
        if self.n == 1:
            st.touch(st.pre[self.images])
            if k is st.slist.n: g.S_n = g.sum(k)
            return {self.images: Heights(g, k), self.size: g.sum(k)}
        b = g.b
        st.set(b, 'y', vc.real('y in the group')); st.set(b, 'starting', vc.bool('starting in the group')); st.set(b, 'last_bottom', vc.real('last_bottom in the group'))
        if k is st.slist.n:
            if not g.ends or g.ends[-1] != 'all':
                g.ends.append('all'); st.touch(g.ends)
                g.room = b.y - b.max_y
            else: g.drawn = True
        return dict(self.b.v)

@contract('PDFContentPart.process_group', funcs=[P + '.process_group'], props=['C14'], time=120)
def process_group(vc):
    """a group is drawn where all its elements fit, or left for later"""
    class G: pass
    g = G()
    g.log, g.ends, g.drawn = [], [], False
    b = g.b = part(vc)
    g.style = {'b': Token('bold')}
    if vc.choose(2, 'margin'): g.style['margin_top'] = vc.real('margin_top')
    if vc.choose(2, 'shrink'): g.style['shrink'] = True
    g.initial = b.y, b.starting, b.last_bottom
    class Element:
        """any element: a text, an image (with or without a least height) or other"""
        def _vc_isinstance(self, t):
            if not hasattr(self, 'is_dict'): self.is_dict = vc.choose(2, 'is a dict') == 1
            return issubclass(dict if self.is_dict else str, t)
        def __contains__(self, k):
            if k != 'image' or not isinstance_dict(self): vc.abort(Unsupported('element of a group'))
            if not hasattr(self, 'image'): self.image = vc.choose(2, 'is an image') == 1
            return self.image
        def least(self):
            if not isinstance_dict(self) or 'image' not in self: return ABSENT
            if not hasattr(self, 'h'):
                self.h = ABSENT
                if vc.choose(2, 'least height'): self.h = vc.real('min_height'); vc.assume(self.h > 0)
            return self.h
        def get(self, k, d=None): vc.abort(Unsupported('element of a group'))
    isinstance_dict = lambda e: e._vc_isinstance(dict)
    kinds = Map('elements', lambda i: Element())
    g.element = kinds.at
    g.least = lambda i: kinds.at(i).least()
    S, N = z3.Function(fresh_name('sum'), z3.IntSort(), z3.RealSort()), z3.Function(fresh_name('count'), z3.IntSort(), z3.IntSort())
    def gsum(k):
        r = SNum(S(const(k))); c = g.count(k)
        vc.assume(implies(c > 0, r > 0)); vc.assume(implies(eq(c, 0), eq(r, 0)))
        return r
    g.count = lambda k: (lambda c: (vc.assume(c >= 0), c)[1])(SNum(N(const(k))))
    g.sum = gsum
    spec = Pass(g)
    g.n = n = vc.int('elements of the group'); vc.assume(n >= 0)
    vc.assume(SBool(S(z3.IntVal(0)) == 0)); vc.assume(SBool(N(z3.IntVal(0)) == 0))
    group = SList('group', n, lambda i: g.element(i), spec)
    def styles(s, a):
        vc.check('style_of_the_group', same_style(a['inherited_style'], g.style))
        vc.check('style_of_the_image', a['element'] is g.element(spec.k))
        h = g.least(spec.k)
        st = {'b': True}
        if h is not ABSENT: st['min_height'] = h
        return st, {}
    log = []
    record(P + '.get_element_styles', log, styles)
    def place(s, a):
        c = vc.choose(3 if a['add_element'] is False else 1, 'answer')
        a['answer'] = ({'delayed': None, 'next': False}, {'delayed': Token('rest'), 'next': True}, {'delayed': Token('rest'), 'flow': True})[c]
        s.y, s.starting, s.last_bottom = vc.real('y after'), vc.bool('starting after'), vc.real('last_bottom after')
        if c: g.broke = True
        return a['answer']
    record(P + '.process_group_element', g.log, place)
    element = {'group': group}
    tries = None
    if vc.choose(2, 'tried'): tries = element['tries'] = vc.int('tries'); vc.assume(tries >= 0); vc.assume(tries < 50)
    old = dict(b.__dict__); before = dict(element); sbefore = dict(g.style)
    # a pass that stops at an element that does not fit
    def note_break():
        if g.log and not g.log[0][1]['add_element'] and g.log[0][1]['answer']['delayed'] is not None:
            spec.call(); g.ends.append('break'); g.log.clear()
    real_check = spec.check
    def check_(st, k, env, mode):
        if mode == 'establish': note_break()
        return real_check(st, k, env, mode)
    spec.check = check_
    r = method('process_group')(b, element, g.style)
    note_break()
    vc.check('style_kept', same_style(g.style, sbefore))
    vc.check('answer', isinstance(r, dict) and not r.get('next'))
    if r.get('delayed') is None:
        vc.check('drawn_after_it_fits', g.ends in (['all'], ['break', 'all']) and g.drawn and not g.log)
        vc.check('finished', not r.get('flow'))
        vc.check('definition_kept', element == before)
        vc.cover('drawn')
    else:
        vc.check('does_not_fit', g.ends == ['break', 'break'] and not g.drawn)
        vc.check('placed_later', r['delayed'] is element and r.get('flow') is True)
        vc.check('definition_kept', element['group'] is group and set(element) == {'group', 'tries'} and eq(element['tries'], 1 if tries is None else tries + 1))
        vc.check('nothing_placed', conj(eq(b.y, old['y']), eq(b.last_bottom, old['last_bottom'])) and b.starting is old['starting'])
        vc.cover('delayed')
    kept(vc, b, old, ('y', 'starting', 'last_bottom'))

# --------------------------------------------------------------------------- PDFContent

@contract('PDFContent', funcs=[C + '.__init__', C + '.setup', C + '.run', C + '.get_content_part', C + '.get_state', C + '.set_state'], props=['C14', 'C15'])
def pdf_content(vc):
    """a content box of a rectangle: it is laid out from its state, and what is drawn is only that of the last rectangle"""
    made = []
    cls = instr.lookup(C)[2]
    sig = inspect.signature(instr.lookup(P)[2].__init__)
    class Part:
        _vc_ghost = True
        def __init__(self, *a, **k):
            bound = sig.bind(self, *a, **k); bound.apply_defaults()
            self._args = {n: v for n, v in bound.arguments.items() if n != 'self'}
            self._log = []
            made.append(self)
        def setup(self, min_x, width, min_y, max_y): self._log.append(('setup', (min_x, width, min_y, max_y)))
        def run(self):
            self._out = [getattr(c, n) for n in ('parts', 'lines', 'fills')]
            self._log.append(('run', [list(o) if isinstance(o, list) else o for o in self._out]))
            self.min_y, self.max_y, self.y = vc.real('part min_y'), vc.real('part max_y'), vc.real('part y')
            self.cols_n = vc.int('columns'); vc.assume(self.cols_n >= 1)
            self._answer = ('continue', 'interrupt')[vc.choose(2, 'answer')]
            return self._answer
        def get_state(self):
            self._state = Token('state'); return self._state
        def set_state(self, *a, **k): self._log.append(('set_state', a, k))
    instr.stub(P, Part)
    content = {'content': Token('elements')}
    fonts, pdf = Token('fonts'), Token('pdf')
    x, y, w, h = (vc.real(n) for n in 'xywh')
    c = cls(content, fonts, x, y, w, h, pdf)
    vc.check('not_laid_out', c.finished is False and not made)
    vc.check('what_it_is_made_of', c.content is content and c.fonts is fonts and c.pdf is pdf)
    vc.check('only_dicts', raises(cls, vc.real('content'), fonts, x, y, w, h))
    state = vc.choose(3, 'state')
    if state == 1:
        st = dict(section_element_index=vc.int('index'), section_delayed=Token('delayed'), children_memory=Token('memory'))
        c.set_state(**st)
        vc.check('state_of_its_part', len(made) == 1 and len(made[0]._log) == 1 and made[0]._log[0][0] == 'set_state')
        a, k = made[0]._log[0][1:]
        got = dict(zip(('section_element_index', 'section_delayed', 'children_memory'), a)); got.update(k)
        vc.check('state_is_set', set(got) == set(st) and all(got[n] is v for n, v in st.items()))
        made[0]._log.clear()
    given = {}
    if vc.choose(2, 'new rectangle'):
        for n in ('x', 'y', 'width', 'height')[:vc.choose(4, 'arguments') + 1]: given[n] = vc.real('new ' + n)
        if vc.choose(2, 'before'):
            c.setup(**given)
            want = dict(dict(x=x, y=y, width=w, height=h), **given)
            vc.check('setup_only_sets_the_rectangle', conj(eq(c.x, want['x']), eq(c.min_y, want['y']), eq(c.width, want['width'])) and len(made) == (1 if state == 1 else 0))
            x, y, w, h = (want[n] for n in ('x', 'y', 'width', 'height'))
            given = {}
    old = {n: [Token('of the previous rectangle')] for n in ('parts', 'lines', 'fills')}
    for n, v in old.items(): setattr(c, n, v)
    kept_ = {n: list(v) for n, v in old.items()}
    c.run(**given)
    want = dict(dict(x=x, y=y, width=w, height=h), **given)
    vc.check('one_part', len(made) == 1)
    p = made[0]
    a = p._args
    vc.check('of_the_content', a['content'] is content and a['pdf_content'] is c and a['parent'] is None and a['last'] is True and a['inherited_style'] is None)
    vc.check('laid_out_once', [l[0] for l in p._log] == ['setup', 'run'])
    r = p._log[0][1]
    vc.check('rectangle', conj(eq(r[0], want['x']), eq(r[1], want['width']), eq(r[2], want['y']), eq(r[3], want['y'] - want['height'])))
    outs = p._log[1][1]
    vc.check('nothing_drawn_yet', outs == [[], [], []] and len({id(o) for o in p._out}) == 3)
    vc.check('what_is_drawn', all(getattr(c, n) is o for n, o in zip(('parts', 'lines', 'fills'), p._out)))
    vc.check('drawing_of_the_other_rectangle_kept', all(old[n] == kept_[n] for n in old))
    bottom = p.max_y if instr.truth(p.cols_n > 1) else p.y
    vc.check('height', eq(c.current_height, p.min_y - bottom))
    vc.check('finished_at_the_end', c.finished is (p._answer == 'continue'))
    vc.check('state', c.get_state() is p._state and len(made) == 1)

def raises(f, *a):
    try: f(*a)
    except TypeError: return True
    return False
