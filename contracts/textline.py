"""C03, C05, C06, C07: how the lines of a paragraph become a content stream."""
from pyvc.engine import *
from pyvc.stream import *
from pyvc import instr
from c11 import sym_color, same_color

T = 'pdfme.text.'

def ctx():
    from pyvc import engine
    return engine.CTX

def raw(qual, **k):
    o = object.__new__(instr.lookup(qual)[2])
    for n, v in k.items(): setattr(o, n, v)
    return o

def family(vc, name):
    """the name of a font family, standard or added"""
    std = vc.bool(name + ' is standard')
    s = SStr(name, maybe_empty=False, std=std)
    s.data['member'] = lambda c: std if c is instr.lookup('pdfme.fonts.STANDARD_FONTS')[2] else None
    return s

class Font:
    """a font by its contracts: encode_text gives the text in the codes of the font, escaped (C03)"""
    _vc_ghost = True
    def __init__(self, vc, name):
        self.ref = SStr('ref_' + name, maybe_empty=False)
    def encode_text(self, text): return SStr('encoded', maybe_empty=True, encoded=(self, text))

def sym_state(vc, name):
    size = vc.real(name + '_size'); vc.assume(size > 0)
    return raw(T + 'PDFState', font_family=family(vc, name + '_family'), font_mode=SStr(name + '_mode', maybe_empty=False),
        font=Font(vc, name), size=size, color=sym_color(vc, name + '_color', False), rise=vc.real(name + '_rise'))

def one_font(vc, a, b):
    """contract of get_font: a family and mode are one font of the document"""
    e = lambda x, y: str_eq(x, y)
    vc.assume(implies(conj(e(a.font_family, b.font_family), e(a.font_mode, b.font_mode)), conj(e(a.font.ref, b.font.ref),
        SBool(z3.BoolVal(a.font_family.data['std'] is b.font_family.data['std'])) if False else True)))
    vc.assume(implies(e(a.font_family, b.font_family), SBool(a.font_family.data['std'].e == b.font_family.data['std'].e)))

def set_state(g, s):
    """the graphics state of a stream whose last state is s"""
    g.font, g.size, g.ts, g.fill = [s.font.ref], round(s.size, 3), round(s.rise, 3), tuple(round(c, 3) for c in s.color.color)

def has_state(vc, g, s, prefix=''):
    """the graphics state shows text as s says"""
    ok = g.font is not None and len(g.font) == 1 and isinstance(g.font[0], SStr)
    vc.check(prefix + 'font', ok and str_eq(g.font[0], s.font.ref))
    vc.check(prefix + 'size', g.size is not None and eq(g.size, round(s.size, 3)))
    vc.check(prefix + 'color', same_color(g.fill, [round(c, 3) for c in s.color.color]))
    vc.check(prefix + 'rise', g.ts is not None and eq(g.ts, round(s.rise, 3)))

def run(vc, g, text, opaque=None):
    try: return g.run(text, opaque)
    except BadStream as e:
        vc.check('valid_stream', False, detail=str(e))
        vc.abort(PathEnd('bad stream'))

@contract('PDFState.compare', funcs=[T + 'PDFState.compare', 'pdfme.color.PDFColor.__str__', 'pdfme.color.PDFColor.__eq__'], props=['C03', 'C06'])
def compare(vc):
    s = sym_state(vc, 'new')
    old = None
    g = GState()
    if vc.choose(2, 'previous'):
        old = sym_state(vc, 'old')
        one_font(vc, s, old)
        set_state(g, old)
    r = instr.lookup(T + 'PDFState.compare')[2](s, old)
    vc.check('separated', r == '' or r[0] == ' ')
    g = run(vc, g, r)
    vc.check('only_the_state', g.events == [] and g.stack == [] and g.path == [])
    has_state(vc, g, s)
    vc.cover('with previous' if old else 'without previous')

# ---------------------------------------------------------------------------

def words_of_part(vc):
    """the words of a part: any list; joined they are the text"""
    n = vc.int('words'); vc.assume(n >= 0)
    text = SStr('text')
    ps = []
    def split(s, sep=None):
        if sep != ' ': vc.abort(Unsupported('split'))
        m = vc.int('pieces'); vc.assume(m >= 1)
        l = SList('pieces', m, lambda i: SStr('piece'))
        text.data['pieces'] = l
        return l
    blank = vc.bool('blank')
    text.data['meth'] = dict(split=split, isspace=lambda s: blank)
    vc.assume(implies(text.len == 0, neg(blank)))
    text.data['blank'] = blank
    w = SList('words', n, lambda i: SStr('word'))
    w.text = text
    return w

def join_words(it, sep):
    """''.join(words), and the strings of a TJ array joined"""
    vc = ctx()
    src = it
    while src.source is not None and 'text' not in src.__dict__: src = src.source
    if 'text' in src.__dict__ and isinstance(sep, str) and sep == '' and not it.tail:
        j = vc.int('any')
        if it is not src and (it.source is not src or it.at(j) is not src.at(j)): vc.abort(Unsupported('join of words that are changed'))
        return src.text
    return SStr('joined', joined=(it, sep))

def stub_text(vc):
    vc.stubs['join'] = join_words
    def escape(t):
        if not isinstance(t, SStr): t = SStr('text', of=t)
        e = SStr('escaped', escaped=t)
        vc.assume((e.len == 0) == (t.len == 0))
        if 'blank' in t.data: e.data['meth'] = dict(isspace=lambda s: t.data['blank'])
        return e
    instr.stub('pdfme.utils.escape_string', escape)

def sym_part(vc, name='part', light=False):
    w, sp = vc.real(name + '_width'), vc.real(name + '_spaces_width')
    vc.assume(w >= 0); vc.assume(sp >= 0)
    space = vc.real(name + '_space_width'); vc.assume(space >= 0)
    state = sym_state(vc, name) if not light else raw(T + 'PDFState', size=vc.real(name + '_size'), rise=vc.real(name + '_rise'))
    vc.assume(state.size > 0)
    p = raw(T + 'PDFTextLinePart', state=state, width=w, spaces_width=sp, space_width=space, words=words_of_part(vc),
        underline=vc.bool(name + '_underline'), background=raw('pdfme.color.PDFColor', color=None, stroke=False), ids=None)
    return p

def text_is(vc, body, text):
    """the string shows exactly the text, escaped once"""
    return len(body) == 1 and isinstance(body[0], SStr) and body[0].data.get('escaped') is text

def encoded_is(body, font):
    """text given to the font that encoded the string, None if it is not one string encoded by it"""
    if len(body) != 1 or not isinstance(body[0], SStr) or 'encoded' not in body[0].data: return None
    f, t = body[0].data['encoded']
    return t if f is font else None

@contract('PDFTextBase.output_text', funcs=[T + 'PDFTextBase.output_text'], props=['C03', 'C05', 'C06'], time=300)
def output_text(vc):
    stub_text(vc)
    p = sym_part(vc)
    text = p.words.text
    base = raw(T + 'PDFText', last_state=None, last_factor=None)
    g = GState()
    base.last_state = old = sym_state(vc, 'old') if vc.choose(2, 'previous') else None
    if old is not None: set_state(g, old)
    if vc.choose(2, 'previous factor'):
        base.last_factor = g.tw = vc.real('last_factor')
    # PDFState.compare by its contract: afterwards the state is the one of the part
    def compare(self, other):
        if self is not p.state or other is not old: vc.check('difference_to_the_state_of_the_stream', False)
        return ' ' + str(SStr('delta', delta=self))
    instr.stub(T + 'PDFState.compare', compare)
    def opaque(g, s):
        if s.data.get('delta') is p.state: set_state(g, p.state)
        else: vc.abort(Unsupported('opaque text %s' % s.name))
    factor = vc.real('factor')
    esc = instr.lookup('pdfme.utils.escape_string')[2](text)
    r = instr.lookup(T + 'PDFTextBase.output_text')[2](base, p, esc, factor)
    g = run(vc, g, r, opaque)
    has_state(vc, g, p.state)
    vc.check('stack', g.stack == [] and g.path == [])
    vc.check('state_is_remembered', base.last_state is p.state)
    vc.check('word_spacing_is_remembered', g.tw is not None and base.last_factor is not None and eq(g.tw, base.last_factor))
    tw = p.space_width * (factor - 1)
    vc.check('word_spacing', near(g.tw, tw))
    ev = g.events
    if len(ev) == 0:
        vc.check('all_the_text_is_shown', text.len == 0)
        return
    vc.check('text_is_shown_once', len(ev) == 1 and ev[0]['kind'] == 'text')
    e = ev[0]
    shown = GState(font=e['font'], size=e['size'], ts=e['ts'], fill=e['fill'])
    has_state(vc, shown, p.state, 'shown_')
    vc.check('shown_word_spacing', eq(e['tw'], g.tw))
    items = e['items']
    if bool(p.state.font_family.data['std']):
        vc.check('text_of_the_part', len(items) == 1 and items[0][0] == 'str' and text_is(vc, items[0][1], text))
        vc.cover('standard font')
        return
    if len(items) == 1 and items[0][0] == 'str':
        vc.check('text_in_glyphs', encoded_is(items[0][1], p.state.font) is text)
        # Tw has no effect on two byte codes
        vc.check('no_spaces_to_stretch', near(tw, 0))
        vc.cover('added font')
        return
    ok = len(items) == 1 and items[0][0] == 'opaque' and 'joined' in items[0][1].data
    if not ok: raise Unsupported('array of TJ')
    it, sep = items[0][1].data['joined']
    seps = lex(sep)
    vc.check('one_space_between_the_words', len(seps) == 1 and seps[0][0] in ('num', 'negnum'))
    adj = seps[0][1] if seps[0][0] == 'num' else -seps[0][1]
    vc.check('adjustment_is_the_word_spacing', near(adj, -g.tw * 1000 / p.state.size))
    pieces_ = text.data.get('pieces')
    if pieces_ is None or not isinstance(it, SList): raise Unsupported('array of TJ')
    def string(x):
        t = lex(x)
        if len(t) != 1 or t[0][0] != 'str': return None
        return encoded_is(t[0][1], p.state.font)
    vc.check('strings_of_all_the_words', eq(it.n + len(it.tail), pieces_.n) and len(it.tail) == 1)
    last = string(it.tail[0])
    vc.check('last_word_of_the_part', last is not None and last is pieces_.at(pieces_.n - 1))
    j = vc.int('j'); vc.assume(j >= 0); vc.assume(j < it.n)
    t = string(it.at(j))
    ps = pieces(t) if t is not None else []
    vc.check('word_and_its_space', len(ps) == 2 and ps[0] is pieces_.at(j) and ps[1] == ' ')
    vc.cover('justified added font')

@contract('PDFTextBase.output_graphics', funcs=[T + 'PDFTextBase.output_graphics'], props=['C06', 'C07'], time=300)
def output_graphics(vc):
    p = sym_part(vc)
    if vc.choose(2, 'background'): p.background = sym_color(vc, 'background', False)
    elif vc.choose(2, 'no background'): p.background = None
    base = raw(T + 'PDFText', last_fill=None, last_color=None, last_stroke_width=None)
    g = GState()
    if vc.choose(2, 'last fill'):
        base.last_fill = sym_color(vc, 'last_fill', False)
        g.fill = tuple(round(c, 3) for c in base.last_fill.color)
    if vc.choose(2, 'last color'):
        base.last_color = sym_color(vc, 'last_color', True)
        g.stroke = tuple(round(c, 3) for c in base.last_color.color)
    if vc.choose(2, 'last width'):
        base.last_stroke_width = vc.real('last_width')
        g.width = round(base.last_stroke_width, 3)
    x, y, w = vc.real('x'), vc.real('y'), vc.real('w')
    under = p.underline
    r = instr.lookup(T + 'PDFTextBase.output_graphics')[2](base, p, x, y, w)
    vc.check('separated', True if not pieces(r) else isinstance(pieces(r)[0], str) and pieces(r)[0][0] == ' ')
    g = run(vc, g, r)
    vc.check('complete', g.path == [] and g.stack == [])
    ev = list(g.events)
    size, by = p.state.size, y + p.state.rise
    if p.background is not None and p.background.color is not None:
        e = ev.pop(0) if ev else None
        vc.check('background', e is not None and e['kind'] == 'fill' and len(e['path']) == 1 and e['path'][0][0] == 're')
        _, rx, ry, rw, rh = e['path'][0]
        vc.check('background_place', conj(near(rx, x), near(ry, by - size * 0.25), near(rw, w), near(rh, size * 1.2)))
        vc.check('background_color', same_color(e['color'], p.background.color))
        vc.cover('background')
    if bool(under):
        e = ev.pop(0) if ev else None
        vc.check('underline', e is not None and e['kind'] == 'stroke' and [q[0] for q in e['path']] == ['m', 'l'])
        (_, x1, y1), (_, x2, y2) = e['path']
        vc.check('underline_place', conj(near(x1, x), near(x2, x + w), eq(y1, y2), near(y1, by - size * 0.07)))
        vc.check('underline_color', same_color(e['color'], p.state.color.color))
        vc.check('underline_width', e['width'] is not None and near(e['width'], size * 0.07))
        vc.cover('underline')
    vc.check('nothing_else_is_painted', ev == [])
    for n, last, got in (('fill', base.last_fill, g.fill), ('stroke', base.last_color, g.stroke)):
        if last is not None: vc.check('remembered_' + n, got is not None and same_color(got, [round(c, 3) for c in last.color]) and last.stroke == (n == 'stroke'))
    if base.last_stroke_width is not None: vc.check('remembered_width', g.width is not None and eq(g.width, round(base.last_stroke_width, 3)))

# ---------------------------------------------------------------------------
# measures of a line

class Measures:
    """locals after k parts: the sums (or maxima) over them"""
    def __init__(self, step): self.step = step
    def check(self, st, k, env, mode):
        vc = st.ctx
        if mode == 'establish':
            self.names = [n for n, v in env._d.items() if is_num(v) and not isinstance(v, bool) and not isinstance(v, SNum)]
            if any(not eq_zero(env[n]) for n in self.names): vc.abort(Unsupported('locals of the loop'))
            return
        for n in self.names:
            vc.check('measure', eq(env[n], self.step(n, self.old[n], self.cur)), kind='inv')
        vc.cover('a part')
    def havoc(self, st, k):
        vc = st.ctx
        self.old = {n: vc.real(n) for n in self.names}
        for n in self.names:
            if hasattr(self, 'cur'): self.step(n, self.old[n], self.cur)     # (a local of the invariant)
            vc.assume(self.old[n] >= 0)
            if bool(SBool(const(k) == 0)): vc.assume(self.old[n] == 0)
        return dict(self.old)

def eq_zero(v): return isinstance(v, (int, float)) and v == 0

def measured_line(vc, step):
    loop = Measures(step)
    n = vc.int('parts'); vc.assume(n >= 0)
    def elem(k):
        loop.cur = sym_part(vc, light=True)
        return loop.cur
    margin = vc.real('top_margin'); vc.assume(margin >= 0)
    return raw(T + 'PDFTextLine', line_parts=SList('line_parts', n, elem, loop), top_margin=margin), loop

def one(loop, word):
    words = word.split('|')
    ns = [n for n in loop.names if any(w in n for w in words)]
    if len(ns) != 1: raise Unsupported('locals of the loop')
    return loop.old[ns[0]]

def vmax(a, b): return ite(SBool(const(a) >= const(b)) if is_num(a) else None, a, b)
def rmax(a, b):
    a, b = SNum(to_real(const(a))), SNum(to_real(const(b)))
    return ite(a >= b, a, b)

@contract('PDFTextLine.get_widths', funcs=[T + 'PDFTextLine.get_widths'], props=['C05', 'C07'])
def get_widths(vc):
    def step(n, old, part):
        if 'word' in n: return old + part.width
        if 'space' in n: return old + part.spaces_width
        raise Unsupported('local %s' % n)
    line, loop = measured_line(vc, step)
    r = instr.lookup(T + 'PDFTextLine.get_widths')[2](line)
    vc.check('widths', isinstance(r, tuple) and len(r) == 2 and conj(eq(r[0], one(loop, 'word')), eq(r[1], one(loop, 'space'))))
    vc.cover('done')

@contract('PDFTextLine.height', funcs=[T + 'PDFTextLine.height'], props=['C05', 'C07'])
def line_height(vc):
    def step(n, old, part):
        if 'top' in n: return rmax(old, rmax(part.state.rise, 0))
        if 'height' in n or 'size' in n: return rmax(old, part.state.size)
        raise Unsupported('local %s' % n)
    line, loop = measured_line(vc, step)
    r = instr.lookup(T + 'PDFTextLine.height')[2].fget(line)
    vc.check('height', eq(r, one(loop, 'height|size') + line.top_margin + one(loop, 'top')))
    vc.cover('done')

@contract('PDFTextLine.bottom', funcs=[T + 'PDFTextLine.bottom'], props=['C05', 'C07'])
def line_bottom(vc):
    def step(n, old, part):
        if 'bottom' not in n: raise Unsupported('local %s' % n)
        return rmax(old, rmax(-part.state.rise, 0))
    line, loop = measured_line(vc, step)
    r = instr.lookup(T + 'PDFTextLine.bottom')[2].fget(line)
    vc.check('bottom', eq(r, one(loop, 'bottom')))
    vc.cover('done')

@contract('PDFTextLine.min_width', funcs=[T + 'PDFTextLine.min_width'], props=['C05'])
def min_width(vc):
    w, s, f = vc.real('w'), vc.real('s'), vc.real('f')
    line = raw(T + 'PDFTextLine', factor=f)
    instr.stub(T + 'PDFTextLine.get_widths', lambda self: (w, s))
    vc.check('width', eq(instr.lookup(T + 'PDFTextLine.min_width')[2].fget(line), w + s * f))

# ---------------------------------------------------------------------------

class PartWords:
    """list of any words whose last ones are known"""
    _vc_ghost = True

@contract('PDFTextLinePart.words', funcs=[T + 'PDFTextLinePart.add_word', T + 'PDFTextLinePart.pop_word', T + 'PDFTextLinePart.current_width',
    T + 'PDFTextLinePart.tentative_width'], props=['C03', 'C04', 'C05', 'C07'])
def part_words(vc):
    """the widths of a part are the ones of its words after every word added or taken"""
    P = T + 'PDFTextLinePart'
    word = ' ' if vc.choose(2, 'space') else SStr('word', maybe_empty=False)
    if word != ' ':
        vc.assume(neg(str_eq(word, ' ')))
    ww = vc.real('word_width'); vc.assume(ww >= 0)
    def width_of(self, w):
        if w is not word: vc.abort(Unsupported('width of another word'))
        return ww
    instr.stub(P + '.get_word_width', width_of)
    p = sym_part(vc)
    W, S = p.width, p.spaces_width
    p.words = [SStr('first')] if vc.choose(2, 'empty') else []
    before = list(p.words)
    f = vc.real('factor')
    cls = instr.lookup(P)[2]
    vc.check('current_width', eq(cls.current_width(p, f), W + S * f))
    tentative = cls.tentative_width(p, word, f)
    cls.add_word(p, word)
    vc.check('word_is_the_last_one', len(p.words) == len(before) + 1 and all(a is b for a, b in zip(p.words, before + [word])))
    if word == ' ':
        vc.check('space_added', conj(eq(p.width, W), eq(p.spaces_width, S + p.space_width)))
    else:
        vc.check('word_added', conj(eq(p.width, W + ww), eq(p.spaces_width, S)))
    vc.check('tentative_width', eq(tentative, cls.current_width(p, f)))
    r = cls.pop_word(p, *((-1,) if vc.choose(2, 'index') else ()))
    vc.check('last_word_is_taken', r is word and len(p.words) == len(before) and all(a is b for a, b in zip(p.words, before)))
    vc.check('widths_after_taking_it', conj(eq(p.width, W), eq(p.spaces_width, S)))
    vc.cover('done')

# ---------------------------------------------------------------------------
# a line in the stream

class Rects:
    """ids of a paragraph: the rectangles given to each one"""
    def __init__(self): self.added = []
    def setdefault(self, id_, default):
        if default != []: ctx().abort(Unsupported('setdefault'))
        r = self
        class L:
            def append(self, x): r.added.append((id_, x))
        return L()
    def __getitem__(self, id_): return self.setdefault(id_, [])
    def __contains__(self, id_): ctx().abort(Unsupported('in ids'))

class IdsLoop:
    def __init__(self, rects): self.rects = rects
    def check(self, st, k, env, mode):
        vc = st.ctx
        if mode == 'establish':
            self.before = list(self.rects.added)
            return
        a = self.rects.added
        vc.check('one_rectangle_for_the_id', len(a) == 1 and a[0][0] is self.cur)
        r = a[0][1]
        vc.check('rectangle', isinstance(r, (list, tuple)) and len(r) == 4)
        self.all.rect_of(vc, r)
        vc.cover('id')
    def havoc(self, st, k):
        self.rects.added = []
        self.all.ids_done = True
        return {}

class LineLoop:
    """after k parts of the line: the stream has their text one after another, `x` is at the end of the last one"""
    def __init__(self, base, rects):
        self.base, self.rects = base, rects
    def check(self, st, k, env, mode):
        vc = st.ctx
        if mode == 'establish':
            self.text0, self.graphics0 = self.base.text, self.base.graphics
            self.x0, self.factor0 = env['x'], env['factor']
            self.y0 = self.base.y_
            vc.check('no_graphics_yet', str_eq(self.graphics0, str(self.G0)), kind='inv')
            return
        p = self.part
        ps = pieces(self.base.text)
        outs = [o for o in self.outs if o[0] is p]
        vc.check('text_of_the_part_once', len(self.outs) == 1 and len(outs) == 1)
        _, text, factor, tok = outs[0]
        vc.check('stream_is_extended', len(ps) == 2 and ps[0] is self.T and ps[1] is tok)
        vc.check('text_shown_is_the_one_of_the_part', 
            text is p.words.text and p.words.text.len == 0 if not isinstance(text, SStr) or 'escaped' not in text.data else text.data.get('escaped') is p.words.text)
        vc.check('same_spacing_in_the_line', eq(factor, self.factor0))
        w = p.width + p.spaces_width * self.factor0
        vc.check('end_of_the_part', eq(env['x'], self.X + w), kind='inv')
        gs = pieces(self.base.graphics)
        shown = conj(p.words.text.len > 0, neg(p.words.text.data['blank']))
        if self.gouts:
            vc.check('graphics_once', len(self.gouts) == 1)
            q, gx, gy, gw, gtok = self.gouts[0]
            vc.check('graphics_of_the_part', q is p and len(gs) == 2 and gs[0] is self.G and gs[1] is gtok)
            vc.check('graphics_place', conj(eq(gx, self.X), eq(gy, self.y0), eq(gw, w)))
            vc.check('no_graphics_without_text', shown)
            vc.cover('graphics')
        else:
            vc.check('graphics_of_the_text', neg(shown))
            vc.check('graphics_kept', len(gs) == 1 and gs[0] is self.G)
        ids = p.ids
        if ids is None or not self.ids_done:
            vc.check('ids_of_the_text', disj(neg(shown), True if ids is None else ids.n == 0))
            vc.check('no_ids', self.rects.added == [])
        else:
            vc.check('no_ids_without_text', shown)
            vc.check('no_other_ids', self.rects.added == [])
        vc.cover('part')
    def rect_of(self, vc, r):
        p, s = self.part, self.part.state
        lo = self.y0 + s.rise - s.size * 0.25
        w = p.width + p.spaces_width * self.factor0
        t = Fraction(1, 500)
        vc.check('rectangle_over_the_text', conj(near(r[0], self.X), near(r[1], lo, t), near(r[2], self.X + w), near(r[3], lo + s.size, t)))
    def havoc(self, st, k):
        vc = st.ctx
        self.outs, self.gouts, self.ids_done = [], [], False
        self.T, self.G = SStr('text_before'), SStr('graphics_before')
        self.T.data['of'] = self.text0
        st.set(self.base, 'text', str(self.T))
        st.set(self.base, 'graphics', str(self.G))
        self.rects.added = []
        self.X = vc.real('x of the part')
        vc.assume(implies(SBool(const(k) == 0), eq(self.X, self.x0)))
        return {'x': self.X}
    def elem(self, k):
        vc = ctx()
        self.part = p = sym_part(vc, light=True)
        if vc.choose(2, 'ids'):
            n = vc.int('ids'); vc.assume(n >= 0)
            loop = IdsLoop(self.rects); loop.all = self
            def el(i):
                loop.cur = SStr('id')
                return loop.cur
            p.ids = SList('ids', n, el, loop)
        return p

@contract('PDFTextBase.add_line_to_stream', funcs=[T + 'PDFTextBase.add_line_to_stream', T + 'PDFTextBase.clean_words'], props=['C03', 'C05', 'C06', 'C07', 'C08', 'C09'], time=380)
def add_line_to_stream(vc):
    stub_text(vc)
    B = T + 'PDFTextBase'
    align = 'lrcj'[vc.choose(4, 'align')]
    started, first = False, bool(vc.choose(2, 'first'))
    if not first: started = bool(vc.choose(2, 'started'))
    has_list = bool(vc.choose(2, 'list'))
    width, indent, lh = vc.real('width'), vc.real('indent'), vc.real('line_height')
    vc.assume(lh > 0)
    rects = Rects()
    base = raw(T + 'PDFText', width=width, indent=indent, text_align=align, line_height=lh, list_text=None, list_indent=None,
        list_style=None, is_first_line=first, started=started, last_indent=vc.real('last_indent') if started else 0,
        last_state=None, last_factor=None, used_fonts=set(), y_=vc.real('y') if started else 0, ids=rects)
    marker = None
    if has_list:
        base.list_text = marker = SStr('list_text', maybe_empty=False)
        base.list_indent = vc.real('list_indent')
        base.list_state = sym_state(vc, 'list') if first else None
    old_indent, old_y = base.last_indent, base.y_
    G0, T0 = SStr('graphics_at_the_start'), SStr('text_at_the_start')
    base.text, base.graphics = (str(T0), str(G0)) if started else ('', '')
    loop = LineLoop(base, rects)
    loop.G0 = str(G0) if started else ''
    n = vc.int('parts'); vc.assume(n >= 0)
    ww, sw = vc.real('words_width'), vc.real('spaces_width')
    vc.assume(ww >= 0); vc.assume(sw >= 0)
    h, lf = vc.real('height'), vc.real('line_factor')
    vc.assume(h >= 0)
    class Line:
        """a line by the contracts of its measures"""
        _vc_ghost = True
    line = Line()
    line.line_parts, line.height, line.factor = SList('line_parts', n, loop.elem, loop), h, lf
    line.get_widths = lambda: (ww, sw)
    def output_text(self, part, text, factor=1):
        tok = SStr('shown')
        loop.outs.append((part, text, factor, tok))
        return tok
    def output_graphics(self, part, x, y, w):
        tok = SStr('painted')
        loop.gouts.append((part, x, y, w, tok))
        return tok
    def compare(self, other):
        if self is not base.list_state or other is not None: vc.check('difference_to_the_state_of_the_stream', False)
        return ' ' + str(SStr('delta', delta=self))
    instr.stub(B + '.output_text', output_text)
    instr.stub(B + '.output_graphics', output_graphics)
    instr.stub(T + 'PDFState.compare', compare)
    is_last = bool(vc.choose(2, 'is_last'))
    instr.lookup(B + '.add_line_to_stream')[2](base, line, is_last)

    # the place of the line
    left = (base.list_indent if has_list else 0) + (indent if first else 0)
    avail = width - left
    x0 = left
    if align == 'r': x0 = left + avail - ww - sw
    if align == 'c': x0 = left + (avail - ww - sw) / 2
    vc.check('start_of_the_line', eq(loop.x0, x0))
    f = loop.factor0
    stretch = align == 'j' and bool(sw != 0)
    if not stretch: vc.check('normal_spaces', eq(f, 1))
    elif not is_last: vc.check('line_fills_the_width', eq(ww + sw * f, avail))
    else:
        vc.check('last_line_is_not_stretched', f <= 1)
        q = (avail - ww) / sw
        vc.check('last_line_is_narrowed_only_to_fit', eq(f, ite(rmax(lf, q) <= 1, rmax(lf, q), 1)))
    # the text position before the parts
    head = loop.text0
    g = GState(tx=vc.real('tx'), ty=vc.real('ty'))
    tx, ty = g.tx, g.ty
    def opaque(g, s):
        if s is T0: return
        if has_list and s.data.get('delta') is base.list_state: set_state(g, base.list_state)
        else: vc.abort(Unsupported('opaque text %s' % s.name))
    ps = pieces(head)
    if started:
        vc.check('stream_kept', ps[0] is T0 and isinstance(ps[1], str) and ps[1][0] == ' ')
    g = run(vc, g, head, opaque)
    full = rmax(h, base.list_state.size) if has_list and first else h
    if started: full = h * lh
    vc.check('down_by_the_height_of_the_line', near(ty - g.ty, full))
    vc.check('y_of_the_line', eq(base.y_, old_y - full))
    vc.check('moved_to_the_start_of_the_line', near(g.tx - tx, x0 - old_indent))
    vc.check('start_is_remembered', eq(base.last_indent, x0))
    vc.check('started', base.started is True)
    if not started: vc.check('first_line_is_over', base.is_first_line is False)
    texts = [e for e in g.events if e['kind'] != 'td']
    if has_list and first:
        vc.check('marker_once', len(texts) == 1 and texts[0]['kind'] == 'text')
        e = texts[0]
        vc.check('marker_place', conj(eq(e['x'], tx), near(ty - e['y'], full)))
        has_state(vc, GState(font=e['font'], size=e['size'], ts=e['ts'], fill=e['fill']), base.list_state, 'marker_')
        vc.check('marker_spacing', e['tw'] is not None and eq(e['tw'], 0))
        vc.check('spacing_is_remembered', base.last_factor is not None and eq(base.last_factor, 0))
        items = e['items']
        ok = len(items) == 1 and items[0][0] == 'str'
        if bool(base.list_state.font_family.data['std']):
            b = items[0][1] if ok else []
            vc.check('marker_text', len(b) == 1 and isinstance(b[0], SStr) and texteq(b[0].data.get('escaped'), marker))
        else:
            vc.check('marker_glyphs', ok and texteq(encoded_is(items[0][1], base.list_state.font), marker))
        vc.check('font_of_the_marker_is_used', (base.list_state.font_family, base.list_state.font_mode) in base.used_fonts)
        vc.cover('marker')
    else:
        vc.check('no_text_before_the_parts', texts == [])
        vc.check('no_other_fonts', base.used_fonts == set())
    # at the end
    vc.check('all_the_parts', pieces(base.text)[-1] is loop.T and str_eq(base.text, str(loop.T)))
    vc.check('all_the_graphics', str_eq(base.graphics, str(loop.G)))
    vc.cover('line')

def texteq(t, s):
    if t is None: return False
    if t is s: return True
    ps = pieces(t.data['of']) if isinstance(t, SStr) and 'of' in t.data else pieces(t)
    return len(ps) == 1 and ps[0] is s
