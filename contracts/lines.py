"""C04, C05, C06: words into lines.

A line has the words that are in it for sure (`line_parts`) and, in `next_line`, the ones read since the last space. Lines and parts
have any number of words: a run stands for all the ones whose number is not known."""
from pyvc.engine import *
from pyvc.stream import *
from pyvc import instr
from textline import raw, ctx, T

L = T + 'PDFTextLine'

class Part:
    """a line part by the contracts of add_word and pop_word"""
    _vc_ghost = True
    def __init__(self, style, fonts=None, ids=None):
        self.style, self.fonts, self.ids = style, fonts, ids
        self.words, self.width, self.spaces_width = [], 0, 0
        self.space_width = style.space
    def word_width(self, w): return self.style.width_of(w)
    def add_word(self, w):
        self.words.append(w)
        if isinstance(w, str) and w == ' ': self.spaces_width = self.spaces_width + self.space_width
        else: self.width = self.width + self.word_width(w)
    def pop_word(self, i=None):
        if i not in (None, -1) or isinstance(self.words, SList) and not self.words.tail: ctx().abort(Unsupported('pop_word'))
        w = self.words.tail.pop() if isinstance(self.words, SList) else self.words.pop()
        if isinstance(w, str) and w == ' ': self.spaces_width = self.spaces_width - self.space_width
        else: self.width = self.width - self.word_width(w)
        return w

class Style:
    """a style: the widths it gives to words"""
    def __init__(self, name):
        vc = ctx()
        self.name, self.widths = name, {}
        self.space = vc.real('space'); vc.assume(self.space >= 0)
    def width_of(self, w):
        if id(w) not in self.widths:
            v = ctx().real('word'); ctx().assume(v >= 0)
            self.widths[id(w)] = (v, w)
        return self.widths[id(w)][0]

class Run:
    """any number of parts, with any words"""
    _vc_ghost = True
    def __init__(self, name):
        vc = ctx()
        self.name, self.n, self.width, self.spaces_width = name, vc.int('parts'), vc.real('width'), vc.real('spaces')
        for v in (self.n, self.width, self.spaces_width): vc.assume(v >= 0)

class Parts:
    """list of parts: runs and parts that are known"""
    _vc_ghost = True
    def __init__(self, items): self.items = list(items)
    def end(self, i):
        if not self.items: raise IndexError('list index out of range')
        x = self.items[i]
        if isinstance(x, Run): ctx().abort(Unsupported('part of a run'))
        return x
    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.stop is None and i.step is None and i.start == 1:
                self.end(0)
                return Parts(self.items[1:])
        elif i in (0, -1): return self.end(i)
        ctx().abort(Unsupported('index of parts'))
    def append(self, x): self.items = self.items + [x]
    def extend(self, o):
        self.items = self.items + (list(o.items) if isinstance(o, Parts) else list(o))
    def _vc_len(self):
        n = 0
        for x in self.items: n = n + (x.n if isinstance(x, Run) else 1)
        return n
    def __bool__(self): return bool(self._vc_len() > 0)
    def __iter__(self): ctx().abort(Unsupported('loop over parts'))

def items(parts): return parts.items if isinstance(parts, Parts) else list(parts)

def words(ws):
    """the words of a part, in order"""
    if not isinstance(ws, SList): return list(ws)
    pre = ws.__dict__.get('pre')
    return (words(pre[0]) + [pre[1]] if pre else [ws.__dict__.get('orig', ws)]) + list(ws.tail)

def content(parts):
    """the words of all the parts, in order, each with its style and ids"""
    out = []
    for p in items(parts):
        if isinstance(p, Run): out.append((p, None, None))
        else: out += [(w, p.style, p.ids) for w in words(p.words)]
    return out

def same_content(a, b):
    return len(a) == len(b) and all(len(x) == len(y) and all(s is t or (s == ' ' and t == ' ' if isinstance(s, str) and isinstance(t, str) else False)
        for s, t in zip(x, y)) for x, y in zip(a, b))

def measure(parts):
    w, s = 0, 0
    for p in items(parts): w, s = w + p.width, s + p.spaces_width
    return w, s

class MoveWords:
    """the first k words waiting are in the last part of the line"""
    def __init__(self, line): self.line = line
    def dest(self): return self.line.line_parts[-1]
    def check(self, st, k, env, mode):
        vc = st.ctx
        if mode == 'establish':
            d = self.d = self.dest()
            self.D = list_of(d.words); self.w, self.s = d.width, d.spaces_width
            return
        d = self.d
        vc.check('moved_to_the_last_part', self.dest() is d)
        vc.check('word_is_moved', d.words is self.new and len(d.words.tail) == 1 and d.words.tail[0] is self.cur)
        vc.check('moved_with_its_style', d.style is self.src.style and d.ids is self.src.ids)
        vc.check('width_of_the_word_is_moved', conj(eq(d.width, self.W + self.src.word_width(self.cur)), eq(d.spaces_width, self.S)))
        vc.cover('word moved')
    def havoc(self, st, k):
        vc = st.ctx
        d = self.d
        self.new = SList('words', k if isinstance(k, SNum) else SNum(const(k)), lambda i: None)
        self.new.pre = (self.D, self.src.words)
        last = k is self.src.words.n
        if last: self.W, self.S = self.w + self.src.width, self.s + self.src.spaces_width
        else: self.W, self.S = vc.real('moved'), self.s
        st.touch(self.new); st.set(d, 'words', self.new); st.set(d, 'width', self.W); st.set(d, 'spaces_width', self.S)
        return {}

def list_of(ws):
    """the list as it is now"""
    if not isinstance(ws, SList): return list(ws)
    r = SList(ws.name, ws.n, ws.elem)
    if 'pre' in ws.__dict__: r.pre = ws.pre
    r.tail, r.orig = list(ws.tail), ws.__dict__.get('orig', ws)
    return r

def some_words(vc, part, name, spaces=True):
    """gives the part any words"""
    n = vc.int(name); vc.assume(n >= 0)
    ws = SList(name, n, lambda i: None)
    part.words = ws
    part.width = vc.real('width'); vc.assume(part.width >= 0)
    part.spaces_width = 0
    if spaces:
        part.spaces_width = vc.real('spaces'); vc.assume(part.spaces_width >= 0)
    return part

def waiting(vc, line, style, ids, empty):
    """parts with the words read since the last space (they have no spaces)"""
    def part(style, ids):
        p = Part(style, None, ids)
        if empty: return p
        some_words(vc, p, 'waiting', False)
        loop = MoveWords(line)
        loop.src = p
        def elem(k):
            loop.cur = SStr('word', maybe_empty=False)
            return loop.cur
        p.words = SList('waiting', p.words.n, elem, loop)
        return p
    out = [part(style, ids)]
    if vc.choose(2, 'parts waiting'):
        r = Run('waiting')
        vc.assume(r.spaces_width == 0)
        if empty: vc.assume(conj(r.width == 0))
        out += [r, part(Style('last'), [SStr('id')])]
    return Parts(out)

def a_line(vc):
    """a line in one of the states add_word leaves it"""
    state = ('new', 'first word', 'space', 'word')[vc.choose(4, 'state')]
    align = 'jl'[vc.choose(2, 'align')]
    cls = instr.lookup(L)[2]
    mw = vc.real('max_width')
    fonts = object()
    line = raw(L, fonts=fonts, max_width=mw, text_align=align, justify_min_factor=0.7, factor=0.7 if align == 'j' else 1,
        top_margin=0, started=state in ('space', 'word'), firstWordAdded=state != 'new', is_last_word_space=True)
    if state == 'word': line.is_last_word_space = False
    if state == 'space': line.is_last_word_space = vc.choose(2, 'after a space') == 0
    style, ids = Style('style'), [SStr('id')]
    line.line_parts = Parts([])
    if line.started:
        last = Part(style, fonts, ids)
        some_words(vc, last, 'words')
        last.words.tail = [' ']
        line.line_parts = Parts([Run('line'), last])
        # the space is in the width of the part
        vc.assume(last.spaces_width >= last.space_width)
    empty = state in ('new', 'space')
    nxt = raw(L, fonts=fonts, max_width=mw, text_align=align, justify_min_factor=0.7, factor=line.factor, top_margin=0, started=False,
        firstWordAdded=False, is_last_word_space=True, next_line=None)
    nxt.line_parts = waiting(vc, line, style, ids, empty)
    line.next_line = nxt
    instr.stub(L + '.get_widths', lambda self: measure(self.line_parts))
    instr.stub(T + 'PDFTextLinePart', Part)
    line.bottom_ = vc.real('bottom')
    old = instr.stub(L + '.bottom', property(lambda self: self.bottom_))
    return line, state

def minw(line, parts):
    w, s = measure(parts)
    return w + s * line.factor

@contract('PDFTextLine.add_word', funcs=[L + '.add_word', L + '.add_accumulated', L + '.min_width'], props=['C04', 'C05', 'C06'], time=300)
def add_word(vc):
    line, state = a_line(vc)
    nxt = line.next_line
    c_line, c_next = content(line.line_parts), content(nxt.line_parts)
    w_line, w_next = minw(line, line.line_parts), minw(line, nxt.line_parts)
    last = items(line.line_parts)[-1] if items(line.line_parts) else None
    waiting_last = items(nxt.line_parts)[-1]
    space = vc.choose(2, 'space') == 0
    word = ' ' if space else SStr('new word', maybe_empty=False, meth=dict(isspace=lambda s: False))
    if state == 'word':
        # the words waiting fit: they were accepted by add_word
        vc.assume(w_line + w_next < line.max_width)
    r = instr.lookup(L + '.add_word')[2](line, word)
    vc.check('status', isinstance(r, dict) and r.get('status') in ('added', 'ignored', 'preadded', 'finished'))
    s = r['status']
    n_line = content(line.line_parts)
    here = [(word, waiting_last.style, waiting_last.ids)]
    if s == 'ignored':
        vc.check('only_spaces_are_ignored', space)
        vc.check('first_word_is_waited_for', state in ('new', 'space'))
        vc.check('nothing_changes', line.next_line is nxt and same_content(n_line, c_line) and same_content(content(nxt.line_parts), c_next))
        vc.check('state_kept', line.started is (state == 'space') and line.firstWordAdded is (state == 'space'))
        vc.cover('ignored')
        return
    if space:
        vc.check('space_ends_the_words_waiting', s == 'added')
        vc.check('next_line_is_kept', line.next_line is nxt)
        vc.check('words_are_in_the_line_in_order', same_content(n_line[:-1], c_line + c_next) and n_line[-1][0] == ' ')
        lp = items(line.line_parts)[-1]
        vc.check('style_of_the_space', n_line[-1][1] is lp.style)
        vc.check('nothing_waits', content(nxt.line_parts) == [])
        np = items(nxt.line_parts)
        vc.check('next_words_have_the_same_style', len(np) == 1 and np[0].style is lp.style and np[0].ids is lp.ids)
        vc.check('started', line.started is True and line.firstWordAdded is True)
        lastw = minw(line, line.line_parts) - lp.space_width * line.factor
        vc.check('widths_are_added', eq(lastw, w_line + w_next))
        if state == 'word': vc.check('words_fit', lastw < line.max_width)
        vc.check('width_of_the_next_words', conj(eq(measure(nxt.line_parts)[0], 0), eq(measure(nxt.line_parts)[1], 0)))
        vc.cover('accumulated')
        return
    if s in ('added', 'preadded'):
        vc.check('next_line_is_kept', line.next_line is nxt)
        vc.check('line_is_kept', same_content(n_line, c_line))
        vc.check('word_waits', same_content(content(nxt.line_parts), c_next + here))
        if s == 'added':
            vc.check('only_the_first_word_is_sure', state in ('new', 'first word'))
            vc.check('first_word', line.firstWordAdded is True and line.started is False)
        else:
            vc.check('not_the_first_word', state in ('space', 'word'))
            vc.check('words_fit', minw(line, line.line_parts) + minw(line, nxt.line_parts) < line.max_width)
            vc.check('word_is_not_a_space', line.is_last_word_space is False and line.started is True)
        vc.cover(s)
        return
    # the line is finished
    vc.check('only_with_words', state in ('space', 'word'))
    vc.check('new_line', r.get('new_line') is not None)
    new = r['new_line']
    vc.check('only_the_last_space_is_dropped', same_content(n_line, c_line[:-1]))
    vc.check('last_space_is_not_measured', eq(minw(line, line.line_parts), w_line - last.space_width * line.factor))
    vc.check('all_the_words_waiting_are_moved', same_content(content(new.next_line.line_parts), c_next + here))
    vc.check('new_line_has_no_words_before', content(new.line_parts) == [] and new is not line and new.next_line is not new and new.next_line is not line)
    vc.check('word_did_not_fit', minw(line, new.next_line.line_parts) + w_line >= line.max_width)
    vc.check('new_line_has_its_first_word', new.firstWordAdded is True and new.started is False)
    vc.check('new_line_is_below', eq(new.top_margin, line.bottom_))
    vc.check('new_line_is_like_this_one', new.text_align is line.text_align and new.fonts is line.fonts and eq(new.next_line.max_width, line.max_width)
        and new.next_line.text_align is line.text_align and new.next_line.next_line is None)
    vc.cover('finished')

@contract('PDFTextLine.add_line_part', funcs=[L + '.add_line_part'], props=['C04', 'C06', 'C08', 'C09'])
def add_line_part(vc):
    line, state = a_line(vc)
    nxt = line.next_line
    if vc.choose(2, 'no next line'):
        line.next_line = None
        before = []
    else: before = content(nxt.line_parts)
    c_line = content(line.line_parts)
    style, ids = Style('new'), [SStr('new id')]
    if line.next_line is None:
        # a new line without words yet
        vc.assume(True)
    p = instr.lookup(L + '.add_line_part')[2](line, style, ids) if vc.choose(2, 'positional') else \
        instr.lookup(L + '.add_line_part')[2](line, style=style, ids=ids)
    n = line.next_line
    vc.check('next_line', n is nxt or before == [])
    vc.check('part_is_the_last_one_waiting', items(n.line_parts)[-1] is p)
    vc.check('style_of_the_part', p.style is style and p.ids is ids and words(p.words) == [])
    vc.check('words_are_kept', same_content(content(n.line_parts), before) and same_content(content(line.line_parts), c_line))
    vc.check('like_this_line', eq(n.max_width, line.max_width) and n.text_align is line.text_align and n.fonts is line.fonts)
    vc.cover('done')

@contract('PDFTextLine.__init__', funcs=[L + '.__init__'], props=['C04', 'C05'])
def new_line(vc):
    """a new line is in the first of the states of a line"""
    mw, tm = vc.real('max_width'), vc.real('top_margin')
    align = 'lrcj'[vc.choose(4, 'align')]
    fonts = object()
    l = instr.lookup(L)[2](fonts, mw, align, tm)
    vc.check('empty', l.line_parts == [] and l.next_line is None and l.started is False and l.firstWordAdded is False)
    vc.check('given', l.fonts is fonts and eq(l.max_width, mw) and l.text_align == align and eq(l.top_margin, tm))
    vc.check('spaces_are_narrowed_only_when_justified', eq(l.factor, 1) if align != 'j' else conj(l.factor > 0, l.factor <= 1))
