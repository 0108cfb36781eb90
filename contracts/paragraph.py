"""C04, C05, C06, C15: a paragraph laid out in a rectangle, and continued in others."""
from pyvc.engine import *
from pyvc.stream import *
from pyvc import instr
from textline import raw, ctx, T, rmax, family

B = T + 'PDFTextBase'

class Parts:
    """the parts of a line, before and after the last words are added"""
    def __init__(self, line): self.line, self.extended = line, []
    def extend(self, o): self.extended.append(o)

class Line:
    """a line by the contracts of PDFTextLine: its height depends on the parts it has"""
    _vc_ghost = True
    def __init__(self, vc, name='line'):
        self.name, self.h0, self.h1 = name, vc.real('height'), vc.real('height with the last words')
        vc.assume(self.h0 >= 0); vc.assume(self.h1 >= self.h0)
        self.line_parts = Parts(self)
        self.next_line = None
        self.max_width = vc.real('max_width')
    @property
    def height(self): return self.h1 if self.line_parts.extended else self.h0

def paragraph(vc, **k):
    """a paragraph while it is laid out"""
    has_list = bool(vc.choose(2, 'list'))
    p = raw(T + 'PDFText', fonts=object(), width=vc.real('width'), height=vc.real('height'), indent=vc.real('indent'),
        line_height=vc.real('line_height'), text_align='l', list_text=None, list_indent=None, list_style=None, list_setup_done=False, pdf=None,
        lines=[], text='', graphics='', ids={}, used_fonts=set(), current_line_used_fonts=set(), x=0, y=0)
    vc.assume(p.line_height > 0)
    if has_list:
        p.list_text = SStr('list_text', maybe_empty=False)
        p.list_setup_done = bool(vc.choose(2, 'list is set up'))
        if p.list_setup_done: set_list(vc, p)
    for n, v in k.items(): setattr(p, n, v)
    return p

def set_list(vc, p):
    p.list_setup_done = True
    p.list_indent = vc.real('list_indent')
    p.list_state = raw(T + 'PDFState', size=vc.real('list_size'), font_family=SStr('list family', maybe_empty=False), font_mode=SStr('mode', maybe_empty=False))
    vc.assume(p.list_state.size > 0)

@contract('PDFTextBase.add_current_line', funcs=[B + '.add_current_line'], props=['C03', 'C04', 'C05', 'C07', 'C08'])
def add_current_line(vc):
    p = paragraph(vc, is_first_line=bool(vc.choose(2, 'first')), first_line_added=bool(vc.choose(2, 'other lines')), current_height=vc.real('current_height'))
    if p.is_first_line: vc.assume(SBool(z3.BoolVal(not p.first_line_added)))
    vc.assume(p.current_height >= 0)
    line = p.current_line = Line(vc)
    if vc.choose(2, 'words waiting'):
        line.next_line = Line(vc, 'next')
    last = bool(vc.choose(2, 'is_last'))
    for n in ('last_part', 'last_word', 'last_part_added', 'last_word_added', 'last_part_line', 'last_word_line'): setattr(p, n, vc.int(n))
    start = p.last_part_line, p.last_word_line
    end = p.last_part_added, p.last_word_added
    used, new = ('F', 'n'), ('G', 'b')
    p.used_fonts = {used}
    p.current_line_used_fonts = {new}
    lines = p.lines
    shown, setups = [], []
    def to_stream(self, l, is_last=False):
        shown.append((l, is_last, self.current_height))
        self.is_first_line = False
    def setup(self):
        setups.append(1)
        set_list(vc, self)
    instr.stub(B + '.add_line_to_stream', to_stream)
    instr.stub(B + '.setup_list', setup)
    ch, first, added = p.current_height, p.is_first_line, p.first_line_added
    done = p.list_setup_done
    nxt = line.next_line
    r = instr.lookup(B + '.add_current_line')[2](p, *([last] if last or vc.choose(2, 'arg') else []))
    ext = line.line_parts.extended
    if last and nxt is not None: vc.check('last_words_are_added_once', len(ext) == 1 and ext[0] is nxt.line_parts)
    else: vc.check('words_waiting_are_not_in_the_line', ext == [])
    h = line.height
    if p.list_text is not None:
        vc.check('list_is_set_up_once', p.list_setup_done is True and len(setups) == (0 if done else 1))
        if first: h = rmax(h, p.list_state.size)
    if added: h = h * p.line_height
    vc.check('answer', r is True or r is False)
    if r:
        vc.check('line_fits', p.current_height <= p.height)
        vc.check('height_of_the_line_is_added', eq(p.current_height, ch + h))
        vc.check('line_is_shown_once', len(shown) == 1 and shown[0][0] is line and bool(shown[0][1]) == last)
        vc.check('next_position_is_after_the_line', conj(eq(p.last_part_line, end[0]), eq(p.last_word_line, end[1])))
        vc.check('fonts_of_the_line_are_used', {used, new} <= p.used_fonts and p.current_line_used_fonts <= p.used_fonts)
        vc.check('not_the_first_anymore', p.first_line_added is True)
        vc.cover('added')
    else:
        vc.check('line_does_not_fit', ch + h > p.height)
        vc.check('nothing_is_shown', shown == [] and p.used_fonts == {used})
        vc.check('height_is_kept', eq(p.current_height, ch))
        vc.check('continues_at_the_start_of_the_line', conj(eq(p.last_part, start[0]), eq(p.last_word, start[1])))
        vc.cover('not added')

@contract('PDFTextBase.init', funcs=[B + '.init'], props=['C04', 'C05', 'C06', 'C07', 'C15'])
def init(vc):
    p = paragraph(vc, last_part=vc.int('last_part'), last_word=vc.int('last_word'))
    vc.assume(p.last_part >= 0); vc.assume(p.last_word >= 0)
    for n in ('lines', 'text', 'graphics', 'ids', 'used_fonts', 'current_line_used_fonts'): delattr(p, n)
    a, b = p.last_part, p.last_word
    instr.lookup(B + '.init')[2](p)
    first = conj(a == 0, b == 0)
    vc.check('first_line_only_at_the_beginning', p.is_first_line == first if isinstance(p.is_first_line, bool) and False else
        (first if p.is_first_line else neg(first)))
    w = p.width - (p.indent if p.is_first_line else 0) - (p.list_indent if p.list_setup_done else 0)
    vc.check('width_of_the_first_line', eq(p.current_line.max_width, w))
    vc.check('continues_at_the_position', conj(eq(p.last_part, a), eq(p.last_word, b)))
    vc.check('position_of_the_line', conj(eq(p.last_part_line, a), eq(p.last_word_line, b), eq(p.last_part_added, a), eq(p.last_word_added, b)))
    vc.check('nothing_shown', p.text == '' and p.graphics == '' and p.ids == {} and p.lines == [] and p.used_fonts == set()
        and p.current_line_used_fonts == set() and eq(p.current_height, 0))
    vc.check('stream_has_no_state_yet', p.last_state is None and p.last_factor is None and p.last_fill is None and p.last_color is None
        and p.last_stroke_width is None and p.started is False and p.first_line_added is False)
    vc.check('position_in_the_stream', conj(eq(p.last_indent, 0), eq(p.y_, 0)))
    vc.check('alignment_of_the_line', p.current_line.text_align is p.text_align and p.current_line.fonts is p.fonts)
    vc.cover('done')

@contract('PDFTextBase.state', funcs=[B + '.get_state', B + '.set_state', B + '.setup'], props=['C15'])
def state(vc):
    p = paragraph(vc, last_part=vc.int('last_part'), last_word=vc.int('last_word'))
    a, b = p.last_part, p.last_word
    cls = instr.lookup(B)[2]
    s = cls.get_state(p)
    q = paragraph(vc, last_part=0, last_word=0)
    vc.check('state_is_a_new_dict', type(s) is dict and all(s is not v for v in p.__dict__.values()))
    p.last_part, p.last_word = vc.int('later part'), vc.int('later word')
    cls.set_state(q, **s)
    vc.check('restored', conj(eq(q.last_part, a), eq(q.last_word, b)))
    x, y, w, h = [vc.real(n) if vc.choose(2, n) else None for n in ('x', 'y', 'width', 'height')]
    old = q.x, q.y, q.width, q.height
    cls.setup(q, x, y, w, h)
    for n, v, o in zip(('x', 'y', 'width', 'height'), (x, y, w, h), old): vc.check(n, eq(getattr(q, n), o if v is None else v))

# ---------------------------------------------------------------------------

class WordLoop:
    """before the word w of the part: the words up to `last_*_added` are in the line, the ones after them wait"""
    def __init__(self, p, index): self.p, self.index = p, index
    def check(self, st, k, env, mode):
        vc = st.ctx
        p = self.p
        if mode == 'establish':
            vc.check('part_is_added_before_its_words', len(self.parts) == 1)
            self.start()
            return
        vc.check('word_is_added_once', len(self.calls) == 1 and self.calls[0][0] is self.part['text'].at(self.lo + self.k))
        ans = self.calls[0][1]
        here = conj(eq(p.last_part_added, self.index), eq(p.last_word_added, self.lo + self.k + 1))
        kept = conj(eq(p.last_part_added, self.A[0]), eq(p.last_word_added, self.A[1]))
        if ans == 'added': vc.check('words_up_to_this_one_are_in_the_line', here)
        elif ans == 'ignored': vc.check('position_kept', disj(kept, here))
        else: vc.check('words_waiting_are_not_in_the_line', kept)
        if ans == 'finished':
            vc.check('finished_line_is_added_once', len(self.added) == 1 and self.added[0] is True)
            w = p.width - (p.list_indent if p.list_text is not None else 0)
            vc.check('goes_on_in_the_new_line', p.current_line is self.new and eq(self.new.max_width, w) and eq(self.new.next_line.max_width, w))
            vc.cover('line added')
        else:
            vc.check('no_line_is_added', self.added == [])
            vc.check('same_line', p.current_line is self.line)
        vc.cover(ans)
    def start(self):
        self.calls, self.added, self.new = [], [], None
    def havoc(self, st, k):
        vc = st.ctx
        p = self.p
        self.k = k
        self.start()
        self.A = vc.int('part added'), vc.int('word added')
        st.set(p, 'last_part_added', self.A[0]); st.set(p, 'last_word_added', self.A[1])
        self.line = self.a_line(vc)
        st.set(p, 'current_line', self.line)
        st.touch(p.used_fonts)
        return {}
    def a_line(self, vc):
        l = Line(vc)
        l.add_word = lambda word: self.add_word(l, word)
        return l
    def add_word(self, line, word):
        vc = ctx()
        if line is not self.p.current_line: vc.check('words_go_to_the_current_line', False)
        ans = ('added', 'ignored', 'preadded', 'finished')[vc.choose(4, 'status')]
        if ans == 'ignored': vc.assume(str_eq(word, ' ') if not isinstance(word, str) else SBool(z3.BoolVal(word == ' ')))
        self.calls.append((word, ans))
        r = {'status': ans}
        if ans == 'finished':
            self.new = r['new_line'] = self.a_line(vc)
            self.new.next_line = Line(vc)
        return r

@contract('PDFTextBase.add_part', funcs=[B + '.add_part'], props=['C04', 'C06', 'C08', 'C18', 'C21'], time=300)
def add_part(vc):
    p = paragraph(vc)
    index = vc.int('part_index'); vc.assume(index >= 0)
    lw = p.last_word = vc.int('last_word'); vc.assume(lw >= 0)
    p.last_part = p.last_part_line = vc.int('last_part'); p.last_word_line = vc.int('last_word_line')
    p.last_part_added, p.last_word_added = vc.int('part'), vc.int('word')
    loop = WordLoop(p, index)
    loop.lo = lw
    n = vc.int('words'); vc.assume(n >= 0)
    kind = ('list', 'text', 'variable', 'none')[vc.choose(4, 'text')]
    loop.words = SList('words', n, lambda i: ' ' if vc.choose(2, 'space') else SStr('word', maybe_empty=False))
    def pos(lo, hi, step):
        loop.range = (lo, hi, step)
        return loop
    vc.stubs['range_loop'] = pos
    own = {'s': vc.real('size'), 'zz': SStr('value')}
    ids = [SStr('id')]
    part = {'style': own, 'ids': ids}
    text = SStr('text')
    if vc.choose(2, 'no style'):
        del part['style']; own = {}
    if vc.choose(2, 'no ids'):
        del part['ids']; ids = None
    if kind == 'list': part['text'] = loop.words
    if kind == 'text': part['text'] = text
    with_doc = vc.choose(2, 'no document') == 0
    if kind == 'variable':
        # the words of the value it had in another page
        part['text'] = (['7'] if vc.choose(2, 'shown before') else '0') if with_doc else text
        part['var'] = '$page'
    if with_doc:
        class Context:
            def get(self, k, d=None):
                if k != '$page': vc.abort(Unsupported('variable'))
                return Value()
        class Value:
            def _vc_str(self): return text
        class Doc: context = Context()
        p.pdf = Doc()
    pieces_ = SList('pieces', vc.int('pieces'), None)
    class Re:
        _vc_ghost = True
        def split(self, pattern, s):
            vc.check('text_is_divided', s is text)
            vc.check('divided_at_spaces', pattern == '( +)')
            n2 = pieces_.n; vc.assume(n2 >= 1)
            def el(i):
                blank = vc.bool('blank')
                return SStr('piece', blank=blank, meth=dict(isspace=lambda s: blank))
            pieces_.elem = el
            return pieces_
    instr.stub('pdfme.text.re', Re())
    def dropped(it, cond):
        x = it.at(vc.int('any'))
        if not instr.truth(cond(x)): vc.check('only_empty_pieces_are_dropped', x.len == 0)
    vc.stubs['filter'] = dropped
    line = p.current_line = loop.a_line(vc)
    loop.part = part
    loop.parts, loop.setups = [], []
    F = ('family', 'mode')
    def add_line_part(style=None, ids=None):
        loop.parts.append((style, ids))
        return raw(T + 'PDFTextLinePart', state=raw(T + 'PDFState', font_family=F[0], font_mode=F[1]))
    line.add_line_part = add_line_part
    def setup(self):
        loop.setups.append(1)
        set_list(vc, self)
    instr.stub(B + '.setup_list', setup)
    def add_current_line(self, is_last=False):
        vc.check('line_is_not_the_last', not is_last)
        vc.check('finished_line', self.current_line is loop.line)
        r = vc.choose(2, 'line fits') == 0
        loop.added.append(r)
        self.current_line = None if r else self.current_line
        return r
    instr.stub(B + '.add_current_line', add_current_line)
    done = p.list_setup_done
    defaults = dict(instr.lookup('pdfme.text.TEXT_DEFAULTS')[2])
    r = instr.lookup(B + '.add_part')[2](p, part, index)
    vc.check('defaults_kept', instr.lookup('pdfme.text.TEXT_DEFAULTS')[2] == defaults)
    if kind == 'none':
        vc.check('goes_on', bool(r))
        vc.check('nothing_without_text', loop.parts == [] or loop.setups == [])
        return
    vc.check('one_part', len(loop.parts) == 1)
    style, pids = loop.parts[0]
    want = dict(defaults); want.update(own)
    vc.check('style_of_the_part', set(style) == set(want) and all(style[k] is want[k] or style[k] == want[k] for k in style) and style is not own)
    vc.check('ids_of_the_part', pids is ids if ids is not None else not pids)
    vc.check('font_is_used', F in p.current_line_used_fonts)
    if p.list_text is not None: vc.check('list_is_set_up', p.list_setup_done is True and len(loop.setups) == (0 if done else 1))
    ws = part['text']
    if not isinstance(ws, SList): raise Unsupported('words of the part')
    if kind != 'list':
        if ws.source is not pieces_: raise Unsupported('words of the text')
        j = vc.int('j'); vc.assume(j >= 0); vc.assume(j < ws.n)
        made = [x for x in pieces_.memo.values()]
        w = ws.at(j)
        new = [x for x in pieces_.memo.values() if all(x is not y for y in made)]
        vc.check('word_or_space', len(new) == 1 and (w is new[0] and neg(new[0].data['blank']) if isinstance(w, SStr) else w == ' ' and new[0].data['blank']))
        vc.cover('text')
    if r is False or loop.added == [False]:
        vc.check('stops_when_the_line_does_not_fit', r is False and loop.added == [False])
        vc.cover('line does not fit')
        return
    vc.check('goes_on', bool(r))
    lo, hi, step = loop.range
    vc.check('all_the_words', conj(eq(lo, lw), eq(hi, ws.n)) and step == 1)
    vc.check('next_part_starts_at_its_first_word', eq(p.last_word, 0))
    vc.cover('done')

class PartsLoop:
    """before the part at an index: the parts before it are laid out, and the words of this one start at `last_word`"""
    def __init__(self, p, lo, hi, step):
        self.p, self.range = p, (lo, hi, step)
        self.calls = []
    def check(self, st, k, env, mode):
        vc = st.ctx
        p = self.p
        if mode == 'establish':
            vc.check('nothing_before_the_parts', self.calls == ['init'] and p.finished is False)
            self.calls = []
            return
        vc.check('stops_when_a_line_does_not_fit', self.last is not False, kind='inv')
        vc.check('next_part_starts_at_its_first_word', eq(p.last_word, 0), kind='inv')
        vc.check('not_finished', p.finished is False, kind='inv')
        part, i = self.cur, self.i
        vc.check('one_step', len(self.calls) == 1)
        c = self.calls[0]
        if 'type' in part:
            vc.check('line_break_ends_the_line', c[0] == 'line' and c[1] is True and c[2] is self.line)
            vc.check('continues_after_the_line_break', conj(eq(c[3], i + 1), eq(c[4], 0)))
            w = p.width - (p.list_indent if p.list_setup_done else 0)
            n = p.current_line
            vc.check('new_line', n is not self.line and type(n).__name__ == 'PDFTextLine' and n.line_parts == [] and n.next_line is None)
            vc.check('width_of_the_new_line', eq(n.max_width, w))
            vc.check('new_line_is_like_the_others', n.fonts is p.fonts and n.text_align is p.text_align)
            vc.cover('line break')
        else:
            vc.check('part_is_added', c[0] == 'part' and c[1] is part and eq(c[2], i))
            vc.check('first_word_of_the_part', eq(c[3], ite(SBool(const(self.k) == 0), self.lw, 0)))
            vc.cover('part')
    def havoc(self, st, k):
        vc = st.ctx
        p = self.p
        self.k, self.calls = k, []
        self.i = self.range[0] + k
        w = vc.int('last_word')
        vc.assume(eq(w, ite(SBool(const(k) == 0), self.lw, 0)))
        for n in ('last_part_added', 'last_word_added'): st.set(p, n, vc.int(n))
        st.set(p, 'last_word', w)
        self.line = Line(vc)
        self.line.line_parts, self.line.next_line = [], None
        st.set(p, 'current_line', self.line)
        return {}

@contract('PDFTextBase.run', funcs=[B + '.run'], props=['C04', 'C05'])
def run_(vc):
    p = paragraph(vc, finished=False, last_part=vc.int('last_part'), last_word=vc.int('last_word'), last_part_added=0, last_word_added=0)
    vc.assume(p.last_part >= 0); vc.assume(p.last_word >= 0)
    lw = p.last_word
    n = vc.int('parts'); vc.assume(n >= p.last_part)
    def elem(k):
        part = {'type': 'br'} if vc.choose(2, 'line break') else {'text': SStr('text'), 'style': {}, 'ids': []}
        # a paragraph is never resumed inside of a line break
        if 'type' in part: vc.assume(implies(eq(k, p.last_part), lw == 0))
        loop.cur = part
        return part
    p.content = SList('content', n, elem)
    loop = PartsLoop(p, 0, 0, 1)
    loop.lw = lw
    def pos(lo, hi, step):
        loop.range = (lo, hi, step)
        return loop
    vc.stubs['range_loop'] = pos
    def init(self): loop.calls.append('init'); self.current_line = loop.line = Line(vc)
    def fits(): return vc.choose(2, 'fits') == 0
    def add_part(self, part, i):
        loop.calls.append(('part', part, i, self.last_word))
        r = fits()
        loop.last = r
        if r: self.last_word = 0
        return r
    def add_current_line(self, is_last=False):
        loop.calls.append(('line', bool(is_last), self.current_line, self.last_part_added, self.last_word_added))
        loop.last = fits()
        if loop.last: self.current_line = None
        return loop.last
    res = object()
    def result(self): return res
    for f in (init, add_part, add_current_line): instr.stub(B + '.' + f.__name__, f)
    instr.stub(B + '.result', property(result))
    loop.last = None
    args = [vc.real(a) for a in ('x', 'y', 'w', 'h')] if vc.choose(2, 'arguments') else []
    lp = p.last_part
    r = instr.lookup(B + '.run')[2](p, *args)
    if args: vc.check('rectangle', conj(*[eq(getattr(p, a), v) for a, v in zip(('x', 'y', 'width', 'height'), args)]))
    vc.check('result', r is res)
    if loop.last is False:
        vc.check('not_finished', p.finished is False)
        vc.cover('does not fit')
        return
    vc.check('last_line_is_added', len(loop.calls) == 1 and loop.calls[0][0] == 'line' and loop.calls[0][1] is True and loop.calls[0][2] is loop.line)
    lo, hi, step = loop.range
    vc.check('all_the_parts', conj(eq(lo, lp), eq(hi, n)) and step == 1)
    vc.check('finished', p.finished is True)
    vc.cover('finished')

class FirstPart:
    """none of the first k parts has text"""
    def check(self, st, k, env, mode):
        if mode == 'preserve': st.ctx.check('parts_without_text_are_skipped', not self.text and not self.br, kind='inv')
    def havoc(self, st, k):
        self.text = self.br = False
        return {}
    def elem(self, k):
        vc = ctx()
        self.br = self.text = False
        c = vc.choose(4, 'part')
        if c == 0:
            self.br = True
            return {'type': 'br'}
        if c == 1: return {'style': {'s': vc.real('other size')}}
        self.text = True
        self.style = {'s': vc.real('size'), 'zz': SStr('value')} if c == 2 else None
        part = {'text': SStr('text') if vc.choose(2, 'str') else SList('words', vc.int('n'), None)}
        if self.style is not None: part['style'] = self.style
        return part

@contract('PDFTextBase.setup_list', funcs=[B + '.setup_list'], props=['C03', 'C05', 'C06', 'C07', 'C08'])
def setup_list(vc):
    p = paragraph(vc)
    vc.assume(SBool(z3.BoolVal(p.list_text is not None and not p.list_setup_done)))
    p.list_indent = vc.real('list_indent') if vc.choose(2, 'indent') else None
    gi = p.list_indent
    own = {'s': vc.real('list size'), 'yy': SStr('value')}
    kind = vc.choose(3, 'list_style')
    p.list_style = (None, own, SStr('name'))[kind]
    p.pdf = object()
    def process_style(style, pdf=None):
        if style is not p.list_style or pdf is not p.pdf: vc.abort(Unsupported('process_style'))
        return own
    instr.stub('pdfme.utils.process_style', process_style)
    loop = FirstPart()
    loop.text = loop.br = False
    n = vc.int('parts'); vc.assume(n >= 0)
    p.content = SList('content', n, loop.elem, loop)
    line = p.current_line = Line(vc)
    mw = line.max_width
    defaults = dict(instr.lookup('pdfme.text.TEXT_DEFAULTS')[2])
    made = []
    class P:
        def __init__(self, style, fonts=None, ids=None):
            made.append((style, fonts))
            self.state = raw(T + 'PDFState', size=vc.real('s'), font_family='family', font_mode='mode')
            self.wide = vc.real('width of the marker')
        def get_word_width(self, t):
            vc.check('width_of_the_marker', t is p.list_text)
            return self.wide
    parts = []
    def make(*a, **k):
        o = P(*a, **k); parts.append(o)
        return o
    instr.stub(T + 'PDFTextLinePart', make)
    instr.lookup(B + '.setup_list')[2](p)
    vc.check('one_part', len(made) == 1 and made[0][1] is p.fonts)
    want = dict(defaults)
    if loop.text: want.update(loop.style or {})
    if kind: want.update(own)
    style = made[0][0]
    vc.check('style_of_the_marker', set(style) == set(want) and all(style[k] is want[k] or style[k] == want[k] for k in style) and style is not own)
    vc.check('defaults_kept', instr.lookup('pdfme.text.TEXT_DEFAULTS')[2] == defaults)
    vc.check('indent', eq(p.list_indent, parts[0].wide if gi is None else gi))
    vc.check('line_is_narrower', eq(line.max_width, mw - p.list_indent))
    vc.check('state_of_the_marker', p.list_state is parts[0].state and p.list_setup_done is True)
    vc.check('font_is_used', ('family', 'mode') in p.current_line_used_fonts)
    vc.cover('text' if loop.text else 'no text')

# ---------------------------------------------------------------------------

@contract('get_paragraph_stream', funcs=['pdfme.utils.get_paragraph_stream', B + '.stream'], props=['C06', 'C07'])
def paragraph_stream(vc):
    """text and graphics are moved to the place of the paragraph, and the state of the page is kept"""
    x, y = vc.real('x'), vc.real('y')
    text, graphics = SStr('text', starts_ws=True), SStr('graphics', starts_ws=True)
    if vc.choose(2, 'whole paragraph'):
        p = raw(T + 'PDFText', x=x, y=y, text=text, graphics=graphics)
        r = instr.lookup(B + '.stream')[2].fget(p)
    else:
        r = instr.lookup('pdfme.utils.get_paragraph_stream')[2](x, y, text, graphics)
    seen = []
    def opaque(g, s):
        if s is graphics:
            vc.check('graphics_are_moved', conj(near(g.cx, x), near(g.cy, y)))
            vc.check('state_is_saved', len(g.stack) == 1 and not g.intext)
        elif s is text:
            vc.check('text_is_moved', g.intext and conj(near(g.tx + g.cx, x), near(g.ty + g.cy, y)))
            vc.check('no_state_is_saved', g.stack == [])
        else: vc.abort(Unsupported('opaque'))
        seen.append(s)
    g = GState()
    try: g.run(r, opaque)
    except BadStream as e:
        vc.check('valid_stream', False, detail=str(e)); return
    vc.check('complete', g.stack == [] and not g.intext and g.path == [] and g.cx == 0 and g.cy == 0)
    vc.check('graphics_once', len([s for s in seen if s is graphics]) == 1 or conj(graphics.len == 0, graphics not in [s for s in seen if s is graphics]))
    vc.check('text_once', len([s for s in seen if s is text]) == 1 or text.len == 0)
    if len(seen) == 2: vc.check('graphics_are_behind_the_text', seen[0] is graphics)
    vc.cover('done')

@contract('PDFState.__init__', funcs=[T + 'PDFState.__init__'], props=['C03', 'C06', 'C08'])
def state_init(vc):
    """the state of a style; the font is the one of its family and mode"""
    modes = {}
    class Fonts:
        _vc_ghost = True
        fonts = {}
        def get_font(self, f, m):
            asked.append((f, m))
            return font
    asked, font = [], object()
    fonts = Fonts()
    std = instr.lookup('pdfme.fonts.STANDARD_FONTS')[2]
    names = sorted(std) + [None]
    f = names[vc.choose(len(names), 'family')]
    if f is None:
        f = SStr('added family', maybe_empty=False)
        for s in std: vc.assume(neg(str_eq(f, s)))
    else: fonts.fonts = {f: {m: object() for m in std[f]}}
    style = {'f': f, 's': vc.real('size'), 'c': [vc.real('color')]}
    for k in 'bi':
        c = vc.choose(3, k)
        if c: style[k] = c == 2
    if vc.choose(2, 'rise'): style['r'] = vc.real('rise')
    before = dict(style)
    s = instr.lookup(T + 'PDFState')[2](style, fonts)
    mode = ('b' if style.get('b') else '') + ('i' if style.get('i') else '') or 'n'
    if f in std: mode = mode if mode in std[f] else 'n'
    vc.check('family', s.font_family is f)
    vc.check('mode', s.font_mode == mode)
    vc.check('font', s.font is font and len(asked) == 1 and asked[0][0] is f and asked[0][1] == mode)
    vc.check('size', eq(s.size, style['s']))
    vc.check('rise', eq(s.rise, style['r'] * style['s'] if 'r' in style else 0))
    vc.check('color', len(s.color.color) == 1 and eq(s.color.color[0], style['c'][0]) and not s.color.stroke)
    vc.check('style_kept', set(style) == set(before) and all(style[k] is before[k] for k in before))
    vc.cover('done')

@contract('PDFTextLinePart.__init__', funcs=[T + 'PDFTextLinePart.__init__', T + 'PDFTextLinePart.get_char_width', T + 'PDFTextLinePart.get_word_width'],
    props=['C05', 'C06'])
def part_init(vc):
    size, sp, ww = vc.real('size'), vc.real('space'), vc.real('word')
    class Font:
        _vc_ghost = True
        def get_char_width(self, c):
            vc.check('space', c == ' ')
            return sp
        def get_text_width(self, t):
            vc.check('word', t is word)
            return ww
    word = SStr('word')
    state = raw(T + 'PDFState', size=size, font=Font())
    calls = []
    def make(style, fonts):
        calls.append((style, fonts))
        return state
    instr.stub(T + 'PDFState', make)
    style = {'u': True} if vc.choose(2, 'underline') else {}
    if vc.choose(2, 'background'): style['bg'] = [vc.real('bg')]
    fonts, ids = object(), [SStr('id')]
    p = instr.lookup(T + 'PDFTextLinePart')[2](style, fonts, ids)
    vc.check('state', p.state is state and len(calls) == 1 and calls[0][0] is style and calls[0][1] is fonts)
    vc.check('no_words', p.words == [] and eq(p.width, 0) and eq(p.spaces_width, 0))
    vc.check('width_of_a_space', eq(p.space_width, size * sp))
    vc.check('width_of_a_word', eq(p.get_word_width(word), size * ww))
    vc.check('underline', bool(p.underline) == ('u' in style))
    bg = p.background.color if p.background is not None else None
    vc.check('background', bg is None if 'bg' not in style else bg is not None and len(bg) == 1 and eq(bg[0], style['bg'][0]))
    vc.check('ids', p.ids is ids and p.style is style)
    vc.cover('done')
