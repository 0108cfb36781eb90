"""C04, C06, C09: the definition of a paragraph becomes parts with a style and the ids of their links (structural induction: nested elements by this same contract)."""
from pyvc.engine import *
from pyvc.stream import *
from pyvc import instr
from textline import raw, ctx

T = 'pdfme.text.'
P = T + 'PDFText'

class Content:
    """list of the parts of a paragraph. Two equal parts without text are the same for what the list means, so that
    remove() of a part without text takes that part"""
    _vc_ghost = True
    def __init__(self, items): self.items = list(items)
    def append(self, x): self.items.append(x)
    def remove(self, x):
        if 'text' not in x: ctx().abort(Unsupported('remove'))
        ctx().check('only_parts_without_text_are_removed', str_eq(x['text'], ''))
        i = [i for i, y in enumerate(self.items) if y is x]
        ctx().check('part_to_remove_is_there', len(i) == 1)
        del self.items[i[0]]

class Chunk:
    """parts that were added before"""
    _vc_ghost = True
    def __init__(self, name): self.name = name
    def __repr__(self): return self.name

def is_br(x): return isinstance(x, dict) and set(x) == {'type'} and x['type'] == 'br'

class Common:
    def part_ok(self, vc, p, text, name='part'):
        """p is a part with that text and the style, ids and var of the element"""
        ok = isinstance(p, dict) and set(p) <= {'style', 'text', 'ids', 'var'} and {'style', 'text', 'ids'} <= set(p)
        vc.check(name + '_is_text', ok)
        vc.check(name + '_text', str_eq(p['text'], text))
        vc.check(name + '_style', p['style'] == self.style)
        vc.check(name + '_ids', sorted_ids(p['ids']) == self.ids and p['ids'] is not self.ids0)
        vc.check(name + '_var', p.get('var') is self.var)
    def new_part(self, text):
        d = dict(style=dict(self.style), text=text, ids=list(self.ids))
        if self.var is not None: d['var'] = self.var
        return d

def ident(x):
    """what an id is made of"""
    if isinstance(x, str): return tuple(p if isinstance(p, str) else id(p) for p in pieces(x))
    return (id(x),)
def sorted_ids(l):
    if not isinstance(l, list): return None
    return sorted((ident(x) for x in l), key=repr)

class Ids(list):
    pass

def find(env, f, what):
    l = [n for n, v in env._d.items() if not instr.is_poison(v) and f(v)]
    if not l: ctx().abort(Unsupported('no local with ' + what))
    return l

class Lines:
    """lines of a string after the first: a break and a new part each"""
    partial_ok = True
    def __init__(self, el): self.el = el
    def check(self, st, k, env, mode):
        vc, el = st.ctx, self.el
        c = el.obj.content.items
        if mode == 'establish':
            if not st.slist.partial: vc.abort(Unsupported('loop over all the lines'))
            vc.check('all_the_lines_after_the_first', eq(st.slist.n, st.slist.source.n - 1) if st.slist.lo == 1 else False)
            self.names = find(env, lambda v: v is c[-1], 'the last part')
            el.first_line(vc, c)
            return
        part = env[self.names[0]]
        old = self.old
        i = 1
        if len(c) == 4: vc.check('part_before_kept', c[1] is old and str_eq(c[1]['text'], str(self.X))); i = 2
        else: vc.check('part_before_had_no_text', neg(self.X.len > 0))
        vc.check('line_break_and_part', len(c) == i + 2 and c[0] is self.chunk and is_br(c[i]) and c[i + 1] is part)
        el.part_ok(vc, part, str(self.line), 'line')
        vc.cover('line')
    def havoc(self, st, k):
        el = self.el
        self.chunk, self.X = Chunk('lines before'), SStr('line before')
        self.old = el.new_part(str(self.X))
        st.touch(el.obj.content)
        el.obj.content.items = [self.chunk, self.old]
        st.touch(el.obj.content.items)
        return {n: self.old for n in self.names}
    def elem(self, i):
        if isinstance(i, int) and i == 0: return self.el.line0
        self.line = SStr('line')
        return self.line

class Elements(Common):
    """after k elements: what they mean follows what was there; `last` tells whether the last one was a text, which goes on in the same part"""
    def __init__(self, obj): self.obj = obj
    def check(self, st, k, env, mode):
        vc = st.ctx
        c = self.obj.content.items
        if mode == 'establish':
            self.names = find(env, lambda v: v is c[-1], 'the part')
            self.flags = find(env, lambda v: v is False, 'the kind of the last element')
            vc.check('own_part', len(c) == 2 and c[0] is self.chunk0)
            self.on_start(vc, c[1])
            return
        part, flag = env[self.names[0]], env[self.flags[0]]
        kind = self.kind
        vc.check('kind_of_the_last', flag is (True if kind == 'text' else False if kind == 'dict' else self.was_text))
        if kind == 'empty':
            vc.check('nothing_for_an_empty_text', part is self.part and c == self.before and self.unchanged())
        elif kind == 'dict':
            vc.check('nested_once', len(self.calls) == 1 and c == self.before + [self.calls[0]] and part is self.part and self.unchanged())
        elif self.parts_by_lines:
            # the invariant of the lines describes what is there
            l = self.lines
            vc.check('all_the_lines', c == [l.chunk, l.old] and part is l.old and str_eq(part['text'], str(l.X)))
        else:
            # the text of a number has no line breaks
            vc.check('part_is_the_last', c[-1] is part)
            self.first_line(vc, c)
        vc.cover(kind)
    def unchanged(self):
        return set(self.part) == self.keys and self.part['text'] is self.text0
    def first_line(self, vc, c):
        """the first line goes on in the part of the text before, or starts a part"""
        new = self.line0 if isinstance(self.line0, str) else str(self.line0)
        if self.was_text:
            vc.check('text_goes_on', c[:-1] == self.before[:-1] and c[-1] is self.part)
            self.part_ok(vc, c[-1], str(self.text) + new)
        else:
            kept = self.before
            if self.before[-1] is self.part and self.part['text'] == '': kept = self.before[:-1]
            vc.check('new_part', c[:-1] == kept and c[-1] is not self.part)
            self.part_ok(vc, c[-1], new)
    def havoc(self, st, k):
        vc = st.ctx
        self.was_text = bool(vc.choose(2, 'last was text'))
        if isinstance(k, int) and k == 0: self.was_text = False
        self.calls, self.lines, self.parts_by_lines = [], None, False
        chunk = Chunk('before')
        case = vc.choose(2, 'text of the part')
        if self.was_text:
            self.text = SStr('text before')
            self.part = self.new_part(str(self.text))
            items = [chunk, self.part]
        elif case == 0:
            self.part = self.new_part('')
            items = [chunk, self.part]
        else:
            self.part = self.new_part(str(SStr('text of a part before', maybe_empty=False)))
            items = [chunk]
        self.keys, self.text0 = set(self.part), self.part['text']
        st.touch(self.obj.content)
        self.obj.content.items = list(items)
        st.touch(self.obj.content.items)
        st.touch(self.part)
        self.before = list(items)
        out = {n: self.part for n in self.names}
        out.update({n: self.was_text for n in self.flags})
        return out
    def elem(self, k):
        vc = ctx()
        kind = vc.choose(3, 'kind of element')
        if kind == 0:
            e = SStr('element')
            self.lines = Lines(self)
            if not bool(e.len > 0): self.kind = 'empty'; return e
            self.kind = 'text'
            self.line0 = SStr('first line')
            def split(s, sep=None, *a):
                if sep != '\n' or a: vc.abort(Unsupported('split'))
                self.parts_by_lines = True
                n = vc.int('lines'); vc.assume(n >= 1)
                return SList('lines', n, self.lines.elem, self.lines)
            e.data['meth'] = dict(split=split)
            return e
        if kind == 1:
            self.kind, self.parts_by_lines = 'text', False
            x = vc.real('number')
            self.line0 = str(x)
            return x
        self.kind = 'dict'
        self.cur = {'nested': SStr('element')}
        return self.cur

class Uuid:
    _vc_ghost = True
    def __init__(self): self.s = SStr('uuid', maybe_empty=False)
    def _vc_str(self): return self.s

@contract('PDFText._recursive_content_parse', funcs=[P + '._recursive_content_parse', P + '._new_text_part'], props=['C03', 'C04', 'C06', 'C09', 'C10'], time=300)
def recursive_parse(vc):
    obj = raw(P, content=Content([]), fonts=object(), pdf=object())
    elems = Elements(obj)
    elems.chunk0 = Chunk('start')
    obj.content.items = [elems.chunk0]
    mk = lambda n: SStr(n, maybe_empty=False)
    vals = {n: mk(n) for n in ('parent a', 'parent b', 'parent c', 'string b', 'string c', 'style c')}
    parent = {'a': vals['parent a'], 'b': vals['parent b'], 'c': vals['parent c']}
    want = dict(parent)
    pid = mk('parent id')
    ids = [pid]
    elems.ids0 = ids
    expected = [ident(pid)]
    elems.var = None
    n = vc.int('elements'); vc.assume(n >= 0)
    elements = SList('elements', n, elems.elem, elems)
    form = vc.choose(4, 'form')
    label = ref = uri = outline = None
    single = None                 # an only element, given by itself
    no_elements = False
    styles = []
    def parse_style_str(s, fonts):
        vc.check('style_string', fonts is obj.fonts and s in (['key', ''] if form != 3 else [estyle]))
        return {'b': vals['string b'], 'c': vals['string c']} if form == 3 and s == estyle else {}
    estyle = 'b;c:red' 
    instr.stub('pdfme.utils.parse_style_str', parse_style_str)
    def process_style(s, pdf):
        vc.check('style_of_the_element', (s is None or s is sty) and pdf is obj.pdf)
        return {} if s is None else {'c': vals['style c']}
    sty = {'style': 1}
    instr.stub('pdfme.utils.process_style', process_style)
    class Json:
        _vc_ghost = True
        def dumps(self, o): return SStr('json', maybe_empty=False, of=o)
    instr.stub(T + 'json', Json())
    uuids = []
    def uuid4():
        uuids.append(Uuid()); return uuids[-1]
    instr.stub(T + 'uuid4', uuid4)
    def join(it, sep): return SStr('joined', joined=(it, sep))
    vc.stubs['join'] = join
    if form == 0: content = single = SStr('content')
    elif form == 1: content = elements
    elif form == 2: content = elements; elements.kind = tuple
    else:
        content = {}
        want['b'], want['c'] = vals['string b'], vals['string c']
        kind = vc.choose(4, 'value')
        if kind == 0: content['.' + estyle] = elements
        elif kind == 1: content['.' + estyle] = single = SStr('content')
        elif kind == 2: content['.' + estyle] = single = vc.real('number')
        else: no_elements = True; want['b'], want['c'] = parent['b'], parent['c']
        if vc.choose(2, 'style'): content['style'] = sty; want['c'] = vals['style c']
        extra = vc.choose(6, 'attributes')
        if extra == 1: own = mk('own id'); content['ids'] = [own]; expected.append(ident(own))
        if extra in (2, 5): label = mk('label'); content['label'] = label; expected.append(ident('$label:' + label))
        if extra == 3: ref = mk('ref'); content['ref'] = ref; expected.append(ident('$ref:' + ref))
        if extra == 4: uri = mk('uri'); content['uri'] = uri; expected.append(ident('$uri:' + uri))
        if extra in (4, 5):
            outline = {}
            if vc.choose(2, 'outline text'): outline['text'] = mk('outline text')
            if vc.choose(2, 'outline level'): outline['level'] = vc.int('level')
            content['outline'] = outline
        if vc.choose(2, 'var'):
            elems.var = content['var'] = mk('var')
    elems.style = want
    # the ids of the element: those of the parent and its own
    def on_start(c, part):
        e = list(expected)
        if outline is not None:
            l = label
            if label is None:
                vc.check('label_of_the_outline', len(uuids) == 1)
                l = uuids[0].s
                e.append(ident('$label:' + l))
            os = [x for x in part['ids'] if isinstance(x, str) and pieces(x)[0] == '$outline:']
            vc.check('one_outline', len(os) == 1 and len(pieces(os[0])) == 2)
            o = pieces(os[0])[1].data['of']
            vc.check('outline', isinstance(o, dict) and set(o) == {'text', 'level', 'label'} and o['label'] is l)
            vc.check('outline_level', eq(o['level'], outline.get('level', 1)))
            if 'text' in outline: vc.check('outline_text', o['text'] is outline['text'])
            elif elems.var is None and single is None and not no_elements:
                t = o['text']
                ok = isinstance(t, SStr) and 'joined' in t.data and t.data['joined'][1] == '' and t.data['joined'][0].source is elements
                vc.check('outline_text', ok)
            e.append(ident(os[0]))
        elems.ids_want = sorted(e, key=repr)
        vc.check('ids_of_the_element', sorted_ids(part['ids']) == elems.ids_want)
        elems.ids = elems.ids_want
        vc.cover('start')
    elems.on_start = on_start
    # the parts of the loop have the ids of the element
    elems.new_part = lambda text: dict(dict(style=dict(want), text=text, ids=list(elems.idlist)), **({'var': elems.var} if elems.var is not None else {}))
    def start(c, part):
        on_start(c, part)
        elems.idlist = part['ids']
        elems.part_ok(c, part, '', 'own_part')
    elems.on_start = start
    def rec(self, e, style, eids):
        vc.check('nested_element', self is obj and getattr(elems, 'kind', None) == 'dict' and e is elems.cur)
        vc.check('nested_style', style == want)
        vc.check('nested_ids', sorted_ids(eids) == elems.ids)
        ch = Chunk('nested')
        elems.calls.append(ch)
        obj.content.append(ch)
    old = instr.stub(P + '._recursive_content_parse', rec)
    # an only element
    text1 = None
    if elems.var is not None: text1 = '0'
    elif single is not None:
        if isinstance(single, SStr):
            elems.was_text, elems.text = False, None
            elems.kind = 'text'
            lines = elems.lines = Lines(elems)
            elems.line0 = SStr('first line')
            def split(s, sep=None, *a):
                if sep != '\n' or a: vc.abort(Unsupported('split'))
                elems.parts_by_lines = True
                m = vc.int('lines'); vc.assume(m >= 1)
                return SList('lines', m, lines.elem, lines)
            single.data['meth'] = dict(split=split)
            elems.before, elems.part = [elems.chunk0], {}
            def fl(c, items):
                vc.check('new_part', items[:-1] == [elems.chunk0])
                lone(vc, items[-1], str(elems.line0))
            elems.first_line = fl
        else: text1 = str(single)
    def lone(c, p, text):
        elems.on_start = None
        on_start(c, p)
        elems.idlist = p['ids']
        elems.part_ok(c, p, text)
    before_parent, before_ids = dict(parent), list(ids)
    old(obj, content, parent, ids)
    vc.check('style_of_the_parent_kept', parent == before_parent)
    vc.check('ids_of_the_parent_kept', ids == before_ids)
    c = obj.content.items
    if text1 is not None:
        vc.check('one_part', len(c) == 2 and c[0] is elems.chunk0)
        lone(vc, c[1], text1)
        vc.cover('only element')
    elif single is not None:
        if bool(single.len == 0):
            vc.check('nothing', c == [elems.chunk0]); vc.cover('empty text')
        else:
            l = elems.lines
            if c == [l.chunk]: vc.check('last_line_is_empty', neg(l.X.len > 0))
            else: vc.check('all_the_lines', c == [l.chunk, l.old] and str_eq(l.old['text'], str(l.X)) and l.X.len > 0)
            vc.cover('text')
    elif no_elements:
        vc.check('nothing', c == [elems.chunk0]); vc.cover('nothing')
    else:
        # the end of the loop: the part of the element stays if it has text
        b = elems.before
        if c == b: vc.check('no_empty_part', elems.part is not b[-1] or neg(str_eq(elems.part['text'], '')))
        else: vc.check('only_an_empty_part_is_taken', c == b[:-1] and elems.part is b[-1] and str_eq(elems.part['text'], ''))
        vc.cover('elements')

@contract('PDFText.__init__', funcs=[P + '.__init__', T + 'PDFTextBase.__init__'], props=['C04', 'C05', 'C06', 'C07'])
def text_init(vc):
    calls = []
    def rec(self, c, style, ids):
        calls.append((c, style, ids))
        self.content.append({'style': {}, 'text': 't', 'ids': []})
    instr.stub(P + '._recursive_content_parse', rec)
    mk = lambda n: SStr(n, maybe_empty=False)
    a = dict(width=vc.real('width'), height=vc.real('height'), x=vc.real('x'), y=vc.real('y'), fonts=Chunk('fonts'), pdf=Chunk('pdf'))
    opt = dict(text_align=mk('align'), line_height=vc.real('line_height'), indent=vc.real('indent'), list_text=mk('list_text'),
        list_indent=vc.real('list_indent'), list_style={'s': 1})
    given = vc.choose(2, 'options')
    c = [mk('text')]
    obj = object.__new__(instr.lookup(P)[2])
    obj.__init__(c, **a, **(opt if given else {}))
    defaults = instr.lookup(T + 'TEXT_DEFAULTS')[2]
    vc.check('parsed_once', len(calls) == 1 and calls[0][0] is c and calls[0][1] == defaults and calls[0][2] == [])
    for k, v in a.items(): vc.check('given_' + k, getattr(obj, k) is v)
    if given:
        for k, v in opt.items(): vc.check('given_' + k, getattr(obj, k) is v or k == 'list_style' and obj.list_style == v)
    else:
        vc.check('defaults', (obj.text_align, obj.line_height, obj.indent, obj.list_text, obj.list_indent, obj.list_style) == ('l', 1.1, 0, None, None, None))
    vc.check('parts', len(obj.content) == 1)
    vc.check('starts_at_the_first_word', (obj.last_part, obj.last_word, obj.finished, obj.is_first_line, obj.list_setup_done) == (0, 0, False, True, False))
    vc.cover('init')
