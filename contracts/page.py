"""C08, C09, C16, C17: pages - their geometry, resources, annotations and images."""
from pyvc.engine import *
from pyvc.stream import *
from pyvc import instr
from textline import raw, ctx
import z3

G = 'pdfme.page.PDFPage'

class Ref:
    """reference to an object"""
    _vc_ghost = True
    def __init__(self, name='ref'): self.name = name
    def __repr__(self): return '<%s>' % self.name

class Base:
    """PDFBase by the contract of add: a new object with what was given"""
    _vc_ghost = True
    def __init__(self): self.objects = []
    def add(self, obj):
        o = raw('pdfme.parser.PDFObject', id=Ref('object %d' % len(self.objects)), value=obj)
        self.objects.append(o)
        return o
    def of(self, ref):
        l = [o for o in self.objects if o.id is ref]
        return l[0] if l else None

def geometry(vc, pos=True):
    d = {n: vc.real(n) for n in ('width', 'height', 'margin_top', 'margin_bottom', 'margin_left', 'margin_right')}
    return d

def page_of(vc, x=True, **k):
    """a page with any geometry and any cursor"""
    d = geometry(vc)
    p = raw(G, **d)
    p.content_width = d['width'] - d['margin_right'] - d['margin_left']
    p.content_height = d['height'] - d['margin_top'] - d['margin_bottom']
    p.x, p._y = vc.real('x'), vc.real('_y')
    p.x_objects, p.current_id = {}, 0
    for n, v in k.items(): setattr(p, n, v)
    return p

def same_char(a, b):
    if isinstance(a, SNum) or isinstance(b, SNum): return eq(a, b)
    return a == b

def all_(cs):
    return conj(*cs)

def at_start(vc, p, d):
    vc.check('content_width', eq(p.content_width, d['width'] - d['margin_left'] - d['margin_right']))
    vc.check('content_height', eq(p.content_height, d['height'] - d['margin_top'] - d['margin_bottom']))
    vc.check('cursor_at_the_left_margin', eq(p.x, d['margin_left']))
    vc.check('cursor_at_the_top_margin', eq(p.y, d['margin_top']))
    vc.check('cursor_from_the_bottom', eq(p._y, d['height'] - d['margin_top']))

@contract('PDFPage.__init__', funcs=[G + '.__init__', G + '.go_to_beginning', G + '.y'], props=['C08', 'C17'])
def page_init(vc):
    d = geometry(vc)
    base = Base()
    p = object.__new__(instr.lookup(G)[2])
    p.__init__(base, d['width'], d['height'], **{k: v for k, v in d.items() if k.startswith('margin')})
    for k, v in d.items(): vc.check(k, eq(getattr(p, k), v))
    at_start(vc, p, d)
    vc.check('page_object', any(p.page is o for o in base.objects) and p.page.value.get('Type') == b'/Page' and p.page.value.get('Resources') == {})
    s = base.of(p.page.value.get('Contents'))
    vc.check('contents', s is not None and s is p.stream and s.value.get('__stream__') == {} and s.value.get('Filter') in (None, b'/FlateDecode'))
    vc.check('nothing_yet', p.x_objects == {} and p.current_id == 0 and 'Annots' not in p.page.value)
    vc.cover('init')

@contract('PDFPage.cursor', funcs=[G + '.y', G + '.go_to_beginning'], props=['C17'])
def page_cursor(vc):
    """y is the distance of the cursor to the top of the page"""
    p = page_of(vc)
    d = dict(p.__dict__)
    vc.check('y_from_the_top', eq(p.y, p.height - p._y))
    v = vc.real('v')
    p.y = v
    vc.check('y_is_set', conj(eq(p.y, v), eq(p._y, p.height - v), eq(p.x, d['x'])))
    p.content_width, p.content_height = vc.real('cw'), vc.real('ch')
    p.go_to_beginning()
    at_start(vc, p, d)
    vc.check('geometry_kept', all(p.__dict__[k] is d[k] for k in ('width', 'height', 'margin_top', 'margin_bottom', 'margin_left', 'margin_right')))
    vc.cover('cursor')

class Contents:
    """the content streams of a page: their keys are below `n`"""
    _vc_ghost = True
    def __init__(self): self.new = []
    def __setitem__(self, k, v): self.new.append((k, v))

@contract('PDFPage.add', funcs=[G + '.add'], props=['C08', 'C17'])
def page_add(vc):
    """what is added comes after everything that was added before, and replaces nothing"""
    n = vc.int('n'); vc.assume(n >= 0)
    c = Contents()
    p = page_of(vc, current_id=n, stream=raw('pdfme.parser.PDFObject', id=Ref(), value={'__stream__': c}))
    s = SStr('stream', bytes_=bool(vc.choose(2, 'bytes')), maybe_empty=False)
    r = instr.lookup(G + '.add')[2](p, s)
    vc.check('added_once', len(c.new) == 1)
    k, v = c.new[0]
    vc.check('at_a_new_position', conj(eq(k, n), eq(r, n), p.current_id > n))
    vc.check('content', isinstance(v, (bytes, SStr)) and pieces(v)[0] in (s, s.data.get('_conv')) and len(pieces(v)) == 1)
    vc.check('as_bytes', isinstance(v, bytes) or isinstance(v, SStr) and v.is_bytes)
    vc.cover('added')

def page_obj(res, **k):
    return raw('pdfme.parser.PDFObject', id=Ref('page'), value=dict(Resources=res, **k))

@contract('PDFPage.add_font', funcs=[G + '.add_font'], props=['C06', 'C08'])
def page_font(vc):
    """the font is in the resources with its name, and the other fonts still are"""
    f = Ref('font')
    before = [{}, {'Font': {}}, {'Font': {'F1': Ref()}, 'XObject': {'Im0': Ref()}}, {'Font': {'F1': Ref(), 'F2': f}}, {'XObject': {}}][vc.choose(5, 'resources')]
    res = {k: dict(v) for k, v in before.items()}
    p = page_of(vc, page=page_obj(res))
    instr.lookup(G + '.add_font')[2](p, 'F2', f)
    after = p.page.value['Resources']
    want = {k: dict(v) for k, v in before.items()}
    want.setdefault('Font', {})['F2'] = f
    vc.check('resources', after == want)
    vc.cover('font')

@contract('PDFPage.annots', funcs=[G + '.add_annot', G + '.add_link', G + '.add_reference'], props=['C09'])
def page_annots(vc):
    """one more link, over the rectangle, that opens what was given"""
    old = [None, [], [{'Type': b'/Annot', 'Subtype': b'/Link', 'Rect': [1, 2, 3, 4]}]][vc.choose(3, 'annots')]
    v = page_obj({}, **({} if old is None else {'Annots': list(old)}))
    p = page_of(vc, page=v)
    rect = [vc.real('x0'), vc.real('y0'), vc.real('x1'), vc.real('y1')]
    given = list(rect)
    if vc.choose(2, 'reference'):
        d = SStr('label', maybe_empty=False)
        instr.lookup(G + '.add_reference')[2](p, d, rect)
        what = lambda a: a.get('Dest') is d and 'A' not in a
    else:
        d = Ref('uri')
        instr.lookup(G + '.add_link')[2](p, d, rect)
        what = lambda a: a.get('A') is d and 'Dest' not in a
    an = v.value['Annots']
    vc.check('one_more', isinstance(an, list) and len(an) == len(old or []) + 1 and an[:-1] == (old or []))
    a = an[-1]
    vc.check('link', (a.get('Type'), a.get('Subtype')) == (b'/Annot', b'/Link'))
    vc.check('opens_what_was_given', what(a))
    r = a.get('Rect')
    vc.check('rectangle', isinstance(r, (list, tuple)) and len(r) == 4 and conj(*[eq(x, y) for x, y in zip(r, given)]))
    vc.cover('annotation')

class Names:
    """images of a page: n names Im0 ... Im<n-1> (and those added since)"""
    _vc_ghost = True
    def __init__(self, n): self.n, self.new = n, {}
    def _vc_len(self): return self.n + len(self.new)
    def __len__(self): raise Unsupported('len of the images')
    def __setitem__(self, k, v): self.new[k] = v
    def items(self): ctx().abort(Unsupported('images of the page'))
    def __contains__(self, k): ctx().abort(Unsupported('name in the images'))

class Drawn(dict):
    """names of the n images of a page, for those that matter here; as many as the images in its resources"""
    def __init__(self, n, known):
        self.n, self.known = n, len(known)
        dict.__init__(self, known)
    def _vc_len(self): return self.n + (dict.__len__(self) - self.known)

@contract('PDFPage.add_image', funcs=[G + '.add_image'], props=['C08', 'C16', 'C17'])
def page_image(vc):
    """the image is drawn once with its lower left corner at the cursor, under a name of its own"""
    n = vc.int('images'); vc.assume(n >= 0)
    ref = Ref('image')
    used = vc.choose(3, 'use')
    xs, names = {Ref('other'): 'Im0'}, Names(n)
    res = {}
    if used == 0: xs = {}; vc.assume(n == 0)
    else: res['XObject'] = names; vc.assume(n >= 1)
    old = None
    if used == 2:
        j = vc.int('j'); vc.assume(j >= 0); vc.assume(j < n)
        xs[ref] = old = 'Im%s' % j
    out = []
    xs = Drawn(n, xs)
    p = page_of(vc, page=page_obj(res), x_objects=xs)
    instr.stub(G + '.add', lambda self, c: out.append(c))
    w, h = vc.real('w'), vc.real('h'); vc.assume(w > 0); vc.assume(h > 0)
    x, y = p.x, p._y
    before = dict(xs)
    instr.lookup(G + '.add_image')[2](p, ref, w, h)
    vc.check('drawn_once', len(out) == 1)
    try: toks = lex(out[0])
    except BadStream as e:
        vc.check('valid_stream', False, detail=str(e)); return
    ops = [t[1] for t in toks if t[0] == 'op']
    vc.check('operators', ops == ['q', 'cm', 'Do', 'Q'] and toks[0] == ('op', 'q') and toks[-1] == ('op', 'Q') and len(toks) == 11)
    m = [t[1] for t in toks[1:7]]
    vc.check('size', conj(near(m[0], w), near(m[3], h), eq(m[1], 0), eq(m[2], 0)))
    vc.check('lower_left_corner_at_the_cursor', conj(near(m[4], x), near(m[5], y)))
    vc.check('separated', out[0][0] in ' \n' and pieces(out[0])[0][0] in ' \n')
    nm = toks[8]
    want = chars(p.x_objects[ref]) if ref in p.x_objects else []
    vc.check('name', nm[0] == 'name' and len(nm[1]) == len(want) and want and all_(same_char(a, b) for a, b in zip(nm[1], want)))
    name = p.x_objects[ref]
    xo = p.page.value['Resources'].get('XObject')
    if old is not None:
        vc.check('same_name', name == old and names.new == {} and xo is names)
    else:
        new = names.new if used else xo
        vc.check('in_the_resources', isinstance(new, dict) and list(new) == [name] and new[name] is ref)
        ps = pieces(name)
        if used: vc.check('name_of_its_own', len(ps) == 2 and ps[0] == 'Im' and isinstance(ps[1], SNum) and eq(ps[1], n))
        else: vc.check('first_name', name == 'Im0' or len(ps) == 2 and ps[0] == 'Im' and isinstance(ps[1], SNum) and eq(ps[1], 0))
    vc.check('others_kept', all(p.x_objects.get(k) == v for k, v in before.items()) and set(p.x_objects) == set(before) | {ref})
    vc.check('cursor_kept', conj(eq(p.x, x), eq(p._y, y)))
    vc.cover('image %d' % used)
