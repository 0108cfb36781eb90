"""C08, C09, C10: the trees of pages, destinations and outlines, for any number of them."""
from pyvc.engine import *
from pyvc.stream import *
from pyvc import instr

D = 'pdfme.pdf.PDF'

def CTX_():
    from pyvc import engine
    return engine.CTX

class Ref:
    """the id of an object"""
    def __init__(self, name): self.name = name
    def __repr__(self): return 'Ref(%s)' % self.name

class Base:
    """PDFBase by its contract: add makes a new object with a new id"""
    _vc_ghost = True
    def __init__(self): self.made = []
    def add(self, v):
        o = new_object(v, 'object %d' % len(self.made))
        self.made = self.made + [o]
        return o

def new_object(v, name):
    o = object.__new__(instr.lookup('pdfme.parser.PDFObject')[2])
    o.id, o.value = Ref(name), v
    return o

def pdf_with(**k):
    p = object.__new__(instr.lookup(D)[2])
    p.base = Base()
    p.root = new_object({'Type': b'/Catalog'}, 'root')
    for n, v in k.items(): setattr(p, n, v)
    return p

# ---------------------------------------------------------------------------

class Outlines:
    """after k outlines: they are chained with their siblings and have their parent; the locals that started without an
    outline have the last one, and the one that started at 0 how many are visible"""
    def __init__(self, pdf, parent, level): self.pdf, self.parent, self.level = pdf, parent, level
    def check(self, st, k, env, mode):
        vc = st.ctx
        if mode == 'establish':
            self.nones = [n for n, v in env._d.items() if v is None]
            self.zeros = [n for n, v in env._d.items() if type(v) is int and v == 0]
            if len(self.zeros) != 1 or not self.nones: vc.abort(Unsupported('locals of the loop'))
            vc.cover('establish')
            return
        made = self.pdf.base.made
        vc.check('one_object_for_an_outline', len(made) == 1)
        o, out = made[0], self.cur
        v = o.value
        vc.check('title', v.get('Title') is out['text'])
        vc.check('destination', v.get('Dest') is out['label'])
        vc.check('parent', v.get('Parent') is self.parent.id)
        if self.P is None:
            vc.check('first_has_no_previous', 'Prev' not in v)
            vc.check('first_of_the_parent', self.parent.value.get('First') is o.id)
        else:
            vc.check('previous', v.get('Prev') is self.P.id)
            vc.check('next_of_the_previous', self.P.value.get('Next') is o.id)
            vc.check('first_of_the_parent_is_kept', self.parent.value.get('First') is self.F.id)
        vc.check('no_next_yet', 'Next' not in v)
        kids = self.calls
        has = bool(kids)
        vc.check('children_once', len(kids) <= 1)
        if not has:
            c = out.get('children')
            vc.check('children_are_added', True if c is None else len(c) == 0 if isinstance(c, list) else c.n == 0)
            vc.check('no_count_without_children', 'Count' not in v or eq(v['Count'], 0))
            add = 0
        else:
            children, par, lev, c = kids[0]
            vc.check('children_of_the_outline', children is out.get('children') and par is o)
            vc.check('level_of_the_children', eq(lev, self.level - 1))
            vc.check('count_is_there', 'Count' in v)
            open_ = self.level > 1
            vc.check('count_of_visible_descendants', disj(conj(open_, eq(v['Count'], c)), conj(neg(open_), eq(v['Count'], -c))))
            add = ite(open_, c, SNum(z3.IntVal(0)))
        vc.check('no_other_entries', set(v) <= {'Title', 'Dest', 'Parent', 'Prev', 'Count', 'First', 'Last'} and ('First' in v) == has)
        if not all(env.get(n) is o for n in self.nones): vc.abort(Unsupported('locals of the loop'))
        vc.check('visible_outlines', eq(env[self.zeros[0]], self.V + 1 + add), kind='inv')
        vc.cover('outline with children' if has else 'outline')
    def havoc(self, st, k):
        vc = st.ctx
        pv = self.parent.value
        for key in ('First',): st.mod.add((id(pv), ('item', key)))
        st.data.setdefault('_keep', []).append(pv)
        self.calls = []
        self.V = vc.int('visible')
        if bool(SBool(const(k) == 0)):
            self.P = None
            vc.assume(self.V == 0)
        else:
            self.P = new_object({}, 'previous')
            self.F = self.P if bool(SBool(const(k) == 1)) else new_object({}, 'first')
            pv['First'] = self.F.id
            vc.assume(self.V >= k)
        st.set(self.pdf.base, 'made', [])
        out = {n: self.P for n in self.nones}
        out[self.zeros[0]] = self.V
        return out

@contract('PDF._build_outlines_tree', funcs=[D + '._build_outlines_tree'], props=['C10'])
def outlines_tree(vc):
    level = vc.int('level')
    parent = new_object({'Type': b'/Outlines'}, 'parent')
    pdf = pdf_with()
    loop = Outlines(pdf, parent, level)
    n = vc.int('outlines'); vc.assume(n >= 1)
    def elem(k):
        o = {'text': SStr('text'), 'label': SStr('label'), 'level': vc.int('own level')}
        c = vc.choose(3, 'children')
        if c == 1: o['children'] = []
        if c == 2:
            m = vc.int('children'); vc.assume(m >= 1)
            o['children'] = SList('children', m, lambda i: None)
        loop.cur = o
        return o
    outs = SList('outlines', n, elem, loop)
    def rec(self, children, par, lev):
        c = vc.int('visible children'); vc.assume(c >= 1)
        loop.calls.append((children, par, lev, c))
        par.value['First'], par.value['Last'] = Ref('first child'), Ref('last child')
        return c
    f = instr.stub(D + '._build_outlines_tree', rec)
    r = f(pdf, outs, parent, level)
    vc.check('last_of_the_parent', parent.value.get('Last') is loop.P.id)
    vc.check('first_of_the_parent_at_the_end', parent.value.get('First') is loop.F.id)
    vc.check('returns_the_visible_outlines', eq(r, loop.V))
    vc.cover('done')

@contract('PDF._build_outlines', funcs=[D + '._build_outlines'], props=['C10'])
def outlines(vc):
    calls = []
    level = vc.int('outlines_level')
    n = vc.int('outlines'); vc.assume(n >= 0)
    outs = SList('outlines', n, lambda i: None)
    pdf = pdf_with(outlines=outs, outlines_level=level)
    def rec(self, o, parent, lev):
        c = vc.int('visible'); vc.assume(c >= 1)
        calls.append((o, parent, lev, c))
        return c
    instr.stub(D + '._build_outlines_tree', rec)
    instr.lookup(D + '._build_outlines')[2](pdf)
    made = pdf.base.made
    if not calls:
        vc.check('nothing_without_outlines', conj(n == 0, made == [] and 'Outlines' not in pdf.root.value))
        return
    vc.check('only_with_outlines', n > 0)
    vc.check('one_root', len(calls) == 1 and len(made) == 1)
    o, parent, lev, c = calls[0]
    vc.check('all_the_outlines', o is outs and parent is made[0] and eq(lev, level))
    vc.check('catalog', pdf.root.value.get('Outlines') is made[0].id)
    vc.check('count', 'Count' in made[0].value and eq(made[0].value['Count'], c))
    vc.check('no_more_entries', set(made[0].value) <= {'Type', 'Count'} and made[0].value.get('Type', b'/Outlines') == b'/Outlines')
    vc.cover('done')


# ---------------------------------------------------------------------------

K = 7
class Dests:
    """before the position i of the keys: i // 7 nodes are complete, and the current one has the keys after them"""
    def __init__(self, pdf, keys, vals, n, first): self.pdf, self.keys, self.vals, self.n, self.first = pdf, keys, vals, n, first
    NAMES = ('i', 'obj', 'count', 'new_keys', 'new_vals')
    def node(self, start, m):
        """node with the m entries from the position start"""
        lo = self.keys.at(start) if self.first else self.vals.at(start)[0]
        v = {'Limits': [lo, None]}
        if self.first: v['Names'] = [x for j in range(m) for x in (self.keys.at(start + j), self.vals.at(start + j))]
        else: v['Kids'] = [self.keys.at(start + j) for j in range(m)]
        return v
    def same_node(self, vc, v, w):
        key = 'Names' if self.first else 'Kids'
        vc.check('entries_of_the_node', set(v) == set(w) and len(v[key]) == len(w[key]) and all(a is b for a, b in zip(v[key], w[key])))
        vc.check('lower_limit', v['Limits'][0] is w['Limits'][0])
    def hi(self, i): return self.keys.at(i) if self.first else self.vals.at(i)[1]
    def check(self, st, k, env, mode):
        vc = st.ctx
        if mode == 'establish':
            if any(n not in env for n in self.NAMES): vc.abort(Unsupported('locals of the loop'))
            if not (env['i'] == 0 and env['count'] == 0 and env['new_keys'] == [] and env['new_vals'] == []): vc.abort(Unsupported('locals of the loop'))
            vc.cover('establish')
            return
        m, i = self.m, self.i
        made = self.pdf.base.made
        vc.check('next_position', eq(env['i'], i + 1), kind='inv')
        if m == 0:
            vc.check('a_new_node', len(made) == 1)
            o = made[0]
            want = self.node(i, 1)
            vc.check('nodes_counted', eq(env['count'], self.C + 1), kind='inv')
        else:
            vc.check('the_same_node', made == [])
            o = self.obj
            want = self.node(i - m, m + 1)
            vc.check('nodes_counted', eq(env['count'], self.C), kind='inv')
        vc.check('current_node', env['obj'] is o, kind='inv')
        self.same_node(vc, o.value, want)
        nk, nv = env['new_keys'], env['new_vals']
        vc.check('finished_lists', nk is self.NK and nv is self.NV)
        last = bool(i + 1 == self.n)
        if m == K - 1 or last:
            vc.check('upper_limit', o.value['Limits'][1] is self.hi(i))
            vc.check('node_is_passed_to_the_next_level', len(nk.tail) == 1 and len(nv.tail) == 1 and nk.tail[0] is o.id and nv.tail[0] is o.value['Limits'])
            vc.cover('node finished')
        else:
            vc.check('upper_limit_not_set', o.value['Limits'][1] is None)
            vc.check('node_is_not_finished', nk.tail == [] and nv.tail == [])
            vc.cover('node not finished')
    def variant(self, env): return self.n - env['i']
    def havoc(self, st, k):
        vc = st.ctx
        i = self.i = vc.int('i')
        vc.assume(i >= 0); vc.assume(i <= self.n)
        q = vc.int('finished')
        vc.assume(q >= 0)
        st.set(self.pdf.base, 'made', [])
        self.obj = None
        end = bool(i == self.n)
        if not end:
            self.m = m = vc.choose(K, 'entries in the node')
            vc.assume(i == q * K + m)
            C = q + (1 if m else 0)
            if m:
                self.obj = new_object(self.node(i - m, m), 'node')
        else:
            # n >= 1 positions, all in nodes
            m = vc.choose(K, 'entries in the last node') + 1
            vc.assume(i == (q - 1) * K + m)
            C = q
            self.obj = new_object(self.node(i - m, m), 'node')
            self.obj.value['Limits'][1] = self.hi(i - 1)
        self.C = vc.int('count'); vc.assume(self.C == C)
        self.q = q
        ids = {}
        self.NK = SList('new_keys', q, lambda j: Ref('id'))
        self.NV = SList('new_vals', q, lambda j: [SStr('lo'), SStr('hi')])
        return {'i': i, 'obj': self.obj, 'count': self.C, 'new_keys': self.NK, 'new_vals': self.NV}

@contract('PDF._build_dests_tree', funcs=[D + '._build_dests_tree'], props=['C09'])
def dests_tree(vc):
    first = (True, False)[vc.choose(2, 'level')]
    n = vc.int('keys'); vc.assume(n >= 1)
    keys = SList('keys', n, lambda i: SStr('key') if first else Ref('id'))
    vals = SList('vals', n, lambda i: SStr('val') if first else [SStr('lo'), SStr('hi')])
    pdf = pdf_with()
    if vc.choose(2, 'names'): pdf.root.value['Names'] = {'Other': b'x'}
    names = pdf.root.value.get('Names')
    loop = Dests(pdf, keys, vals, n, first)
    vc.stubs['while:' + D + '._build_dests_tree'] = loop
    calls = []
    f = instr.stub(D + '._build_dests_tree', lambda self, a, b, first_level=True: calls.append((a, b, first_level)))
    args = (pdf, keys, vals) + (() if first else (False,))
    f(*args)
    if calls:
        vc.check('next_level_has_the_nodes_in_order', len(calls) == 1 and calls[0][0] is loop.NK and calls[0][1] is loop.NV and calls[0][2] is False)
        vc.check('next_level_is_smaller', conj(loop.q >= 2, loop.q < n))
        vc.check('catalog_not_set', pdf.root.value.get('Names') is names and (names is None or 'Dests' not in names))
        vc.cover('more than one node')
    else:
        vc.check('only_one_node', loop.q == 1)
        vc.check('root_of_the_tree', pdf.root.value['Names'].get('Dests') is loop.obj.id)
        vc.check('other_names_kept', names is None or pdf.root.value['Names'] is names and names['Other'] == b'x')
        vc.check('root_has_no_limits', 'Limits' not in loop.obj.value)
        vc.cover('root')

class DestOf:
    def __init__(self, key): self.key = key

class Labels(SDict):
    """the destinations by label"""
    def __getitem__(self, k): return DestOf(k)
    def __len__(self): raise Unsupported('len')
    def _vc_len(self): return self._items.n
    def __bool__(self): return bool(self._items.n > 0)

class Sortable(SList):
    order = False
    def sort(self):
        if self.order is False and self.kind is list: self.order = True
        else: CTX_().abort(Unsupported('sort'))

@contract('PDF._build_dests', funcs=[D + '._build_dests'], props=['C09'])
def dests(vc):
    """keys in order, each with its own destination; the order of python texts of Latin-1 characters is that of their bytes"""
    n = vc.int('labels'); vc.assume(n >= 0)
    keys = {}
    def key(i):
        k = str(simp(const(i)))
        if k not in keys: keys[k] = SStr('label')
        return keys[k]
    items = Sortable('items', n, lambda i: (key(i), DestOf(key(i))))
    class L(Labels):
        def keys(self): return Sortable('labels', n, key)
        def values(self): CTX_().abort(Unsupported('values'))
    pdf = pdf_with(dests=L('dests', items))
    def sort(x, **k):
        if k or not isinstance(x, (SList, SDict)): vc.abort(Unsupported('sorted'))
        if isinstance(x, SDict): x = x.keys()
        r = Sortable(x.name, x.n, x.elem); r.order = True
        return r
    vc.stubs['sorted'] = sort
    calls = []
    instr.stub(D + '._build_dests_tree', lambda self, a, b, first_level=True: calls.append((a, b, first_level)))
    instr.lookup(D + '._build_dests')[2](pdf)
    if not calls:
        vc.check('nothing_without_labels', n == 0)
        return
    vc.check('only_with_labels', n > 0)
    a, b, first = calls[0]
    if not (isinstance(a, SList) and isinstance(b, SList)): raise Unsupported('keys of the tree')
    base = a
    while getattr(base, 'source', None) is not None: base = base.source
    if not isinstance(base, Sortable): raise Unsupported('keys of the tree')
    vc.check('sorted_keys', base.order and len(calls) == 1 and first is True and a.tail == [] and b.tail == [])
    vc.check('all_the_keys', conj(a.n == n, b.n == n))
    i = vc.int('position'); vc.assume(i >= 0); vc.assume(i < n)
    vc.check('keys_in_their_order', a.at(i) is key(i))
    vc.check('destination_of_the_key', isinstance(b.at(i), DestOf) and b.at(i).key is key(i))
    vc.cover('labels')

# ---------------------------------------------------------------------------

class Page:
    """a PDFPage"""
    _vc_ghost = True
    def __init__(self, vc):
        self.width, self.height = vc.real('width'), vc.real('height')
        self.page = new_object({'Type': b'/Page', 'Resources': {}}, 'page')

class Pages:
    """after k pages: one node with their ids"""
    def __init__(self, pdf): self.pdf = pdf
    def check(self, st, k, env, mode):
        vc = st.ctx
        lists = [n for n, v in env._d.items() if isinstance(v, list) and v == []]
        zeros = [n for n, v in env._d.items() if type(v) is int and v == 0]
        if mode == 'establish':
            if len(lists) != 1 or len(zeros) != 1: vc.abort(Unsupported('locals of the loop'))
            self.list, self.count = lists[0], zeros[0]
            vc.cover('establish')
            return
        made = self.pdf.base.made
        if self.node is None:
            vc.check('a_node', len(made) == 1)
            node = made[0]
            ids = []
        else:
            if made: vc.abort(Unsupported('more than one node of pages'))
            node = self.node
        v = node.value
        vc.check('node_of_pages', v.get('Type') == b'/Pages' and set(v) == {'Type', 'Kids', 'Count'})
        kids = v['Kids']
        tail = kids.tail if isinstance(kids, SList) else kids
        vc.check('page_is_added_at_the_end', (kids is self.kids if self.node else True) and len(tail) == 1 and tail[0] is self.cur.page.id)
        vc.check('count_of_pages', eq(v['Count'], self.k + 1))
        p = self.cur.page.value
        vc.check('parent_of_the_page', p.get('Parent') is node.id)
        box = p.get('MediaBox')
        vc.check('size_of_the_page', isinstance(box, list) and len(box) == 4 and conj(eq(box[0], 0), eq(box[1], 0), eq(box[2], self.cur.width), eq(box[3], self.cur.height)))
        vc.check('page_keeps_its_contents', p.get('Type') == b'/Page' and p.get('Resources') is self.res and set(p) == {'Type', 'Resources', 'Parent', 'MediaBox'})
        if not (isinstance(env[self.list], list) and env[self.list] == [node] and env[self.count] == 1): vc.abort(Unsupported('locals of the loop'))
        vc.cover('page')
    def havoc(self, st, k):
        vc = st.ctx
        self.k = k
        st.set(self.pdf.base, 'made', [])
        l = st.pre[self.list]
        st.touch(l)
        if bool(SBool(const(k) == 0)):
            self.node = None
            l[:] = []
            return {self.list: l, self.count: 0}
        self.kids = SList('kids', k, lambda i: Ref('kid'))
        self.node = new_object({'Type': b'/Pages', 'Kids': self.kids, 'Count': SNum(const(k))}, 'node')
        st.touch(self.node.value); st.touch(self.kids)
        l[:] = [self.node]
        return {self.list: l, self.count: 1}

@contract('PDF._build_pages_tree', funcs=[D + '._build_pages_tree'], props=['C08'])
def pages_tree(vc):
    pdf = pdf_with()
    n = vc.int('pages'); vc.assume(n >= 1)
    loop = Pages(pdf)
    def elem(k):
        loop.cur = Page(vc); loop.res = loop.cur.page.value['Resources']
        # what changes of a page is checked after the iteration
        return Opaque(loop.cur)
    pages = SList('pages', n, elem, loop)
    calls = []
    f = instr.stub(D + '._build_pages_tree', lambda self, *a, **k: calls.append(a))
    f(pdf, pages)
    if calls: raise Unsupported('pages tree of more than one level')
    vc.check('root_of_the_tree', pdf.root.value.get('Pages') is loop.node.id)
    vc.check('root_has_all_the_pages', eq(loop.node.value['Count'], n) and loop.node.value['Kids'] is loop.kids and loop.kids.tail == [])
    vc.check('root_has_no_parent', 'Parent' not in loop.node.value)
    vc.cover('tree')

class Opaque:
    """an object the loop may change"""
    _vc_ghost = False
    def __init__(self, o): object.__setattr__(self, 'o', o)
    def __getattr__(self, n): return getattr(object.__getattribute__(self, 'o'), n)
    def __setattr__(self, n, v): setattr(object.__getattribute__(self, 'o'), n, v)
