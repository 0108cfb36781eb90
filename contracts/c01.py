"""C01: the file structure written by PDFBase.output, for any number of objects of any size."""
from pyvc.engine import *
from pyvc.stream import *
from pyvc import instr

B = 'pdfme.base.PDFBase'
WS = ' \n\r\t'

class Buffer:
    """the file: how many bytes were written, and what was written since the last mark"""
    _vc_ghost = True
    def __init__(self, total):
        self.total, self.chunks = total, []
    def write(self, data):
        if not isinstance(data, (bytes, SStr)): raise TypeError('bytes expected')
        self.chunks = self.chunks + [data._t() if isinstance(data, SStr) else data]
        self.total = self.total + text_len(self.chunks[-1])
        return text_len(self.chunks[-1])
    def tell(self): return self.total
    def text(self): return b''.join(self.chunks)

class Obj:
    """an object of the document"""
    def __init__(self, k): self.k = k

def role(env, test):
    return [n for n, v in env._d.items() if test(v)]

class ObjectsLoop:
    """after k objects: the buffer has the header and the k objects, the cross-reference text has the k entries
    of 20 bytes, and the counter is the number of bytes written"""
    def __init__(self, buf, n): self.buf, self.n = buf, n

    def check(self, st, k, env, mode):
        vc = st.ctx
        if mode == 'establish':
            self.header()
            xs = role(env, lambda v: isinstance(v, (str, bytes, list)) and 'xref' in plain(v))
            if len(xs) != 1: vc.abort(Unsupported('no local with the cross-reference table'))
            self.xref = xs[0]
            self.isb = isinstance(env[self.xref], bytes)
            if not isinstance(env[self.xref], (str, bytes)): vc.abort(Unsupported('cross-reference table is not a text'))
            ps = pieces(env[self.xref])
            lead = ''.join(p for p in ps[:1] if isinstance(p, str))
            self.lead = lead.index('xref')
            vc.check('xref.keyword_on_its_own_line', lead[:self.lead].strip() == '' and lead[self.lead:] in ('xref\n0 ', 'xref\r\n0 '), kind='inv')
            vc.check('xref.size_and_first_entry', len(ps) == 3 and not isinstance(ps[1], str) and eq(ps[1], self.n + 1) and ps[2] == '\n0000000000 65535 f \n'
                if len(ps) == 3 else False, kind='inv')
            self.counters = role(env, lambda v: isinstance(v, (int, SNum)) and not isinstance(v, bool) and concrete_eq(v, self.buf.total))
            vc.cover('establish')
            return
        new = self.buf.text()
        ps = pieces(new)
        vc.check('object.number', len(ps) >= 4 and isinstance(ps[0], SNum) and eq(ps[0], self.k + 1))
        vc.check('object.definition', len(ps) == 4 and isinstance(ps[1], str) and ps[1].split() == ['0', 'obj'] and ps[1][0] == ' ' and ps[1][-1] in WS
            and ps[2] is self.text[0] and isinstance(ps[3], str) and ps[3].split() == ['endobj'] and ps[3][0] in WS and ps[3][-1] in WS)
        x = pieces(env[self.xref])
        vc.check('entry.extends_the_table', len(x) >= 2 and x[0] is self.X)
        vc.check('entry.format', len(x) == 3 and isinstance(x[1], Padded) and x[1].width == 10 and x[2] in (' 00000 n \n', ' 00000 n\r\n'))
        vc.check('entry.offset', eq(x[1].num, self.start) if len(x) > 1 and isinstance(x[1], Padded) else False)
        for c in self.counters:
            vc.check('counter.is_bytes_written', eq(env[c], self.buf.total), kind='inv')
        vc.cover('object written')

    def havoc(self, st, k):
        vc = st.ctx
        self.k = k
        self.X = SStr('xref_table', bytes_=self.isb, maybe_empty=False)
        self.start = vc.int('written'); vc.assume(self.start >= 9)
        st.set(self.buf, 'total', self.start)
        st.set(self.buf, 'chunks', [])
        out = {self.xref: str(self.X) if not self.isb else self.X._t()}
        for c in self.counters: out[c] = self.start
        return out

    def header(self):
        vc = CTX_()
        t = self.buf.text()
        ps = pieces(t)
        vc.check('header', bool(ps) and isinstance(ps[0], str) and ps[0].startswith('%PDF-'))
        rest = ''.join(p for p in ps if isinstance(p, str))
        vc.check('header_ends_its_line', rest.endswith('\n'))

def plain(v):
    if isinstance(v, list): return '' if not all(isinstance(x, (str, bytes)) for x in v) else ''.join(plain(x) for x in v)
    return v.decode('latin') if isinstance(v, bytes) else v

def concrete_eq(a, b):
    ea, eb = const(a), const(b)
    if ea.eq(eb): return True
    from pyvc import engine
    s = z3.Solver(); s.add(*engine.CTX.pc); s.add(ea != eb)
    return s.check() == z3.unsat

def CTX_():
    from pyvc import engine
    return engine.CTX

@contract('PDFBase.output', funcs=[B + '.output'], props=['C01'])
def output(vc):
    PDFBase = instr.lookup(B)[2]
    b = object.__new__(PDFBase)
    n = vc.int('objects'); vc.assume(n >= 0)
    buf = Buffer(0)
    loop = ObjectsLoop(buf, n)
    objs = SList('content', n, lambda k: Obj(k), loop)
    loop.text = [None]
    b.version = SStr('version', maybe_empty=False)
    b.content = objs
    b.count = n + 1
    again = vc.choose(2, 'written_before')
    old = [SStr('id', bytes_=True, maybe_empty=False)] * 2
    b.trailer = {'Root': SStr('root', bytes_=True), 'Size': vc.int('oldsize'), 'ID': old} if again else {'Root': SStr('root', bytes_=True)}
    keys = list(b.trailer)
    seen = []
    def parse(o):
        if isinstance(o, Obj):
            vc.check('object_written_is_the_one_at_its_position', eq(o.k, loop.k))
            t = SStr('object', bytes_=True, maybe_empty=False)
            loop.text[0] = t
        else:
            vc.check('trailer', o is b.trailer or isinstance(o, dict))
            vc.check('trailer_size', 'Size' in o and eq(o['Size'], n + 1))
            vc.check('trailer_keys', 'ID' in o and len(o['ID']) == 2 and all(k in o for k in keys))
            if again: vc.check('id_is_kept', o['ID'] is old or list(o['ID']) == old)
            t = SStr('trailer', bytes_=True, maybe_empty=False)
            seen.append(t)
        return t
    instr.stub('pdfme.parser.parse_obj', parse)
    b.output(buf)
    ps = pieces(buf.text())
    vc.check('file_end.table_and_trailer', len(seen) == 1 and len(ps) == 6 and ps[0] is loop.X and isinstance(ps[1], str) and ps[1].split() == ['trailer']
        and ps[1][-1] in WS and ps[2] is seen[0])
    vc.check('file_end.startxref', len(ps) == 6 and isinstance(ps[3], str) and ps[3].split() == ['startxref'] and ps[3][0] in WS and ps[3][-1] == '\n'
        and isinstance(ps[5], str) and ps[5].startswith('\n%%EOF') and ps[5].strip() == '%%EOF')
    vc.check('startxref_is_the_offset_of_the_table', eq(ps[4], loop.start + loop.lead) if len(ps) == 6 else False)
    vc.cover('written')

@contract('PDFBase.add', funcs=[B + '.__init__', B + '.add', 'pdfme.parser.PDFObject.__init__'], props=['C01'])
def add(vc):
    """class invariant: the count is one more than the number of objects, and the object at position k has id k + 1"""
    PDFBase = instr.lookup(B)[2]
    PDFRef = instr.lookup('pdfme.parser.PDFRef')[2]
    b = PDFBase()
    vc.check('invariant_of_a_new_document', b.count == 1 and len(b.content) == 0)
    n = vc.int('objects'); vc.assume(n >= 0)
    old = SList('content', n, lambda k: Obj(k))
    b.content = old
    b.count = n + 1
    made = []
    class Ref:
        def __init__(self, i): self.i = i; made.append(self)
    Real = PDFRef
    instr.stub('pdfme.parser.PDFRef', Ref)
    v = {}
    o = b.add(v)
    vc.check('appended', b.content is old and len(old.tail) == 1 and old.tail[0] is o)
    vc.check('value', o.value is v)
    vc.check('id_is_the_position', len(made) == 1 and o.id is made[0] and eq(made[0].i, n + 1))
    vc.check('invariant_kept', eq(b.count, n + 2))
    vc.cover('added')

@contract('PDFRef.ref', funcs=['pdfme.parser.PDFRef.ref'], props=['C01', 'C02'])
def ref(vc):
    """a reference is written as `id 0 R`: the property only formats the id"""
    PDFRef = instr.lookup('pdfme.parser.PDFRef')[2]
    i = vc.int('id'); vc.assume(i >= 1)
    p = PDFRef.__dict__['ref']
    r = p.fget(i) if isinstance(p, property) else p(i)
    ps = pieces(r)
    vc.check('reference', isinstance(r, bytes) and len(ps) == 2 and isinstance(ps[0], SNum) and eq(ps[0], i) and ps[1] == ' 0 R')
    vc.cover('ref')
