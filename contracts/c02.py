"""C02: what parse_obj writes reads back as the value given (structural induction: nested values by this same contract)."""
from pyvc.engine import *
from pyvc.stream import *
from pyvc import instr, strings

P = 'pdfme.parser.'
FIRST = {'name': '/', 'string': '(', 'dict': '<', 'array': '[', 'digit': '5', 'minus': '-', 'word': 't'}
REGULAR_END = ('name', 'digit', 'minus', 'word')
REGULAR = ('5', '-', 't')
WS = ' \n\r\t\x00\x0c'

def CTX_():
    from pyvc import engine
    return engine.CTX

class Frag(SStr):
    """the text of a complete object"""
    def __init__(self, kind, value, bytes_=True):
        SStr.__init__(self, 'object', bytes_=bytes_, maybe_empty=False)
        self.kind, self.value = kind, value
        self.first = FIRST[kind]
        self.data['meth'] = dict(__getitem__=self.item, startswith=self.starts, strip=lambda o: o)
    def item(self, o, i):
        if i == 0: return ord(self.first) if self.is_bytes else self.first
        if isinstance(i, slice) and i.start in (None, 0) and i.stop == 1 and i.step in (None, 1):
            return self.first.encode('latin') if self.is_bytes else self.first
        CTX_().abort(Unsupported('subscript of an object'))
    def starts(self, o, p, *a):
        ps = p if isinstance(p, tuple) else (p,)
        if a or any(len(x) != 1 for x in ps): CTX_().abort(Unsupported('startswith'))
        return any((x.decode('latin') if isinstance(x, bytes) else x) == self.first for x in ps)

class Key(SStr):
    """a name without special characters"""
    def __init__(self, k): SStr.__init__(self, 'key', maybe_empty=False); self.k = k

class Before(SStr):
    """what was written for the values before"""
    def __init__(self, first, regular): SStr.__init__(self, 'before', bytes_=True, maybe_empty=False); self.first, self.regular = first, regular

class Merged(Exception): pass

def tokens(text):
    """tokens of a text with fragments; Merged when the reader would take two tokens for one"""
    out = []
    reg = False                    # the previous token goes on with a regular character
    name = None
    for p in pieces(text):
        if isinstance(p, str):
            i = 0
            while i < len(p):
                c = p[i]
                if c in WS: reg = False; name = None; i += 1
                elif p[i:i + 2] in ('<<', '>>'): out.append(p[i:i + 2]); reg = False; name = None; i += 2
                elif c in '[]': out.append(c); reg = False; name = None; i += 1
                elif c == '/': name = ['name', '']; out.append(name); reg = True; i += 1
                elif c in '()<>{}%': raise Merged('unexpected %r' % c)
                else:
                    j = i
                    while j < len(p) and p[j] not in WS and p[j] not in '()<>[]{}/%': j += 1
                    if name is not None: name[1] = name[1] + p[i:j] if isinstance(name[1], str) else None
                    elif reg: raise Merged('%r is merged with the text before' % p[i:j])
                    else: out.append(p[i:j])
                    if name is not None and name[1] is None: raise Merged('name merged with %r' % p[i:j])
                    reg = True; i = j
        elif isinstance(p, Key):
            if name is None or name[1] != '': raise Merged('key out of a name')
            name[1] = p; reg = True
        elif isinstance(p, (Frag, Before)):
            if name is not None and name[1] == '': raise Merged('empty name')
            if reg and p.first in REGULAR: raise Merged('a value is merged with the text before')
            out.append(p); name = None
            reg = p.regular if isinstance(p, Before) else p.kind in REGULAR_END
        elif isinstance(p, SNum):
            if reg: raise Merged('number')
            out.append(p); name = None; reg = True
        else: out.append(p); name = None; reg = False
    return [tuple(t) if isinstance(t, list) else t for t in out]

def text_of(v):
    if isinstance(v, (list, tuple)): return b''.join(x._t() if isinstance(x, SStr) else x for x in v)
    return bytes(v) if isinstance(v, bytearray) else v

def fragment(value, parsed, kinds=tuple(FIRST)):
    """contract of parse_obj for a nested value"""
    f = Frag(kinds[CTX_().choose(len(kinds), 'kind of value')], value)
    parsed.append(f)
    return f

class Values:
    """after k values, the text is what it was at the start followed by the k values, each a complete token"""
    def __init__(self, isdict): self.isdict = isdict
    def locals_(self, env):
        return [n for n, v in env._d.items() if isinstance(v, (bytes, bytearray)) or isinstance(v, list) and all(isinstance(x, (bytes, SStr)) for x in v)]
    def check(self, st, k, env, mode):
        vc = st.ctx
        if mode == 'establish':
            ls = self.locals_(env)
            if len(ls) != 1: vc.abort(Unsupported('no local with the text'))
            self.name = ls[0]
            v = env[self.name]
            self.islist = isinstance(v, list)
            self.lead = list(v) if self.islist else v
            vc.cover('establish')
            return
        if self.islist and env[self.name] is not self.acc: vc.abort(Unsupported('another list'))
        old, new = pieces(text_of(self.old)), pieces(text_of(env[self.name]))
        vc.check('text_is_extended', new[:len(old)] == old or len(new) >= len(old) and all(a is b or isinstance(a, str) and isinstance(b, str) and
            (a == b or i == len(old) - 1 and b.startswith(a)) for i, (a, b) in enumerate(zip(old, new))))
        try: a, b = tokens(text_of(self.old)), tokens(text_of(env[self.name]))
        except Merged as e:
            vc.check('tokens_are_separated', False, detail=str(e)); return
        vc.check('tokens_are_separated', b[:len(a)] == a)
        b = b[len(a):]
        if self.isdict:
            vc.check('entry_is_a_key_and_its_value', len(b) == 2 and isinstance(b[0], tuple) and b[0][0] == 'name' and isinstance(b[1], Frag))
            vc.check('key', isinstance(b[0][1], Key) and b[0][1].k is self.cur[0].k)
            vc.check('value_of_the_key', b[1].value is self.cur[1])
        else:
            vc.check('one_value', len(b) == 1 and isinstance(b[0], Frag))
            vc.check('value', b[0].value is self.cur)
        vc.cover('value written')
    def havoc(self, st, k):
        vc = st.ctx
        self.after = []
        if not bool(SBool(const(k) == 0)):
            self.after = [Before('/' if self.isdict else FIRST[('name', 'digit')[vc.choose(2, 'first')]], bool(vc.choose(2, 'regular')))]
        if self.islist:
            self.acc = st.pre[self.name]
            st.touch(self.acc)
            self.acc[:] = self.lead + self.after
            self.old = list(self.acc)
            return {self.name: self.acc}
        self.old = bytes(self.lead) + b''.join(x._t() for x in self.after)
        return {self.name: bytearray(self.old) if isinstance(self.lead, bytearray) else self.old}

def joined(vc, loop):
    """sep.join(text of every value): the text of two values next to each other is checked"""
    def join(it, sep):
        src = getattr(it, 'source', None)
        if src is None: vc.abort(Unsupported('join'))
        loop.after = []
        rest = [x._t() if isinstance(x, SStr) else x for x in it.tail]
        if bool(it.n == 0): return sep.join(rest)
        k = vc.int('k'); vc.assume(k >= 0); vc.assume(k < it.n)
        two = bool(k + 1 < it.n)
        els = [it.at(k)] + ([it.at(k + 1)] if two else [])
        vals = [src.at(k)] + ([src.at(k + 1)] if two else [])
        els = [x._t() if isinstance(x, SStr) else x for x in els]
        try: t = tokens(sep.join(els))
        except Merged as e:
            vc.check('tokens_are_separated', False, detail=str(e)); return
        m = 2 if loop.isdict else 1
        vc.check('one_value', len(t) == m * len(els))
        for i, v in enumerate(vals):
            if loop.isdict:
                vc.check('entry_is_a_key_and_its_value', isinstance(t[2 * i], tuple) and isinstance(t[2 * i + 1], Frag))
                vc.check('key', isinstance(t[2 * i][1], Key) and t[2 * i][1].k is v[0].k)
                vc.check('value_of_the_key', t[2 * i + 1].value is v[1])
            else: vc.check('value', isinstance(t[i], Frag) and t[i].value is v)
        vc.cover('value written')
        loop.after = [Before('/' if loop.isdict else t[0].first, t[-1].kind in REGULAR_END)]
        return sep.join([loop.after[0]._t()] + rest)
    vc.stubs['join'] = join

class Value:
    """a nested value"""
    def __init__(self, k): self.k = k

def key_of(k):
    key = Key(k)
    def enc(o, enc='utf-8', *a):
        if a or enc.lower() not in ('latin', 'latin-1', 'latin1', 'iso-8859-1', 'utf-8', 'ascii'): CTX_().abort(Unsupported('encode'))
        e = Key(k); e.is_bytes = True; e.len = key.len
        return e
    key.data['meth'] = dict(encode=enc)
    return key

def with_recursion(vc, extra=(), kinds=tuple(FIRST)):
    """parse_obj, and the fragments its nested calls gave"""
    parsed = []
    def nested(v):
        for t, f in extra:
            if v is t: return f
        return fragment(v, parsed, kinds)
    return instr.stub(P + 'parse_obj', nested), parsed

@contract('parse_obj.dict', funcs=[P + 'parse_obj', P + 'parse_dict'], props=['C02'])
def dicts(vc):
    f, parsed = with_recursion(vc)
    n = vc.int('entries'); vc.assume(n >= 0)
    loop = Values(True)
    joined(vc, loop)
    def elem(k):
        loop.cur = (key_of(k), Value(k)); return loop.cur
    d = SDict('dict', SList('entries', n, elem, loop), has={'__stream__': False})
    r = f(d)
    vc.check('object_not_altered', d.extra == {} and d.deleted == set())
    try: t = tokens(r)
    except Merged as e: vc.check('written', False, detail=str(e)); return
    vc.check('written', isinstance(r, bytes) and len(t) == 2 + len(loop.after) and t[0] == '<<' and t[-1] == '>>' and all(a is b for a, b in zip(t[1:], loop.after)))
    vc.cover('written')

@contract('parse_obj.list', funcs=[P + 'parse_obj', P + 'parse_list'], props=['C02'])
def lists(vc):
    f, parsed = with_recursion(vc)
    n = vc.int('values'); vc.assume(n >= 0)
    loop = Values(False)
    joined(vc, loop)
    def elem(k):
        loop.cur = Value(k); return loop.cur
    l = SList('values', n, elem, loop, kind=(list, tuple, set)[vc.choose(3, 'type')])
    r = f(l)
    vc.check('object_not_altered', l.tail == [])
    try: t = tokens(r)
    except Merged as e: vc.check('written', False, detail=str(e)); return
    vc.check('written', isinstance(r, bytes) and len(t) == 2 + len(loop.after) and t[0] == '[' and t[-1] == ']' and all(a is b for a, b in zip(t[1:], loop.after)))
    vc.cover('written')

class Zlib:
    """zlib: what is compressed decodes to the data (trusted)"""
    _vc_ghost = True
    def __getattr__(self, n): CTX_().abort(Unsupported('zlib.%s' % n))
    def compress(self, data, *a, **k):
        ps = pieces(data)
        CTX_().result.assumed.add('zlib.compress(data) is a zlib stream that decodes to data')
        return SStr('compressed', bytes_=True, maybe_empty=False, of=ps)

@contract('parse_obj.stream', funcs=[P + 'parse_obj', P + 'parse_stream', P + 'parse_dict', 'pdfme.encoders.encode_stream', 'pdfme.encoders.flate_encode'], props=['C02'])
def streams(vc):
    f, parsed = with_recursion(vc, kinds=('name', 'digit'))
    instr.stub('pdfme.encoders.zlib', Zlib())
    parts = [SStr('data%d' % i, bytes_=True) for i in range(3)]
    shape = vc.choose(4, 'stream')
    data = [parts[0], {0: parts[0], 3: parts[1], 5: parts[2]}, {}, {2: parts[1]}][shape]
    want = [[parts[0]], parts, [], [parts[1]]][shape]
    filt = vc.choose(2, 'filter')
    skip = vc.choose(3, 'skip')
    loop = Values(True)
    joined(vc, loop)
    n = vc.int('entries'); vc.assume(n >= 0)
    def elem(k):
        loop.cur = (key_of(k), Value(k)); return loop.cur
    extra = {'__stream__': data}
    if filt: extra['Filter'] = b'/FlateDecode'
    if skip: extra['__skip_filter__'] = skip == 1
    if vc.choose(2, 'length given'): extra['Length'] = vc.int('old length')
    d = SDict('dict', SList('entries', n, elem, loop), has={k: False for k in ('__stream__', '__skip_filter__', 'Filter', 'Length')}, extra=extra)
    # what is done twice is the same, because what is written is determined by the object and this gives it back unchanged
    r = f(d)
    for k, v in extra.items():
        if k == 'Length': continue
        if k == '__skip_filter__' and not v: vc.check('skip_filter_kept', not d.extra.get(k, False))
        else: vc.check('object_not_altered', k in d.extra and d.extra[k] is v)
    vc.check('no_other_keys', set(d.extra) <= set(extra) | {'Length'})
    ps = pieces(r)
    i = next((i for i, p in enumerate(ps) if isinstance(p, str) and 'stream' in p), None)
    vc.check('keyword', i is not None)
    head, body, tail = ps[:i], ps[i + 1:-1], ps[-1]
    a, b, c = ps[i].partition('stream')
    one = len(ps) - 1 == i
    # an empty stream: head and tail are in the same text
    if one: c, tail = c[:c.index('\n') + 1] if '\n' in c else '', c[c.index('\n') + 1:] if '\n' in c else ''; body = []
    vc.check('data_starts_after_the_keyword', c in ('\n', '\r\n'))
    vc.check('data_is_followed_by_endstream', isinstance(tail, str) and tail in ('\nendstream', '\r\nendstream', 'endstream', '\nendstream\n'))
    if filt and skip != 1:
        vc.check('data', len(body) == 1 and isinstance(body[0], SStr) and body[0].name == 'compressed' and list(body[0].data['of']) == [p for p in want])
    else:
        vc.check('data', len(body) == len(want) and all(x is y for x, y in zip(body, want)))
    size = 0
    for p in body: size = size + p.len
    try: t = tokens(b''.join(p.encode('latin') if isinstance(p, str) else p._t() for p in head) + a.encode('latin'))
    except Merged as e: vc.check('dictionary', False, detail=str(e)); return
    k = 1 + len(loop.after)
    vc.check('dictionary', len(t) > k and t[0] == '<<' and t[-1] == '>>' and all(x is y for x, y in zip(t[1:], loop.after)))
    rest = t[k:-1]
    entries = list(zip(rest[::2], rest[1::2]))
    vc.check('entries', len(rest) % 2 == 0 and all(isinstance(x, tuple) and isinstance(y, Frag) for x, y in entries))
    got = {x[1]: y.value for x, y in entries}
    vc.check('entries_once', len(got) == len(entries) and set(got) == {'Length'} | ({'Filter'} if filt else set()))
    if filt: vc.check('filter', got['Filter'] == b'/FlateDecode')
    vc.check('length_is_the_size_of_the_data', eq(got['Length'], size))
    vc.cover('written')

@contract('encode_stream.others', funcs=['pdfme.encoders.encode_stream'], props=['C02'])
def others(vc):
    """filters that are not supported are rejected"""
    f = instr.lookup('pdfme.encoders.encode_stream')[2]
    names = [b'/ASCIIHexDecode', b'/ASCII85Decode', b'/LZWDecode', b'/RunLengthDecode', b'/CCITTFaxDecode', b'/JBIG2Decode', b'/DCTDecode', b'/JPXDecode', b'/Crypt', b'/Other', b'FlateDecode']
    n = names[vc.choose(len(names), 'filter')]
    try: f(SStr('data', bytes_=True), n); ok = False
    except Exception: ok = True
    vc.check('rejected', ok)

class Ref:
    """a PDFRef"""
    def __init__(self, text): self.text = text
    @property
    def ref(self): return self.text
    def _vc_isinstance(self, t):
        ts = t if isinstance(t, tuple) else (t,)
        return any(issubclass(instr.lookup(P + 'PDFRef')[2], x) for x in ts)

@contract('parse_obj.simple', funcs=[P + 'parse_obj'], props=['C02'])
def simple(vc):
    v = inner = SStr('value', bytes_=True)
    PDFObject = instr.lookup(P + 'PDFObject')[2]
    f, parsed = with_recursion(vc, [(v, inner)])
    what = ('object', 'ref', 'bytes', 'true', 'false', 'bool', 'int')[vc.choose(7, 'type')]
    if what == 'object':
        o = object.__new__(PDFObject); o.value = v
        vc.check('object_is_its_value', f(o) is inner or pieces(f(o)) == [inner])
    elif what == 'ref':
        t = SStr('ref', bytes_=True)
        vc.check('reference', pieces(f(Ref(t))) == [t])
    elif what == 'bytes':
        t = SStr('bytes', bytes_=True)
        vc.check('bytes_as_they_are', pieces(f(t)) == [t])
    elif what in ('true', 'false'):
        vc.check(what, f(what == 'true') == what.encode())
    elif what == 'bool':
        b = vc.bool('b')
        r = f(b)
        vc.check('boolean', (b == True) if r == b'true' else r == b'false' and (b == False))
    else:
        i = vc.int('i')
        r = f(i)
        ps = pieces(r)
        vc.check('integer', isinstance(r, bytes) and len(ps) == 1 and isinstance(ps[0], SNum) and ps[0].isint and eq(ps[0], i))
    vc.cover(what)

class Dec:
    """decimal.Decimal of a float: exactly the number, and written in plain notation with the format f"""
    _vc_ghost = True
    def __init__(self, x):
        if isinstance(x, str):
            ps = pieces(x)
            if len(ps) != 1 or not isinstance(ps[0], SNum): CTX_().abort(Unsupported('Decimal'))
            x = ps[0]
        self.num = x
        CTX_().result.assumed.add('format(Decimal(repr(x)), "f") is the number x in decimal notation')
    def __format__(self, spec):
        if spec != 'f': CTX_().abort(Unsupported('format of a Decimal: %r' % spec))
        return SStr('plain', num=self.num).tok

@contract('parse_obj.float', funcs=[P + 'parse_obj'], props=['C02'])
def floats(vc):
    f, parsed = with_recursion(vc)
    instr.stub(P + 'Decimal', Dec)
    x = vc.real('x')
    r = f(x)
    vc.check('converted', isinstance(r, bytes))
    ps = pieces(r)
    if len(ps) == 1 and isinstance(ps[0], SStr) and ps[0].name == 'plain': vc.check('decimal_notation', eq(ps[0].data['num'], x))
    else:
        # the text of a float has an exponent when it is large or small
        if not all(isinstance(p, (str, SNum)) for p in ps): raise Unsupported('text of a float')
        vc.check('decimal_notation', False, detail='%r' % (ps,))
    vc.cover('float')

@contract('parse_obj.str', funcs=[P + 'parse_obj', 'pdfme.utils.escape_string'], props=['C02', 'C03'])
def strs(vc):
    """any text of Latin-1 characters"""
    f, parsed = with_recursion(vc)
    instr.stub('pdfme.utils.re', strings.Re())
    s = strings.MapStr('text', {chr(i): chr(i) for i in range(256)})
    ps = pieces(f(s))
    if len(ps) != 3 or not isinstance(ps[1], strings.MapStr):
        if not (ps and isinstance(ps[0], str) and ps[0][:1] == '('): raise Unsupported('text of a string')
    vc.check('literal_string', len(ps) == 3 and ps[0] == '(' and ps[2] == ')')
    bad = [c for c, im in ps[1].img.items() if strings.literal(im) != bytes([ord(c)])]
    vc.check('every_character_reads_back', bad == [], detail='characters %r' % bad[:5])
    if bad: vc.result.obligations[-1]['model'] = {'text': bad[0]}
    vc.cover('string')
