"""Strict, independent reader for the PDF files pdfme writes (ISO 32000-1 syntax).

Used only by the bounded stand-ins and by counterexample replay: it never looks
at pdfme's own code.  Every deviation from the syntax raises PDFError.
"""
import re
import zlib

WS = b'\x00\t\n\x0c\r '
DELIM = b'()<>[]{}/%'
NUM = re.compile(rb'[+-]?(\d+(\.\d*)?|\.\d+)$')


class PDFError(Exception):
    pass


class Name(str):
    pass


class Ref(int):
    pass


class Op(str):
    pass


class Stream:
    def __init__(self, d, raw):
        self.d, self.raw = d, raw

    @property
    def data(self):
        f = self.d.get('Filter')
        if f is None:
            return self.raw
        if f == 'FlateDecode':
            return zlib.decompress(self.raw)
        return self.raw


class Lexer:
    def __init__(self, data, pos=0):
        self.b, self.i = data, pos

    def ws(self):
        b = self.b
        while self.i < len(b):
            c = b[self.i]
            if c in WS:
                self.i += 1
            elif c == 0x25:
                while self.i < len(b) and b[self.i] not in b'\r\n':
                    self.i += 1
            else:
                return

    def string(self):
        b = self.b
        self.i += 1
        depth, out = 1, bytearray()
        while True:
            if self.i >= len(b):
                raise PDFError('unterminated string')
            c = b[self.i]
            self.i += 1
            if c == 0x5c:
                if self.i >= len(b):
                    raise PDFError('unterminated string')
                e = b[self.i]
                self.i += 1
                m = {0x6e: 10, 0x72: 13, 0x74: 9, 0x62: 8, 0x66: 12,
                     0x28: 0x28, 0x29: 0x29, 0x5c: 0x5c}
                if e in m:
                    out.append(m[e])
                elif 0x30 <= e <= 0x37:
                    v = e - 0x30
                    for _ in range(2):
                        if self.i < len(b) and 0x30 <= b[self.i] <= 0x37:
                            v = v * 8 + b[self.i] - 0x30
                            self.i += 1
                        else:
                            break
                    out.append(v & 255)
                elif e == 13:
                    if self.i < len(b) and b[self.i] == 10:
                        self.i += 1
                elif e == 10:
                    pass
                else:
                    out.append(e)
            elif c == 0x28:
                depth += 1
                out.append(c)
            elif c == 0x29:
                depth -= 1
                if depth == 0:
                    return bytes(out)
                out.append(c)
            elif c == 13:
                if self.i < len(b) and b[self.i] == 10:
                    self.i += 1
                out.append(10)
            else:
                out.append(c)

    def token(self):
        """next token: python value, Op, or one of '<<','>>','[',']' as Op"""
        self.ws()
        b = self.b
        if self.i >= len(b):
            return None
        c = b[self.i]
        if c == 0x28:
            return self.string()
        if c == 0x3c:
            if b[self.i:self.i + 2] == b'<<':
                self.i += 2
                return Op('<<')
            j = b.find(b'>', self.i)
            if j < 0:
                raise PDFError('unterminated hex string')
            h = bytes(x for x in b[self.i + 1:j] if x not in WS)
            self.i = j + 1
            if len(h) % 2:
                h += b'0'
            try:
                return bytes.fromhex(h.decode('ascii'))
            except ValueError:
                raise PDFError('bad hex string')
        if c == 0x3e:
            if b[self.i:self.i + 2] == b'>>':
                self.i += 2
                return Op('>>')
            raise PDFError('stray >')
        if c in b'[]':
            self.i += 1
            return Op(chr(c))
        if c in b'){}':
            raise PDFError('stray %r at %d' % (chr(c), self.i))
        if c == 0x2f:
            j = self.i + 1
            while j < len(b) and b[j] not in WS and b[j] not in DELIM:
                j += 1
            n = b[self.i + 1:j].decode('latin')
            self.i = j
            n = re.sub('#([0-9a-fA-F]{2})', lambda m: chr(int(m[1], 16)), n)
            return Name(n)
        j = self.i
        while j < len(b) and b[j] not in WS and b[j] not in DELIM:
            j += 1
        w = b[self.i:j]
        self.i = j
        if NUM.match(w):
            return float(w) if b'.' in w else int(w)
        return Op(w.decode('latin'))

    def obj(self, tok=None):
        t = self.token() if tok is None else tok
        if t is None:
            raise PDFError('unexpected end')
        if isinstance(t, Op):
            if t == '<<':
                d = {}
                while True:
                    k = self.token()
                    if isinstance(k, Op) and k == '>>':
                        return d
                    if not isinstance(k, Name):
                        raise PDFError('dict key %r' % (k,))
                    v = self.obj()
                    if k in d:
                        raise PDFError('duplicate key ' + k)
                    d[str(k)] = v
            if t == '[':
                out = []
                while True:
                    k = self.token()
                    if isinstance(k, Op) and k == ']':
                        return out
                    out.append(self.obj(k) if k is not None else self.obj())
            if t == 'true':
                return True
            if t == 'false':
                return False
            if t == 'null':
                return None
            raise PDFError('unexpected token %r' % (t,))
        if isinstance(t, int) and t >= 0 and not isinstance(t, bool):
            save = self.i
            try:
                g = self.token()
                r = self.token()
                if isinstance(g, int) and isinstance(r, Op) and r == 'R':
                    return Ref(t)
            except PDFError:
                pass
            self.i = save
        return t


class Doc:
    def __init__(self, data):
        self.data = data
        m = re.match(rb'%PDF-(\d\.\d)\n', data)
        if not m:
            raise PDFError('header')
        self.version = m[1].decode()
        m = re.search(rb'startxref\n(\d+)\n%%EOF$', data)
        if not m:
            raise PDFError('startxref')
        self.startxref = int(m[1])
        if data[self.startxref:self.startxref + 4] != b'xref':
            raise PDFError('startxref does not point at xref')
        m = re.compile(rb'xref\n0 (\d+)\n').match(data, self.startxref)
        if not m:
            raise PDFError('xref head')
        n = int(m[1])
        p = m.end()
        self.offsets = {}
        for k in range(n):
            e = data[p:p + 20]
            em = re.match(rb'(\d{10}) (\d{5}) ([nf]) \n$', e)
            if not em:
                raise PDFError('xref entry %d %r' % (k, e))
            if (k == 0) != (em[3] == b'f'):
                raise PDFError('xref entry kind %d' % k)
            if k == 0 and (em[1] != b'0' * 10 or em[2] != b'65535'):
                raise PDFError('xref entry 0')
            if k:
                self.offsets[k] = int(em[1])
            p += 20
        if data[p:p + 8] != b'trailer\n':
            raise PDFError('trailer')
        lx = Lexer(data, p + 8)
        self.trailer = lx.obj()
        if data[lx.i:] != b'\nstartxref\n%d\n%%%%EOF' % self.startxref:
            raise PDFError('trailing part')
        if self.trailer.get('Size') != n:
            raise PDFError('Size %r != %d' % (self.trailer.get('Size'), n))
        self.objs = {}
        ends = []
        for k, off in self.offsets.items():
            head = b'%d 0 obj\n' % k
            if data[off:off + len(head)] != head:
                raise PDFError('object %d not at its offset' % k)
            o, end = self._object(off + len(head))
            self.objs[k] = o
            ends.append((off, end))
        ends.sort()
        pos = ends[0][0] if ends else None
        for a, e in ends:
            if pos is not None and (a < pos or data[pos:a].strip(WS)):
                raise PDFError('overlap or garbage before offset %d' % a)
            pos = e
        if ends and (pos > self.startxref or data[pos:self.startxref].strip(WS)):
            raise PDFError('garbage before xref')

    def _object(self, p):
        data = self.data
        lx = Lexer(data, p)
        o = lx.obj()
        if isinstance(o, dict) and data[lx.i:lx.i + 7] == b'stream\n':
            n = o.get('Length')
            if not isinstance(n, int):
                raise PDFError('Length')
            s = lx.i + 7
            raw = data[s:s + n]
            if data[s + n:s + n + 10] != b'\nendstream':
                raise PDFError('Length %d is not the stream length' % n)
            o = Stream(o, raw)
            lx.i = s + n + 10
        if data[lx.i:lx.i + 8] != b'\nendobj\n':
            raise PDFError('endobj at %d: %r' % (lx.i, data[lx.i:lx.i + 20]))
        return o, lx.i + 8

    def get(self, o):
        while isinstance(o, Ref):
            if o not in self.objs:
                raise PDFError('dangling reference %d' % o)
            o = self.objs[o]
        return o

    @property
    def root(self):
        r = self.get(self.trailer['Root'])
        if r.get('Type') != 'Catalog':
            raise PDFError('Root is not a Catalog')
        return r

    def pages(self):
        """leaves of the page tree in reading order, as (ref, dict); checks it"""
        out = []
        seen = set()

        def walk(ref, parent):
            if ref in seen:
                raise PDFError('page tree cycle')
            seen.add(ref)
            n = self.get(ref)
            if parent is not None and n.get('Parent') != parent:
                raise PDFError('Parent of %d' % ref)
            if parent is None and 'Parent' in n:
                raise PDFError('root Pages has a Parent')
            if n.get('Type') == 'Page':
                out.append((ref, n))
                return 1
            if n.get('Type') != 'Pages':
                raise PDFError('page tree node type %r' % n.get('Type'))
            c = sum(walk(k, ref) for k in n['Kids'])
            if n['Count'] != c:
                raise PDFError('Count %r != %d' % (n['Count'], c))
            return c
        walk(self.root['Pages'], None)
        return out

    def dests(self):
        """name tree as an ordered dict; checks Limits and ordering"""
        names = self.get(self.root.get('Names', {}))
        if 'Dests' not in names:
            return {}
        out = {}
        depth = set()

        def walk(ref, root, level):
            n = self.get(ref)
            if root == ('Limits' in n):
                raise PDFError('Limits present on root / absent below')
            if ('Names' in n) == ('Kids' in n):
                raise PDFError('node needs exactly one of Names and Kids')
            if 'Names' in n:
                a = n['Names']
                if len(a) % 2:
                    raise PDFError('Names odd')
                keys = a[::2]
                for k, v in zip(keys, a[1::2]):
                    if not isinstance(k, bytes):
                        raise PDFError('key type')
                    if k in out:
                        raise PDFError('duplicate key')
                    out[k] = v
                depth.add(level)
            else:
                keys = []
                for k in n['Kids']:
                    keys += walk(k, False, level + 1)
            if not keys:
                raise PDFError('empty node')
            if not root and n['Limits'] != [keys[0], keys[-1]]:
                raise PDFError('Limits')
            return keys
        keys = walk(names['Dests'], True, 0)
        if keys != sorted(keys):
            raise PDFError('name tree not sorted')
        if len(depth) > 1:
            pass
        return out

    def outlines(self):
        """outline tree as nested lists of (title, dest, children, ref)"""
        if 'Outlines' not in self.root:
            return []
        rref = self.root['Outlines']

        def kids(pref):
            p = self.get(pref)
            if 'First' not in p:
                if 'Last' in p:
                    raise PDFError('Last without First')
                return []
            out, cur, prev = [], p['First'], None
            while True:
                n = self.get(cur)
                if n.get('Parent') != pref:
                    raise PDFError('outline Parent')
                if n.get('Prev') != prev:
                    raise PDFError('outline Prev')
                out.append((n['Title'], n.get('Dest'), kids(cur), cur))
                if len(out) > 100000:
                    raise PDFError('outline cycle')
                if 'Next' not in n:
                    if p.get('Last') != cur:
                        raise PDFError('outline Last')
                    return out
                prev, cur = cur, n['Next']
        tree = kids(rref)

        def visible(ch):
            t = 0
            for c in ch:
                t += 1
                n = self.get(c[3])
                v = visible(c[2])
                if not c[2]:
                    if n.get('Count', 0):
                        raise PDFError('Count on a leaf outline')
                    continue
                cnt = n.get('Count')
                if not isinstance(cnt, int) or abs(cnt) != v:
                    raise PDFError('outline Count %r, expected +-%d' % (cnt, v))
                if cnt > 0:
                    t += v
            return t
        v = visible(tree)
        if tree and self.get(rref).get('Count') != v:
            raise PDFError('root outline Count %r != %d' % (
                self.get(rref).get('Count'), v))
        return tree


def mul(m, n):
    a, b, c, d, e, f = m
    A, B, C, D, E, F = n
    return (a * A + b * C, a * B + b * D, c * A + d * C, c * B + d * D,
            e * A + f * C + E, e * B + f * D + F)


ARITY = {'q': 0, 'Q': 0, 'cm': 6, 're': 4, 'F': 0, 'f': 0, 'm': 2, 'l': 2,
         'S': 0, 'w': 1, 'J': 1, 'd': 2, 'g': 1, 'G': 1, 'rg': 3, 'RG': 3,
         'BT': 0, 'ET': 0, 'Tm': 6, 'Td': 2, 'Tf': 2, 'Tj': 1, 'Tw': 1,
         'Ts': 1, 'Do': 1, 'TJ': 1}


def interpret(data, width_of=None):
    """Run a content stream; list of events (dicts).

    width_of(fontname, bytes) -> list of (advance in text space units per 1 size,
    is_single_byte_space) or None when advances are not needed."""
    lx = Lexer(data)
    st = dict(ctm=(1, 0, 0, 1, 0, 0), fill=('g', 0), stroke=('G', 0), w=1.0,
              J=0, d=([], 0), font=None, size=None, Tw=0.0, Ts=0.0)
    stack, ev, args = [], [], []
    path, cur, intext = [], None, False
    tm = tlm = None
    bt = nq = 0
    while True:
        t = lx.token()
        if t is None:
            break
        if not isinstance(t, Op) or t in ('[', '<<'):
            args.append(lx.obj(t))
            continue
        if t not in ARITY:
            raise PDFError('unknown operator %r' % t)
        if len(args) != ARITY[t]:
            raise PDFError('operator %s with operands %r' % (t, args))
        a, args = args, []
        numeric = t not in ('Tf', 'Tj', 'TJ', 'Do', 'd')
        if numeric and not all(isinstance(x, (int, float)) for x in a):
            raise PDFError('operand types %s %r' % (t, a))
        if t == 'q':
            nq += 1
            stack.append(dict(st))
        elif t == 'Q':
            if not stack:
                raise PDFError('Q without q')
            st = stack.pop()
        elif t == 'cm':
            st['ctm'] = mul(tuple(a), st['ctm'])
        elif t == 're':
            path.append(('re', a))
        elif t in 'Ff' and len(t) == 1:
            for k, r in path:
                if k != 're':
                    raise PDFError('fill of a line')
                ev.append(dict(kind='rect', q=nq, bt=bt, rect=r, ctm=st['ctm'],
                               fill=st['fill']))
            path = []
        elif t == 'm':
            cur = a
        elif t == 'l':
            if cur is None:
                raise PDFError('l without m')
            path.append(('l', cur + a))
            cur = a
        elif t == 'S':
            for k, r in path:
                if k != 'l':
                    raise PDFError('stroke of a rect')
                ev.append(dict(kind='line', q=nq, bt=bt, line=r, ctm=st['ctm'],
                               stroke=st['stroke'], w=st['w'], J=st['J'],
                               d=st['d']))
            path = []
        elif t == 'w':
            st['w'] = a[0]
        elif t == 'J':
            st['J'] = a[0]
        elif t == 'd':
            st['d'] = (a[0], a[1])
        elif t in ('g', 'rg'):
            st['fill'] = (str(t),) + tuple(a)
        elif t in ('G', 'RG'):
            st['stroke'] = (str(t),) + tuple(a)
        elif t == 'BT':
            if intext:
                raise PDFError('nested BT')
            bt += 1
            intext, tm, tlm = True, (1, 0, 0, 1, 0, 0), (1, 0, 0, 1, 0, 0)
        elif t == 'ET':
            if not intext:
                raise PDFError('ET')
            intext = False
        elif t == 'Tf':
            if not isinstance(a[0], Name):
                raise PDFError('Tf')
            st['font'], st['size'] = str(a[0]), a[1]
        elif t == 'Tw':
            st['Tw'] = a[0]
        elif t == 'Ts':
            st['Ts'] = a[0]
        elif t in ('Tm', 'Td', 'Tj', 'TJ'):
            if not intext:
                raise PDFError(t + ' outside BT')
            if t == 'Tm':
                tm = tlm = tuple(a)
            elif t == 'Td':
                tm = tlm = mul((1, 0, 0, 1, a[0], a[1]), tlm)
            else:
                items = [a[0]] if t == 'Tj' else a[0]
                if not isinstance(items, list):
                    raise PDFError('TJ')
                if st['font'] is None:
                    raise PDFError('Tj without font')
                text, adv = b'', (0.0 if width_of else None)
                pos = []
                for it in items:
                    if isinstance(it, bytes):
                        pos.append((it, adv))
                        text += it
                        if width_of:
                            for wd, sp in width_of(st['font'], it):
                                adv += wd * st['size'] + (st['Tw'] if sp else 0)
                    elif t == 'TJ' and isinstance(it, (int, float)):
                        if width_of:
                            adv -= it / 1000 * st['size']
                    else:
                        raise PDFError('Tj')
                ev.append(dict(kind='text', x=tm[4], y=tm[5], text=text, parts=pos,
                               font=st['font'], size=st['size'],
                               fill=st['fill'], Tw=st['Tw'], Ts=st['Ts'],
                               ctm=st['ctm'], adv=adv, tlm=tlm, bt=bt))
                if adv is not None:
                    tm = mul((1, 0, 0, 1, adv, 0), tm)
        elif t == 'Do':
            ev.append(dict(kind='image', q=nq, bt=bt, name=str(a[0]), ctm=st['ctm']))
    if args:
        raise PDFError('operands left %r' % (args,))
    if stack:
        raise PDFError('q without Q')
    if intext:
        raise PDFError('BT without ET')
    return ev
