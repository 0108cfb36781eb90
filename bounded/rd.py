"""Reading of written documents: text with characters and positions, graphics,
images, per page.  Independent from pdfme (uses lib/pdfread only)."""
import json
import os
import re
import pdfread
from common import *

HERE = os.path.dirname(os.path.abspath(__file__))
STD = json.load(open(os.path.join(HERE, 'std14.json')))

class Font:
    """a font as a reader sees it in the file"""
    def __init__(self, doc, ref):
        f = doc.get(ref)
        need(f.get('Type') == 'Font', 'font object %r', f)
        self.ref, self.base = ref, f['BaseFont']
        self.ttf = f['Subtype'] == 'Type0'
        if not self.ttf:
            need(f['Subtype'] == 'Type1' and self.base in STD, 'not a standard font: %r', f)
            self.w = STD[self.base]
            sym = self.base in ('Symbol', 'ZapfDingbats')
            need(f.get('Encoding') == (None if sym else 'WinAnsiEncoding'), 'encoding of %s: %r', self.base, f.get('Encoding'))
        else:
            need(f['Encoding'] == 'Identity-H', 'encoding %r', f['Encoding'])
            d = doc.get(f['DescendantFonts'][0])
            self.desc = d
            self.dw = d.get('DW', 1000)
            self.w = {}
            w = d.get('W', [])
            i = 0
            while i < len(w):
                if isinstance(w[i + 1], list):
                    for k, v in enumerate(w[i + 1]):
                        need(w[i] + k not in self.w or self.w[w[i] + k] == v, 'two widths for glyph %d', w[i] + k)
                        self.w[w[i] + k] = v
                    i += 2
                else:
                    for g in range(w[i], w[i + 1] + 1): self.w[g] = w[i + 2]
                    i += 3
            self.uni = tounicode(doc.get(f['ToUnicode']).data)
            self.file = doc.get(doc.get(d['FontDescriptor'])['FontFile2'])

    def chars(self, b):
        """[(char, advance for size 1, is a single byte space)]"""
        if not self.ttf:
            s = b.decode('latin')
            for c in s: need(c in self.w, 'character %r is not in font %s', c, self.base)
            return [(c, self.w[c] / 1000, c == ' ') for c in s]
        need(len(b) % 2 == 0, 'odd string %r in a composite font', b)
        out = []
        for i in range(0, len(b), 2):
            g = b[i] * 256 + b[i + 1]
            out.append((self.uni.get(g, None if g else '\0'), self.w.get(g, self.dw) / 1000, False))
        return out

def tounicode(data):
    s = data.decode('latin')
    out = {}
    n = 0
    for m in re.finditer(r'(\d+)\s+beginbfchar(.*?)endbfchar', s, re.S):
        rows = re.findall(r'<([0-9A-Fa-f]+)>\s*<([0-9A-Fa-f]+)>', m[2])
        need(len(rows) == int(m[1]) <= 100, 'bfchar block')
        for a, b in rows:
            need(len(a) == 4, 'code %s', a)
            out[int(a, 16)] = bytes.fromhex(b).decode('utf-16-be')
    return out

def next_page(pdf, size):
    """a new page of this size; then the pages after it are set up in another way, and this one must not change"""
    pdf.setup_page(page_size=size, margin=0)
    pdf.add_page()
    pdf.setup_page(page_size=(321.5, 123.25), margin=[3, 5, 7, 11])

class Page:
    def __init__(self, doc, ref, d):
        self.doc, self.ref, self.d = doc, ref, d
        res = doc.get(d.get('Resources', {}))
        self.fontrefs = doc.get(res.get('Font', {}))
        self.xrefs = doc.get(res.get('XObject', {}))
        self.fonts = {}
        self.box = d['MediaBox']
        c = doc.get(d['Contents'])
        self.events = pdfread.interpret(c.data, self._width)
        self.text = []
        for n, e in enumerate(self.events):
            e['n'] = n
            if e['kind'] != 'text':
                if e['kind'] == 'image': need(e['name'] in self.xrefs, 'image %s not in the resources', e['name'])
                continue
            f = self.font(e['font'])
            need(e['ctm'] == (1, 0, 0, 1, 0, 0), 'text under a transformation')
            e['fo'] = f
            e['chars'] = []
            for b, off in e['parts']:
                x = e['x'] + off
                for c, w, sp in f.chars(b):
                    a = w * e['size'] + (e['Tw'] if sp else 0)
                    e['chars'].append((c, x, a)); x += a
            e['str'] = ''.join('\0' if c[0] is None else c[0] for c in e['chars'])
            e['x1'] = e['x'] + e['adv']
            self.text.append(e)

    def font(self, name):
        if name not in self.fonts:
            need(name in self.fontrefs, 'font %s is not in the resources of the page', name)
            key = self.fontrefs[name]
            cache = self.doc.__dict__.setdefault('_fonts', {})
            if key not in cache: cache[key] = Font(self.doc, key)
            self.fonts[name] = cache[key]
        return self.fonts[name]

    def _width(self, name, b):
        return [(w, sp) for c, w, sp in self.font(name).chars(b)]

    def blocks(self):
        """text events grouped by BT..ET"""
        out = {}
        for e in self.text: out.setdefault(e['bt'], []).append(e)
        return list(out.values())

    def string(self):
        return ''.join(e['str'] for e in self.text)

    def annots(self):
        return [self.doc.get(a) for a in self.doc.get(self.d.get('Annots', []))]

    def images(self):
        return [e for e in self.events if e['kind'] == 'image']

class Out:
    def __init__(self, data):
        self.doc = pdfread.Doc(data)
        self.pages = [Page(self.doc, r, d) for r, d in self.doc.pages()]

def written(pdf):
    import io
    b = io.BytesIO()
    pdf.output(b)
    return b.getvalue()

def abs_rect(e):
    """rectangle of a fill or image event in page space (only scaling and moving)"""
    a, b, c, d, x, y = e['ctm']
    need(b == 0 and c == 0, 'rotated graphics')
    r = e['rect'] if e['kind'] == 'rect' else (0, 0, 1, 1)
    return (x + a * r[0], y + d * r[1], a * r[2], d * r[3])

def abs_line(e):
    a, b, c, d, x, y = e['ctm']
    l = e['line']
    return (x + a * l[0], y + d * l[1], x + a * l[2], y + d * l[3])

def std_width(base, text):
    return sum(STD[base][c] for c in text) / 1000
