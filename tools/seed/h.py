"""Reads what a page of pdfme draws (only what the demonstrations need)."""
import io
import os
import re
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())

TOK = re.compile(r'\((?:\\.|[^\\()])*\)|\[|\]|[^\s\[\]()]+', re.S)

def unescape(s):
    return re.sub(r'\\(.)', lambda m: {'r': '\r', 'n': '\n', 't': '\t'}.get(m.group(1), m.group(1)), s[1:-1], flags=re.S)

def content(page):
    return b''.join(page.stream['__stream__'].values()).decode('latin')

def draw(page):
    """texts, rectangles, lines and images in the page, in order"""
    out = []
    st = dict(Tf=None, size=0, Ts=0, Tw=0, g=('g', 0.0), G=('G', 0.0), w=1.0, d='', ox=0, oy=0)
    stack, args = [], []
    x = y = 0
    for m in TOK.finditer(content(page)):
        t = m.group(0)
        if t[0] in '([' or t == ']' or t[0] == '/' or re.match(r'[-+.\d]', t):
            args.append(t); continue
        n = [float(a) for a in args if re.match(r'[-+.\d]', a)]
        if t == 'q': stack.append(dict(st))
        elif t == 'Q': st = stack.pop()
        elif t == 'cm': st['ox'] += n[4]; st['oy'] += n[5]; st['cm'] = n
        elif t == 'Tm': x, y = n[4], n[5]
        elif t == 'Td': x += n[0]; y += n[1]
        elif t == 'Tf': st['Tf'] = args[0][1:]; st['size'] = n[0]
        elif t in ('Ts', 'Tw', 'w'): st[t] = n[0]
        elif t == 'd': st['d'] = ' '.join(args)
        elif t in ('g', 'rg'): st['g'] = (t,) + tuple(n)
        elif t in ('G', 'RG'): st['G'] = (t,) + tuple(n)
        elif t in ('Tj', 'TJ'):
            out.append(dict(k='text', s=''.join(unescape(a) for a in args if a[0] == '('), x=x, y=y, font=st['Tf'], size=st['size'],
                rise=st['Ts'], tw=st['Tw'], color=st['g']))
        elif t == 're': out.append(dict(k='rect', x=n[0] + st['ox'], y=n[1] + st['oy'], w=n[2], h=n[3], color=st['g']))
        elif t == 'm': p = n
        elif t == 'l':
            out.append(dict(k='line', x1=p[0] + st['ox'], y1=p[1] + st['oy'], x2=n[0] + st['ox'], y2=n[1] + st['oy'], color=st['G'], w=st['w'], d=st['d']))
        elif t == 'Do': out.append(dict(k='image', name=args[-1][1:], cm=st['cm']))
        args = []
    return out

def texts(page): return [e for e in draw(page) if e['k'] == 'text']

def words(pages): return ' '.join(e['s'] for p in pages for e in texts(p)).split()

def written(pdf):
    b = io.BytesIO()
    pdf.output(b)
    return b.getvalue()

def ttf(path, chars):
    """a TrueType font with these characters"""
    from fontTools.fontBuilder import FontBuilder
    from fontTools.pens.ttGlyphPen import TTGlyphPen
    order = ['.notdef'] + ['g%d' % i for i in range(len(chars))]
    fb = FontBuilder(1000, isTTF=True)
    fb.setupGlyphOrder(order)
    fb.setupCharacterMap({ord(c): 'g%d' % i for i, c in enumerate(chars)})
    pen = TTGlyphPen(None)
    pen.moveTo((0, 0)); pen.lineTo((50, 0)); pen.lineTo((50, 50)); pen.closePath()
    gl = pen.glyph()
    fb.setupGlyf({g: gl for g in order})
    fb.setupHorizontalMetrics({g: (300 + 37 * i % 600, 0) for i, g in enumerate(order)})
    fb.setupHorizontalHeader(ascent=800, descent=-200)
    fb.setupNameTable({'familyName': 'Demo', 'styleName': 'Regular', 'psName': 'Demo-Regular'})
    fb.setupOS2(sTypoAscender=800, sTypoDescender=-200, usWeightClass=400, fsType=0, sCapHeight=700, version=4)
    fb.setupPost()
    fb.save(path)
