"""C11 on the real code: random lists of graphics, read back by an independent
interpreter of content streams."""
from common import *
import pdfread

RULE = ('random lists of 0-14 lines and filled rectangles whose colours, widths and styles come from small pools '
    '(so that equal and different neighbours alternate); distinct by the list')

COLORS = [0, 1, 0.5, 'red', '#0a0', '#10f0a0', [0.2, 0.3, 0.4], [0.25], 'black', [0.5, 0.5, 0.5], [0, 0, 0]]
NUMS = [0, 1, 2.5, 10, 100.1234, -3.75, 500, 0.3333333, 12.0006]

def fixed():
    one = lambda t, **k: dict({'type': t, 'c': 0}, **k)
    yield []
    for style in ('solid', 'dashed', 'dotted'):
        for style2 in ('solid', 'dashed', 'dotted'):
            for w2 in (1, 2):
                yield [dict(type='line', c=0, x1=0, y1=0, x2=1, y2=1, width=1, style=style),
                       dict(type='line', c=0, x1=0, y1=0, x2=1, y2=1, width=w2, style=style2),
                       dict(type='line', c=1, x1=0, y1=0, x2=1, y2=1, width=1, style=style)]

def gen(rng, size):
    out = []
    for i in range(rng.randint(0, size + 2)):
        c = rng.choice(COLORS[:rng.randint(1, len(COLORS))])
        n = lambda: rng.choice(NUMS) if rng.random() < .6 else round(rng.uniform(-50, 800), rng.randint(0, 6))
        if rng.random() < .4:
            out.append(dict(type='fill', c=c, x=n(), y=n(), width=n(), height=n()))
        else:
            out.append(dict(type='line', c=c, x1=n(), y1=n(), x2=n(), y2=n(),
                width=rng.choice([0, 0.5, 1, 1, 2, 0.3333, 3]), style=rng.choice(['solid', 'dashed', 'dotted'])))
    return out

def color_of(c):
    """expected components, from the documentation of colours"""
    if isinstance(c, (int, float)): return (c,)
    if isinstance(c, list): return tuple(c)
    names = {'red': (1, 0, 0), 'black': (0, 0, 0)}
    if c in names: return names[c]
    h = c[1:]
    if len(h) == 3: h = ''.join(x + x for x in h)
    return tuple(int(h[i:i + 2], 16) / 255 for i in (0, 2, 4))

def run(case):
    from pdfme.utils import create_graphics
    from pdfme.color import PDFColor
    gs = []
    for g in case:
        g = dict(g)
        g['color'] = PDFColor(g.pop('c'), stroke=g['type'] == 'line')
        gs.append(g)
    s = create_graphics(gs)
    need(isinstance(s, str), 'not a str')
    pre = b'0.11 0.12 0.13 rg 0.14 0.15 0.16 RG 7.5 w 2 J [5] 1 d '
    ev = pdfread.interpret(pre + s.encode('latin') + b' 1 1 1 1 re F 0 0 m 1 1 l S')
    last = ev[-2:]
    need(last[0]['fill'] == ('rg', .11, .12, .13) and last[1]['stroke'] == ('RG', .14, .15, .16) and
        last[1]['w'] == 7.5 and last[1]['J'] == 2 and last[1]['d'] == ([5], 1),
        'the graphics state is not restored: %r', last)
    ev = ev[:-2]
    need(len(ev) == len(case), '%d graphics painted, %d requested: %s', len(ev), len(case), s)
    for i, (e, g) in enumerate(zip(ev, case)):
        col = color_of(g['c'])
        op = e['fill'] if e['kind'] == 'rect' else e['stroke']
        want = ('g' if len(col) == 1 else 'rg')
        if g['type'] == 'line': want = want.upper()
        need(op[0] == want and len(op) == len(col) + 1 and all(close(a, b, .00051) for a, b in zip(op[1:], col)),
            'graphic %d has color %r instead of %r', i, op, col)
        if g['type'] == 'fill':
            need(e['kind'] == 'rect', 'graphic %d is not a rectangle', i)
            need(all(close(a, g[k], .00051) for a, k in zip(e['rect'], ('x', 'y', 'width', 'height'))),
                'rectangle %d is %r', i, e['rect'])
        else:
            need(e['kind'] == 'line', 'graphic %d is not a line', i)
            need(all(close(a, g[k], .00051) for a, k in zip(e['line'], ('x1', 'y1', 'x2', 'y2'))),
                'line %d is %r', i, e['line'])
            w = g['width']
            need(close(e['w'], w, .00051), 'line %d has width %r instead of %r', i, e['w'], w)
            d, ph = e['d']
            st = g['style']
            if st == 'solid': ok = d == [] and e['J'] == 0
            elif st == 'dashed': ok = e['J'] == 0 and len(d) == 2 and close(d[0], 3 * w) and close(d[1], 1.5 * w)
            else: ok = e['J'] == 1 and len(d) == 2 and d[0] == 0 and close(d[1], 2 * w) and close(ph, w / 2)
            need(ok, 'line %d is not %s: cap %r dash %r (width %r)', i, st, e['J'], e['d'], w)
            if st == 'solid': need(d == [], 'solid')
    return repr(case) if case else None

def from_hint(h):
    rng = random.Random(5)
    for i in range(40): yield gen(rng, 5)
