"""C10 on the real code: documents with outlines in paragraphs, tables, content boxes."""
from common import *
import io
import json
import rd
import tok

RULE = ('random sequences of 1-30 outlines of nested levels, with and without text and label, in paragraphs that fill one '
    'or several pages, tables and content boxes, for outline levels 1-4, written once or twice; distinct by the case')

TITLES = ['', 'One', 'A (b) c', 'back\\slash', 'x)y(', 'été', 'end\\', 'a\rb']

def fixed():
    yield dict(level=1, items=[], times=1)
    for lv in (1, 2, 3):
        yield dict(level=lv, items=[[1, None, None, 0], [2, None, None, 0], [3, None, None, 0], [2, None, None, 0], [1, None, None, 0]], times=1)
        yield dict(level=lv, items=[[l, 'T%d' % i, None, 0] for i, l in enumerate([1, 2, 2, 3, 3, 4, 2, 1, 1, 2, 3, 4, 4, 1])], times=2)
    for n in (1, 2, 7, 40): yield dict(level=1, items=[[1, None, None, 0]] * n, times=1)

def gen(rng, size):
    items = []
    prev = 0
    for i in range(rng.randint(0, 3 * size)):
        lv = rng.randint(1, min(5, prev + 1))
        prev = lv
        items.append([lv, rng.choice(TITLES) if rng.random() < .5 else None, 'lab%d' % i if rng.random() < .4 else None,
            rng.randrange(6)])
    return dict(level=rng.randint(1, 4), items=items, times=rng.choice([1, 1, 2]))

def run(case):
    import pdfme
    pdf = pdfme.PDF(page_size=(300, 260), margin=30, outlines_level=case['level'])
    pdf.add_page()
    elems = []
    fill = 'filler ' * 12
    for i, (lv, text, label, kind) in enumerate(case['items']):
        o = {'level': lv}
        if lv == 1 and i % 2: del o['level']
        if text is not None: o['text'] = text
        d = {'.b': ['mark%d' % i], 'outline': o}
        if label: d['label'] = label
        elems.append((kind, d, i))
    for kind, d, i in elems:
        if kind in (0, 1): pdf.text({'.': [d, ' ' + fill]})
        elif kind == 2: pdf.text({'.': [fill * 3, d, ' ' + fill * 2]})
        elif kind == 3: pdf.table([[{'.': [d]}, fill]])
        elif kind == 4: pdf.content({'content': [fill, {'.': [d]}], 'cols': {'count': 2, 'gap': 10}})
        else: pdf.text(dict(d))
    # expected tree
    root = []
    stack = [(0, root)]
    for kind, d, i in elems:
        lv = d['outline'].get('level', 1)
        text = d['outline'].get('text', 'mark%d' % i)
        while stack[-1][0] >= lv: stack.pop()
        node = (text, i, [], lv)
        stack[-1][1].append(node)
        stack.append((lv, node[2]))
    for t in range(case['times']):
        out = rd.Out(rd.written(pdf))
        tree = out.doc.outlines()
        dests = out.doc.dests()
        where = {}
        for p in out.pages:
            for w in tok.tokens(p):
                if w['word'].startswith('mark'): where[w['word']] = (p, w)
        def compare(got, want, depth):
            need(len(got) == len(want), 'depth %d has the outlines %r instead of %r', depth, [g[0] for g in got], [w[0] for w in want])
            for g, w in zip(got, want):
                need(g[0] == w[0].encode('latin'), 'outline %r instead of %r', g[0], w[0])
                need(g[1] in dests, 'outline %r leads to %r, not a destination', g[0], g[1])
                d = dests[g[1]]
                p, k = where['mark%d' % w[1]]
                need(d[0] == p.ref, 'outline %r leads to another page', g[0])
                need(d[1] == 'XYZ' and close(d[2], k['x0'], .02) and close(d[3], k['y'] + k['rise'] + .75 * k['size'], .02),
                    'outline %r leads to %r, the text is at %r', g[0], d[2:4], (k['x0'], k['y']))
                n = out.doc.get(g[3])
                if g[2]: need((n['Count'] > 0) == (depth < case['level']), 'outline %r of depth %d is open or closed wrongly', g[0], depth)
                compare(g[2], w[2], depth + 1)
        compare(tree, root, 1)
        if not root: need('Outlines' not in out.doc.root, 'outlines in a document without them')
    return repr(case) if case['items'] else None
