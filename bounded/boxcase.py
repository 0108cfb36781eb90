"""Content boxes on the real code: random boxes, and where their elements are found in the written pages."""
from common import *
import imgs
import rd
import tok

SHAPES = [(1, 1), (2, 1), (1, 2), (3, 2), (4, 1), (1, 3)]

def leaf(rng, size, kinds):
    k = rng.choice(kinds)
    st = {}
    for m, p in (('margin_top', .4), ('margin_bottom', .7), ('margin_left', .3), ('margin_right', .3)):
        st[m] = rng.choice([0, 3, 7.5, 12]) if rng.random() < p else 0
    e = dict(k=k, st=st)
    if k == 'text':
        e['n'] = rng.choice([1, 1, 2, 4, 8 * size, 30])
        st['s'] = rng.choice([8, 8, 11, 14.5])
        if rng.random() < .2: e['nl'] = True
    elif k == 'table':
        e['rows'] = rng.randint(1, 2 + size)
        e['n'] = rng.choice([1, 2, 5])
        st['s'] = 8
    elif k == 'image':
        e['shape'] = rng.choice(SHAPES)
        if rng.random() < .5: st['image_place'] = rng.choice(['flow', 'normal'])
        if rng.random() < .4: st['min_height'] = rng.choice([5, 20, 60])
        if rng.random() < .2: st['shrink'] = 1
    elif k == 'group':
        e['g'] = [dict(k=x, n=rng.randint(1, 5), shape=rng.choice(SHAPES), mh=rng.choice([None, 5, 12])) for x in
            [rng.choice(['text', 'text', 'image']) for i in range(rng.randint(1, 3))]]
        st['s'] = 8
    return e

def box(rng, size, depth, kinds):
    b = dict(k='box', els=[], cols=None, st={m: rng.choice([0, 4, 9]) for m in ('margin_top', 'margin_bottom')})
    if rng.random() < .5: b['cols'] = [rng.choice([1, 2, 2, 3, 3, 4, 5]), rng.choice([None, 5, 14, 0])]
    for i in range(rng.randint(1, 2 + size)):
        b['els'].append(box(rng, max(1, size // 2), depth - 1, kinds) if depth > 0 and rng.random() < .25 else leaf(rng, size, kinds))
    return b

def gen(rng, size, kinds):
    rects = [[rng.choice([20, 50]), rng.choice([30, 70]), rng.choice([180, 240, 330, 430, 470]), rng.choice([60, 110, 150, 260, 500])] for i in range(4)]
    w = rng.choice([180, 240, 330, 430, 440])
    if rng.random() < .6:
        for r in rects: r[2] = w
    return dict(box=box(rng, size, rng.choice([0, 0, 1, 2]), kinds), rects=rects)

class Leaf: pass

def build(case):
    """the content definition and its leaves"""
    leaves = []
    img = [0]
    def image(lf, shape):
        n = img[0]; img[0] += 1
        w, h = shape[0] * (20 + n), shape[1] * (20 + n)
        p = imgs.make('jpg', 'L', w, h, n)
        lf.images.append(dict(path=p, size=(w, h), frag=[]))
        return p
    def words(tag, n): return ['%sw%dz' % (tag, i) for i in range(n)]
    def conv(e, path):
        if e['k'] == 'box':
            d = {'style': dict(e['st']), 'content': []}
            if e['cols']:
                d['cols'] = {'count': e['cols'][0]}
                if e['cols'][1] is not None: d['cols']['gap'] = e['cols'][1]
            for i, c in enumerate(e['els']): d['content'].append(conv(c, path + [(e, i)]))
            return d
        lf = Leaf()
        lf.e, lf.path, lf.i, lf.words, lf.images, lf.order = e, path, len(leaves), [], [], []
        leaves.append(lf)
        t = 'e%d' % lf.i
        st = dict(e['st'])
        if e['k'] == 'text':
            ws = words(t, e['n']); lf.words = ws
            return {'.': [('\n' if e.get('nl') else ' ').join(ws)], 'style': st}
        if e['k'] == 'table':
            rows = []
            for r in range(e['rows']):
                ws = words('%sr%d' % (t, r), e['n']); lf.words += ws
                rows.append([' '.join(ws)])
            # the colour of a cell says what table it is from
            lf.fill = (lf.i // 16 % 16 * 17, lf.i % 16 * 17, 255)
            st['cell_fill'] = '#%02x%02x%02x' % lf.fill
            return {'table': rows, 'style': st}
        if e['k'] == 'image': return {'image': image(lf, e['shape']), 'style': st}
        g = []
        for j, x in enumerate(e['g']):
            if x['k'] == 'text':
                ws = words('%sg%d' % (t, j), x['n']); lf.words += ws; lf.order.append(('t', ws))
                g.append({'.': [' '.join(ws)]})
            else:
                s = {} if x['mh'] is None else {'min_height': x['mh']}
                lf.order.append(('i', len(lf.images)))
                g.append({'image': image(lf, x['shape']), 'style': s})
        return {'group': g, 'style': st}
    d = conv(case['box'], [])
    return d, leaves

def columns(b, x, w):
    """x intervals of the columns of a box"""
    n, gap = (b['cols'] or [1, None])
    if gap is None: gap = max(w / 25, 7)
    cw = (w - gap * (n - 1)) / n
    return [(x + i * (cw + gap), cw) for i in range(n)]

def chains(path, x, w):
    """all chains of columns an element can be in: [(col indexes, x, width)]"""
    out = [((), x, w)]
    for b, i in path:
        out = [(k + (c,), cx, cw) for k, x0, w0 in out for c, (cx, cw) in enumerate(columns(b, x0, w0))]
    return out

def fills(leaves, out):
    """the fills of the cells of every table are under its words, once"""
    rects = {}
    for n, p in enumerate(out.pages):
        for e in p.events:
            if e['kind'] != 'rect': continue
            c = e['fill']
            lf = [l for l in leaves if l.e['k'] == 'table' and c[0] == 'rg' and all(close(a, b / 255, .001) for a, b in zip(c[1:], l.fill))]
            need(len(lf) == 1, 'fill with colour %r', c)
            rects.setdefault((lf[0].i, n), []).append(rd.abs_rect(e))
    for lf in leaves:
        if lf.e['k'] != 'table': continue
        used = set()
        for w in lf.words:
            need(w in lf.tok, 'the word %r is not shown', w)
            n, t = lf.tok[w]
            k = [j for j, (x, y, a, b) in enumerate(rects.get((lf.i, n), [])) if x - .02 <= t['x0'] and t['x1'] <= x + a + .02 and y - .02 <= t['y'] and t['y'] + t['size'] * .5 <= y + b + .02]
            need(len(k) == 1, 'table %d: the word %r is over %d fills', lf.i, w, len(k))
            used.add((n, k[0]))
        for (i, n), l in rects.items():
            if i == lf.i:
                for j, r in enumerate(l): need((n, j) in used or abs(r[3]) <= 4.02, 'table %d: fill %r of page %d is under nothing', i, r, n)

def layout(case, maxpages=40):
    """lay the box out over the rectangles of the case; the pieces of every leaf"""
    import pdfme
    import docs
    d, leaves = build(case)
    pdf = pdfme.PDF(page_size=(500, 600), margin=0)
    rects = []
    for lf in leaves:
        # columns wide enough to be sensible
        for r in case['rects']:
            for k, x, w in chains(lf.path, r[0], r[2]):
                if w - lf.e['st'].get('margin_left', 0) - lf.e['st'].get('margin_right', 0) < 62: raise Skip()
    try:
        c = None
        while True:
            r = case['rects'][len(rects) % len(case['rects'])]
            if len(rects) >= maxpages: raise Skip()
            rects.append(r)
            rd.next_page(pdf, (500, 600))
            c = pdf._content(d if c is None else c, width=r[2], height=r[3], x=r[0], y=r[1])
            if c.finished: break
    except Exception as e:
        if any(x in str(e) for x in docs.KNOWN): raise Skip()
        raise
    out = rd.Out(rd.written(pdf))
    by = {}
    for lf in leaves:
        for w in lf.words: by[w] = lf
        lf.tok = {}
    byimg = {im['size']: (lf, im) for lf in leaves for im in lf.images}
    for n, p in enumerate(out.pages):
        for t in tok.tokens(p, 'z'):
            need(t['word'] in by, 'unknown text %r', t['word'])
            lf = by[t['word']]
            need(t['word'] not in lf.tok, 'word %r is shown twice', t['word'])
            lf.tok[t['word']] = (n, t)
        for e in p.images():
            im = out.doc.get(p.xrefs[e['name']]).d
            need((im['Width'], im['Height']) in byimg, 'unknown image')
            lf, i = byimg[(im['Width'], im['Height'])]
            i['frag'].append((n, rd.abs_rect(e)))
    fills(leaves, out)
    # pieces: (page, chain of columns, top, bottom, x0, x1)
    for lf in leaves:
        for w in lf.words: need(w in lf.tok, 'the word %r is not shown', w)
        lf.pieces = []
        st = lf.e['st']
        ml, mr = st.get('margin_left', 0), st.get('margin_right', 0)
        ch = [chains(lf.path, r[0], r[2]) for r in case['rects']]
        def chain(n, x0, x1, what):
            c = [k for k in ch[n % len(ch)] if k[1] + ml - .02 <= x0 and x1 <= k[1] + k[2] - mr + .02]
            need(len(c) == 1, 'element %d: %s at x %r..%r is not inside a column', lf.i, what, x0, x1)
            return c[0]
        lf.lines = []
        for w in lf.words:
            n, t = lf.tok[w]
            k = chain(n, t['x0'], t['x1'], w)
            if lf.lines and lf.lines[-1][0] == n and lf.lines[-1][1] == k and close(lf.lines[-1][2], t['y'], .01): lf.lines[-1][5].append(t)
            else: lf.lines.append([n, k, t['y'], t['size'], t['x0'], [t]])
        for n, k, y, s, x, ts in lf.lines: lf.pieces.append((n, k[0], y + s, y, x, ts[-1]['x1'], 't'))
        for i in lf.images:
            need(len(i['frag']) == 1, 'element %d: image drawn %d times', lf.i, len(i['frag']))
            n, (x, y, w, h) = i['frag'][0]
            k = chain(n, x, x + w, 'image')
            i['chain'] = k
            lf.pieces.append((n, k[0], y + h, y, x, x + w, 'i'))
        # inside the rectangle
        for n, k, top, bot, x0, x1, kind in lf.pieces:
            r = case['rects'][n % len(case['rects'])]
            ph = 600
            need(top <= ph - r[1] + .02 and bot >= ph - r[1] - r[3] - .02, 'element %d: page %d, from y %r to %r, outside of its rectangle %r', lf.i, n, top, bot, r)
    return leaves, out
