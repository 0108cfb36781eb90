"""C17 on the real code: page geometry and the cursor, against the positions found in the written pages."""
from common import *
import imgs
import rd

RULE = ('random sequences of pages (named, square and explicit sizes, rotations, margins of every form), changes of the '
    'defaults, and paragraphs, tables, content boxes and images of 0.1 to 3 pages added at the cursor or at explicit '
    'positions; distinct by the case')

SIZES = {'a5': (419.528, 595.276), 'a4': (595.276, 841.89), 'letter': (612, 792), 'legal': (612, 1008), 'a3': (841.89, 1190.551),
    'b5': (498.898, 708.661), 'b4': (708.661, 1000.63), 'jis-b5': (515.906, 728.504), 'jis-b4': (728.504, 1031.812), 'ledger': (792, 1224)}
SIDES = ('top', 'right', 'bottom', 'left')

def margins(m):
    if isinstance(m, dict): return dict(m)
    if isinstance(m, str): m = [float(x) for x in m.replace(',', ' ').split(' ')]
    if isinstance(m, (int, float)): m = [m]
    if not m: m = [0]
    n = list(m)
    n = {1: n * 4, 2: n * 2, 3: n + n[1:2]}.get(len(n), n[:4])
    return dict(zip(SIDES, n))

def dims(s, rot):
    w, h = SIZES[s] if isinstance(s, str) else (s, s) if isinstance(s, (int, float)) else s
    return (h, w) if rot else (w, h)

def fixed():
    for s in list(SIZES) + [300, [200, 350], [410.5, 222.25]]:
        for r in (None, False, True):
            yield dict(init={'page_size': s}, ops=[['page', dict({} if r is None else {'rotate_page': r})], ['text', 3], ['page', {}], ['image', [30, None], {}]])
            yield dict(init={'page_size': s, 'rotate_page': True}, ops=[['page', dict({} if r is None else {'rotate_page': r})], ['text', 3]])
    for m in (0, 12, [15], [10, 20], [5, 15, 25], [5, 10, 15, 20], [], '10', '10 20', '10,20,30', '4 8 12 16.5', {'left': 50}, {'top': 3, 'bottom': 4}, [1, 2, 3, 4, 5]):
        yield dict(init={'page_size': 300, 'margin': [40, 41, 42, 43]}, ops=[['page', {'margin': m}], ['text', 2], ['page', {}], ['table', 3], ['setup', {'margin': m}] if not isinstance(m, dict) else ['text', 1], ['page', {}], ['content', 2]])
    for k in ('text', 'table', 'content'):
        for n in (1, 5, 20, 60, 150): yield dict(init={'page_size': [260, 300], 'margin': 30}, ops=[['page', {}], ['text', 4], [k, n], ['text', 1], ['image', [20, None], {}], ['text', 1]])

def pargs(rng, dicts=True):
    d = {}
    if rng.random() < .45: d['page_size'] = rng.choice(list(SIZES) + [300, [250, 380], [400.5, 300], 222.2])
    if rng.random() < .35: d['rotate_page'] = rng.random() < .5
    if rng.random() < .4: d['margin'] = rng.choice([20, 40.5, [30], [30, 50], [10, 20, 30], [10, 20, 30, 40], '25', '10 30', '10,20,30,40'] +
        ([{'left': 60}, {'top': 9, 'right': 11}, {'bottom': 70}] if dicts else []))
    return d

def gen(rng, size):
    ops = [['page', pargs(rng)]]
    for i in range(rng.randint(1, 4 + 2 * size)):
        t = rng.random()
        if t < .15: ops.append(['page', pargs(rng)])
        elif t < .22: ops.append(['setup', pargs(rng, False)])
        elif t < .45: ops.append(['text', rng.choice([1, 2, 5, 30, 120])])
        elif t < .55: ops.append(['table', rng.choice([1, 2, 5, 40])])
        elif t < .65: ops.append(['content', rng.choice([1, 2, 5, 40])])
        elif t < .8:
            at = {}
            if rng.random() < .4: at['x'] = rng.choice([10, 33.3])
            if rng.random() < .4: at['y'] = rng.choice([20, 55.5])
            if rng.random() < .5: at['move'] = rng.choice(['bottom', 'next', 'none'])
            ops.append(['image', rng.choice([[20, None], [None, 15], [None, None], [30, 10.5]]), at])
        else:
            at = {}
            if rng.random() < .5: at['x'] = rng.choice([15, 42.2])
            if rng.random() < .5: at['y'] = rng.choice([25, 66.6])
            if rng.random() < .5: at['width'] = rng.choice([90, 120.5])
            if rng.random() < .5: at['move'] = rng.choice(['bottom', 'next', 'none'])
            ops.append([rng.choice(['_text', '_table', '_content']), rng.choice([1, 2, 6]), at])
    if rng.random() < .15: return gen_doc(rng)
    return dict(init=pargs(rng, False), ops=ops)

def gen_doc(rng):
    return dict(doc=dict(style=pargs(rng, False), sections=[dict(style=pargs(rng, False), n=rng.choice([1, 3, 30])) for i in range(rng.randint(1, 3))],
        per_page=[dict(pages=rng.choice(['0', '1:', '0::2', '2']), style=pargs(rng, False)) for i in range(rng.choice([0, 0, 1]))]))

def run_doc(case):
    """the pages of the sections of a document, and the text in them"""
    import pdfme
    import docs
    import io
    c = case['doc']
    def st(d): return {k: tuple(v) if isinstance(v, list) and k == 'page_size' else v for k, v in d.items()}
    d = {'style': st(c['style']), 'sections': [{'style': st(s['style']), 'content': [body('q%de' % n, 3) for i in range(s['n'])]} for n, s in enumerate(c['sections'])]}
    if c['per_page']: d['per_page'] = [{'pages': p['pages'], 'style': st(p['style'])} for p in c['per_page']]
    b = io.BytesIO()
    try: pdfme.build_pdf(d, b)
    except Exception as e:
        if any(x in str(e) for x in docs.KNOWN): raise Skip()
        raise
    out = rd.Out(b.getvalue())
    sec = 0
    for i, g in enumerate(out.pages):
        tags = {e['str'].split('e')[0] for e in g.text}
        need(len(tags) == 1, 'page %d has text of %r', i, tags)
        sec = int(tags.pop()[1:])
        a = {'page_size': 'a4', 'rotate_page': False, 'margin': 56.693}
        a.update(c['style'])
        m = margins(a['margin'])
        for z in (c['sections'][sec]['style'],) + tuple(p['style'] for p in c['per_page'] if i in selected(p['pages'])):
            a.update(z)
            if 'margin' in z: m = margins(z['margin'])
        w, h = dims(a['page_size'], a['rotate_page'])
        need(close(g.box[2], w, .01) and close(g.box[3], h, .01), 'page %d has size %r instead of %r', i, g.box, (w, h))
        top = max(e['y'] for e in g.text)
        need(10.9 <= h - m['top'] - top <= 20, 'page %d: the text starts at %r, the top of the content area is %r', i, top, h - m['top'])
        need(all(e['y'] >= m['bottom'] - .01 for e in g.text), 'page %d: text below the bottom margin', i)
        need(close(min(e['x'] for e in g.text), m['left'], .02), 'page %d: the text starts at x %r', i, min(e['x'] for e in g.text))
        for e in g.text:
            sp = e['str'].rstrip(' ')
            need(e['chars'][len(sp) - 1][1] <= w - m['right'] + .02, 'page %d: text right of the margin', i)
        # the lines use the width
        ls = {}
        for e in g.text: ls.setdefault(round(e['y'], 2), []).append(e)
        if len(ls) >= 8: need(max(e['chars'][len(e['str'].rstrip(' ')) - 1][1] for l in ls.values() for e in l) >= min(w - m['right'] - 42, m['left'] + 300), 'page %d: no line uses the width of the page', i)
    return repr(case)

def selected(r):
    n = [int(x) if x else None for x in r.split(':')]
    if len(n) == 1: return [n[0]]
    return range(200)[slice(*n)]

def body(tag, n):
    return ' '.join('%s%dz' % (tag, i) for i in range(n * 5))

def run(case):
    import pdfme
    import docs
    if 'doc' in case: return run_doc(case)
    if any(isinstance(op[1], dict) and isinstance(op[1].get('margin'), dict) for op in case['ops'] if op[0] == 'setup'): raise Skip()
    pdf = pdfme.PDF(**{k: tuple(v) if isinstance(v, list) else v for k, v in case['init'].items()})
    cur = dict(page_size='a4', rotate_page=False, margin=margins(56.693))
    def default(d):
        for k in ('page_size', 'rotate_page'):
            if k in d: cur[k] = d[k]
        if 'margin' in d: cur['margin'] = margins(d['margin'])
    default(case['init'])
    geo = []          # per page: width, height, margins
    log = []          # (tag, kind, first page, x, y before, page after, y after, width)
    def newpage(d):
        w, h = dims(d.get('page_size', cur['page_size']), d.get('rotate_page', cur['rotate_page']))
        m = dict(cur['margin'])
        if 'margin' in d: m.update(margins(d['margin']))
        geo.append((w, h, m))
    ptol = .01
    def at_origin():
        p = pdf.page
        w, h, m = geo[-1]
        need(close(p.width, w, ptol) and close(p.height, h, ptol), 'page of %r instead of %r', (p.width, p.height), (w, h))
        need(close(pdf.width, w, ptol) and close(pdf.height, h, ptol), 'size of the current page')
        for s in SIDES: need(close(getattr(p, 'margin_' + s), m[s], ptol), 'margin %s is %r instead of %r', s, getattr(p, 'margin_' + s), m[s])
        need(close(p.content_width, w - m['left'] - m['right'], ptol) and close(p.content_height, h - m['top'] - m['bottom'], ptol), 'content area of %r', (p.content_width, p.content_height))
    def check_cursor():
        p = pdf.page
        w, h, m = geo[-1]
        need(close(p.x, m['left'], ptol) and close(p.y, m['top'], ptol), 'cursor of a new page at %r instead of %r', (p.x, p.y), (m['left'], m['top']))
    try:
        for n, op in enumerate(case['ops']):
            k = op[0]
            tag = 'q%de' % n
            if k == 'setup':
                pdf.setup_page(**op[1]); default(op[1]); continue
            if k == 'page':
                pdf.add_page(**op[1]); newpage(op[1]); at_origin(); check_cursor(); continue
            at = op[2] if len(op) > 2 else {}
            w, h, m = geo[-1]
            x0 = at.get('x', m['left'] if k in ('text', 'table', 'content') else pdf.page.x)
            y0 = at.get('y', pdf.page.y)
            width = at.get('width', w - m['right'] - x0)
            if k in ('_text', '_table', '_content') and (width < 60 or h - m['bottom'] - y0 < 40): continue
            first = len(geo) - 1
            if k == 'image':
                iw, ih = op[1]
                p = imgs.make('jpg', 'RGB', 8 + n, 5, n)
                pdf.image(p, width=iw, height=ih, **at)
            elif k == 'text': pdf.text(body(tag, op[1]))
            elif k == 'table': pdf.table([[body(tag, 1)] for i in range(op[1])])
            elif k == 'content': pdf.content({'content': [body(tag, 1) for i in range(op[1])]})
            elif k == '_text': t = pdf._text(body(tag, op[1]), **at)
            elif k == '_table': t = pdf._table([[body(tag, 1)] for i in range(op[1])], **at)
            else: t = pdf._content({'content': [body(tag, 1) for i in range(op[1])]}, **at)
            while len(geo) < len(pdf.pages): newpage({})
            at_origin()
            log.append((tag, k, first, x0, y0, len(geo) - 1, pdf.page.x, pdf.page.y, width, at, op[1], n,
                t.finished if k[0] == '_' else True))
    except Exception as e:
        if any(x in str(e) for x in docs.KNOWN): raise Skip()
        raise
    need(len(geo) == len(pdf.pages), '%d pages instead of %d', len(pdf.pages), len(geo))
    out = rd.Out(rd.written(pdf))
    for i, (g, (w, h, m)) in enumerate(zip(out.pages, geo)):
        need(list(g.box[:2]) == [0, 0] and close(g.box[2], w, .01) and close(g.box[3], h, .01), 'page %d has size %r instead of %r', i, g.box, (w, h))
    used = 0
    for tag, k, first, x0, y0, last, x1, y1, width, at, arg, n, fin in log:
        move = at.get('move', 'bottom')
        # where it is in the pages
        where = []
        for i in range(first, last + 1):
            g = out.pages[i]
            if k == 'image':
                for e in g.images():
                    if out.doc.get(g.xrefs[e['name']]).d['Width'] == 8 + n and e not in [q[1] for q in where]: where.append((i, e))
            else:
                for e in g.text:
                    if tag in e['str']: where.append((i, e))
        if k == 'image':
            need(len(where) == 1, 'image drawn %d times', len(where))
            i, e = where[0]
            X, Y, W, H = rd.abs_rect(e)
            ph = geo[i][1]
            iw, ih = arg
            r = (8 + n) / 5
            if iw is None and ih is None: iw = geo[i][0] - geo[i][2]['left'] - geo[i][2]['right']; ih = iw / r
            elif ih is None: ih = iw / r
            elif iw is None: iw = ih * r
            need(close(W, iw, .01) and close(H, ih, .01), 'image of %r instead of %r', (W, H), (iw, ih))
            need(close(X, x0, .01) and close(ph - Y - H, y0, .01), 'image at %r, the cursor was at %r', (X, ph - Y - H), (x0, y0))
            need(close(y1, y0 + (ih if move == 'bottom' else 0), .02), 'cursor at %r after an image of height %r at %r', y1, ih, y0)
            need(close(x1, x0 + (iw if move == 'next' else 0), .02), 'cursor at x %r after an image at %r', x1, x0)
            used += 1
            continue
        if not fin: need(where or k == '_content', 'nothing fitted'); 
        for i, e in where:
            pw, ph, m = geo[i]
            left = x0 if i == first else m['left']
            wd = width if i == first else pw - m['left'] - m['right']
            top = ph - (y0 if i == first else m['top'])
            need(left - .01 <= e['x'], '%s in page %d: text at x %r, left of %r', k, i, e['x'], left)
            sp = e['str'].rstrip(' ')
            need(e['chars'][len(sp) - 1][1] <= left + wd + .01 or ' ' not in sp, '%s in page %d: text up to %r, right of %r', k, i, e['x1'], left + wd)
            need(e['y'] < top, '%s in page %d: text at y %r over the top %r', k, i, e['y'], top)
            need(e['y'] >= m['bottom'] - .01, '%s in page %d: text at y %r below the margin %r', k, i, e['y'], m['bottom'])
        for i in range(first, last + 1):
            es = [e for j, e in where if j == i]
            pw, ph, m = geo[i]
            if not es:
                need(i == first or not fin, 'nothing of %s in page %d', k, i); continue
            top = ph - (y0 if i == first else m['top'])
            left = x0 if i == first else m['left']
            t = top - max(e['y'] for e in es)
            need(10.9 <= t <= 11 + 9, '%s in page %d starts %r below the cursor', k, i, t)
            l = min(e['x'] for e in es) - left
            need(-.01 <= l <= 6, '%s in page %d starts %r right of the cursor', k, i, l)
            if i < last:
                # the text goes on only when the next line does not fit
                low = min(e['y'] for e in es)
                need(low - 11 * 1.1 - (18 if "table" in k else 13) < m['bottom'], '%s leaves page %d at %r, the margin is at %r', k, i, low, m['bottom'])
        es = [e for j, e in where if j == last]
        if fin and es:
            low = geo[last][1] - min(e['y'] for e in es)
            if move == 'bottom' or k[0] != '_':
                need(low - .02 <= y1 <= low + (.02 if 'text' in k else 12), 'cursor at %r after %s whose last line is at %r', y1, k, low)
            else: need(close(y1, y0, .01), 'cursor moved to %r by %s', y1, k)
            if k[0] == '_': need(close(x1, x0 + (width if move == 'next' else 0), .02), 'cursor at x %r after %s at %r', x1, k, x0)
        used += 1
    return repr(case) if used or len(geo) else None
