"""Paragraphs on the real code: random paragraphs flowing through rectangles, and what is found of them in the
written pages.  One page per rectangle; every paragraph has its own band of the pages."""
from common import *
import fontkit
import imgs
import rd

BAND = 2500
STD = {'Helvetica': ['Helvetica', 'Helvetica-Bold', 'Helvetica-Oblique', 'Helvetica-BoldOblique'],
    'Times': ['Times-Roman', 'Times-Bold', 'Times-Italic', 'Times-BoldItalic'],
    'Courier': ['Courier', 'Courier-Bold', 'Courier-Oblique', 'Courier-BoldOblique'],
    'Symbol': ['Symbol'] * 4, 'ZapfDingbats': ['ZapfDingbats'] * 4}
COLORS = {'red': ('rg', 1, 0, 0), '0.3': ('g', .3), '#0af': ('rg', 0, .667, 1), '0': ('g', 0), '0.1': ('g', .1), '0.9': ('g', .9),
    'yellow': ('rg', 1, 1, 0), '1': ('g', 1), '#102030': ('rg', .063, .125, .188),
    '#0a0': ('rg', 0, .667, 0), '#1020f0': ('rg', .063, .125, .941), 'white': ('rg', 1, 1, 1)}
ODD = '()\\éñß¡ÿ'
MORE = 'αβЖ漢あ한€’—𝄞😀'

def word(rng, kit):
    n = rng.choice([1, 1, 2, 3, 4, 5, 7, 12]) if rng.random() < .97 else 45
    pool = 'abcdefghijklmnopqrstuvwxyzABCXYZ0123456789.,-' + ((ODD[:-2] if kit else ODD) * 2 if rng.random() < .35 else '') + (MORE * 2 if kit and rng.random() < .5 else '')
    w = ''.join(rng.choice(pool) for i in range(n))
    if rng.random() < .05: w = w[:1] + rng.choice(['\\', '\\)', '\\n', '\\051', ')(', '\\\\']) + w[1:]
    if rng.random() < .02: w = w[:1] + 'x\ry' + w[1:]
    return w

def text(rng, n, kit, br=.04):
    out = []
    for i in range(n):
        out.append(word(rng, kit))
        t = rng.random()
        out.append('\n' if t < br else ' \n ' if t < br + .01 else '\n\n' if t < br + .015 else '  ' if t < br + .03 else ' \t ' if t < br + .035 else ' ')
    s = ''.join(out)
    if rng.random() < .5: s = s.rstrip(' \t')
    if rng.random() < .3: s = ' ' + s
    return s

def style(rng, p=.3, kit=True):
    s = {}
    for k in 'biu':
        if rng.random() < p * .8: s[k] = rng.choice([1, 1, 0])
    if rng.random() < p: s['s'] = rng.choice([6, 8, 12.5, 16, 10.333, 11])
    if rng.random() < p: s['f'] = rng.choice(['Helvetica', 'Times', 'Courier'] + (['Kit', 'Kit'] if kit else []))
    if rng.random() < p: s['c'] = rng.choice(list(COLORS))
    if rng.random() < p * .6: s['bg'] = rng.choice(['yellow', '0.9', '1', '', 'white', '#0a0'])
    if rng.random() < p * .4: s['r'] = rng.choice([.3, -.2, .5, 0])
    return s

def parts(rng, size, depth, inh_kit, br):
    out = []
    for i in range(rng.randint(1, 1 + size)):
        if depth <= 0 or rng.random() < .5: out.append(text(rng, rng.randint(0, 3 + 2 * size), inh_kit, br))
        else:
            st = style(rng)
            kit = st.get('f', 'Kit' if inh_kit else '') == 'Kit'
            d = dict(st=st, items=parts(rng, max(1, size // 2), depth - 1, kit, br))
            if rng.random() < .25: d['uri'] = 'http://%s' % rng.choice('abcdefgh')
            out.append(d)
    return out

def gen(rng, size, rects=None, **over):
    paras = []
    for i in range(rng.choice([1, 1, 2, 3])):
        base = style(rng, .25)
        p = dict(st=base, items=parts(rng, size, rng.choice([0, 1, 1, 2]), base.get('f') == 'Kit', rng.choice([0, .04, .15])),
            align=rng.choice('lrcjj'), lh=rng.choice([1, 1.1, 1.1, 1.6, 2]), indent=rng.choice([0, 0, 20, 33.3]), list=None)
        if rng.random() < .3:
            p['list'] = dict(text=rng.choice(['1. ', '-', '(a)\\', 'ñ 1234 ', '\\)']), indent=rng.choice([None, None, 10, 25.5]))
            if rng.random() < .6: p['list']['st'] = dict(style(rng, .5), b=rng.choice([0, 1]), i=rng.choice([0, 1]))
        w = rng.choice([90, 130, 200, 320.4])
        p['rects'] = [[rng.choice([10, 55.5]), rng.choice([20, 44.4]), w if rng.random() < .75 else rng.choice([90, 130, 200]),
            rng.choice([12, 20, 30, 45.5, 70, 150, 400])] for r in range(rng.randint(1, 3))]
        p['mode'] = rng.choice(['obj', 'obj', 'state'])
        paras.append(p)
    return dict(font=rng.randint(0, 6), paras=paras)

DEF = dict(f='Helvetica', c='0.1', s=11, r=0, bg='', b=0, i=0, u=0)

def num(c):
    return float(c) if c[:1].isdigit() else c

def tostyle(st):
    s = dict(st)
    for k in ('c', 'bg'):
        if k in s: s[k] = num(s[k]) if s[k] != '' else ''
    return s

def content(p):
    def conv(d, top=False):
        if isinstance(d, str): return d
        e = {'.': [conv(x) for x in d['items']], 'style': tostyle(d['st'])}
        if 'uri' in d: e['uri'] = d['uri']
        return e
    return conv(p, True)

def flatten(p):
    """characters of a paragraph with their styles: [(char, style, uris)]; '\\n' are line breaks"""
    out = []
    def walk(d, st, uris):
        st = dict(st, **d['st'])
        if 'uri' in d: uris = uris + [d['uri']]
        for x in d['items']:
            # a piece that only has white space is shown as a space
            if isinstance(x, str): out.extend((' ' if c == '\t' else c, st, uris) for c in x)
            else: walk(x, st, uris)
    walk(p, DEF, [])
    return out

class Para: pass
class Run: pass
class Line: pass

def fonts_of(seed):
    kit = {m: fontkit.make(seed + 10 * k, share=False) for k, m in enumerate(('n', 'b', 'i', 'bi'))}
    return kit

def layout(case, maxruns=40):
    import pdfme
    from pdfme.fonts import PDFFont
    from pdfme.text import PDFText
    kits = fonts_of(case['font'])
    for m, k in kits.items(): PDFFont.register('Kit', m, k.path)
    n = len(case['paras'])
    pdf = pdfme.PDF(page_size=(1000, BAND * n), margin=0)
    paras = []
    for b, p in enumerate(case['paras']):
        q = Para()
        q.p, q.runs, q.src, q.band = p, [], flatten(p), b
        for c, st, u in q.src:
            if st['f'] == 'Kit' and c not in ' \n\r' and c not in kits['n'].chars: raise Skip()
            if st['f'] != 'Kit' and ord(c) > 255: raise Skip()
            if st['f'] == 'Kit' and c == '\r': raise Skip()
        q.args = dict(text_align=p['align'], line_height=p['lh'], indent=p['indent'])
        if p['list']:
            q.args['list_text'] = p['list']['text']
            if p['list']['indent'] is not None: q.args['list_indent'] = p['list']['indent']
            if 'st' in p['list']: q.args['list_style'] = tostyle(p['list']['st'])
        q.t = q.state = None
        paras.append(q)
    for k in range(maxruns):
        rd.next_page(pdf, (1000, BAND * n))
        for q in paras:
            t, p = q.t, q.p
            if t is not None and t.finished: continue
            x, y, w, h = p['rects'][k % len(p['rects'])]
            x0, y0 = x, y + BAND * q.band
            if t is None: t = pdf._text(content(p), x=x0, y=y0, width=w, height=h, **q.args)
            elif p['mode'] == 'obj': t = pdf._text(t, x=x0, y=y0, width=w, height=h)
            else:
                o = pdf._create_text(content(p), w, h, p['align'], p['lh'], p['indent'], q.args.get('list_text'), q.args.get('list_indent'), q.args.get('list_style'))
                o.set_state(**q.state)
                t = pdf._text(o, x=x0, y=y0, width=w, height=h)
            q.t = t
            r = Run()
            r.x, r.y, r.w, r.h, r.top = x0, y0, w, h, BAND * n - y0
            r.height, r.cursor = t.current_height, BAND * n - pdf.page.y
            r.finished = t.finished
            r.rwidth, r.rheight = t.result['width'], t.result['height']
            q.state = dict(t.get_state())
            q.runs.append(r)
        if all(q.t.finished for q in paras): break
    else: raise Skip()
    out = rd.Out(rd.written(pdf))
    need(len(out.pages) == max(len(q.runs) for q in paras), 'pages')
    for k, page in enumerate(out.pages):
        left = list(page.blocks())
        for q in paras:
            if k >= len(q.runs): continue
            r = q.runs[k]
            lo, hi = BAND * (n - 1 - q.band), BAND * (n - q.band)
            bl = [x for x in left if lo <= x[0]['y'] < hi]
            for x in bl: left.remove(x)
            r.events = [e for x in bl for e in x]
            r.rects = [(rd.abs_rect(e), e['fill']) for e in page.events if e['kind'] == 'rect' and lo <= rd.abs_rect(e)[1] < hi]
            r.strokes = [(rd.abs_line(e), e['stroke'], e['w'], e['d']) for e in page.events if e['kind'] == 'line' and lo <= rd.abs_line(e)[1] < hi]
            r.links = [(a['Rect'], page.doc.get(a['A'])['URI']) for a in page.annots() if 'A' in a and lo <= a['Rect'][1] < hi]
            r.marker = []
        need(not left, 'text out of its place: %r', left[:1])
    for q in paras: lines(q, kits)
    return paras, out, kits

def base(st, kits):
    m = (1 if st['b'] else 0) + (2 if st['i'] else 0)
    if st['f'] in STD: return STD[st['f']][m]
    return kits[['n', 'b', 'i', 'bi'][m]].ps

def natural(e, c):
    return (e['fo'].w[c] / 1000 if not e['fo'].ttf else None)

def lines(q, kits):
    """matches the characters shown with those of the paragraph; lines of every run"""
    src = [(i, c, st, u) for i, (c, st, u) in enumerate(q.src) if c not in ' \n']
    pos = 0
    q.lines = []
    mark = q.p['list'] and q.p['list']['text']
    q.mark = None
    for r in q.runs:
        r.lines = []
        for e in r.events:
            chars = e['chars']
            if mark and q.mark is None:
                need(e['str'] == mark, 'the list text is %r instead of %r', e['str'], mark)
                q.mark = (r, e)
                continue
            if not r.lines or abs(r.lines[-1].y - e['y']) > .0005:
                ln = Line()
                ln.y, ln.chars, ln.run, ln.x, ln.first = e['y'], [], r, e['x'], not q.lines
                r.lines.append(ln); q.lines.append(ln)
                end = e['x']
            else:
                need(abs(e['x'] - end) < .01, 'text at x %r after text that ends at %r', e['x'], end)
            end = e['x1']
            ln = r.lines[-1]
            for k, (c, x, a) in enumerate(chars):
                nxt = chars[k + 1][1] if k + 1 < len(chars) else e['x1']
                if c == ' ':
                    ln.chars.append((' ', x, nxt, None, e))
                    continue
                need(pos < len(src), 'text %r after the end of the paragraph', c)
                i, sc, st, u = src[pos]
                need(c == sc, 'character %r shown instead of %r (%r)', c, sc, ''.join(s[1] for s in src[max(0, pos - 15):pos + 5]))
                ln.chars.append((c, x, nxt, i, e))
                pos += 1
    # lines that only have spaces say nothing
    q.lines = [l for l in q.lines if any(c[3] is not None for c in l.chars)]
    for r in q.runs: r.lines = [l for l in r.lines if l in q.lines]
    for k, l in enumerate(q.lines): l.k = k
    need(pos == len(src), 'text is lost: %r', ''.join(s[1] for s in src[pos:pos + 30]))
    need(q.mark is not None or not mark or not any(r.lines for r in q.runs), 'list text not shown')
    for l in q.lines:
        l.i0 = min(c[3] for c in l.chars if c[3] is not None)
        l.i1 = max(c[3] for c in l.chars if c[3] is not None)
        while l.chars[0][0] == ' ': l.chars.pop(0)
        l.end_sp = l.chars[-1][2]
        body = list(l.chars)
        while body[-1][0] == ' ': body.pop()
        l.trail = l.chars[len(body):]
        l.body = body
        l.x0, l.x1 = body[0][1], body[-1][2]

def between(q, a, b):
    """characters of the paragraph between two of its positions"""
    return q.src[a + 1:b]

def words_kept(q):
    """C04: words are not divided or joined, line breaks start lines"""
    at = {}
    for l in q.lines:
        for c in l.body:
            if c[3] is not None: at[c[3]] = (l, c)
    idx = sorted(at)
    for a, b in zip(idx, idx[1:]):
        gap = [c for c, st, u in between(q, a, b)]
        (la, ca), (lb, cb) = at[a], at[b]
        if not gap:
            need(la is lb, 'the word around %r is divided', ''.join(c for c, s, u in q.src[max(0, a - 8):b + 8]))
            need(close(ca[2], cb[1], .01), 'the word around %r has a gap', ''.join(c for c, s, u in q.src[max(0, a - 8):b + 8]))
        elif '\n' in gap: need(la is not lb, 'no line break after %r', ''.join(c for c, s, u in q.src[max(0, a - 8):a + 1]))
        elif la is lb:
            need(any(c[0] == ' ' for c in la.body[la.body.index(ca):la.body.index(cb)]), 'words joined after %r', ''.join(c for c, s, u in q.src[max(0, a - 8):a + 1]))
        if la is not lb: need(la.run is not lb.run or lb.y < la.y, 'lines out of order')

def adv(st, c, kits):
    b = base(st, kits)
    if st['f'] in STD: return rd.STD[b][c] / 1000 * st['s']
    k = kits[['n', 'b', 'i', 'bi'][(1 if st['b'] else 0) + (2 if st['i'] else 0)]]
    return k.width.get(c, k.notdef) * st['s']

def list_style(q):
    st = q.src[0][1] if q.src and q.src[0][0] != '\n' else DEF
    return dict(st, **q.p['list'].get('st', {}))

def list_indent(q, kits):
    if not q.p['list']: return 0
    if q.p['list']['indent'] is not None: return q.p['list']['indent']
    st = list_style(q)
    return sum(adv(st, c, kits) for c in q.p['list']['text'])

def is_first(q, l):
    return l is q.lines[0] and not any(c == '\n' for c, s, u in q.src[:l.i0])

def avail(q, l, kits):
    return l.run.w - list_indent(q, kits) - (q.p['indent'] if is_first(q, l) else 0)

def widths(q, l, kits):
    """natural widths of the words and of the spaces of a line, without and with the spaces at its end"""
    w = sum(adv(q.src[c[3]][1], c[0], kits) for c in l.body if c[3] is not None)
    sp = lambda cs: sum(spw(c, kits, q) for c in cs if c[3] is None)
    return w, sp(l.body), sp(l.chars)

def spw(c, kits, q):
    e = c[4]
    return e['size'] * (e['fo'].w[' '] / 1000 if not e['fo'].ttf else [v for k, v in kits.items() if v.ps == e['fo'].base][0].width[' '])

def fit(q, kits):
    """C05"""
    f = .7 if q.p['align'] == 'j' else 1
    for l in q.lines:
        w, s, s2 = widths(q, l, kits)
        a = avail(q, l, kits)
        single = not any(c[3] is None for c in l.body)
        if not single: need(w + f * s < a + .01, 'line of width %r in %r: %r', w + f * s, a, txt(l))
        tol = .02 + .001 * len(l.body)
        if not single or w < a: need(l.x1 - l.x0 <= a + tol, 'line shown with width %r in %r: %r', l.x1 - l.x0, a, txt(l))
        r = l.run
        sp = l.end_sp - l.x1 if q.p['align'] in 'rc' else 0
        if not single: need(l.x0 >= r.x - tol - sp and l.x1 <= r.x + r.w + tol, 'line from x %r to %r out of its rectangle %r', l.x0, l.x1, (r.x, r.w))
        if l.k + 1 < len(q.lines):
            m = q.lines[l.k + 1]
            gap = between(q, l.i1, m.i0)
            if not any(c == '\n' for c, st, u in gap):
                i = m.i0
                nxt = 0
                while i < len(q.src) and q.src[i][0] not in ' \n':
                    nxt += adv(q.src[i][1], q.src[i][0], kits); i += 1
                sp = max(adv(st, ' ', kits) for c, st, u in gap)
                need(w + f * (s2 + sp) + nxt >= a - .01, 'the word after %r fits in the line: %r + %r in %r', txt(l), w + f * (s2 + sp), nxt, a)
    for k, r in enumerate(q.runs):
        need(r.height <= r.h + .001, 'height %r in a rectangle of height %r', r.height, r.h)
        need(close(r.rheight, r.height, 1e-6) and close(r.rwidth, r.w, 1e-6), 'reported size %r', (r.rwidth, r.rheight))
        need(close(r.cursor, r.top - r.height, .001), 'cursor at %r after a paragraph of height %r at %r', r.cursor, r.height, r.top)
        for l in r.lines:
            need(l.y >= r.top - r.h - .01 - .0006 * len(r.lines), 'baseline at %r below the rectangle, %r', l.y, r.top - r.h)
            need(l.y >= r.top - r.height - .01 - .0006 * len(r.lines), 'baseline at %r, the height reported is %r', l.y, r.height)
        if r.lines:
            m = r.lines[-1]
            rest = q.src[m.i1 + 1:q.lines[m.k + 1].i0] if m.k + 1 < len(q.lines) else q.src[m.i1 + 1:]
            if not any(c == '\n' for c, s, u in rest):
                need(close(m.y, r.top - r.height, .01 + .0006 * len(r.lines)), 'last baseline at %r, the height reported is %r', m.y, r.height)
    spacing(q, kits)
    # a line goes to the next rectangle because it does not fit
    for k, r in enumerate(q.runs[:-1]):
        n = q.runs[k + 1]
        if n.w != r.w or not n.lines: continue
        l = n.lines[0]
        lo, hi = heights(q, l, kits)
        up = hi[0] + hi[1] + q.p['lh'] + q.p['lh']
        if r.lines:
            p = r.lines[-1]
            gap = between(q, p.i1, l.i0)
            if sum(1 for c, s, u in gap if c == '\n') > 1: continue
            up += heights(q, p, kits)[1][2]
        elif q.src[:l.i0] and any(c == '\n' for c, s, u in q.src[:l.i0]): continue
        if q.p['list']: up = max(up, list_style(q)['s'])
        # the text that did not fit may be a shorter line in another place of the paragraph
        need(r.height + up * max(1, q.p['lh']) > r.h - .01, 'a line of height %r goes to another rectangle, %r of %r used', up, r.height, r.h)

def txt(l): return ''.join(c[0] for c in l.chars)

def heights(q, l, kits):
    """(size, rise, fall) of a line: what is shown, and with the parts next to it"""
    a = [q.src[c[3]][1] for c in l.body if c[3] is not None]
    i, j = l.i0, l.i1
    while i > 0 and q.src[i - 1][0] == ' ': i -= 1
    while j + 1 < len(q.src) and q.src[j + 1][0] == ' ': j += 1
    if j + 1 < len(q.src): j += 1
    if i > 0: i -= 1
    b = [st for c, st, u in q.src[i:j + 1]]
    g = lambda ss: (max(s['s'] for s in ss), max([0] + [s['r'] * s['s'] for s in ss]), max([0] + [-s['r'] * s['s'] for s in ss]))
    return g(a), g(b)

def place(q, kits):
    """C07: where lines start and their baselines"""
    lh = q.p['lh']
    li = list_indent(q, kits)
    for l in q.lines:
        r = l.run
        first = is_first(q, l)
        b = r.x + li + (q.p['indent'] if first else 0)
        R = r.x + r.w
        single = not any(c[3] is None for c in l.body)
        last = l.k + 1 == len(q.lines) or any(c == '\n' for c, s, u in between(q, l.i1, q.lines[l.k + 1].i0))
        tol = .012 + .001 * (len(l.body) + l.k)
        al = q.p['align']
        w, s, s2 = widths(q, l, kits)
        if al in 'lj': need(close(l.x0, b, .01 + .0006 * l.k), 'line at x %r instead of %r: %r', l.x0, b, txt(l))
        if al in 'lrc' or last and al == 'j' and w + s2 <= R - b:
            need(close(l.x1 - l.x0, w + s, tol), 'line of width %r shown with width %r', w + s, l.x1 - l.x0)
        if al == 'j' and not last and not single: need(close(l.x1, R, tol) or close(l.end_sp, R, tol), 'justified line ends at %r instead of %r: %r', l.x1, R, txt(l))
        if al == 'r': need(close(l.x1, R, tol) or close(l.end_sp, R, tol), 'line ends at %r instead of %r: %r', l.x1, R, txt(l))
        if al == 'c': need(any(close(l.x0 - b, R - e, 2 * tol) for e in (l.x1, l.end_sp)), 'line from %r to %r is not centered in %r to %r', l.x0, l.x1, b, R)
    spacing(q, kits)
    if q.mark:
        r, e = q.mark
        need(close(e['x'], r.x, .01), 'list text at x %r instead of %r', e['x'], r.x)
        if q.lines and is_first(q, q.lines[0]): need(q.lines[0].run is r and close(e['y'], q.lines[0].y, .01), 'list text not in the first line')

def spacing(q, kits):
    """C05, C07: the distances between the baselines are the heights of the lines"""
    lh = q.p['lh']
    for r in q.runs:
        prev = None
        for l in r.lines:
            lo, hi = heights(q, l, kits)
            if prev is None:
                d = r.top - l.y
                a, z = lo[0] + lo[1], hi[0] + hi[1] + lh
                if q.p['list'] and r is q.mark[0]: a, z = max(a, list_style(q)['s']), max(z, list_style(q)['s'])
                nb = q.src[:l.i0] if l.k == 0 else between(q, q.lines[l.k - 1].i1, l.i0)
                # what is before and does not show
                n = sum(1 for c, s, u in nb if c == '\n')
                if n: z = z * max(1, lh) + n * (max([0] + [s['s'] + abs(s['r'] * s['s']) for c, s, u in nb]) + lh) * max(1, lh)
            else:
                d = prev.y - l.y
                nb = between(q, prev.i1, l.i0)
                n = sum(1 for c, s, u in nb if c == '\n')
                plo, phi = heights(q, prev, kits)
                if not n: a, z = (lo[0] + lo[1] + plo[2]) * lh, (hi[0] + hi[1] + phi[2]) * lh
                else:
                    a = (lo[0] + lo[1]) * lh
                    z = (hi[0] + hi[1] + phi[2] + lh) * lh
                    if n > 1: z += (n - 1) * (max([0] + [s['s'] + abs(s['r'] * s['s']) for c, s, u in nb]) + lh) * lh
            need(a - .01 <= d <= z + .01, 'baseline %r below %s, line height is %r to %r: %r', d, 'the previous one' if prev else 'the top', a, z, txt(l))
            prev = l

def styles(q, kits):
    """C06, C03: font, size, colour and rise of every character"""
    def same(e, st, what):
        need(e['fo'].base == base(st, kits), '%r shown with %s instead of %s', what, e['fo'].base, base(st, kits))
        need(close(e['size'], st['s'], .001), '%r shown with size %r instead of %r', what, e['size'], st['s'])
        need(close(e['Ts'], st['r'] * st['s'], .001), '%r shown with rise %r instead of %r', what, e['Ts'], st['r'] * st['s'])
        x = COLORS[st['c']]
        need(len(e['fill']) == len(x) and e['fill'][0] == x[0] and all(close(u, v, .001) for u, v in zip(e['fill'][1:], x[1:])), '%r shown with colour %r instead of %r', what, e['fill'], x)
    for l in q.lines:
        for c in l.body:
            if c[3] is not None: same(c[4], q.src[c[3]][1], c[0])
    if q.mark:
        same(q.mark[1], list_style(q), q.p['list']['text'])
        need(close(q.mark[1]['Tw'], 0, 1e-6), 'list text with word spacing')

def cover(q, r, kits, marks, wanted, geo, what):
    """marks: [(x0, x1, y, h, key)] cover the characters of r whose wanted(st, uris) is the key, and only them"""
    for l in r.lines:
        cs = [c for c in l.body if c[3] is not None]
        for n, c in enumerate(cs):
            ch, st, u = q.src[c[3]]
            y, h = geo(l, st)
            here = [m for m in marks if m[0] - .02 - .0006 * len(r.lines) <= c[1] and c[2] <= m[1] + .02 + .0006 * len(r.lines) and close(m[2], y, .01 + .0006 * len(r.lines)) and close(m[3], h, .01)]
            keys = wanted(st, u)
            for k in keys: need([m for m in here if m[4] == k], '%s of %r (%r) not found', what, c[0], k)
    for m in marks:
        ok = False
        for l in r.lines:
            cs = [c for c in l.body if c[3] is not None]
            ins = [c for c in cs if m[0] < (c[1] + c[2]) / 2 < m[1]]
            ins = [c for c in ins if close(m[2], geo(l, q.src[c[3]][1])[0], .01 + .0006 * len(r.lines)) and close(m[3], geo(l, q.src[c[3]][1])[1], .01)]
            if not ins: continue
            allin = [c for c in cs if m[0] < (c[1] + c[2]) / 2 < m[1]]
            need(all(m[4] in wanted(q.src[c[3]][1], q.src[c[3]][2]) for c in allin), '%s over text that does not have it: %r', what, ''.join(c[0] for c in allin))
            a, b = allin[0], allin[-1]
            n = cs.index(b)
            # it can also cover spaces of the same part next to the text
            lsp = cs[cs.index(a) - 1][2] if cs.index(a) else l.x0
            rsp = cs[n + 1][1] if n + 1 < len(cs) else l.end_sp + .001
            need(lsp - .02 <= m[0] <= a[1] + .02 and b[2] - .02 <= m[1] <= rsp + .02, '%s from x %r to %r, its text from %r to %r', what, m[0], m[1], a[1], b[2])
            if m[0] < a[1] - .02: need(any(c == ' ' and m[4] in wanted(s, u) for c, s, u in between(q, cs[cs.index(a) - 1][3], a[3])), '%s before its text', what)
            if m[1] > b[2] + .02: need(any(c == ' ' and m[4] in wanted(s, u) for c, s, u in q.src[b[3] + 1:b[3] + 1 + 12]), '%s after its text', what)
            ok = True
        need(ok, '%s at %r without text', what, m)

def decor(q, kits):
    """C06, C07: backgrounds, underlines and links coincide with their text"""
    for r in q.runs:
        cover(q, r, kits, [(x, x + w, y, h, tuple(round(v, 3) if not isinstance(v, str) else v for v in f)) for (x, y, w, h), f in r.rects],
            lambda st, u: [COLORS[st['bg']]] if st['bg'] != '' else [], lambda l, st: (l.y + st['r'] * st['s'] - .25 * st['s'], 1.2 * st['s']), 'background')
        for (x, y, x2, y2), c, w, d in r.strokes: need(close(y, y2) and x2 > x and d == ([], 0), 'underline %r', (x, y, x2, y2, d))
        low = lambda c: (c[0].lower(),) + tuple(round(v, 3) for v in c[1:])
        cover(q, r, kits, [(x, x2, y, w, low(c)) for (x, y, x2, y2), c, w, d in r.strokes],
            lambda st, u: [COLORS[st['c']]] if st['u'] else [], lambda l, st: (l.y + st['r'] * st['s'] - .07 * st['s'], .07 * st['s']), 'underline')
        cover(q, r, kits, [(a[0], a[2], a[1], a[3] - a[1], u.decode() if isinstance(u, bytes) else u) for a, u in r.links],
            lambda st, u: sorted(set(u)), lambda l, st: (l.y + st['r'] * st['s'] - .25 * st['s'], st['s']), 'link')

def summary(case): return repr(case)
