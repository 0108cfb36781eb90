"""C15 on the real code: saved states resume where they were saved."""
import copy
import re
from common import *
import boxcase
import docs
import rd
import tabcase
import textcase

RULE = ('random paragraphs, tables (spans, nested content) and content boxes (columns, nested boxes, groups, images) laid out over '
    'several rectangles without interruption, and again from every state saved, each one restored in new objects after the first '
    'layout was completed; distinct by the case and the state')

KINDS = ['text', 'text', 'text', 'table', 'image', 'group']

def gen(rng, size):
    t = rng.random()
    if t < .35:
        c = textcase.gen(rng, size)
        c['paras'] = c['paras'][:1]
        for r in c['paras'][0]['rects']: r[3] = rng.choice([20, 30, 45.5, 70])
        what = 'text'
    elif t < .7: what, c = 'table', tabcase.gen(rng, size, deco=rng.random() < .5, multi=True, nested=rng.random() < .7)
    else: what, c = 'box', boxcase.gen(rng, size, KINDS)
    return dict(what=what, case=c, every=rng.random() < .6, factor=rng.choice([1, 1.4, 3]))

def fixed():
    rng = random.Random(15)
    for i in range(120): yield gen(rng, 1 + i % 6)

def page_events(p):
    out = []
    for e in p.events:
        if e['kind'] == 'text': out.append(('text', e['str'], e['fo'].base, [round(e['size'], 3), round(e['Tw'], 3), round(e['Ts'], 3)], [e['x'], e['y']], comps(e['fill'])))
        elif e['kind'] == 'rect': out.append(('rect', comps(e['fill']), list(rd.abs_rect(e))))
        elif e['kind'] == 'line': out.append(('line', comps(e['stroke']), e['w'], repr(e['d']), list(rd.abs_line(e))))
        elif e['kind'] == 'image': out.append(('image', e['name'], list(rd.abs_rect(e))))
        else: out.append((e['kind'],))
    out.append(('links', sorted(repr([a.get('Rect'), p.doc.get(a.get('A')), a.get('Dest')]) for a in p.annots())))
    return out

def same(a, b):
    if isinstance(a, (list, tuple)): return isinstance(b, (list, tuple)) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (int, float)) and isinstance(b, (int, float)): return abs(a - b) < .004
    return a == b

def run(case):
    import pdfme
    from pdfme.fonts import PDFFont
    c, what = case['case'], case['what']
    if what == 'text':
        for m, k in textcase.fonts_of(c['font']).items(): PDFFont.register('Kit', m, k.path)
        p = c['paras'][0]
        for ch, st, u in textcase.flatten(p):
            if st['f'] == 'Kit' and ch not in ' \n' and ch not in textcase.fonts_of(c['font'])['n'].chars: raise Skip()
            if st['f'] != 'Kit' and ord(ch) > 255: raise Skip()
        rects = p['rects']
        args = dict(text_align=p['align'], line_height=p['lh'], indent=p['indent'])
        if p['list']:
            args['list_text'] = p['list']['text']
            if p['list']['indent'] is not None: args['list_indent'] = p['list']['indent']
            if 'st' in p['list']: args['list_style'] = textcase.tostyle(p['list']['st'])
    elif what == 'table':
        d, args = tabcase.definition(c)
        rects = c['rects']
    else:
        d, leaves = boxcase.build(c)
        rects = c['rects']
    pdf = pdfme.PDF(page_size=(900, 1000), margin=0)
    new = 'start'
    def build(r):
        if what == 'text': return pdf._create_text(textcase.content(p), r[2], r[3], **copy.deepcopy(args))
        if what == 'table': return pdf._create_table(copy.deepcopy(d), r[2], r[3], r[0], r[1], **copy.deepcopy(args))
        return pdf._create_content(copy.deepcopy(d), r[2], r[3], r[0], r[1])
    def step(o, r):
        pdf.add_page()
        a = dict(x=r[0], y=r[1], width=r[2], height=r[3])
        (pdf._text if what == 'text' else pdf._table if what == 'table' else pdf._content)(o, **a)
        return o
    LIM = 14
    first, states = [], []
    again = []
    try:
        o = build(rects[0])
        for k in range(LIM):
            step(o, rects[k % len(rects)])
            first.append(len(pdf.pages) - 1)
            if o.finished: break
            states.append(o.get_state())
        else: raise Skip()
        if not states: return 'single'
        for k, s in enumerate(states):
            if k > 4: break
            q, l = build(rects[0]), []
            q.set_state(**s)
            for m in range(k + 1, LIM + 3):
                step(q, rects[m % len(rects)])
                l.append(len(pdf.pages) - 1)
                if q.finished: break
                if case['every']:
                    s2 = q.get_state()
                    q = build(rects[0])
                    q.set_state(**s2)
            again.append((k, l, q.finished))
        # every rectangle again from the state before it, on the same object, as documents do for the footnotes
        if what != 'box' or case.get('factor'):
            q, l = build(rects[0]), []
            for m in range(LIM + 3):
                r = rects[m % len(rects)]
                s = q.get_state() if what != 'box' or q.pdf_content_part is not None else \
                    {'section_element_index': 0, 'section_delayed': [], 'children_memory': []}
                step(q, r[:3] + [r[3] * case.get('factor', 1)])
                q.set_state(**s)
                q.finished = False
                step(q, r)
                l.append(len(pdf.pages) - 1)
                if q.finished: break
            again.append((-1, l, q.finished))
    except Exception as e:
        if any(x in str(e) for x in docs.KNOWN): raise Skip()
        raise
    out = rd.Out(rd.written(pdf))
    if what == 'box':
        shown = [w for i in first for e in out.pages[i].events if e['kind'] == 'text' for w in re.findall(r'e\d+(?:[rg]\d+)?w\d+z', e['str'])]
        want = [w for lf in leaves for w in lf.words]
        need(sorted(shown) == sorted(want), 'laid out over several rectangles, %r', [(w, '%d times' % shown.count(w)) for w in want if shown.count(w) != 1][:2])
        n, m = sum(e['kind'] == 'image' for i in first for e in out.pages[i].events), sum(len(lf.images) for lf in leaves)
        need(n == m, 'laid out over several rectangles, %d images are drawn instead of %d', n, m)
    for k, l, fin in again:
        need(fin, 'resumed from the state of rectangle %d, it does not finish', k)
        need(len(l) == len(first) - k - 1, 'resumed from the state of rectangle %d, it takes %d rectangles more instead of %d', k, len(l), len(first) - k - 1)
        for n, (i, j) in enumerate(zip(first[k + 1:], l)):
            a, b = page_events(out.pages[i]), page_events(out.pages[j])
            if not same(a, b):
                x = [(u, v) for u, v in zip(a, b) if not same(u, v)][:1] or [(len(a), len(b))]
                need(False, 'resumed from the state of rectangle %d, rectangle %d has %r instead of %r', k, k + 1 + n, x[0][1], x[0][0])
    return repr(case)
