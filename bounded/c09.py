"""C09 on the real code: labels, references and links of random documents."""
from common import *
import rd
import tok

RULE = ('random documents of paragraphs, tables and content boxes over several pages, with nested labelled, referencing and '
    'linking parts of one or many words; 1-400 labels; read back from the file; distinct by the case')

def fixed():
    for n in list(range(0, 52)) + [98, 99, 343, 344, 350, 400]: yield dict(many=n)
    yield dict(many=30, order=1)
    yield dict(many=60, order=2)

URIS = ['http://a.com/x(1)', 'http://a.com/X(1)', 'https://b.org/?q=a\\b', 'mailto:x@y.z', 'a', 'A', 'http://a.com/x', 'http://a.com/x/']

def gen(rng, size):
    if rng.random() < .1: return dict(many=rng.randint(0, 120), order=rng.randrange(3))
    n = [0]; lab = [0]
    def words(k, glue=False):
        out = []
        for i in range(k):
            out.append('p%dx' % n[0]); n[0] += 1
        return ' '.join(out)
    def items(depth, k):
        out = []
        for i in range(k):
            t = rng.random()
            sp = lambda: ' ' if rng.random() < .75 else ''
            if depth <= 0 or t < .5:
                out.append(sp() + words(rng.randint(1, 6)) + sp())
            else:
                d = {}
                u = rng.random()
                if u < .35: d['label'] = rng.choice(['l%d', 'Z (%d)', 'b\\%d', 'é%d', '%d']) % lab[0]; lab[0] += 1
                if .25 < u < .65: d['ref'] = 'R%d' % rng.randint(0, max(1, 2 * lab[0]))
                if .6 < u: d['uri'] = rng.choice(URIS)
                if rng.random() < .4: d['style'] = {'b': 1, 's': rng.choice([8, 11, 14])}
                if rng.random() < .15: d['style'] = {'r': rng.choice([.4, -.3])}
                d['items'] = items(depth - 1, rng.randint(1, 3))
                out.append(d)
        return out
    els = []
    for i in range(rng.randint(1, 1 + size)):
        k = rng.choice(['text', 'text', 'text', 'table', 'content', 'cols', 'list'])
        m = 1 if k in ('text', 'list') else rng.randint(1, 4)
        els.append([k, [items(2, rng.randint(1, 1 + size)) for j in range(m)], rng.choice('lcrj')])
    if rng.random() < .4:
        # a line at the foot of a page that is not the last one
        for j in rng.sample(range(4), rng.randint(1, 2)):
            d = dict(label='foot%d' % j, items=[words(1)])
            if rng.random() < .5: d['uri'] = rng.choice(URIS)
            if rng.random() < .5: d['ref'] = 'R%d' % rng.randint(0, max(1, lab[0]))
            els.append(['back', [[d]], 'l', j])
    return dict(els=els, size=[rng.choice([220, 300, 400]), rng.choice([200, 300, 500])], times=rng.choice([1, 1, 2]))

def run(case):
    import pdfme
    if 'many' in case: return many(case)
    pdf = pdfme.PDF(page_size=tuple(case['size']), margin=30)
    pdf.add_page()
    info = {}          # token -> (labels, refs, uris)
    labels = {}        # label -> tokens
    names = []
    def collect(its):
        for d in its:
            if isinstance(d, dict):
                if 'label' in d: names.append(d['label'])
                collect(d['items'])
    for k, paras, al, *to in case['els']:
        if not to:
            for p in paras: collect(p)
    import re
    def build(its, refs, uris, labs):
        out = []
        for d in its:
            if isinstance(d, str):
                out.append(d)
                for w in re.findall(r'p\d+x', d):
                    info[w] = (refs, uris)
                    for l in labs: labels.setdefault(l, []).append(w)
                continue
            r, u, l = refs, uris, labs
            e = {k: v for k, v in d.items() if k != 'items'}
            if 'ref' in e:
                i = int(e['ref'][1:])
                e['ref'] = names[i] if i < len(names) else 'nowhere'
                if e['ref'] in r: e.pop('ref')
                else: r = r + [e['ref']]
            if 'uri' in e:
                if e['uri'] in u: e.pop('uri')
                else: u = u + [e['uri']]
            if 'label' in e: l = l + [e['label']]
            e['.'] = build(d['items'], r, u, l)
            out.append(e)
        return out
    import docs
    try:
        for k, paras, al, *to in case['els']:
            if to and to[0] >= len(pdf.pages): continue
            ps = [{'.': build(p, [], [], [])} for p in paras]
            if k == 'back':
                pdf.page_index = to[0]
                pdf._text(ps[0], x=30, y=case['size'][1] - 24, width=case['size'][0] - 60, height=20)
            elif k == 'text': pdf.text(ps[0], text_align=al)
            elif k == 'list': pdf.text(ps[0], text_align=al, list_text='* ', indent=10)
            elif k == 'table': pdf.table([ps[:2], ps[2:] + [None] * (2 - len(ps[2:]))] if len(ps) > 1 else [ps], style={'text_align': al})
            elif k == 'content': pdf.content({'content': ps, 'style': {'text_align': al}})
            else: pdf.content({'content': ps, 'style': {'text_align': al}, 'cols': {'count': 2, 'gap': 12}})
    except Exception as e:
        if any(k in str(e) for k in docs.KNOWN): raise Skip()
        raise
    for t in range(case['times']):
        check(rd.Out(rd.written(pdf)), info, labels)
    return repr(case)

def clash(v, w):
    return abs(v['y'] + v['rise'] - w['y'] - w['rise']) < v['size'] + w['size'] and min(v['x1'] + 6, w['x1']) > max(v['x0'] - 6, w['x0'])

def check(out, info, labels):
    dests = out.doc.dests()
    need(sorted(dests) == sorted(l.encode('latin') for l in labels), 'destinations %r instead of %r', sorted(dests)[:20], sorted(labels)[:20])
    first = {}
    for p in out.pages:
        toks = [w for w in tok.tokens(p, 'x') if w['word'] in info]
        for w in toks: first[w['word']] = (p, w)
        rects = {}
        for a in p.annots():
            need(a.get('Type') == 'Annot' and a.get('Subtype') == 'Link', 'annotation %r', a)
            if 'Dest' in a: key = ('ref', a['Dest'].decode('latin'))
            else:
                act = out.doc.get(a['A'])
                need(act.get('S') == 'URI', 'action %r', act)
                key = ('uri', act['URI'].decode('latin'))
            rects.setdefault(key, []).append(a['Rect'])
        want = {}
        flat = all(w['rise'] == 0 for w in toks)
        for w in toks:
            for r in info[w['word']][0]: want.setdefault(('ref', r), []).append(w)
            for u in info[w['word']][1]: want.setdefault(('uri', u), []).append(w)
        need(set(rects) == set(want), 'a page has links to %r instead of %r', sorted(rects), sorted(want))
        for key, rs in rects.items():
            hit = {}
            for r in rs:
                inside = []
                for w in toks:
                    y0 = w['y'] + w['rise'] - .25 * w['size']
                    same = close(r[1], y0, .02)
                    over = min(r[2], w['x1']) - max(r[0], w['x0'])
                    if over > .05 and min(r[3], y0 + w['size']) - max(r[1], y0) > (.3 if same else .6) * w['size'] and (same or flat):
                        fits = r[0] <= w['x0'] + .02 and r[2] >= w['x1'] - .02 and close(r[1], y0, .02) and close(r[3], y0 + w['size'], .02)
                        if not (w in want[key] and fits) and any(v['bt'] != w['bt'] and clash(v, w) for v in want[key]):
                            continue      # words wider than a column are over the text of the next one
                        need(w in want[key], 'the rectangle %r of %r is over %r', r, key, w['word'])
                        need(fits, 'the rectangle %r of %r does not fit %r %r', r, key, w['word'], (w['x0'], y0, w['x1'], y0 + w['size']))
                        inside.append(w); hit[w['word']] = hit.get(w['word'], 0) + 1
                need(inside, 'the rectangle %r of %r has no text', r, key)
            for w in want[key]: need(hit.get(w['word']) == 1, '%r is under %r rectangles of %r', w['word'], hit.get(w['word'], 0), key)
    for l, ws in labels.items():
        d = dests[l.encode('latin')]
        w = ws[0]
        need(w in first, 'text %r of label %r not found', w, l)
        p, k = first[w]
        need(d[0] == p.ref, 'label %r leads to another page', l)
        need(d[1] == 'XYZ', 'destination %r', d)
        need(close(d[3], k['y'] + k['rise'] + .75 * k['size'], .02), 'label %r leads to y %r, its text is at %r', l, d[3], k['y'])
        prev = [t['x1'] for t in tok.tokens(p, 'x') if close(t['y'], k['y'], .01) and t['bt'] == k['bt'] and t['x1'] <= k['x0'] + .01]
        lo = max(prev) - .02 if prev else k['x0'] - .02 - 60
        need(lo <= d[2] <= k['x0'] + .02, 'label %r leads to x %r, its text is at %r', l, d[2], k['x0'])

def many(case):
    import pdfme
    pdf = pdfme.PDF(page_size=(300, 300), margin=20)
    pdf.add_page()
    n = case['many']
    rng = random.Random(n)
    names = ['k%s' % rng.choice([i, '%04d' % i, '%x' % (i * 7919)]) for i in range(n)]
    names = list(dict.fromkeys(names))
    if case.get('order') == 1: names.sort()
    if case.get('order') == 2: names.sort(reverse=True)
    info, labels = {}, {}
    for i, l in enumerate(names):
        info['p%dx' % i] = ([], [])
        labels[l] = ['p%dx' % i]
        pdf.text({'.': ['p%dx' % i], 'label': l})
    check(rd.Out(rd.written(pdf)), info, labels)
    return repr(case) if n else None
