"""C18 on the real code: roman numerals, ranges, and whole documents with
running sections, per page rules and page numbering."""
from common import *
import io
import rd

RULE = ('all roman numerals 1..3999; random range strings against python slices; random documents of 1-4 sections '
    'with per page rules, running sections and numbering settings; distinct by the case')

SIZES = {'a5': (419.528, 595.276), 'letter': (612, 792), 'a4': (595.276, 841.89)}

def canonical(n):
    out = ''
    for v, s in ((1000, 'M'), (900, 'CM'), (500, 'D'), (400, 'CD'), (100, 'C'), (90, 'XC'), (50, 'L'),
            (40, 'XL'), (10, 'X'), (9, 'IX'), (5, 'V'), (4, 'IV'), (1, 'I')):
        while n >= v: out += s; n -= v
    return out

def fixed():
    for a in range(1, 4000, 500): yield {'roman': [a, min(a + 500, 4000)]}
    for s in ('3', '1:', ':4', '0:3', ':', '::2', '1:10:3', '1,3,5', '2:2', '5:3', ' 1 , 4: ', '1:9:', '0,0:2,7:', '::', ':1,9'):
        yield {'range': s}
    for st in ('arabic', 'roman'):
        for off in (0, 1, 9, 99, -3):
            for i in (3, 4, 8, 48, 998): yield {'number': [i, off, st]}
    rs = {'h': {'x': 'left', 'y': 20, 'height': 'top'}, 'f': {'x': 'left', 'y': 'bottom', 'height': 'bottom', 'var': True}}
    for n, h, off, st in ((30, 120, 0, 'arabic'), (40, 75, 97, 'arabic'), (25, 100, 2, 'roman')):
        for sep in (' ', '\n'):
            for how in ('text', 'content', 'table'): yield {'flow': [n, h, off, st, sep, how]}
    yield {'doc': dict(style={'page_size': 'a5', 'margin': 60}, rs=rs, per_page=[
        dict(pages='1:3', exclude=['h']), dict(pages='0,2', include=['f'])],
        sections=[dict(rs=['h'], style={}, n=3), dict(rs=['h', 'f'], style={'page_numbering_reset': True, 'page_numbering_style': 'roman'}, n=3)])}

def gen_range(rng):
    parts = []
    for i in range(rng.randint(1, 4)):
        t = rng.random()
        if t < .4: parts.append(str(rng.randint(0, 12)))
        else:
            p = ['' if rng.random() < .35 else str(rng.randint(0, 12)), '' if rng.random() < .35 else str(rng.randint(0, 14))]
            if t > .7: p.append(rng.choice(['', '1', '2', '3', '4']))
            parts.append(':'.join(p))
    return ','.join((' ' if rng.random() < .2 else '') + p for p in parts)

def gen(rng, size):
    t = rng.random()
    if t < .15: return {'range': gen_range(rng)}
    if t < .2: return {'number': [rng.randint(0, 3000), rng.randint(-2, 900), rng.choice(['arabic', 'roman'])]}
    if t < .25: return {'flow': [rng.randint(3, 50), rng.choice([65, 80, 120, 170]), rng.choice([0, 3, 8, 96]), rng.choice(['arabic', 'roman']), rng.choice(' \n'), rng.choice(['text', 'content', 'table'])]}
    rs = {}
    for i in range(rng.randint(1, 4)):
        d = {'x': rng.choice(['left', 'left', 'right', 30]), 'y': rng.choice(['top', 'bottom', 10, 40]),
            'height': rng.choice(['top', 'bottom', 60]), 'width': rng.choice([None, None, 'full', 120])}
        if d['width'] is None: del d['width']
        if rng.random() < .5: d['var'] = True
        rs['r%d' % i] = d
    names = list(rs)
    some = lambda p: [n for n in names if rng.random() < p]
    def pstyle(p):
        st = {}
        if rng.random() < p: st['page_size'] = rng.choice(list(SIZES))
        if rng.random() < p: st['rotate_page'] = rng.choice([True, False])
        if rng.random() < p: st['margin'] = rng.choice([45, 70, [50, 80], [60, 45, 70, 90]])
        return st
    secs = []
    for i in range(rng.randint(1, 4)):
        st = pstyle(.25)
        if rng.random() < .3: st['page_numbering_style'] = rng.choice(['arabic', 'roman'])
        if rng.random() < .25: st['page_numbering_offset'] = rng.randint(0, 30)
        if rng.random() < .25: st['page_numbering_reset'] = rng.choice([True, True, False])
        l = some(.6)
        if rng.random() < .3: l = l + l[:1]
        rng.shuffle(l)
        secs.append(dict(rs=l, style=st, n=rng.randint(1, 4)))
    pp = []
    for i in range(rng.randint(0, 4)):
        d = {'pages': gen_range(rng)}
        if rng.random() < .6: d['style'] = pstyle(.4)
        if rng.random() < .5: d['exclude'] = some(.5)
        if rng.random() < .5: d['include'] = some(.5)
        pp.append(d)
    st = dict(pstyle(.3))
    st.setdefault('page_size', 'a5'); st.setdefault('margin', 60)
    if rng.random() < .2: st['page_numbering_offset'] = rng.randint(0, 12)
    if rng.random() < .2: st['page_numbering_style'] = 'roman'
    return {'doc': dict(style=st, rs=rs, per_page=pp, sections=secs)}

def in_range(s, n):
    for p in s.split(','):
        c = [x.strip() for x in p.split(':')]
        if len(c) == 1:
            if int(c[0]) == n: return True
        else:
            v = [int(x) if x else None for x in c]
            if n < 100 and n in range(100)[slice(*v)]: return True
    return False

def margins(m):
    if isinstance(m, (int, float)): m = [m]
    m = {1: lambda a: (a, a, a, a), 2: lambda a, b: (a, b, a, b), 3: lambda a, b, c: (a, b, c, b),
        4: lambda a, b, c, d: (a, b, c, d)}[len(m)](*m)
    return dict(zip(('top', 'right', 'bottom', 'left'), m))

def run(case):
    import pdfme
    from pdfme.utils import to_roman, parse_range_string
    if 'roman' in case:
        for n in range(*case['roman']):
            need(to_roman(n) == canonical(n), 'to_roman(%d) is %r', n, to_roman(n))
        return repr(case)
    if 'range' in case:
        r = parse_range_string(case['range'])
        for n in range(40):
            need((n in r) == in_range(case['range'], n), 'page %d in %r: %r', n, case['range'], n in r)
        return repr(case)
    if 'number' in case:
        i, off, st = case['number']
        n = i + 1 + off
        if st == 'roman' and not (1 + off >= 1 and 1 <= n <= 3999): raise Skip()
        pdf = pdfme.PDF(page_numbering_offset=off, page_numbering_style=st)
        for k in range(min(i, 3) + 1): pdf.add_page()
        pdf.page_index = i
        want = canonical(n) if st == 'roman' else str(n)
        need(pdf.context['$page'] == want, 'page number %r', pdf.context['$page'])
        return repr(case)
    if 'flow' in case: return flow(*case['flow'])
    return doc_case(case['doc'])

def flow(n, h, off, st, sep, how):
    """a paragraph with page numbers, in several pages"""
    import pdfme
    import re
    pdf = pdfme.PDF(page_size=(160, h), margin=20, page_numbering_offset=off, page_numbering_style=st)
    pdf.add_page()
    c = []
    for i in range(n): c += ['w%d_' % i, {'var': '$page'}, 'z' + sep]
    if how == 'text': pdf.text(c)
    elif how == 'content': pdf.content({'content': [{'.': c}]})
    else: pdf.table([[{'.': c}]])
    b = io.BytesIO()
    pdf.output(b)
    out = rd.Out(b.getvalue())
    got = []
    for k, g in enumerate(out.pages):
        num = k + 1 + off
        for i, v in re.findall('w([0-9]+)_([^z]*)z', g.string()):
            need(v == (canonical(num) if st == 'roman' else str(num)), 'page number %r in the page %d', v, num)
            got.append(int(i))
    need(got == list(range(n)), 'words %r', got)
    return repr((n, h, off, st, sep, how))

def doc_case(d):
    import pdfme
    style = dict(d['style'])
    body = []
    sections = []
    for i, s in enumerate(d['sections']):
        content = []
        for k in range(s['n']):
            w = 'w%dz%d' % (i, k)
            body.append((i, w))
            content.append(dict({'.': [w]}, style={'margin_bottom': 0}))
        # elements one per page: every one of them is a group that nearly fills the page
        sections.append({'running_sections': list(s['rs']), 'style': dict(s['style']), 'content': content})
    rs = {}
    for name, r in d['rs'].items():
        r = dict(r)
        var = r.pop('var', False)
        r['content'] = [{'.': ['#%s#' % name] + ([{'var': '$page'}] if var else [])}]
        rs[name] = r
    pp = []
    for r in d['per_page']:
        e = {'pages': r['pages']}
        if 'style' in r: e['style'] = dict(r['style'])
        if 'exclude' in r or 'include' in r:
            e['running_sections'] = {k: list(r[k]) for k in ('exclude', 'include') if k in r}
        pp.append(e)
    # oracle, page by page
    offset, nst = style.get('page_numbering_offset', 0), style.get('page_numbering_style', 'arabic')
    pages = []
    base = dict(page_size=style['page_size'], rotate_page=style.get('rotate_page', False), margin=style['margin'])
    for i, s in enumerate(d['sections']):
        st = dict(style); st.update(s['style'])
        if 'page_numbering_offset' in st: offset = st['page_numbering_offset']
        if 'page_numbering_style' in st: nst = st['page_numbering_style']
        if st.get('page_numbering_reset'): offset = -len(pages)
        first = True
        for k in range(s['n']):
            n = len(pages)
            args = dict(base)
            args.update({a: st[a] for a in base if a in st})
            sel = list(s['rs'])
            for r in d['per_page']:
                if in_range(r['pages'], n):
                    args.update(r.get('style', {}))
                    sel = [x for x in sel if x not in r.get('exclude', [])] + list(r.get('include', []))
            num = n + 1 + offset
            if nst == 'roman' and not 1 <= num <= 3999: raise Skip()
            pages.append(dict(args=args, sel=list(dict.fromkeys(sel)), num=canonical(num) if nst == 'roman' else str(num),
                word='w%dz%d' % (i, k), section=i))
    # a page break after every element: an element that fills what remains of the page
    heights = []
    for p in pages:
        w, h = SIZES[p['args']['page_size']]
        if p['args']['rotate_page']: w, h = h, w
        m = margins(p['args']['margin'])
        p.update(w=w, h=h, m=m)
        heights.append(h - m['top'] - m['bottom'])
    at = 0
    for s, e in zip(sections, d['sections']):
        for k, el in enumerate(s['content']):
            el['style']['margin_bottom'] = heights[at] + 5 if k + 1 < len(s['content']) else 0
            at += 1
    doc = {'style': style, 'running_sections': rs, 'sections': sections}
    if pp: doc['per_page'] = pp
    b = io.BytesIO()
    pdfme.build_pdf(doc, b)
    out = rd.Out(b.getvalue())
    need(len(out.pages) == len(pages), '%d pages instead of %d', len(out.pages), len(pages))
    for n, (g, p) in enumerate(zip(out.pages, pages)):
        w, h, m = p['w'], p['h'], p['m']
        need(close(g.box[2], w, .01) and close(g.box[3], h, .01) and list(g.box[:2]) == [0, 0], 'page %d has size %r instead of %r', n, g.box, (w, h))
        texts = [''.join(e['str'] for e in bl).replace(' ', '') for bl in g.blocks()]
        bod = [t for t in texts if t.startswith('w')]
        need(bod == [p['word']], 'page %d shows %r instead of %r', n, bod, p['word'])
        for bl, t in zip(g.blocks(), texts):
            if t.startswith('w'):
                need(close(bl[0]['x'], m['left'], .01), 'page %d: left margin %r instead of %r', n, bl[0]['x'], m['left'])
                need(0 < h - m['top'] - bl[0]['y'] < 40, 'page %d: top margin (text at %r)', n, bl[0]['y'])
        got = [t for t in texts if not t.startswith('w')]
        want = []
        for name in p['sel']:
            r = d['rs'][name]
            want.append('#%s#' % name + (p['num'] if r.get('var') else ''))
        need(got == want, 'page %d has running sections %r instead of %r', n, got, want)
        k = 0
        for bl, t in zip(g.blocks(), texts):
            if t.startswith('w'): continue
            r = d['rs'][p['sel'][k]]; k += 1
            x = r['x']
            x = {'left': m['left'], 'right': w - m['right']}.get(x, x)
            y = r['y']
            y = {'top': m['top'], 'bottom': h - m['bottom']}.get(y, y)
            need(close(bl[0]['x'], x, .01), 'page %d: running section %s at x %r instead of %r', n, t, bl[0]['x'], x)
            need(0 < h - y - bl[0]['y'] < 40, 'page %d: running section %s at y %r from %r', n, t, bl[0]['y'], h - y)
    return repr(d)
