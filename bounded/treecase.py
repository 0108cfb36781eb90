"""Styles through documents, boxes, groups, tables, cells, formats, footnotes and running sections: every word has the style of all
that it is in, the inner over the outer."""
from common import *
import textcase as T
import tok
import rd
import docs

DEF = dict(f='Helvetica', s=11, c='0.1', b=0, i=0, u=0, bg='', r=0)

def style(rng, p=.25, some='biusfcg', names=()):
    if names and rng.random() < .2: return rng.choice(names)
    s = {}
    for k in some:
        if rng.random() > p: continue
        if k in 'biu': s[k] = rng.choice([1, 1, 0])
        elif k == 's': s[k] = rng.choice([6, 8, 9.5, 12, 14])
        elif k == 'f': s[k] = rng.choice(['Helvetica', 'Times', 'Courier'])
        elif k == 'c': s[k] = rng.choice(['0', 'red', '0.3', '#0af', '#0a0'])
        elif k == 'g': s['bg'] = rng.choice(['yellow', '0.9', ''])
        elif k == 'r': s['r'] = rng.choice([.3, -.2, 0])
    return s

def text(rng, names):
    d = dict(k='text', n=rng.randint(1, 5), dot={} if rng.random() < .6 else style(rng, some='biusfcr'), st=style(rng, some='biusfcgr', names=names))
    if rng.random() < .3: d['in'] = dict(n=rng.randint(1, 3), dot={} if rng.random() < .5 else style(rng, some='biusfcr'), st=style(rng, some='biusfcgr', names=names))
    if rng.random() < .1: d = dict(k='str', n=rng.randint(1, 4))
    return d

def node(rng, depth, names, group=False):
    t = rng.random()
    if depth <= 0 or t < .4: return text(rng, names)
    if t < .6 and not group: return dict(k='box', st=style(rng, names=names), els=[node(rng, depth - 1, names) for i in range(rng.randint(1, 3))], cols=rng.choice([None, None, 2]))
    if t < .75 and not group: return dict(k='group', st=style(rng, names=names), els=[node(rng, depth - 1, names, True) for i in range(rng.randint(1, 3))])
    nc = rng.randint(1, 2)
    def cell():
        u = rng.random()
        return node(rng, 0, names) if u < .5 or depth <= 1 else dict(node(rng, 0, names), k='box', st=style(rng, names=names), els=[node(rng, depth - 2, names) for i in range(2)], cols=None) if u < .8 else \
            dict(k='table', st=style(rng, names=names), rows=[[node(rng, 0, names)] for i in range(2)])
    return dict(k='table', st=style(rng, names=names), rows=[[cell() for j in range(nc)] for i in range(rng.randint(1, 3))])

def gen(rng, size):
    names = ['F0', 'F1']
    c = dict(t='tree', formats={k: style(rng, .4) for k in names}, doc=style(rng, .4, 'sfc'), sections=[], running=[], size=rng.choice([[500, 400], [500, 300], [400, 700]]))
    for i in range(rng.choice([1, 1, 2])):
        c['sections'].append(dict(st=style(rng, names=names), els=[node(rng, rng.randint(0, min(3, size)), names) for j in range(rng.randint(1, 2 + size // 2))], cols=rng.choice([None, None, 2])))
    if rng.random() < .4: c['running'] = [dict(st=style(rng, names=names), els=[text(rng, names)], y=8)]
    if rng.random() < .4:
        if rng.random() < .4: c['formats']['$footnotes'] = style(rng, .4, 'biscf')
        c['foot'] = dict(st=style(rng, some='biusfcg'), dot=style(rng, some='biusfc'), n=rng.randint(1, 4))
    return c

def dotted(st):
    return ';'.join(('%s' if v else '%s:0') % k if k in 'biu' else '%s:%s' % (k, v) for k, v in st.items())

def build(case):
    """the document, and the style of every word"""
    want = {}
    cnt = [0]
    F = case['formats']
    def own(st): return F[st] if isinstance(st, str) else st
    def given(st): return st if isinstance(st, str) else T.tostyle(st)
    def words(n, st):
        l = []
        for i in range(n):
            w = 'w%dz' % cnt[0]; cnt[0] += 1
            want[w] = st
            l.append(w)
        return ' '.join(l)
    def part(d, st):
        st = {**st, **d['dot'], **own(d['st'])}
        items = [words(d['n'], st) + ' ']
        if 'in' in d: items += [part(d['in'], st), ' ' + words(1, st)]
        if 'foot' in d: items.append({'footnote': None})
        e = {'.' + dotted(d['dot']): items}
        if d['st']: e['style'] = given(d['st'])
        return e
    def el(d, st):
        k = d['k']
        if k == 'str': return words(d['n'], st)
        if k == 'text': return part(d, st)
        s = {**st, **own(d['st'])}
        if k == 'table': e = {'table': [[el(c, s) for c in r] for r in d['rows']]}
        else: e = {'content' if k == 'box' else 'group': [el(x, s) for x in d['els']]}
        if d.get('cols'): e['cols'] = {'count': d['cols']}
        if d['st']: e['style'] = given(d['st'])
        return e
    d0 = {**DEF, **case['doc']}
    doc = dict(style={**T.tostyle(case['doc']), 'page_size': case['size'], 'margin': 40}, formats={k: T.tostyle(v) for k, v in F.items()}, sections=[])
    if case['running']:
        doc['running_sections'] = {}
        for n, r in enumerate(case['running']):
            e = el(dict(r, k='box'), d0)
            doc['running_sections']['R%d' % n] = dict(e, width=case['size'][0] - 80, height=30, x=40, y=r['y'])
    for s in case['sections']:
        e = el(dict(s, k='box'), d0)
        if case['running']: e['running_sections'] = list(doc['running_sections'])
        doc['sections'].append(e)
    if case.get('foot'):
        f = case['foot']
        st = {**d0, **F.get('$footnotes', {'s': 10, 'c': '0'}), **f['dot'], **f['st']}
        doc['sections'][0]['content'].append({'.': ['note ', {'footnote': {'.' + dotted(f['dot']): words(f['n'], st), 'style': T.tostyle(f['st'])}}]})
    return doc, want

def layout(case):
    import pdfme, io
    doc, want = build(case)
    f = io.BytesIO()
    try: pdfme.build_pdf(doc, f)
    except Exception as e:
        if any(x in str(e) for x in docs.KNOWN): raise Skip()
        raise
    return rd.Out(f.getvalue()), want

def run(case):
    out, want = layout(case)
    seen = set()
    for p in out.pages:
        rects = [(rd.abs_rect(e), comps(e['fill'])) for e in p.events if e['kind'] == 'rect']
        lines = [(rd.abs_line(e), comps(e['stroke']), e['w']) for e in p.events if e['kind'] == 'line' and e['w']]
        for t in tok.tokens(p, 'z'):
            w = t['word']
            if w not in want:
                need(not w.startswith('w'), 'text %r', w)
                continue
            seen.add(w)
            st = want[w]
            need(t['fo'].base == T.base(st, None), '%r shown with %s instead of %s', w, t['fo'].base, T.base(st, None))
            need(close(t['size'], st['s'], .001), '%r shown with size %r instead of %r', w, t['size'], st['s'])
            need(close(t['rise'], st['r'] * st['s'], .001), '%r shown with rise %r instead of %r', w, t['rise'], st['r'] * st['s'])
            x = T.COLORS[st['c']]
            need(len(t['fill']) == len(x) and t['fill'][0] == x[0] and all(close(u, v, .001) for u, v in zip(t['fill'][1:], x[1:])), '%r shown with colour %r instead of %r', w, t['fill'], x)
            xm, y = (t['x0'] + t['x1']) / 2, t['y'] + st['r'] * st['s']
            got = [c for (a, b, rw, h), c in rects if a < xm < a + rw and b < y + .3 * st['s'] < b + h]
            exp = [T.COLORS[st['bg']]] if st['bg'] != '' else []
            need(len(got) == len(exp) and all(g[0] == e[0] and all(close(u, v, .001) for u, v in zip(g[1:], e[1:])) for g, e in zip(got, exp)), '%r over %r instead of %r', w, got, exp)
            got = [(c, lw) for (x1, y1, x2, y2), c, lw in lines if close(y1, y2) and min(x1, x2) < xm < max(x1, x2) and close(y1, y - .07 * st['s'], .06 * st['s'])]
            need(len(got) == (1 if st['u'] else 0), '%r underlined %d times instead of %d', w, len(got), st['u'])
    if not case['running']: need(seen == set(want), 'the words %r are not shown', sorted(set(want) - seen)[:3])
    return repr(case)
