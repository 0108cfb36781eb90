"""Tables on the real code: random tables, and what is found of them in the written pages."""
from common import *
import rd
import tok

PH = 900
COL = {'red': ('rg', 1, 0, 0), 'blue': ('rg', 0, 0, 1), '0.5': ('g', .5), '#0af': ('rg', 0, .667, 1), '0': ('g', 0), 'yellow': ('rg', 1, 1, 0)}

def rng_str(rng, n):
    """a position string for one dimension"""
    t = rng.random()
    i = rng.randint(-n, n - 1)
    if t < .3: return ':'
    if t < .35: return ''
    if t < .55: return str(i)
    if t < .7: return ','.join(str(rng.randint(*((-n, n - 1) if rng.random() < .9 else (-n - 2, n + 1)))) for k in range(rng.randint(1, 3)))
    a, b = rng.choice(['', str(i)]), rng.choice(['', str(rng.randint(-n, n))])
    return a + ':' + b + rng.choice(['', '', ':', ':2', ':3', ':-1', ':-2'])

def sel(s, n):
    """indexes a position string denotes"""
    if s.strip() == '': s = ':'
    if ':' in s: return list(range(n))[slice(*[int(x) if x.strip() else None for x in s.split(':')])]
    return [range(n)[int(x)] for x in s.split(',') if -n <= int(x) < n]     # there are no others

def gen(rng, size, spans=True, deco=True, multi=None, nested=False):
    nr, nc = rng.randint(1, 2 + size), rng.randint(1, 1 + min(4, size))
    multi = rng.random() < .5 if multi is None else multi
    own = [[None] * nc for i in range(nr)]      # anchor of every cell
    cells = {}
    for i in range(nr):
        for j in range(nc):
            if own[i][j] is not None: continue
            c = dict(n=rng.choice([0, 1, 1, 2, 4, 9, 20 * size if multi else 12]))
            if j == 0 and not c['n']: c['n'] = 1
            if not c['n'] and rng.random() < .4: c['bare'] = True
            rs = cs = 1
            if spans and rng.random() < .2:
                cs = rng.randint(1, nc - j)
                while any(own[i][j + k] is not None for k in range(cs)): cs -= 1
                if j > 0: rs = rng.randint(1, nr - i)
            for a in range(i, i + rs):
                for b in range(j, j + cs): own[a][b] = (i, j)
            if rs > 1: c['rs'] = rs
            if cs > 1: c['cs'] = cs
            st = {}
            if rng.random() < .2: st['s'] = rng.choice([6, 9.5, 14])
            if rng.random() < .2: st['cell_margin'] = rng.choice([0, 2, 8.5])
            if rng.random() < .15: st['cell_margin_' + rng.choice(['left', 'right', 'top', 'bottom'])] = rng.choice([0, 3, 11])
            if deco and rng.random() < .15: st['cell_fill'] = rng.choice(list(COL))
            c['st'] = st
            if nested and rng.random() < .35 and not (rs > 1 or cs > 1) and c['n']:
                c['kind'] = rng.choice(['content', 'table', 'paras', 'list', 'parts', 'lines'])
            cells['%d,%d' % (i, j)] = c
    tst = {'s': 8}
    if rng.random() < .5: tst['border_width'] = rng.choice([.5, 1, 3])
    if rng.random() < .3: tst['border_color'] = rng.choice(list(COL))
    if rng.random() < .3: tst['border_style'] = rng.choice(['solid', 'dashed', 'dotted'])
    if rng.random() < .4: tst['cell_margin'] = rng.choice([0, 3, 10.5])
    if rng.random() < .2: tst['cell_margin_' + rng.choice(['left', 'right', 'top', 'bottom'])] = rng.choice([0, 4, 9])
    if deco and rng.random() < .2: tst['cell_fill'] = rng.choice(list(COL))
    borders, fills = [], []
    if deco:
        for k in range(rng.choice([0, 1, 1, 2, 4])):
            v = rng.random() < .5
            pos = rng.choice('vV' if v else 'hhH') + rng_str(rng, nr if v else nr + 1) + (';' + rng_str(rng, nc + 1 if v else nc) if rng.random() < .8 else '')
            b = {'pos': pos}
            if rng.random() < .6: b['width'] = rng.choice([0, 1, 2.5, 4])
            if rng.random() < .5: b['color'] = rng.choice(list(COL))
            if rng.random() < .4: b['style'] = rng.choice(['solid', 'dashed', 'dotted'])
            borders.append(b)
        for k in range(rng.choice([0, 0, 1, 2, 3])):
            fills.append({'pos': rng_str(rng, nr) + (';' + rng_str(rng, nc) if rng.random() < .8 else ''), 'color': rng.choice(list(COL))})
    w = rng.choice([60, 75.5, 100]) * nc
    return dict(nr=nr, nc=nc, cells=cells, st=tst, borders=borders, fills=fills,
        widths=None if rng.random() < .3 else [rng.choice([1, 1.3, 2]) for i in range(nc)],
        rects=[[rng.choice([10, 33.3]), rng.choice([10, 50]), w, rng.choice([60, 90, 140, 260]) if multi else 850] for i in range(rng.choice([1, 2]) if multi else 1)])

def num(c): return float(c) if c[:1].isdigit() else c

class Tab: pass

def conv(st): return {k: num(v) if k in ('cell_fill', 'border_color') else v for k, v in st.items()}

def setup(case):
    """the grid of a case and the rows for pdfme"""
    T = Tab()
    nr, nc = case['nr'], case['nc']
    T.own = [[None] * nc for i in range(nr)]
    T.cells = {}
    rows = [[None] * nc for i in range(nr)]
    T.word = {}
    for key, c in case['cells'].items():
        i, j = map(int, key.split(','))
        q = Tab()
        q.c, q.i, q.j, q.rs, q.cs = c, i, j, c.get('rs', 1), c.get('cs', 1)
        if i + q.rs > nr or j + q.cs > nc: raise Skip()
        T.cells[i, j] = q
        for a in range(i, i + q.rs):
            for b in range(j, j + q.cs):
                if T.own[a][b] is not None: raise Skip()
                T.own[a][b] = (i, j)
        q.words = ['r%dc%dw%dz' % (i, j, k) for k in range(c['n'])]
        for w in q.words: T.word[w] = q
        body = ' '.join(q.words)
        kind = c.get('kind')
        half = len(q.words) // 2
        a, b = ' '.join(q.words[:half]), ' '.join(q.words[half:])
        if kind == 'content': e = {'content': [a, b]}
        elif kind == 'paras': e = {'content': [x for x in q.words], 'cols': {'count': 1}}
        elif kind == 'table': e = {'table': [[a], [b]]}
        elif kind == 'list': e = {'.': [body], 'style': {'list_text': '- '}}
        elif kind == 'parts': e = {'.': [x for k, w in enumerate(q.words) for x in ([w + ' '] if k % 3 else [{'.' if k % 2 else '.b:1': w + ' '}])]}
        elif kind == 'lines': e = {'.': [w + ('\n' if k % 4 == 1 else ' ') for k, w in enumerate(q.words)]}
        elif c.get('bare'): e = {}
        else: e = {'.': [body]}
        if kind == 'list': e['style'].update(conv(c['st']))
        elif c['st'] or not c.get('bare'): e['style'] = conv(c['st'])
        if q.rs > 1: e['rowspan'] = q.rs
        if q.cs > 1: e['colspan'] = q.cs
        rows[i][j] = e
    for i in range(nr):
        for j in range(nc):
            if T.own[i][j] is None: raise Skip()
            if T.own[i][j] != (i, j): rows[i][j] = 'hidden'
    return T, rows

def arguments(case):
    return dict(style=conv(case['st']), borders=[{k: num(v) if k == 'color' else v for k, v in b.items()} for b in case['borders']],
        fills=[{k: num(v) if k == 'color' else v for k, v in b.items()} for b in case['fills']], widths=case['widths'])

def definition(case):
    return setup(case)[1], arguments(case)

def layout(case, maxpages=40):
    import pdfme
    import docs
    T, rows = setup(case)
    nr, nc = case['nr'], case['nc']
    pdf = pdfme.PDF(page_size=(700, PH), margin=0)
    args = arguments(case)
    T.rects, T.marks = [], [0]
    t, junk = None, []
    try:
        for k in range(maxpages):
            r = case['rects'][k % len(case['rects'])]
            a = dict(x=r[0], y=r[1], width=r[2], height=r[3])
            if case.get('twice'):
                # as documents do to have room for the footnotes: laid out, and again from the state it had
                rd.next_page(pdf, (700, PH))
                junk.append(len(pdf.pages) - 1)
                if t is None: t = pdf._create_table(rows, r[2], r[3], r[0], r[1], **args)
                s = t.get_state()
                pdf._table(t, **dict(a, height=r[3] * case['twice']))
                t.set_state(**s)
                t.finished = False
            rd.next_page(pdf, (700, PH))
            T.rects.append(r)
            t = pdf._table(rows, **args, **a) if t is None else pdf._table(t, **a)
            T.marks.append(t.get_state()['current_index'])
            if t.finished: break
        else:
            need(T.marks[-1] != T.marks[-40] or min(r[3] for r in case['rects']) < 250, 'the table does not advance in 40 pages')
            raise Skip()
    except Exception as e:
        if any(x in str(e) for x in docs.KNOWN): raise Skip()
        raise
    T.out = rd.Out(rd.written(pdf))
    for k in reversed(junk): del T.out.pages[k]
    T.nr, T.nc = nr, nc
    tot = sum(case['widths'] or [1] * nc)
    cum = [0]
    for w in (case['widths'] or [1] * nc): cum.append(cum[-1] + w / tot)
    T.pages = []
    for p, r in zip(T.out.pages, T.rects):
        g = Tab()
        g.xs = [r[0] + r[2] * c for c in cum]
        g.toks = tok.tokens(p, 'z')
        g.h, g.v, g.fills = [], [], []
        for e in p.events:
            if e['kind'] == 'line':
                x1, y1, x2, y2 = rd.abs_line(e)
                key = (e['w'], tuple(round(v, 3) if not isinstance(v, str) else v.lower() for v in e['stroke']), e['J'], (tuple(e['d'][0]), e['d'][1]))
                if close(y1, y2, .0015): g.h.append((y1, min(x1, x2), max(x1, x2), key))
                else:
                    need(close(x1, x2, .0015), 'oblique line')
                    g.v.append((x1, min(y1, y2), max(y1, y2), key))
            elif e['kind'] == 'rect': g.fills.append((rd.abs_rect(e), tuple(round(v, 3) if not isinstance(v, str) else v for v in e['fill'])))
        g.start, g.stop = T.marks[len(T.pages):len(T.pages) + 2]
        g.r, g.top, g.bottom = r, PH - r[1], PH - r[1] - r[3]
        T.pages.append(g)
    T.case = case
    T.default = dict(width=.5, color='0', style='solid')
    for k in ('width', 'color', 'style'):
        if 'border_' + k in case['st']: T.default[k] = case['st']['border_' + k]
    T.hb = {}; T.vb = {}
    for b in case['borders']:
        v = b['pos'][0].lower() == 'v'
        pr = b['pos'][1:].split(';')
        if len(pr) == 1: pr.append(':')
        for i in sel(pr[0], nr if v else nr + 1):
            for j in sel(pr[1], nc + 1 if v else nc):
                (T.vb if v else T.hb)[i, j] = dict(T.default, **{k: x for k, x in b.items() if k != 'pos'})
    T.fl = {}
    for f in case['fills']:
        pr = f['pos'].split(';')
        if len(pr) == 1: pr.append(':')
        for i in sel(pr[0], nr):
            for j in sel(pr[1], nc): T.fl[i, j] = f['color']
    return T

def hborder(T, i, j):
    """border over the cell i, j; None when it is inside of a span"""
    if 0 < i < T.nr and T.own[i][j] == T.own[i - 1][j]: return None
    return T.hb.get((i, j), T.default)

def vborder(T, i, j):
    if 0 < j < T.nc and T.own[i][j] == T.own[i][j - 1]: return None
    return T.vb.get((i, j), T.default)

def margin(T, q, side):
    st = dict(T.case['st'], **{})
    own = q.c['st']
    m = 'cell_margin_' + side
    # the style of the table and the one of the cell are put together
    both = dict(st, **own)
    return both.get(m, both.get('cell_margin', 5))

STYLE = {'solid': (0, ((), 0)), 'dashed': None, 'dotted': None}

def key_ok(key, b):
    w, c, J, d = key
    x = COL[b['color']]
    if not close(w, b['width'], .001) or c[0] != x[0] or any(not close(u, v, .001) for u, v in zip(c[1:], x[1:])): return False
    if b['style'] == 'solid': return d[0] == ()
    if b['style'] == 'dashed': return d[0] != () and J == 0
    return d[0] != () and J == 1

def segments(T):
    """rows of every page with their tops and bottoms: [(row, top, bottom, continued, cut)]"""
    done = {}
    T.tokrow = {}
    for n, g in enumerate(T.pages):
        g.cell = {}
        for t in g.toks:
            need(t['word'] in T.word, 'unknown text %r', t['word'])
            q = T.word[t['word']]
            need(t['word'] not in done, 'word %r is shown twice', t['word'])
            done[t['word']] = n
            g.cell.setdefault((q.i, q.j), []).append(t)
    for w in T.word: need(w in done, 'the word %r is not shown', w)
    first = {}
    for n, g in enumerate(T.pages):
        g.rows = list(range(g.start, min(g.stop, T.nr - 1) + 1))
        ys = []
        for y in sorted((l[0] for l in g.h), reverse=True):
            if not ys or ys[-1] - y > .01: ys.append(y)
        g.ys = ys
        k = len(g.ys) - 1
        if k < 0: g.rows = []
        need(len(g.rows) == k or k < 0 and not g.rows, '%d rows and %d horizontal lines in page %d', len(g.rows), len(ys), n)

def vis(T):
    """every row of borders has one that can be seen, so that the rows can be told in the page"""
    for i in range(T.nr + 1):
        if not any(hborder(T, i, j) and hborder(T, i, j)['width'] > 0 for j in range(T.nc)): raise Skip()
