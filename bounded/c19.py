"""C19 on the real code: style strings, colours and margins against their definition."""
from common import *
import rd

RULE = ('random valid and invalid style strings, colours and margins, compared with the values their documentation '
    'gives them, and style strings used in a paragraph whose page is read back; distinct by the case')

FAMILIES = ['Helvetica', 'Times', 'Courier', 'Symbol', 'ZapfDingbats']
def css():
    from PIL import ImageColor
    return {k: tuple(x / 255 for x in ImageColor.getrgb(k)) for k in ImageColor.colormap}

NUMS = ['0', '1', '12', '0.5', '.25', '7.0', '10.75', '100', '3.', '0.001', '1e1', '-2', '-0.4']

def fixed():
    for n in sorted(css()): yield {'color': n}
    for a in range(256): yield {'color': '#%02x%02X%02x' % (a, 255 - a, (a * 7) % 256)}
    for a in range(16): yield {'color': '#%x%X%x' % (a, 15 - a, (a * 3) % 16)}
    for a in range(16): yield {'color': '#%x%x%x%x' % (a, 15 - a, (a * 3) % 16, 8)}
    yield {'color': '#01020380'}
    for c in ('', None, 0, 1, 0.25, [0.5], ['0.5'], [0.1, 0.2, 0.3], ['0.1', '0.2', '1'], '0.3', '0.3 0.4 0.5', '0.3,0.4,0.5', '0 0 0', '1,1 1'):
        yield {'color': c}
    for c in ('nocolor', '#12', '#12345', '#xyz', '#-12', '#12345g', '0.5 0.2', '0.1 0.2 x', '1 2 3 4 5', [0.1, 0.2], [], 'redd', 'Red ', 'Red', 'RED', 'lightgrey ', 'Gray', 'grey1', ' red', 'transparent', 'none', [None],
            ['a', 'b', 'c'], {'a': 1}, '# 1234a', '#-12345', '#000\n', '#aabbc\n', '#00000\n', '1,2,', [1, 2, 3, 4, 5]):
        yield {'badcolor': c}
    for m in (0, 10, 2.5, [], [7], [1, 2], [1, 2, 3], [1, 2, 3, 4], [1, 2, 3, 4, 5], '10', '10,20', '1 2', '1 2 3', '1,2,3,4', '2.5 3',
            {'top': 1, 'left': 2, 'bottom': 3, 'right': 4}):
        yield {'margin': m}
    for m in (None, 'a', '1,b', 'x y z'):
        yield {'badmargin': m}
    for k in 'biu':
        for t, v in (('%s', True), ('%s:1', True), ('%s:0', False), (' %s ', True), ('%s : 1', True), ('%s: 0 ', False)):
            yield {'style': [[t % k, [k, v]]]}
        for t in ('2', 'true', '', '01', '-1'): yield {'badstyle': '%s:%s' % (k, t)}
    for s in ('x', 's', 'f', 'c', 'bg', 'r', 's:', 's:a', 'r:', 'r:x', 'f:', 'f:Nope', 'x:1', 'c:nope', 'bg:#12', 'b:1:1', 's:1:2', 'bb',
            'b,i', 'b i', 'c:1 2', 's:1,2', 'u;x', 'b;s:ten', 'ss:1', 'B', 'F:Times'):
        yield {'badstyle': s}
    yield {'style': []}

def gen_color(rng):
    t = rng.randrange(6)
    if t == 0: return rng.choice(sorted(css()))
    if t == 1: return '#' + ''.join(rng.choice('0123456789abcdefABCDEF') for i in range(rng.choice([3, 6])))
    n = lambda: str(round(rng.random(), rng.randint(0, 5)))
    if t == 2: return n()
    if t == 3: return rng.choice([' ', ',']).join(n() for i in range(3))
    if t == 4: return ''
    return rng.choice(['0', '1', '0.5'])

def gen(rng, size):
    t = rng.random()
    if t < .15:
        c = gen_color(rng)
        u = rng.random()
        if u < .3 and c and c[0] not in '#abcdefghijklmnopqrstuvwxyz':
            l = [x for x in c.replace(',', ' ').split(' ')]
            c = l if rng.random() < .5 else [float(x) for x in l]
        elif u < .4: c = rng.random()
        return {'color': c}
    if t < .25:
        n = rng.randint(1, 4)
        v = [round(rng.uniform(0, 90), rng.randint(0, 3)) for i in range(n)]
        return {'margin': rng.choice([v, rng.choice([',', ' ']).join(map(str, v))])}
    parts = []
    for i in range(rng.randint(0, 7)):
        k = rng.choice(['b', 'i', 'u', 'f', 'c', 'bg', 's', 'r', ''])
        if k in 'biu' and k:
            v, e = rng.choice([('', True), (':1', True), (':0', False)])
            parts.append([k + v, [k, e]])
        elif k == 'f':
            f = rng.choice(FAMILIES[:3]); parts.append(['f:' + f, ['f', f]])
        elif k in ('c', 'bg') and k:
            c = gen_color(rng); parts.append(['%s:%s' % (k, c), [k, c]])
        elif k in ('s', 'r') and k:
            n = rng.choice(NUMS[:10] if k == 's' else NUMS + [str(round(rng.uniform(-1, 1), 4))])
            if k == 's' and rng.random() < .5: n = str(round(rng.uniform(1, 60), rng.randint(0, 3)))
            parts.append(['%s:%s' % (k, n), [k, float(n)]])
        else: parts.append(['', None])
    if t < .5: return {'page': parts}
    return {'style': parts}

def comps_of(c):
    """components a valid colour definition denotes (None: transparent)"""
    if c is None or c == '': return None
    if isinstance(c, (int, float)): return (c,)
    if isinstance(c, str):
        n = css()
        if c in n: return n[c]
        if c[0] == '#':
            h = c[1:]
            if len(h) in (3, 4): return tuple(int(x, 16) * 17 / 255 for x in h[:3])
            return tuple(int(h[i:i + 2], 16) / 255 for i in (0, 2, 4))
        c = c.replace(',', ' ').split(' ')
    return tuple(float(x) for x in c)

def same(c, got, what, tol=.0065):
    want = comps_of(c)
    if want is None:
        need(got is None, '%s: %r is %r instead of none', what, c, got); return
    if isinstance(c, str) and c[:1] == '#' or not isinstance(c, str): tol = 1e-9
    need(got is not None and len(got) == len(want) and all(close(a, b, tol) for a, b in zip(got, want)),
        '%s: %r is %r instead of %r', what, c, got, want)

def read_color(s):
    p = s.split()
    need(p[-1] in ('g', 'G', 'rg', 'RG') and len(p) == (2 if p[-1] in 'gG' else 4), 'colour text %r', s)
    return p[-1], [float(x) for x in p[:-1]]

def rejected(f, v, what):
    try: r = f(v)
    except Exception: return
    raise Bad('%s %r is accepted as %r' % (what, v, getattr(r, 'color', r)))

def run(case):
    from pdfme.color import PDFColor, parse_color
    from pdfme.utils import parse_style_str, parse_margin
    from pdfme.fonts import PDFFonts
    k, v = next(iter(case.items()))
    if k == 'color':
        same(v, parse_color(v), 'parse_color')
        for stroke in (False, True):
            p = PDFColor(v, stroke)
            same(v, p.color, 'PDFColor')
            q = PDFColor(p, not stroke)
            same(v, q.color, 'PDFColor of a PDFColor')
            for x, st in ((p, stroke), (q, not stroke)):
                t = str(x)
                if comps_of(v) is None: need(t == '', 'transparent colour is written %r', t); continue
                op, nums = read_color(t)
                w = comps_of(v)
                need(op == {(1, False): 'g', (1, True): 'G', (3, False): 'rg', (3, True): 'RG'}[len(w), st], 'operator %r of %r', op, v)
                need(all(close(a, b, .00051) for a, b in zip(nums, x.color)), 'components %r of %r', nums, v)
            need(p == PDFColor(v, stroke) and not (p != PDFColor(v, stroke)), 'a colour is not equal to itself')
            if comps_of(v) is not None: need(p != q, 'stroking and filling colours are equal')
        return repr(case)
    if k == 'badcolor': rejected(parse_color, v, 'colour'); rejected(PDFColor, v, 'colour'); return repr(case)
    if k == 'badmargin': rejected(parse_margin, v, 'margin'); return repr(case)
    if k == 'badstyle': rejected(lambda s: parse_style_str(s, PDFFonts()), v, 'style'); return repr(case)
    if k == 'margin':
        m = v
        if isinstance(m, dict): want = m
        else:
            if isinstance(m, str): m = [float(x) for x in m.replace(',', ' ').split(' ')]
            if isinstance(m, (int, float)): m = [m]
            m = list(m)
            t, r, b, l = {0: [0] * 4, 1: m * 4, 2: m * 2, 3: m + m[1:2]}.get(len(m), m[:4])
            want = dict(top=t, right=r, bottom=b, left=l)
        got = parse_margin(v)
        need(got == want, 'margin %r is %r', v, got)
        return repr(case)
    want = {}
    for p in v:
        if p[1]: want[p[1][0]] = p[1][1]
    text = ';'.join(p[0] for p in v)
    if k == 'style':
        got = parse_style_str(text, PDFFonts())
        need(set(got) == set(want), 'style %r has attributes %r', text, got)
        for a, x in want.items():
            if a in ('c', 'bg'):
                need(isinstance(got[a], PDFColor) and not got[a].stroke, 'colour in style %r', text)
                same(x, got[a].color, 'style ' + text)
            else: need(got[a] == x and type(got[a]) in (type(x), int, float), 'attribute %s in style %r is %r', a, text, got[a])
        return text
    return page_case(text, want)

def page_case(text, want):
    """the style of a paragraph, read back from the page"""
    import pdfme
    size = want.get('s', 11)
    if not 1 <= size <= 60 or abs(want.get('r', 0)) > 3: raise Skip()
    pdf = pdfme.PDF()
    pdf.add_page()
    pdf.text({'.' + text: ['abc']})
    out = rd.Out(rd.written(pdf))
    pg = out.pages[0]
    need(pg.string().strip() == 'abc', 'text %r', pg.string())
    e = pg.text[0]
    mode = ('Bold' if want.get('b') else '') , ('I' if want.get('i') else '')
    fam = want.get('f', 'Helvetica')
    ob = {'Times': 'Italic'}.get(fam, 'Oblique')
    base = fam + {('', ''): '-Roman' if fam == 'Times' else '', ('Bold', ''): '-Bold', ('', 'I'): '-' + ob, ('Bold', 'I'): '-Bold' + ob}[mode]
    need(e['fo'].base == base, 'font %s instead of %s (%s)', e['fo'].base, base, text)
    need(close(e['size'], size), 'size %r instead of %r', e['size'], size)
    need(close(e['Ts'], want.get('r', 0) * size, .01), 'rise %r (%s)', e['Ts'], text)
    c = comps_of(want.get('c', 0.1))
    col = e['fill']
    if 'c' in want and c is not None:
        need(len(col) == 1 + len(c) and all(close(a, b, .0065) for a, b in zip(col[1:], c)), 'colour %r (%s)', col, text)
        need(col[0] == ('g' if len(c) == 1 else 'rg'), 'colour operator %r', col)
    fills = [x for x in pg.events if x['kind'] == 'rect']
    bg = comps_of(want.get('bg'))
    lines = [x for x in pg.events if x['kind'] == 'line']
    need(len(fills) == (bg is not None), '%d backgrounds (%s)', len(fills), text)
    if bg is not None:
        f = fills[0]['fill']
        need(len(f) == 1 + len(bg) and all(close(a, b, .0065) for a, b in zip(f[1:], bg)), 'background %r (%s)', f, text)
    need(len(lines) == (1 if want.get('u') else 0), '%d underlines (%s)', len(lines), text)
    if want.get('u'):
        u = lines[0]['stroke']
        need(u[0] in ('G', 'RG') and tuple(u[1:]) == tuple(col[1:]), 'underline %r of a text %r', u, col)
    return text
