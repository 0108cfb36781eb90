"""Random whole documents built through the methods of PDF, as lists of operations."""
from common import *
import io
import fontkit
import imgs

WORDS = 'alpha beta gamma (delta) epsilon\\ zeta eta theta iota kappa lambda mu nu xi omicron pi rho'.split()

def words(rng, n): return ' '.join(rng.choice(WORDS) for i in range(n))

def style(rng, p=.3, fonts=True):
    s = {}
    if rng.random() < p: s['b'] = 1
    if rng.random() < p: s['i'] = 1
    if rng.random() < p * .6: s['u'] = 1
    if rng.random() < p: s['s'] = rng.choice([6, 8, 10, 12.5, 16])
    if rng.random() < p: s['f'] = rng.choice(['Helvetica', 'Times', 'Courier'] + (['Kit'] if fonts else []))
    if rng.random() < p: s['c'] = rng.choice(['red', 0.3, '#0af', [0.1, 0.5, 0.2]])
    if rng.random() < p * .5: s['bg'] = rng.choice(['yellow', 0.9])
    if rng.random() < p * .4: s['r'] = rng.choice([0.3, -0.2])
    return s

def para(rng, size, tag, outlines=True):
    parts = []
    for i in range(rng.randint(1, 1 + size // 2)):
        t = words(rng, rng.randint(0, 5 + 3 * size))
        if rng.random() < .6: parts.append(t)
        else:
            d = {'.': [t], 'style': style(rng)}
            q = rng.random()
            if q < .15: d['label'] = tag + 'L%d' % i
            elif q < .3: d['ref'] = rng.choice(['L', tag + 'L0', 'nowhere'])
            elif q < .45: d['uri'] = 'http://u%d.com' % rng.randint(0, 2)
            elif q < .55 and outlines: d['outline'] = {'level': 1, 'text': 'O ' + tag + str(i)}
            parts.append(d)
    return {'.': parts, 'style': style(rng, .15)}

def element(rng, size, depth, tag):
    t = rng.random()
    if depth <= 0 or t < .6: return para(rng, size // 2, tag)
    if t < .7: return {'image': imgs.gen(rng), 'style': {'image_place': rng.choice(['flow', 'normal'])}}
    if t < .85: return dict(table(rng, size, depth - 1, tag))
    return content(rng, size, depth - 1, tag)

def table(rng, size, depth, tag):
    c, r = rng.randint(1, 3), rng.randint(1, 2 + size // 2)
    rows = [[element(rng, size // 2, depth - 1, '%st%d_%d' % (tag, i, j)) if rng.random() < .9 else None for j in range(c)] for i in range(r)]
    return {'table': rows, 'widths': [rng.choice([1, 2, 1.5]) for i in range(c)]}

def content(rng, size, depth, tag):
    d = {'content': [element(rng, size // 2, depth - 1, '%sc%d' % (tag, i)) for i in range(rng.randint(1, 1 + size // 2))]}
    if rng.random() < .4: d['cols'] = {'count': rng.randint(1, 3), 'gap': rng.choice([10, 20])}
    return d

def page(rng):
    d = {}
    if rng.random() < .5: d['page_size'] = rng.choice(['a5', 'a4', 'letter', 300, [350, 500]])
    if rng.random() < .3: d['rotate_page'] = rng.choice([True, False])
    if rng.random() < .3: d['margin'] = rng.choice([30, [40, 50], [20, 30, 40, 50]])
    return d

def gen(rng, size):
    ops = [['page', page(rng)]]
    for i in range(rng.randint(1, 2 + size)):
        t = rng.random()
        if t < .2: ops.append(['page', page(rng)])
        elif t < .6:
            ops.append(['text', para(rng, size, 'p%d' % i), {k: v for k, v in dict(text_align=rng.choice('lrcj'),
                line_height=rng.choice([1, 1.1, 1.6]), indent=rng.choice([0, 15]), list_text=rng.choice(['1. ', '- '])).items() if rng.random() < .3}])
        elif t < .7: ops.append(['image', imgs.gen(rng), {'width': rng.choice([20, 50, 100])}])
        elif t < .85: ops.append(['table', table(rng, size, 1, 't%d' % i)])
        else: ops.append(['content', content(rng, size, 2, 'c%d' % i)])
    return {'init': page(rng), 'font': rng.randint(0, 5), 'ops': ops}

NFIXED = 12
def fixed(i): return gen(random.Random(900 + i), 2 + i)

def prepare(o):
    """JSON to what pdfme takes: images become paths"""
    if isinstance(o, dict): return {k: imgs.make(*v) if k == 'image' and isinstance(v, list) else prepare(v) for k, v in o.items()}
    if isinstance(o, list): return [prepare(x) for x in o]
    return o

KNOWN = ('could not be fitted', "couldn't be fitted", 'very large')

def build(spec):
    import pdfme
    from pdfme.fonts import PDFFont
    kit = fontkit.make(spec['font'])
    for m in ('n', 'b', 'i', 'bi'): PDFFont.register('Kit', m, kit.path if m == 'n' else fontkit.make(spec['font'] + 10 * len(m)).path)
    pdf = pdfme.PDF(**spec['init'])
    try:
        for op in spec['ops']: apply(pdf, op)
    except Exception as e:
        if any(k in str(e) for k in KNOWN): raise Skip()
        raise
    return pdf

def apply(pdf, op):
    a = prepare(op[1]) if op[0] not in ('image', 'page') else op[1]
    if op[0] == 'page': pdf.add_page(**a)
    elif op[0] == 'text': pdf.text(a, **op[2])
    elif op[0] == 'image': pdf.image(imgs.make(*a), **op[2])
    elif op[0] == 'table': pdf.table(a['table'], widths=a['widths'])
    else: pdf.content(a)

def written(pdf):
    b = io.BytesIO()
    pdf.output(b)
    return b.getvalue()
