"""C08 on the real code: the page tree and the resources of random documents."""
from common import *
import fontkit
import imgs
import rd
import tok

RULE = ('random documents whose pages have different sizes and use standard and added fonts and images in paragraphs, list '
    'markers, tables, content boxes and running sections; distinct by the case')

BASE = {('Helvetica', 'n'): 'Helvetica', ('Helvetica', 'b'): 'Helvetica-Bold', ('Helvetica', 'i'): 'Helvetica-Oblique', ('Helvetica', 'bi'): 'Helvetica-BoldOblique',
    ('Times', 'n'): 'Times-Roman', ('Times', 'b'): 'Times-Bold', ('Times', 'i'): 'Times-Italic', ('Times', 'bi'): 'Times-BoldItalic',
    ('Courier', 'n'): 'Courier', ('Courier', 'b'): 'Courier-Bold', ('Courier', 'i'): 'Courier-Oblique', ('Courier', 'bi'): 'Courier-BoldOblique'}
SIZES = {'a5': (419.528, 595.276), 'a4': (595.276, 841.89), 'letter': (612, 792), 'legal': (612, 1008), 'a3': (841.89, 1190.551),
    'b5': (498.898, 708.661), 'b4': (708.661, 1000.63), 'jis-b5': (515.906, 728.504), 'jis-b4': (728.504, 1031.812), 'ledger': (792, 1224)}

def fixed():
    for n in (1, 2, 5, 6, 7, 8, 13, 40): yield dict(init={}, ops=[['page', {}]] * n, times=2, kit=1)
    for s in SIZES:
        for r in (False, True): yield dict(init={'page_size': s, 'rotate_page': r}, ops=[['page', {}], ['page', {'rotate_page': not r}], ['page', {'page_size': 'a4'}], ['setup', {'page_size': 200}], ['page', {}]], times=1, kit=1)

def pargs(rng):
    d = {}
    if rng.random() < .4: d['page_size'] = rng.choice(list(SIZES) + [300, [250, 380], [400, 300]])
    if rng.random() < .3: d['rotate_page'] = rng.random() < .5
    if rng.random() < .2: d['margin'] = rng.choice([20, 40])
    return d

def font(rng):
    return [rng.choice(['Helvetica', 'Times', 'Courier', 'Kit', 'Kit2']), rng.choice(['n', 'b', 'i', 'bi'])]

def gen(rng, size):
    ops = [['page', pargs(rng)]]
    for i in range(rng.randint(1, 3 + 2 * size)):
        t = rng.random()
        if t < .2: ops.append(['page', pargs(rng)])
        elif t < .25: ops.append(['setup', pargs(rng)])
        elif t < .3: ops.append(['running', font(rng)])
        elif t < .5: ops.append(['text', [[font(rng), rng.choice([1, 1, 3, 40])] for j in range(rng.randint(1, 4))]])
        elif t < .6: ops.append(['list', font(rng), font(rng)])
        elif t < .7: ops.append(['table', [[font(rng) for j in range(2)] for k in range(rng.randint(1, 8))]])
        elif t < .8: ops.append(['content', [font(rng) for j in range(rng.randint(1, 6))]])
        elif t < .85: ops.append(['cimage', imgs.gen(rng)])
        else: ops.append(['image', imgs.gen(rng), rng.choice([10, 40])])
    return dict(init=pargs(rng), ops=ops, times=rng.choice([1, 1, 2]), kit=rng.randint(0, 20))

def style(f):
    return {'f': f[0], 'b': int('b' in f[1]), 'i': int('i' in f[1])}

def dims(size, rot):
    w, h = SIZES[size] if isinstance(size, str) else (size, size) if isinstance(size, (int, float)) else size
    return (h, w) if rot else (w, h)

def run(case):
    import pdfme
    import docs
    from pdfme.fonts import PDFFont
    from PIL import Image
    ps = {}
    for fam, k in (('Kit', 0), ('Kit2', 100)):
        for i, m in enumerate(('n', 'b', 'i', 'bi')):
            kit = fontkit.make(case['kit'] + k + i, share=False)
            PDFFont.register(fam, m, kit.path)
            ps[fam, m] = kit.ps
    init = case['init']
    pdf = pdfme.PDF(**{k: tuple(v) if isinstance(v, list) else v for k, v in init.items()})
    cur = dict(page_size='a4', rotate_page=False); cur.update({k: v for k, v in init.items() if k in cur})
    want, used, n = [], {}, [0]
    images = []
    def token(f):
        t = 't%dx' % n[0]; n[0] += 1
        used[t] = BASE.get(tuple(f)) or ps[tuple(f)]
        return t
    running = []
    try:
        for op in case['ops']:
            k = op[0]
            if k == 'page':
                pdf.add_page(**op[1])
                want.append(dims(op[1].get('page_size', cur['page_size']), op[1].get('rotate_page', cur['rotate_page'])))
            elif k == 'setup':
                pdf.setup_page(**op[1]); cur.update({a: b for a, b in op[1].items() if a in cur})
            elif k == 'running':
                running.append(token(op[1]))
                pdf.add_running_section({'content': [{'.': [running[-1]], 'style': style(op[1])}]}, 100, 30, 20, 10)
            elif k == 'text':
                pdf.text({'.': [{'.': ' '.join(token(f) for i in range(c)) + ' ', 'style': style(f)} for f, c in op[1]]})
            elif k == 'list':
                pdf.text({'.': [token(op[1])], 'style': style(op[1])}, list_text=token(op[2]), list_style=style(op[2]), list_indent=90)
            elif k == 'table':
                pdf.table([[{'.': [token(f)], 'style': style(f)} for f in r] for r in op[1]])
            elif k == 'content':
                pdf.content({'content': [{'.': [token(f)], 'style': style(f)} for f in op[1]], 'cols': {'count': 2, 'gap': 10}})
            elif k == 'cimage':
                p = imgs.make(*op[1]); images.append(p)
                pdf.content({'content': [{'image': p}]})
            else:
                p = imgs.make(*op[1]); images.append(p)
                pdf.image(p, width=op[2])
            while len(want) < len(pdf.pages): want.append(dims(cur['page_size'], cur['rotate_page']))
    except Exception as e:
        if any(x in str(e) for x in docs.KNOWN): raise Skip()
        raise
    for t in range(case['times']):
        out = rd.Out(rd.written(pdf))
        need(len(out.pages) == len(want), '%d pages instead of %d', len(out.pages), len(want))
        seen = set()
        drawn = []
        objs = {}
        for i, (p, w) in enumerate(zip(out.pages, want)):
            need(list(p.box[:2]) == [0, 0] and close(p.box[2], w[0], .01) and close(p.box[3], w[1], .01), 'page %d has size %r instead of %r', i, p.box, w)
            for k in tok.tokens(p, 'x'):
                if k['word'] in used:
                    need(k['fo'].base == used[k['word']], 'page %d: %r is shown with %r instead of %r', i, k['word'], k['fo'].base, used[k['word']])
                    seen.add(k['word'])
            for name, r in p.fontrefs.items(): need(out.doc.get(r).get('Type') == 'Font', 'font %s', name)
            for e in p.images():
                r = p.xrefs[e['name']]
                drawn.append(r)
        need(seen >= set(x for x in used if x not in running or case['ops'][-1][0] == 'page'), 'text not found: %r', sorted(set(used) - seen)[:5])
        need(len(drawn) == len(images), '%d images drawn, %d requested', len(drawn), len(images))
        for r, path in zip(drawn, images):
            d = out.doc.get(r)
            im = Image.open(path)
            need(d.d['Subtype'] == 'Image' and (d.d['Width'], d.d['Height']) == im.size, 'the image %s leads to another one', path)
            if path.endswith('g') and not path.endswith('png'): need(d.raw == open(path, 'rb').read(), 'bytes of %s', path)
            need(objs.setdefault(r, path) == path, 'two images share an object')
    return repr(case)
