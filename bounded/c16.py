"""C16 on the real code: image objects against the files, and where images are drawn."""
import io
import pathlib
import struct
from common import *
import boxcase
import fontkit
import imgs
import rd

RULE = ('JPEG and PNG files of every mode, sizes 1 to 300, with random segments before the frame header, given as strings, paths and '
    'file objects; the same and different images drawn several times in documents; images and groups of images in random '
    'content boxes and in table cells; distinct by the case')

KINDS = ['text', 'image', 'image', 'group']
SOFS = [0xC0, 0xC1, 0xC2, 0xC3, 0xC5, 0xC6, 0xC7, 0xC9, 0xCA, 0xCB, 0xCD, 0xCE, 0xCF]
SEGS = [0xE0, 0xE1, 0xED, 0xEE, 0xEF, 0xFE, 0xDB, 0xC4, 0xCC, 0xDD]

def raw(segs, sof, depth, h, w, layers, seed):
    """a JPEG file with these segments before its frame header"""
    rng = random.Random(seed)
    out = b'\xff\xd8'
    for m, n in segs:
        out += b'\xff' * rng.choice([0, 0, 0, 1, 5])     # fill bytes
        data = bytes(rng.choice([0xff, 0xc0, 0xda, 0, 8, rng.randrange(256)]) for i in range(n))
        out += bytes([0xff, m]) + struct.pack('>H', n + 2) + data
    out += b'\xff' * rng.choice([0, 0, 2])
    out += bytes([0xff, sof]) + struct.pack('>HBHHB', 8 + 3 * layers, depth, h, w, layers) + bytes(3 * layers)
    out += b'\xff\xda' + bytes(rng.randrange(256) for i in range(30)) + b'\xff\xd9'
    return out

def fixed():
    for s in SOFS:
        for l in (1, 3, 4): yield dict(t='raw', segs=[], sof=s, depth=8, h=7 + l, w=300 + s, layers=l, seed=1, how='bytes')
    for s in SEGS:
        for n in (0, 1, 2, 65533): yield dict(t='raw', segs=[[s, n], [0xE0, 14]], sof=0xC0, depth=8, h=700, w=3, layers=3, seed=n, how='str')
    yield dict(t='raw', segs=[], sof=0xC1, depth=12, h=65535, w=65535, layers=1, seed=1, how='Path')
    for k in ('jpg', 'jpeg', 'JPG', 'png', 'PNG', 'Jpeg'):
        for m in (['RGB', 'L', 'CMYK'] if k.lower() != 'png' else ['RGB', 'L', 'RGBA', 'P', '1']):
            for how in ('str', 'Path', 'bytes', 'dot', 'space'): yield dict(t='file', img=[k, m, 13, 6, len(m) + 1], how=how)
    for sz in (200, 'a3'): yield dict(t='draws', ops=[['setup', sz], [0, 30, None, 'bottom'], ['page'], [1, 20, None, 'next'], ['to', 0], [1, 30, 12, 'bottom'], ['setup', 333], [0, 40, 20, 'next'], ['to', 1], [0, 25, 20, 'bottom']], imgs=[['jpg', 'RGB', 20, 10, 1], ['png', 'RGB', 10, 20, 2]])
    for mv in ('bottom', 'next', 'none'):
        yield dict(t='draws', ops=[[0, 30, None, mv], [1, None, 20, mv], [0, 40, 25.5, mv], ['page'], [0, None, 33, mv], [1, 15, None, mv]], imgs=[['jpg', 'RGB', 20, 10, 1], ['png', 'RGB', 10, 20, 2]])
    for path in (False, True): yield dict(t='draws', ops=[[i, None, 20, 'bottom'] for i in (0, 1, 2, 1, 0)], imgs=[['jpg', 'RGB', 20, 10, k] for k in (1, 2, 3)], samename=True, path=path)
    rng = random.Random(3)
    t = dict(k='text', n=8, st={'margin_bottom': 3, 's': 8})
    for h in range(60, 260, 9):
        for shape in ([1, 1], [1, 2]):
            for st in ({}, {'image_place': 'normal'}, {'min_height': 30}, {'min_height': 30, 'shrink': 1}, {'min_height': 30, 'margin_left': 20, 'margin_right': 10}):
                yield dict(t='box', box=dict(k='box', st={}, cols=None, els=[t, dict(k='image', shape=shape, st=st), t]), rects=[[20, 30, 180, h], [20, 30, 180, 500]])
    yield from tables()

def tables():
    for w in (100, 180.5):
        for rows in (1, 4):
            for h in (120, 300): yield dict(t='table', width=w, h=h, cols=[1], rows=[[[1, 1]], [[2, 1]], ['text'], [[1, 2]]][:rows], pad=5, b=.5)
            if rows == 1:
                # the image fits by little, or does not by little
                for k in range(60): yield dict(t='table', width=w, h=w + 17 + k * .07, cols=[1], rows=[['text'], [[1, 1]]], pad=5, b=.5)
            yield dict(t='table', width=w * 2, h=400, cols=[2, 1, 3], rows=[[[1, 1], 'text', [3, 1]], ['text', [2, 1], [1, 1]]], pad=0, b=3)

def gen(rng, size):
    r = rng.random()
    how = rng.choice(['str', 'Path', 'bytes', 'dot'])
    if r < .2:
        return dict(t='raw', segs=[[rng.choice(SEGS), rng.choice([0, 1, 2, 3, 14, 64, 500])] for i in range(rng.randint(0, 6))], sof=rng.choice(SOFS), depth=rng.choice([8, 8, 12]),
            h=rng.choice([1, 8, 255, 256, 4000, 65535]), w=rng.choice([1, 8, 255, 256, 4000, 65535]), layers=rng.choice([1, 3, 4]), seed=rng.randint(0, 10 ** 6), how=how)
    if r < .35: return dict(t='file', img=imgs.gen(rng), how=how)
    if r < .55:
        ims = [imgs.gen(rng) for i in range(rng.randint(1, 4))]
        ops = [['page'] if rng.random() < .15 else ['setup', rng.choice([200, 300, 'a4'])] if rng.random() < .06 else ['to', rng.randrange(4)] if rng.random() < .06 else [rng.randrange(len(ims)), rng.choice([None, 12, 33.3, 80]), rng.choice([None, None, 17, 50.5]), rng.choice(['bottom', 'next', 'none'])] for i in range(rng.randint(1, 12))]
        same = rng.random() < .3
        if same:
            for i in ims: i[0:2] = ims[0][0:2]
        return dict(t='draws', ops=ops, imgs=ims, samename=same, path=rng.random() < .4)
    if r < .65:
        cols = [rng.choice([1, 2, 1.5]) for i in range(rng.randint(1, 3))]
        return dict(t='table', width=rng.choice([150, 240.5, 400]), h=rng.choice([100, 200, 400]), cols=cols, pad=rng.choice([0, 5]), b=rng.choice([0, .5, 4]),
            rows=[[rng.choice(['text', rng.choice(boxcase.SHAPES)]) for c in cols] for i in range(rng.randint(1, 5))])
    return dict(boxcase.gen(rng, size, KINDS), t='box')

def given(path, how, n=0):
    """arguments for the image, and the name it has"""
    ext = path.rpartition('.')[2]
    if how == 'str': return dict(image=path)
    if how == 'Path': return dict(image=pathlib.Path(path))
    if how == 'dot': return dict(image=path, extension='.' + ext)
    if how == 'space': return dict(image=io.BytesIO(open(path, 'rb').read()), extension=ext.upper() + ' ', image_name='im%d' % n)
    return dict(image=io.BytesIO(open(path, 'rb').read()), extension=ext, image_name='im%d' % n)

SPACE = {1: 'DeviceGray', 3: 'DeviceRGB', 4: 'DeviceCMYK'}

def check_obj(doc, ref, w, h, depth, layers, data):
    o = doc.get(ref)
    d = o.d
    need(d['Type'] == 'XObject' and d['Subtype'] == 'Image', 'image object %r', d)
    need((d['Width'], d['Height']) == (w, h), 'image of %r instead of %r', (d['Width'], d['Height']), (w, h))
    need(d['BitsPerComponent'] == depth, 'depth %r instead of %r', d['BitsPerComponent'], depth)
    need(d['ColorSpace'] == SPACE[layers], 'colour space %r with %d components', d['ColorSpace'], layers)
    need(d['Filter'] == 'DCTDecode', 'filter %r', d['Filter'])
    need(o.raw == data, 'the bytes of the image are not those of the file')

def pngdata(path):
    from PIL import Image
    b = io.BytesIO()
    Image.open(path).convert('RGB').save(b, 'JPEG')
    return b.getvalue()

def expected(path):
    from PIL import Image
    with Image.open(path) as im:
        if path.lower().endswith('png'): return im.size, 3, pngdata(path)
        return im.size, len(im.getbands()), open(path, 'rb').read()

def run(case):
    import pdfme
    if case['t'] == 'raw':
        data = raw(case['segs'], case['sof'], case['depth'], case['h'], case['w'], case['layers'], case['seed'])
        path = os.path.join(fontkit.scratch(), 'raw.jpg')
        open(path, 'wb').write(data)
        pdf = pdfme.PDF(page_size=200, margin=10)
        pdf.add_page()
        pdf.image(width=50, **given(path, case['how']))
        out = rd.Out(rd.written(pdf))
        i, = out.pages[0].images()
        X, Y, W, H = rd.abs_rect(i)
        need(close(W, 50) and close(H, 50 * case['h'] / case['w'], .01), 'drawn with size %r, %r pixels', (W, H), (case['w'], case['h']))
        check_obj(out.doc, out.pages[0].xrefs[i['name']], case['w'], case['h'], case['depth'], case['layers'], data)
        return repr(case)
    if case['t'] == 'file':
        path = imgs.make(*case['img'])
        pdf = pdfme.PDF(page_size=400, margin=10)
        pdf.add_page()
        g = given(path, case['how'])
        pdf.image(**g)
        pdf.image(**given(path, case['how']), width=20)
        out = rd.Out(rd.written(pdf))
        (w, h), n, data = expected(path)
        a, b = out.pages[0].images()
        need(out.pages[0].xrefs[a['name']] == out.pages[0].xrefs[b['name']], 'two objects for the same image')
        X, Y, W, H = rd.abs_rect(a)
        need(close(W, 380, .01) and close(H, 380 * h / w, .01), 'drawn with size %r', (W, H))
        check_obj(out.doc, out.pages[0].xrefs[a['name']], w, h, 8, n, data)
        return repr(case)
    if case['t'] == 'draws':
        pdf = pdfme.PDF(page_size=400, margin=10)
        pdf.add_page()
        log = [[]]
        paths = [imgs.make(*i, sub=n if case.get('samename') else None) for n, i in enumerate(case['imgs'])]
        for op in case['ops']:
            if op == ['page']:
                pdf.setup_page(400)
                pdf.add_page(); log.append([]); continue
            if op[0] == 'setup':        # of the next pages
                pdf.setup_page(op[1]); continue
            if op[0] == 'to':
                pdf.page_index = op[1] % len(pdf.pages); continue
            i, w, h, mv = op
            x, y = pdf.page.x, pdf.page.y
            pdf.image(pathlib.Path(paths[i]) if case.get('path') else paths[i], width=w, height=h, move=mv)
            iw, ih = case['imgs'][i][2:4]
            if w is None and h is None: w, h = 380, 380 * ih / iw
            elif w is None: w = h * iw / ih
            elif h is None: h = w * ih / iw
            log[pdf.page_index].append((paths[i], x, 400 - y - h, w, h))
        out = rd.Out(rd.written(pdf))
        ref = {}
        for p, l in zip(out.pages, log):
            ims = p.images()
            need(len(ims) == len(l), '%d images drawn instead of %d', len(ims), len(l))
            for e, (path, x, y, w, h) in zip(ims, l):
                r = rd.abs_rect(e)
                need(all(close(q, v, .01) for q, v in zip(r, (x, y, w, h))), 'image at %r instead of %r', r, (x, y, w, h))
                o = p.xrefs[e['name']]
                need(ref.setdefault(path, o) == o, 'two objects for the same image')
        need(len(set(map(repr, ref.values()))) == len(ref), 'one object for different images')
        for path, o in ref.items():
            (w, h), n, data = expected(path)
            check_obj(out.doc, o, w, h, 8, n, data)
        n = sum(1 for k in out.doc.objs for v in [out.doc.objs[k]] if hasattr(v, 'd') and v.d.get('Subtype') == 'Image') if hasattr(out.doc, 'objs') else len(ref)
        need(n == len(ref), '%d image objects for %d images', n, len(ref))
        return repr(case)
    if case['t'] == 'table': return table(case)
    leaves, out = boxcase.layout(case)
    pieces = [(n, x0, x1, bot, top, kind) for lf in leaves for n, k, top, bot, x0, x1, kind in lf.pieces]
    some = False
    for lf in leaves:
        st = lf.e['st']
        ml, mr = st.get('margin_left', 0), st.get('margin_right', 0)
        els = [x for x in lf.e.get('g', []) if x['k'] == 'image'] or [None]
        for q, im in zip(els, lf.images):
            some = True
            n, (x, y, w, h) = im['frag'][0]
            _, cx, cw = im['chain']
            px, py = im['size']
            need(abs(w * py - h * px) <= .002 * (px + py), 'image of %r pixels drawn with size %r', im['size'], (w, h))
            avail = cw - ml - mr
            need(w <= avail + .01, 'image of width %r in %r', w, avail)
            need(close(x - cx - ml, (avail - w) / 2, .01), 'image at x %r is not centered in %r, %r', x, cx + ml, avail)
            mh = q['mh'] if q else st.get('min_height')
            if mh is None: need(close(w, avail, .01), 'image of width %r, the space is %r', w, avail)
            elif w < avail - .01:
                need(h >= mh - .01, 'image shrunk to %r, less than %r', h, mh)
                if st.get('shrink') and not q: need(close(h, mh, .01), 'image shrunk to %r instead of %r', h, mh)
            r = case['rects'][n % len(case['rects'])]
            if mh is not None and w < avail - .01 and not q and not st.get('shrink') and len(lf.path) == 1 and not case['box'].get('cols'):
                need(close(y, 600 - r[1] - r[3], .02), 'image shrunk to %r, and %r are left', h, y - (600 - r[1] - r[3]))
            need(x >= r[0] - .01 and x + w <= r[0] + r[2] + .01 and y >= 600 - r[1] - r[3] - .01 and y + h <= 600 - r[1] + .01, 'image %r outside of its rectangle %r', (x, y, w, h), r)
            over = [p for p in pieces if p[0] == n and p[1] < x + w - .02 and x + .02 < p[2] and p[3] < y + h - .02 and y + .02 < p[4]]
            need(len(over) == 1, 'image %r over %r', (x, y, w, h), over)
    return repr(case) if some else None

def table(case):
    import pdfme
    pdf = pdfme.PDF(page_size=(500, 600), margin=0)
    n = [0]
    cells = {}
    rows = []
    for i, row in enumerate(case['rows']):
        l = []
        for j, c in enumerate(row):
            if c == 'text': l.append('t%d_%d' % (i, j)); continue
            w, h = c[0] * (20 + n[0]), c[1] * (20 + n[0]); n[0] += 1
            cells[w, h] = (i, j)
            l.append({'image': imgs.make('jpg', 'L', w, h, n[0])})
        rows.append(l)
    args = dict(widths=case['cols'], style={'cell_margin': case['pad'], 'border_width': case['b'], 's': 8})
    t = None
    for k in range(30):
        rd.next_page(pdf, (500, 600))
        a = dict(width=case['width'], height=case['h'], x=20, y=30)
        t = pdf._table(rows, **args, **a) if t is None else pdf._table(t, **a)
        if t.finished: break
    else: raise Skip()
    out = rd.Out(rd.written(pdf))
    tot = sum(case['cols'])
    seen = {}
    for k, p in enumerate(out.pages):
        for e in p.images():
            im = out.doc.get(p.xrefs[e['name']]).d
            i, j = cells[im['Width'], im['Height']]
            need((i, j) not in seen, 'image drawn twice')
            x, y, w, h = rd.abs_rect(e)
            seen[i, j] = (k, y, y + h)
            left = 20 + case['width'] * sum(case['cols'][:j]) / tot
            cw = case['width'] * case['cols'][j] / tot
            need(close(x, left + case['pad'] + case['b'] / 2, .01) and close(w, cw - 2 * case['pad'] - case['b'], .01), 'image from x %r width %r in the column %r', x, w, (left, cw))
            need(abs(w * im['Height'] - h * im['Width']) < .1, 'proportions')
            need(y >= 600 - 30 - case['h'] + case['pad'] + case['b'] / 2 - .01 and y + h <= 570.01, 'image from y %r, height %r out of its rectangle', y, h)
    need(len(seen) == len(cells), '%d images of %d', len(seen), len(cells))
    for (i, j), (k, y0, y1) in seen.items():
        for (i2, j2), (k2, z0, z1) in seen.items():
            if i2 > i: need(k2 > k or k2 == k and z1 <= y0 - 2 * case['pad'] + .02, 'the image of row %d is not below the one of row %d', i2, i)
    return repr(case)
