"""C01 on the real code: random sequences of objects, and random documents, read
by a strict reader of the file structure."""
from common import *
import base64
import io
import pdfread
import c02
import docs

RULE = ('random sequences of 0-40 objects of random types and lengths in a PDFBase, written once or several times with objects '
    'added between, and random documents with text, tables, images, links and outlines; distinct by the case')

def fixed():
    yield {'base': [], 'more': []}
    for n in (1, 2, 9, 10, 11, 99, 100, 101, 1000):
        yield {'base': [['i', n]] * n, 'more': [[['s', 'x']]]}
    for ln in (1, 10, 985, 1000, 9990, 100000):
        yield {'base': [['S', {}, [c02.b64(b'x' * ln)], 0], ['s', 'y' * ln], ['i', 1]], 'more': []}
    for i in range(docs.NFIXED): yield {'doc': docs.fixed(i), 'times': 2}

def gen(rng, size):
    if rng.random() < .35:
        return {'doc': docs.gen(rng, size), 'times': rng.randint(1, 3)}
    def objs(n):
        return [c02.gen(rng, size) for i in range(n)]
    return {'base': objs(rng.randint(0, 4 * size)), 'more': [objs(rng.randint(0, 3)) for i in range(rng.choice([0, 0, 1, 2]))],
        'trailer': rng.random() < .3, 'version': rng.choice(['1.5', '1.4', '1.7']), 'refs': rng.random() < .4}

def refs(o):
    if isinstance(o, pdfread.Ref): yield o
    elif isinstance(o, pdfread.Stream): yield from refs(o.d)
    elif isinstance(o, dict):
        for v in o.values(): yield from refs(v)
    elif isinstance(o, list):
        for v in o: yield from refs(v)

def add(base, v, want):
    if v[0] == 'S':
        obj = {n: c02.build(x)[0] for n, x in v[1].items()}
        parts = [base64.b64decode(p) for p in v[2]]
        obj['__stream__'] = parts[0] if len(parts) == 1 else dict(enumerate(parts))
        if v[3]: obj['Filter'] = b'/FlateDecode'
        w = ('S', b''.join(parts), {n: c02.build(x)[1] for n, x in v[1].items()})
        if v[3] == 2:
            obj['__skip_filter__'] = True
            import zlib
            obj['__stream__'] = zlib.compress(b''.join(parts))
        base.add(obj)
    else:
        o, w = c02.build(v)
        base.add(o)
    want.append(w)

def run(case):
    if 'doc' in case:
        pdf = docs.build(case['doc'])
        first = None
        for i in range(case['times']):
            d = check_file(docs.written(pdf), pdf=True)
            if first is None: first = len(d.pages())
            need(len(d.pages()) == first, 'the second document written has %d pages instead of %d', len(d.pages()), first)
        return repr(case)
    from pdfme.base import PDFBase
    kw = {}
    if case.get('trailer'): kw['trailer'] = {'Custom': 5}
    base = PDFBase(case.get('version', '1.5'), **kw)
    want = []
    for group in [case['base']] + case['more']:
        for v in group: add(base, v, want)
        b = io.BytesIO()
        base.output(b)
        d = check_file(b.getvalue(), pdf=False)
        need(d.version == case.get('version', '1.5'), 'version %r', d.version)
        need(len(d.objs) == len(want), '%d objects instead of %d', len(d.objs), len(want))
        for i, w in enumerate(want):
            g = d.objs[i + 1]
            if isinstance(w, tuple):
                need(isinstance(g, pdfread.Stream) and g.data == w[1], 'stream %d', i + 1)
            else: need(c02.equal(g, w), 'object %d is %r instead of %r', i + 1, g, w)
        if case.get('trailer'): need(d.trailer.get('Custom') == 5, 'trailer entries')
    return repr(case) if want else None

def check_file(data, pdf):
    try: d = pdfread.Doc(data)
    except pdfread.PDFError as e: raise Bad('invalid file: %s' % e)
    ids = d.trailer.get('ID')
    need(isinstance(ids, list) and len(ids) == 2 and all(isinstance(x, bytes) and len(x) == 16 for x in ids), 'ID %r', ids)
    if pdf:
        try:
            for o in list(d.objs.values()) + [d.trailer]:
                for r in refs(o): need(int(r) in d.objs, 'dangling reference to %d', r)
            d.pages(); d.dests(); d.outlines()
        except pdfread.PDFError as e: raise Bad('invalid file: %s' % e)
    return d
