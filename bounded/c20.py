"""C20 on the real code: font objects of added fonts, and independence of documents."""
from common import *
import copy as copy_
import os
os.environ['SOURCE_DATE_EPOCH'] = '1500000000'   # font files are saved with the current time
import io
import re
import docs
import fontkit
import rd

RULE = ('fonts made at run time (shared glyphs, characters outside the BMP, different units per em) used in random texts, '
    'read back from the file; and random documents built alone and interleaved with others; distinct by the case')

def fixed():
    for i in range(30): yield dict(font=i, text=fontkit.LATIN + fontkit.MORE, align='r')
    # fonts with every number of characters around the blocks of the map to Unicode
    for n in (1, 2, 99, 100, 101, 102):
        yield dict(font=5, text=(fontkit.LATIN + fontkit.MORE)[:n][-60:] + (fontkit.LATIN + fontkit.MORE)[:n][:40], align='r', drop=(fontkit.LATIN + fontkit.MORE)[n:])
    yield dict(font=1, text='no glyph: \u4e00\u0fff x', align='l', drop='no')
    for i in range(6): yield dict(docs=[docs.fixed(i), docs.fixed(i + 3)], order=[0, 1] * 30, font=1)
    yield dict(shared=1); yield dict(shared=2); yield dict(shared=3)

def gen(rng, size):
    if rng.random() < .35:
        return dict(docs=[docs.gen(rng, max(1, size // 2)) for i in range(rng.choice([2, 2, 3]))], font=rng.randint(0, 9),
            order=[rng.randrange(3) for i in range(30)])
    pool = fontkit.LATIN + fontkit.MORE
    t = ''.join(rng.choice(pool) for i in range(rng.randint(1, 10 * size)))
    drop = ''.join(rng.sample(fontkit.LATIN[1:], rng.randint(0, 5))) if rng.random() < .3 else ''
    if rng.random() < .05: drop = pool[rng.choice([98, 99, 100, 101]):]
    return dict(font=rng.randint(0, 400), text=t, align=rng.choice('lrcj'), drop=drop, second=rng.random() < .4)

def run(case):
    if 'docs' in case: return independent(case)
    if 'shared' in case: return shared(case)
    import pdfme
    from fontTools.ttLib import TTFont
    from pdfme.fonts import PDFFont
    drop = case.get('drop', '')
    kit = fontkit.make(case['font'], None, drop)
    PDFFont.register('Kit', 'n', kit.path)
    text = case['text'].replace('\n', '')
    pdf = pdfme.PDF(page_size=(5000, 300), margin=20)
    pdf.add_page()
    pdf.text({'.': [text], 'style': {'f': 'Kit', 's': 10}}, text_align=case['align'])
    if case.get('second'):
        k2 = fontkit.make(case['font'] + 1)
        PDFFont.register('Kit2', 'b', k2.path)
        pdf.text({'.': ['abc def'], 'style': {'f': 'Kit2', 'b': 1}})
    data = rd.written(pdf)
    out = rd.Out(data)
    p = out.pages[0]
    evs = [e for e in p.text if e['fo'].ttf and e['fo'].base == kit.ps]
    if not ''.join(text.split(' ')): return None
    need(evs, 'the font is not used')
    f = evs[0]['fo']
    got = [c for e in evs for c in e['chars']]
    gids = b''.join(b for e in evs for b, off in e['parts'])
    gids = [gids[i] * 256 + gids[i + 1] for i in range(0, len(gids), 2)]
    want = [c for c in re.sub(' +', ' ', text)]
    if want[:1] == [' ']: want = want[1:]
    if want[-1:] == [' '] and len(gids) == len(want) - 1: want = want[:-1]
    need(len(gids) == len(want), '%d glyphs for %d characters', len(gids), len(want))
    for g, c in zip(gids, want):
        if c not in kit.gid:
            need(g == 0, 'glyph %d for %r, which is not in the font', g, c)
            need(close(f.w.get(0, f.dw), kit.notdef * 1000, .51), 'glyph 0 has the width %r instead of %r', f.w.get(0, f.dw), kit.notdef * 1000)
            continue
        need(g == kit.gid[c], 'glyph %d instead of %d for %r', g, kit.gid[c], c)
        need(g in f.w or close(kit.gwidth[g] * 1000, f.dw, .5), 'glyph %d has no width', g)
        need(close(f.w.get(g, f.dw), kit.gwidth[g] * 1000, .51), 'glyph %d has the width %r instead of %r', g, f.w.get(g), kit.gwidth[g] * 1000)
        need(f.uni.get(g) is not None and kit.gid.get(f.uni[g]) == g, 'glyph %d of %r is mapped to %r', g, c, f.uni.get(g))
    # the layout used the same widths
    lines = {}
    for e in evs: lines.setdefault(round(e['y'], 2), []).append(e)
    if case['align'] == 'r':
        for l in lines.values():
            end = l[-1]['x'] + l[-1]['adv']
            s = ''.join(e['str'] for e in l)
            if True:
                sp = kit.width.get(' ', kit.notdef) * 10
                need(close(end, 4980, .1) or close(end, 4980 - sp, .1) or close(end, 4980 + sp, .1), 'the line ends at %r, not at the right margin', end)
    # the file
    file = f.file
    need(file.d.get('Length1') == len(file.data), 'Length1 is not %d', len(file.data))
    a, b = TTFont(io.BytesIO(file.data)), TTFont(kit.path)
    need(a.getGlyphOrder() == b.getGlyphOrder() and a.getBestCmap() == b.getBestCmap() and a['hmtx'].metrics == b['hmtx'].metrics and
        a['head'].unitsPerEm == b['head'].unitsPerEm and a['name'].getDebugName(6) == b['name'].getDebugName(6), 'the font file is not the one added')
    d = f.desc
    need(d['Subtype'] == 'CIDFontType2' and d['BaseFont'] == kit.ps and d.get('CIDToGIDMap', 'Identity') == 'Identity', 'descendant font %r', d)
    fd = out.doc.get(d['FontDescriptor'])
    need(fd['FontName'] == kit.ps and close(fd['Ascent'], 800, 2) and close(fd['Descent'], -200, 2), 'descriptor %r', fd)
    return repr(case)

def strip(o):
    if isinstance(o, dict): return {k: strip(v) for k, v in o.items() if k != 'outline'}
    if isinstance(o, list): return [strip(x) for x in o]
    return o

def body(data): return re.sub(rb'/ID ?\[.*?\]', b'', data[:]) if True else data

def independent(case):
    import pdfme
    from pdfme.fonts import PDFFont
    specs = []
    for d in case['docs']:
        d = strip(d); d['font'] = case['font']; specs.append(d)
    alone = []
    for s in specs:
        alone.append(body(docs.written(docs.build(copy_.deepcopy(s)))))
    pdfs = [pdfme.PDF(**copy_.deepcopy(s['init'])) for s in specs]
    left = [copy_.deepcopy(s['ops']) for s in specs]
    order = list(case['order'])
    while any(left):
        i = (order.pop(0) if order else 0) % len(specs)
        if not left[i]: i = next(k for k in range(len(specs)) if left[k])
        docs.apply(pdfs[i], left[i].pop(0))
        if order and order[0] == 0 and not left[i]: docs.written(pdfme_doc())
    for k in range(len(specs)):
        i = len(specs) - 1 - k
        need(body(docs.written(pdfs[i])) == alone[i], 'document %d is different when it is built along with others', i)
    return repr(specs)[:2000]

def pdfme_doc():
    import pdfme
    pdf = pdfme.PDF(font_size=20, font_family='Times', text_align='c', indent=9)
    pdf.add_page()
    pdf.text('other')
    return pdf

def shared(case):
    """the same definitions used in several documents"""
    import pdfme
    par = {'.': ['one ', {'.b': 'two'}, ' three'], 'label': 'x'}
    content = {'content': [par, {'table': [['a', par]]}, {'content': ['z', par], 'cols': {'count': 2}}], 'style': {'s': 9}}
    table = [[par, 'b'], ['c', None]]
    style = {'s': 7}
    def make(**kw):
        nonlocal par, content, table, style
        if case['shared'] == 3:
            st = {{'font_family': 'f', 'font_size': 's', 'font_color': 'c'}.get(k, k): v for k, v in kw.items()}
            b = io.BytesIO()
            pdfme.build_pdf({'style': st, 'sections': [content, dict(content, style={'i': 1, 'margin': 80})]}, b)
            return body(b.getvalue())
        pdf = pdfme.PDF(**kw)
        pdf.add_page()
        if case['shared'] == 1:
            pdf.text(par); pdf.content(content); pdf.table(table, style=style)
        else:
            pdf.formats['fmt'] = style
            pdf.content(content); pdf.table(table, style='fmt'); pdf.text({'.': 'x', 'style': 'fmt'}); pdf.text(par)
        return body(rd.written(pdf))
    kw = dict(font_family='Times', font_size=20, font_color='red', text_align='r', line_height=2)
    keep = copy_.deepcopy((par, content, table, style))
    b = make(**kw)
    par, content, table, style = copy_.deepcopy(keep)
    a = make()
    need(make(**kw) == b and make() == a, 'a document is different after its definitions were used in another one')
    need(style == {'s': 7}, 'a style was changed')
    return repr(case)
