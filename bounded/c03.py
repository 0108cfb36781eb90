"""C03 on the real code: characters of the strings shown, wherever text can be."""
from common import *
import fontkit
import rd
import textcase as T

RULE = ('all the characters of the standard fonts, backslash sequences and characters of added fonts in paragraphs, list texts, '
    'links, table cells, content boxes, running sections and variables, alone and in random strings with several fonts; '
    'distinct by the case')

LATIN = [chr(i) for i in list(range(33, 127)) + list(range(161, 173)) + list(range(174, 256))]
SITES = ['text', 'list', 'link', 'table', 'content', 'header', 'var', 'justify', 'number']
TRICKY = ['\\', '(', ')', '()', ')(', '\\(', '\\)', '\\n', '\\r', '\\t', '\\051', '\\053', '\\\\', '\\\\\\', 'a\\', '(a', 'a)', '[1]', '<a>', 'x\ry', '%c', '/N', '0', 'Tj', ')Tj', '\\ddd', '{}', '{0}', '%s', '\\\\)']
FAMS = ['Helvetica', 'Times', 'Courier']

def fixed():
    for f in FAMS:
        for m in range(4):
            for k in range(0, len(LATIN), 24): yield dict(site='text', words=LATIN[k:k + 24], f=f, m=m, font=0)
    for s in SITES:
        for t in TRICKY:
            for f in ('Helvetica', 'Kit'): yield dict(site=s, words=[t, 'b' + t, t + 'c'], f=f, m=0, font=0)
    for k in range(7):
        cs = [c for c in fontkit.LATIN + fontkit.MORE if c != ' ']
        for s in SITES: yield dict(site=s, words=cs, f='Kit', m=k % 4, font=k)
    rng = random.Random(3)
    for i in range(30): yield dict(t=T.gen(rng, 1 + i % 6))

def gen(rng, size):
    if rng.random() < .5: return dict(t=T.gen(rng, size))
    f = rng.choice(FAMS + ['Kit', 'Kit'])
    pool = LATIN if f != 'Kit' else [c for c in fontkit.LATIN + fontkit.MORE if c != ' ']
    ws = [''.join(rng.choice(pool if rng.random() < .6 else '()\\') for j in range(rng.randint(1, 2 + size))) for i in range(rng.randint(1, 3 + 2 * size))]
    return dict(site=rng.choice(SITES), words=ws, f=f, m=rng.randrange(4), font=rng.randint(0, 6))

def run(case):
    if 't' in case:
        paras, out, kits = T.layout(case['t'])
        for q in paras:
            T.words_kept(q)
            for l in q.lines:
                for c in l.body:
                    if c[3] is not None: need(c[4]['fo'].ttf == (q.src[c[3]][1]['f'] == 'Kit'), 'font of %r', c[0])
            for r in q.runs:
                for e in r.events: need(not e['fo'].ttf or len(e['text']) % 2 == 0, 'odd string')
        return T.summary(case)
    import pdfme
    from pdfme.fonts import PDFFont
    from pdfme import PDF
    kits = T.fonts_of(case['font'])
    for m, k in kits.items(): PDFFont.register('Kit', m, k.path)
    f, site, ws = case['f'], case['site'], case['words']
    if f == 'Kit' and any('\r' in w for w in ws): raise Skip()
    st = {'f': f, 'b': case['m'] % 2, 'i': case['m'] // 2}
    s = ' '.join(ws)
    pdf = PDF(page_size=(300, 800), margin=30)
    pad = 'zz'
    if site == 'header': pdf.add_running_section({'content': [{'.': [s], 'style': st}]}, 260, 700, 20, 20)
    pdf.add_page()
    if site == 'var': pdf.context['v'] = s
    body = {'.': [s], 'style': st}
    if site == 'text': pdf.text([pad, body, pad])
    elif site == 'number':
        s = '12.5'; body['.'] = [12.5]; pdf.text(body)
    elif site == 'justify': pdf.text({'.': [s + ' ' + s + ' ' + s], 'style': st}, text_align='j'); s = ' '.join([s] * 3)
    elif site == 'list': pdf.text(pad, list_text=s, list_style=st)
    elif site == 'link': pdf.text([pad, dict(body, uri='http://x'), pad])
    elif site == 'table': pdf.table([[body, pad]])
    elif site == 'content': pdf.content({'content': [body, pad]})
    elif site == 'var': pdf.text([pad, {'.': '', 'var': 'v', 'style': st}, pad])
    out = rd.Out(rd.written(pdf))
    want = T.base(dict(st), kits) if True else None
    got = ''
    for p in out.pages:
        for e in p.text:
            if e['str'].strip(' ') == pad and e['fo'].base == 'Helvetica' and site not in ('header', 'number', 'justify'): continue
            t = e['str']
            need(e['fo'].base == want, '%r shown with %s instead of %s', t, e['fo'].base, want)
            got += t
    clean = lambda t: t.replace(' ', '')
    need(clean(got) == clean(s), '%r shown instead of %r', got, s)
    return repr(case)
