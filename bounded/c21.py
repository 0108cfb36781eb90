"""C21 on the real code: whole documents with footnotes in paragraphs, tables and columns."""
from common import *
import io
import re
import rd
from tok import tokens
from docs import KNOWN

RULE = 'random documents of 1-3 sections with footnotes in paragraphs, table cells and columns, read back page by page; distinct by the case'

def fixed():
    for n in (1, 3, 12):
        yield dict(size=[300, 300], margin=30, sections=[[dict(t='p', n=14, refs=list(range(2, 2 + min(n, 12))))] * 2], note=3, form=0)
    yield dict(size=[300, 260], margin=[20, 40, 50, 30], sections=[[dict(t='p', n=60, refs=[3, 20, 40, 50, 58])] * 4], note=12, form=2)
    yield dict(size=[260, 200], margin=20, sections=[[dict(t='p', n=9, refs=[8])] * 14, [dict(t='p', n=20, refs=[])] * 3, [dict(t='p', n=5, refs=[0])]], note=5, form=1)
    yield dict(size=[400, 300], margin=40, sections=[[dict(t='t', rows=12, n=6, refs=[2])], [dict(t='c', n=30, cols=2, refs=[4, 29])] * 3], note=4, form=3)
    yield dict(size=[300, 300], margin=30, sections=[[dict(t='p', n=30, refs=[])] * 6], note=3, form=0)
    yield dict(size=[300, 300], margin=30, sections=[[dict(t='p', n=9, refs=[3, 8])] * 60], note=1, form=0)     # more than 100 notes
    for n in (40, 80): yield dict(size=[300, 260], margin=20, sections=[[dict(t='p', n=4, refs=[1]), dict(t='c', n=n, cols=2, refs=[3, n // 2, n - 2], lead=1), dict(t='p', n=30, refs=[2])]], note=3, form=0)

def gen(rng, size):
    def el():
        t = rng.random()
        n = rng.randint(1, 10 + 8 * size)
        refs = sorted(rng.sample(range(n), min(n, rng.choice([0, 0, 1, 1, 2, 4]))))
        if t < .65: return dict(t='p', n=n, refs=refs)
        if t > .8 and rng.random() < .5:
            n = rng.randint(20, 40 + 10 * size)
            return dict(t='c', n=n, refs=sorted(rng.sample(range(n), rng.randint(1, 5))), cols=rng.randint(2, 3), lead=rng.randint(0, 2))
        n = min(n, 15)
        refs = [r for r in refs if r < n][:2]
        if t < .8: return dict(t='t', rows=rng.randint(1, 6), n=n, refs=refs[:1])
        return dict(t='c', n=n, refs=refs, cols=rng.randint(1, 3))
    return dict(size=[rng.randint(220, 420), rng.randint(200, 420)], margin=rng.choice([20, 35, [25, 40], [20, 30, 50, 40]]), note=rng.choice([1, 3, 8, 20]), form=rng.randint(0, 5),
        sections=[[el() for i in range(rng.randint(1, 2 + size))] for s in range(rng.randint(1, 3))])

def make(case):
    """the document, the words of its paragraphs and the words of its notes"""
    body, notes = [], []
    def para(n, refs):
        parts, ws, text = [], [], ''
        for i in range(n):
            w = 'b%d.%d' % (len(body), i)
            if i in refs:
                k = len(notes)
                w += 'r%d#' % k
                m = 1 + (k * 7 + case['note']) % case['note'] if case['note'] > 1 else 1
                nw = ['n%d.%d' % (k, j) for j in range(m)]
                notes.append(nw)
                nt = ' '.join(nw)
                f = case['form'] if case['form'] < 5 else k % 5
                note = (nt, [nt], {'.': nt}, {'.': [nt], 'style': {'b': 1}}, {'.': nt, 'style': 'notes'})[f]
                parts += [text + w, {'footnote': note}]
                text = ' '
            else: text += w + ' '
            ws.append(w)
        parts.append(text)
        body.append(ws)
        # the format of some notes is the one of some paragraphs too
        return {'.': parts, 'style': 'notes'} if case['form'] > 3 and len(body) % 3 == 2 else {'.': parts}
    secs = []
    for s in case['sections']:
        content = []
        for e in s:
            if e['t'] == 'p': content.append(para(e['n'], e['refs']))
            elif e['t'] == 't': content.append({'table': [[para(e['n'], e['refs']), para(3, [])] for i in range(e['rows'])], 'widths': [2, 1]})
            else: content.append({'content': [para(3, [1]) for i in range(e.get('lead', 0))] + [para(e['n'], e['refs']), para(4, [1])], 'cols': {'count': e['cols']}})
        secs.append({'content': content})
    return {'style': {'page_size': list(case['size']), 'margin': case['margin']}, 'formats': {'notes': {'i': 1}}, 'sections': secs}, body, notes

def given_notes(x):
    """definitions of the notes in a document"""
    if isinstance(x, (list, tuple)): return [n for y in x for n in given_notes(y)]
    if not isinstance(x, dict): return []
    if 'footnote' in x: return [x['footnote']]
    return [n for y in x.values() for n in given_notes(y)]

def run(case):
    import copy
    import pdfme
    from pdfme.utils import parse_margin
    doc, body, notes = make(case)
    b = io.BytesIO()
    defs, formats = copy.deepcopy(given_notes(doc)), copy.deepcopy(doc['formats'])
    try: pdfme.build_pdf(doc, b)
    except Exception as e:
        if any(k in str(e) for k in KNOWN): raise Skip()
        raise
    need(given_notes(doc) == defs, 'the definitions of the notes are changed to %r', [x for x, y in zip(given_notes(doc), defs) if x != y][:2])
    need(doc['formats'] == formats, 'the formats are changed to %r', doc['formats'])
    out = rd.Out(b.getvalue())
    m = parse_margin(case['margin'])
    w, h = case['size']
    shown = {}
    seen = []
    for p, g in enumerate(out.pages):
        toks = tokens(g)
        words, refs, given, i = [], [], [], 0
        low, top, low_note = h, 0, h
        while i < len(toks):
            t = toks[i]; i += 1
            s = t['word']
            need(m['left'] - .01 <= t['x0'], 'page %d: %r left of the margin', p, s)
            if s.startswith('b'):
                low = min(low, t['y'])
                x = re.fullmatch(r'(b\d+\.\d+(?:r(\d+)#)?)(\d*)', s)
                need(x, 'page %d: word %r', p, s)
                words.append(x[1])
                if x[2]:
                    n = x[3]
                    if not n and i < len(toks): n = toks[i]['word']; i += 1
                    need(n.isdigit(), 'page %d: no number at the reference %r', p, s)
                    refs.append((int(x[2]), int(n)))
                else: need(not x[3], 'page %d: word %r', p, s)
            else:
                # the number of a note and its words, as long as they are there
                need(s.isdigit() and i < len(toks), 'page %d: %r is neither text nor note', p, s)
                x = re.fullmatch(r'n(\d+)\.0', toks[i]['word'])
                need(x, 'page %d: %r is not the beginning of a note', p, toks[i]['word'])
                k = int(x[1])
                given.append((k, int(s)))
                got = []
                while i < len(toks) and toks[i]['word'].startswith('n%d.' % k):
                    t = toks[i]; i += 1
                    got.append(t['word'])
                    top, low_note = max(top, t['y'] + .7 * t['size']), min(low_note, t['y'])
                    need(m['left'] - .01 <= t['x0'] and t['x1'] <= w - m['right'] + .01, 'page %d: note out of the margins', p)
                need(got == notes[k], 'page %d: note %d is %r instead of %r', p, k, got, notes[k])
        seen += words
        need([n for k, n in refs] == list(range(1, len(refs) + 1)), 'page %d: references are numbered %r', p, refs)
        need(given == refs, 'page %d: notes %r for the references %r', p, given, refs)
        for k, n in refs: shown[k] = shown.get(k, 0) + 1
        if given:
            need(top <= low + .01, 'page %d: notes up to %r, text down to %r', p, top, low)
            need(low_note >= m['bottom'] - .01, 'page %d: notes down to %r', p, low_note)
            l = [rd.abs_line(e) for e in g.events if e['kind'] == 'line']
            need(any(abs(l[1] - l[3]) < .01 and top - .01 <= l[1] <= low + .01 and close(min(l[0], l[2]), m['left'], .01) for l in l), 'page %d: no line over the notes', p)
        need(low >= m['bottom'] - .01, 'page %d: text under the margin', p)
    need(all(shown.get(k) == 1 for k in range(len(notes))), 'notes shown %r times', shown)
    for ws in body:
        i = ws[0].split('.')[0] + '.'
        got = [x for x in seen if x.startswith(i)]
        need(got == ws, 'paragraph %r is shown as %r', ws, got)
    need(sorted(seen) == sorted(x for ws in body for x in ws), 'words')
    return repr(case)
