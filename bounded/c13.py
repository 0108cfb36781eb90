"""C13 on the real code: the cells of tables are rendered exactly once."""
from common import *
import tabcase as T

RULE = ('random tables of 1-14 rows and 1-5 columns with row and column spans, cells of 0-200 words, content boxes, tables and '
    'lists in cells, laid out over rectangles of several heights, once or twice from the same state; distinct by the case')

def fixed():
    yield from bare()
    rng = random.Random(13)
    for i in range(80):
        c = T.gen(rng, 1 + i % 6, nested=i % 2 == 0)
        if i % 3 == 0: c['twice'] = [1, 1.5, 3][i % 9 // 3]
        yield c
    for rs in (2, 3):
        for cs in (1, 2):
            for n in (1, 10, 60):
                for h in (60, 90, 260):
                    cells = {}
                    for i in range(4):
                        for j in range(3):
                            if 1 <= i <= rs and 1 <= j <= cs and (i, j) != (1, 1): continue
                            cells['%d,%d' % (i, j)] = dict(n=n if (i, j) == (1, 1) else 3, st={}, **({'rs': rs, 'cs': cs} if (i, j) == (1, 1) else {}))
                    yield dict(nr=4, nc=3, cells=cells, st={'s': 8}, borders=[], fills=[], widths=None, rects=[[10, 10, 240, h]])

def bare():
    for st in ({}, {'cell_fill': 'red'}):
        for at in ('0,1', '1,0', '1,1'):
            cells = {'%d,%d' % (i, j): dict(n=2, st={}) for i in range(2) for j in range(2)}
            cells[at] = dict(n=0, bare=True, st=st)
            yield dict(nr=2, nc=2, cells=cells, st={'s': 8}, borders=[], fills=[], widths=None, rects=[[10, 10, 240, 300]])

def gen(rng, size):
    c = T.gen(rng, size, deco=rng.random() < .3, nested=rng.random() < .6, multi=rng.random() < .75)
    if rng.random() < .3: c['twice'] = rng.choice([1, 1.5, 3])
    return c

def run(case):
    t = T.layout(case)
    pos = {}
    shown = {}
    for n, g in enumerate(t.pages):
        for k in g.toks:
            w = k['word']
            if w == '-': continue
            need(w in t.word, 'text %r of a hidden cell, or divided', w)
            need(w not in shown, 'the word %r is shown twice', w)
            q = t.word[w]
            shown[w] = (n, k)
            lo, hi = g.xs[q.j], g.xs[q.j + q.cs]
            need(lo - .01 <= k['x0'] and (k['x1'] <= hi + .01 or k['x1'] - k['x0'] > hi - lo - 40), 'the word %r is at x %r..%r, its cell at %r..%r', w, k['x0'], k['x1'], lo, hi)
            need(g.bottom - .01 <= k['y'] and k['y'] + k['size'] <= g.top + .01, 'the word %r is at y %r, out of its rectangle', w, k['y'])
    for q in t.cells.values():
        for w in q.words: need(w in shown, 'the word %r is not shown', w)
        o = [(shown[w][0], -shown[w][1]['y'], shown[w][1]['x0']) for w in q.words]
        need(o == sorted(o), 'the words of the cell %d,%d are not in order', q.i, q.j)
    # rows in order
    rows = {}
    for q in t.cells.values():
        for w in q.words: rows.setdefault(q.i, []).append((q, shown[w][0], shown[w][1]['y'], shown[w][1]['size']))
    for q in t.cells.values():
        for w in q.words[:1]:
            n, k = shown[w]
            for p in t.cells.values():
                if p.i + p.rs - 1 < q.i:
                    for v in p.words[-1:]:
                        m, l = shown[v]
                        need((m, -l['y']) <= (n, -k['y'] - k['size'] + .01), 'the cell %d,%d is not below %d,%d', q.i, q.j, p.i, p.j)
    # cells of a row start at the same place
    for q in t.cells.values():
        for p in t.cells.values():
            if p.i == q.i and p.j != q.j and p.words and q.words and 'kind' not in p.c and 'kind' not in q.c:
                (n, k), (m, l) = shown[p.words[0]], shown[q.words[0]]
                if n == m: need(abs(k['y'] + k['size'] - l['y'] - l['size']) < 25, 'the cells %d,%d and %d,%d do not start together', p.i, p.j, q.i, q.j)
    return repr(case)
