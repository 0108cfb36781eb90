"""C06 on the real code: words are shown with the style given to them."""
from common import *
import textcase as T
import treecase
from c04 import RULE

RULE += '; documents of nested boxes, groups, tables, cells, formats, footnotes and running sections with styles'

def fixed():
    rng = random.Random(6)
    for i in range(60): yield T.gen(rng, 1 + i % 6)
    for i in range(120): yield treecase.gen(rng, 1 + i % 5)
    # every change of one attribute, there and back, between parts, lines, paragraphs and list texts
    vals = dict(b=[0, 1], i=[0, 1], s=[8, 12.5], f=['Helvetica', 'Times', 'Kit', 'Courier'], c=['0', 'red', '0.3', '#0af', '#0a0'], bg=['', 'yellow', '0.9', 'white'], r=[0, .3, -.2], u=[0, 1])
    for k, vs in vals.items():
        for a in vs:
            for b in vs:
                items = ['one two ', dict(st={k: b}, items=['three four']), 'five ', dict(st={k: b}, items=['six\nseven ', dict(st={k: a}, items=['eight']), ' nine']), ' ten']
                for li in (None, dict(text='1. ', indent=None, st=dict({k: b}, **({} if k in 'bi' else dict(b=0, i=0)))) if k not in 'bi' else dict(text='1. ', indent=None, st=dict(dict(b=0, i=0), **{k: b}))):
                    yield dict(font=1, paras=[dict(st={k: x}, items=items, align=al, lh=1.1, indent=0, list=li, mode='obj', rects=[[10, 20, 80, 30], [10, 20, 60, 400]]) for x, al in ((a, 'l'), (b, 'j'), (a, 'r'))])

def gen(rng, size): return treecase.gen(rng, size) if rng.random() < .35 else T.gen(rng, size)

def run(case):
    if case.get('t') == 'tree': return treecase.run(case)
    paras, out, kits = T.layout(case)
    for q in paras:
        T.styles(q, kits)
        T.decor(q, kits)
    return T.summary(case)
