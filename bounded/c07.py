"""C07 on the real code: positions of lines and decorations."""
from common import *
import textcase as T
from c04 import RULE

def fixed():
    rng = random.Random(7)
    for i in range(60): yield T.gen(rng, 1 + i % 6)
    for al in 'lrcj':
        for li in (None, dict(text='- ', indent=None), dict(text='12', indent=25.5, st={'s': 16, 'f': 'Times', 'b': 0, 'i': 0})):
            for ind in (0, 20):
                for st in ({}, {'r': .5}, {'r': -.2, 'u': 1}, {'s': 16, 'bg': 'yellow', 'u': 1}):
                    for f in ('Helvetica', 'Kit'):
                        yield dict(font=1, paras=[dict(st={'f': f}, items=['one two three ', dict(st=st, items=['four five '], uri='http://a'), 'six\nseven eight nine ', dict(st=st, items=['ten'], uri='http://b')], align=al, lh=1.6,
                            indent=ind, list=li, mode=m, rects=[[10, 20, 110, 40], [33.3, 20, 110, 400]]) for m in ('obj', 'state')])

def gen(rng, size): return T.gen(rng, size)

def run(case):
    paras, out, kits = T.layout(case)
    for q in paras:
        T.place(q, kits)
        T.decor(q, kits)
    return T.summary(case)
