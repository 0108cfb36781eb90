"""C05 on the real code: lines stay inside their rectangle."""
from common import *
import textcase as T
from c04 import RULE

def fixed():
    rng = random.Random(5)
    for i in range(60): yield T.gen(rng, 1 + i % 6)
    # rectangles as high as their lines, and a hair less
    for lh in (1, 1.1, 2):
        for n in (1, 2, 3):
            for d in (-.5, -.001, 0, .001, .5):
                yield dict(font=0, paras=[dict(st={}, items=['aaaa bbbb cccc dddd eeee ffff'], align=a, lh=lh, indent=0, list=None, mode='obj',
                    rects=[[10, 20, 60, 11 + lh + 11 * lh * (n - 1) + d], [10, 20, 60, 400]]) for a in 'lj'])
    # raised and lowered parts smaller and larger than the others
    for z in (5, 11, 16):
        for v in (.3, -.3):
            for al in 'lj': yield dict(font=0, paras=[dict(st={}, items=[x for i in range(12) for x in ('base%d ' % i, dict(st={'s': z, 'r': v}, items=['sup']), ' ')], align=al, lh=lh, indent=0, list=None, mode='obj',
                rects=[[10, 20, 100, 60 + z]]) for lh in (1, 1.5)])
    # lines as wide as their words, and a hair less
    for al in 'lj':
        for li in (None, dict(text='- ', indent=None), dict(text='1', indent=15)):
            for i in range(12): yield dict(font=0, paras=[dict(st={'f': 'Courier', 's': 10}, items=['aaaa bbb cc dddd eeeee f gg'], align=al, lh=1, indent=k * 6, list=li, mode='state',
                rects=[[10, 20, 54 + i * 6 + .01 * (i % 3 - 1), 22], [10, 20, 60, 400]]) for k in (0, 3)])

def gen(rng, size): return T.gen(rng, size)

def run(case):
    paras, out, kits = T.layout(case)
    for q in paras: T.fit(q, kits)
    return T.summary(case)
