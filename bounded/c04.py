"""C04 on the real code: the words shown through lines, rectangles and pages."""
from common import *
import textcase as T

RULE = ('random paragraphs of nested parts (four fonts, sizes, rises, decorations, list texts, line breaks, double spaces, words '
    'divided between parts, words wider than their rectangle) laid out over rectangles of several sizes, continued with the '
    'same object or from its state; distinct by the case')

def fixed():
    rng = random.Random(4)
    for i in range(60): yield T.gen(rng, 1 + i % 6)

def gen(rng, size): return T.gen(rng, size)

def run(case):
    paras, out, kits = T.layout(case)
    for q in paras:
        T.words_kept(q)
    return T.summary(case)
