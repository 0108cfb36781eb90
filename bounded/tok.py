"""Tokens: words that name the part they come from, found back in the pages."""
from common import *

def tokens(page, end=None):
    """words shown in a page: list of dicts word, x0, x1, y, rise, size, fo, bt, n in stream order.
    A word is a run of characters without spaces in one line of one paragraph."""
    out = []
    for bl in page.blocks():
        cur = None
        lasty = None
        for e in bl:
            for c, x, a in e['chars']:
                if c in (' ', '\0', None) or c.isspace(): cur = None; continue
                if cur is None or abs(e['y'] - cur['y']) > .01 or abs(x - cur['x1']) > .02:
                    cur = dict(word='', x0=x, x1=x, y=e['y'], rise=e['Ts'], size=e['size'], fo=e['fo'], bt=e['bt'],
                        n=e['n'], fill=e['fill'], Tw=e['Tw'], runs=[])
                    out.append(cur)
                cur['word'] += c
                cur['x1'] = x + a
                if not cur['runs'] or cur['runs'][-1][0] != e['n']: cur['runs'].append([e['n'], '', x, x])
                cur['runs'][-1][1] += c
                cur['runs'][-1][3] = x + a
                if c == end: cur = None
    return out
