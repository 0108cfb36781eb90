"""C14 on the real code: the order, place and separation of the elements of content boxes."""
from common import *
import boxcase

RULE = ('random content boxes of 1-5 columns, nested up to 3 deep, with texts, tables, images (placed normal or flowing, with '
    'and without minimum heights) and groups, with random margins, laid out over rectangles of several widths and '
    'heights; distinct by the case')

KINDS = ['text', 'text', 'text', 'table', 'image', 'group']

def fixed():
    rng = random.Random(5)
    for n in (1, 2, 3):
        for h in (60, 150, 500):
            for sz in (1, 3):
                yield dict(box=dict(k='box', st={}, cols=[n, 10], els=[boxcase.leaf(rng, sz, ['text']) for i in range(6)]), rects=[[20, 30, 330, h]])
            yield dict(box=dict(k='box', st={}, cols=[n, None], els=[boxcase.leaf(rng, 1, ['text', 'group']) for i in range(6)]), rects=[[20, 30, 330, h]])
    t = dict(k='text', n=4, st={'margin_bottom': 3, 's': 8})
    # groups whose images take all the room left
    for h in range(60, 130, 3):
        yield dict(box=dict(k='box', st={}, cols=None, els=[t, dict(k='group', st={'s': 8}, g=[dict(k='text', n=2, shape=[1, 1], mh=None), dict(k='image', n=1, shape=[1, 2], mh=12)])]), rects=[[20, 30, 180, h + .1]])

def gen(rng, size): return boxcase.gen(rng, size, KINDS)

def common(a, b):
    """(ancestor depth, child style of a, child style of b)"""
    d = 0
    while a.path[d] == b.path[d]: d += 1
    return d

def run(case):
    leaves, out = boxcase.layout(case)
    for lf in leaves:
        # words and rows in order
        key = [(n, k, -y) for n, k, y, s, x, ts in [(l[0], l[1][0], l[2], l[3], l[4], l[5]) for l in lf.lines]]
        need(key == sorted(key), 'element %d: its lines are not in order', lf.i)
        for l in lf.lines:
            xs = [t['x0'] for t in l[5]]
            need(xs == sorted(xs), 'element %d: words out of order', lf.i)
            if lf.e['k'] in ('text', 'group'):
                need(close(l[4], l[1][1] + lf.e['st'].get('margin_left', 0), .02), 'element %d: line at x %r instead of %r', lf.i, l[4], l[1][1] + lf.e['st'].get('margin_left', 0))
        # a group is in one place
        if lf.e['k'] == 'group':
            need(len({(p[0], p[1]) for p in lf.pieces}) == 1, 'the group %d is divided', lf.i)
            seq = []
            for k, v in lf.order:
                if k == 't': seq += [(lf.tok[w][1]['y'] + lf.tok[w][1]['size'], lf.tok[w][1]['y']) for w in v]
                else: seq.append((lf.images[v]['frag'][0][1][1] + lf.images[v]['frag'][0][1][3], lf.images[v]['frag'][0][1][1]))
            for (t0, b0), (t1, b1) in zip(seq, seq[1:]):
                need(b1 <= b0 + .02, 'the elements of the group %d are not in order', lf.i)
    flow = lambda lf: lf.e['k'] == 'group' or lf.e['k'] == 'image' and lf.e['st'].get('image_place', 'flow') == 'flow'
    for a in leaves:
        for b in leaves[a.i + 1:]:
            if not a.pieces or not b.pieces: continue
            d = common(a, b)
            # positions in the columns of the common box
            ka = max((p[0],) + p[1][:d + 1] for p in a.pieces)
            kb = min((p[0],) + p[1][:d + 1] for p in b.pieces)
            if not flow(a) and not any(flow(x) for x in leaves[a.i:b.i]):
                need(ka <= kb, 'element %d is before element %d: %r, %r', b.i, a.i, kb, ka)
            for pa in a.pieces:
                for pb in b.pieces:
                    if (pa[0],) + pa[1][:d + 1] == (pb[0],) + pb[1][:d + 1]:
                        # what flows can be moved below what follows
                        need(pb[2] <= pa[3] + .02 or flow(a) and pa[2] <= pb[3] + .02, 'element %d (from y %r to %r) is not below element %d (from y %r to %r)', b.i, pb[2], pb[3], a.i, pa[2], pa[3])
    # separation of consecutive elements of the same column
    for a, b in zip(leaves, leaves[1:]):
        if a.e['k'] not in ('text', 'image') or b.e['k'] not in ('text', 'image') or not a.pieces or not b.pieces or flow(a) or flow(b): continue
        d = common(a, b)
        if any((x['cols'] or [1])[0] > 1 for x, i in a.path[d + 1:] + b.path[d + 1:]): continue
        # what flows inside of a nested box can end below its last element
        if any(flow(x) for x in leaves for q in (a, b) if len(q.path) > d + 1 and len(x.path) > d + 1 and x.path[d + 1][0] is q.path[d + 1][0]): continue
        pa, pb = a.pieces[-1], b.pieces[0]
        if (pa[0], pa[1][:d + 1]) != (pb[0], pb[1][:d + 1]): continue
        sa = a.path[d + 1][0]['st'] if len(a.path) > d + 1 else a.e['st']
        sb = b.path[d + 1][0]['st'] if len(b.path) > d + 1 else b.e['st']
        gap = pa[3] - pb[2] - sa.get('margin_bottom', 0) - sb.get('margin_top', 0)
        need(-.02 <= gap <= (1.12 if pb[6] == 't' else .02), 'element %d is %r below element %d, margins are %r and %r', b.i, pa[3] - pb[2], a.i, sa.get('margin_bottom'), sb.get('margin_top'))
    # the first element of a rectangle starts at its top
    for n in range(len(out.pages)):
        r = case['rects'][n % len(case['rects'])]
        for c in range((case['box']['cols'] or [1])[0]):
            ps = [(p, lf) for lf in leaves for p in lf.pieces if p[0] == n and p[1][0] == c and not any(p[1][1:])]
            if not ps: continue
            p, lf = max(ps, key=lambda q: q[0][2])
            if lf.e['k'] in ('text', 'image'):
                need(600 - r[1] - p[2] <= 1.12, 'the first element of page %d, column %d, is %r below the top of the rectangle', n, c, 600 - r[1] - p[2])
    return repr(case)
