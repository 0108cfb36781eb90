"""C12 on the real code: the grid, the borders and the fills of tables."""
from common import *
import tabcase as T

RULE = ('random tables of 1-9 rows and 1-5 columns with spans, widths, margins, borders and fills set by styles and position '
    'strings (indexes, lists, slices with negative steps), in one or several pages; distinct by the case')

def gen(rng, size): return T.gen(rng, size)

def fixed():
    rng = random.Random(12)
    for i in range(150): yield T.gen(rng, 1 + i % 5, multi=i % 3 == 0)
    for pos in ('::-1;:', '-1:0:-1;1:', ':;::-2', '::2;0', ' ; ', '0,-1;:'):
        if pos == ' ; ': pos = ';'
        for tab in (None, '0.5'):
            cells = {'%d,%d' % (i, j): dict(n=2, st={'cell_fill': 'blue'} if (i, j) == (1, 1) else {}) for i in range(3) for j in range(3)}
            st = {'s': 8}
            if tab: st['cell_fill'] = tab
            yield dict(nr=3, nc=3, cells=cells, st=st, borders=[{'pos': 'h' + pos, 'width': 2, 'color': 'red'}, {'pos': 'v' + pos, 'width': 1, 'style': 'dashed'}],
                fills=[{'pos': pos, 'color': 'yellow'}], widths=[1, 2, 1], rects=[[10, 10, 240, 400]])

def run(case):
    t = T.layout(case)
    T.vis(t)
    T.segments(t)
    big = max([b['width'] for b in list(t.hb.values()) + list(t.vb.values()) + [t.default]]) / 2
    last = {w: n for n, g in enumerate(t.pages) for k in g.toks for w in [t.word[k['word']]]}
    shown = {}
    for n, g in enumerate(t.pages):
        if not g.rows: continue
        ys, rows, nc = g.ys, g.rows, t.nc
        need(close(ys[0], g.top, .02), 'page %d: the table starts at %r, the rectangle at %r', n, ys[0], g.top)
        need(ys[-1] >= g.bottom - 4.6, 'page %d: the table ends at %r, the rectangle at %r', n, ys[-1], g.bottom)
        end = n == len(t.pages) - 1
        # fills are under the text and the lines
        drawn = {kind: [m for m, e in enumerate(t.out.pages[n].events) if e['kind'] == kind] for kind in ('rect', 'line', 'text')}
        for kind in ('line', 'text'):
            need(not drawn['rect'] or not drawn[kind] or drawn['rect'][-1] < drawn[kind][0], 'page %d: a fill is drawn over a %s', n, kind)
        # borders
        def hexp(k, j):
            i = rows[k] if k < len(rows) else rows[-1] + 1
            if k == len(rows) and not end: return [t.hb.get((a, j), t.default) for a in (rows[-1], rows[-1] + 1)]
            if k == 0: return [t.hb.get((i, j), t.default)]
            return [T.hborder(t, i, j)]
        hc, vc = {}, {}
        def near(v, l): return min(range(len(l)), key=lambda k: abs(l[k] - v))
        def reach(k, j, hor):
            """half of the widest line across a corner of the grid"""
            w = [0]
            if hor:
                for a in (k - 1, k):
                    if 0 <= a < len(rows): w.append((T.vborder(t, rows[a], j) or {'width': 0})['width'])
            else:
                for b in (j - 1, j):
                    if 0 <= b < nc: w.extend((x or {'width': 0})['width'] for x in hexp(k, b))
            return max(w) / 2 + .02
        for y, x1, x2, key in g.h:
            k = near(y, ys)
            a, b = near(x1, g.xs), near(x2, g.xs)
            need(a < b, 'page %d: horizontal line %r-%r at %r', n, x1, x2, y)
            need(x1 <= g.xs[a] + .02 and x1 >= g.xs[a] - reach(k, a, True) and x2 >= g.xs[b] - .02 and x2 <= g.xs[b] + reach(k, b, True),
                'page %d: the line at y %r goes from %r to %r, and the columns are %r', n, y, x1, x2, g.xs)
            for j in range(a, b): hc.setdefault((k, j), []).append(key)
        for x, y1, y2, key in g.v:
            j = near(x, g.xs)
            need(close(x, g.xs[j], .02), 'page %d: vertical line at %r, and the columns are %r', n, x, g.xs)
            a, b = near(y2, ys), near(y1, ys)
            need(a < b, 'page %d: vertical line %r-%r at %r', n, y1, y2, x)
            need(abs(y2 - ys[a]) <= reach(a, j, False) and abs(y1 - ys[b]) <= reach(b, j, False), 'page %d: the line at x %r goes from %r to %r, and the rows are %r', n, x, y1, y2, ys)
            for k in range(a, b): vc.setdefault((k, j), []).append(key)
        def cmp(what, got, exp):
            exp = [None if e is None or e['width'] == 0 else e for e in exp]
            need(len(got) <= 1, '%s is drawn %d times', what, len(got))
            if not got: need(None in exp, '%s is not drawn', what)
            else: need(any(e and T.key_ok(got[0], e) for e in exp), '%s is %r and should be %r', what, got, exp)
        for k in range(len(rows) + 1):
            for j in range(nc): cmp('page %d: border h%d;%d' % (n, k, j), hc.get((k, j), []), hexp(k, j))
        for k, i in enumerate(rows):
            for j in range(nc + 1): cmp('page %d: border v%d;%d' % (n, i, j), vc.get((k, j), []), [T.vborder(t, i, j)])
        # cells
        fills = list(g.fills)
        for q in t.cells.values():
            ks = [k for k, i in enumerate(rows) if q.i <= i < q.i + q.rs]
            if not ks:
                need((q.i, q.j) not in g.cell, 'page %d: cell %d,%d out of its rows', n, q.i, q.j)
                continue
            i0 = rows[ks[0]]
            x0, x1, top, bot = g.xs[q.j], g.xs[q.j + q.cs], ys[ks[0]], ys[ks[-1] + 1]
            hw = lambda i, j: t.hb.get((i, j), t.default)['width'] / 2
            vw = lambda i, j: t.vb.get((i, j), t.default)['width'] / 2
            q.pad = hw(i0, q.j) + T.margin(t, q, 'top'), hw(q.i + q.rs, q.j) + T.margin(t, q, 'bottom')
            l, r = x0 + vw(i0, q.j) + T.margin(t, q, 'left'), x1 - vw(i0, q.j + q.cs) - T.margin(t, q, 'right')
            toks = g.cell.get((q.i, q.j), [])
            for k in toks:
                need(k['x0'] >= l - .02 and (k['x1'] <= r + .02 or k['x1'] - k['x0'] > r - l), 'page %d: %r at x %r..%r, its cell is %r..%r', n, k['word'], k['x0'], k['x1'], l, r)
                need(k['y'] + k['size'] <= top - q.pad[0] + .02 and k['y'] >= bot + q.pad[1] - .02, 'page %d: %r at y %r, its cell is %r..%r', n, k['word'], k['y'], top, bot)
            if toks:
                need(close(toks[0]['x0'], l, .02), 'page %d: cell %d,%d starts at x %r instead of %r', n, q.i, q.j, toks[0]['x0'], l)
                d = top - q.pad[0] - toks[0]['y'] - toks[0]['size']
                need(-.02 <= d <= 1.3, 'page %d: cell %d,%d: its text starts %r under its top', n, q.i, q.j, d)
            q.on = (n, top, bot, toks)
            shown.setdefault((q.i, q.j), []).append((n, ks))
            # fills
            c = q.c['st'].get('cell_fill', t.fl.get((q.i, q.j), t.case['st'].get('cell_fill')))
            mine = [f for f in fills if close(f[0][0], x0, .02) and close(f[0][2], x1 - x0, .02) and close(f[0][1], bot, .02) and close(f[0][3], top - bot, .02)]
            need(len(mine) == (c is not None), 'page %d: the cell %d,%d is filled %d times, its fill is %r: %r', n, q.i, q.j, len(mine), c, g.fills)
            if c is not None:
                want = T.COL[c]
                need(mine[0][1][0] == want[0] and all(close(u, v, .001) for u, v in zip(mine[0][1][1:], want[1:])), 'page %d: the cell %d,%d is filled with %r instead of %r', n, q.i, q.j, mine[0][1], c)
                fills.remove(mine[0])
        need(not fills, 'page %d: fills %r are of no cell', n, fills)
        # heights of the rows that are whole in this page
        for k, i in enumerate(rows):
            if k == 0 and n and i in t.pages[n - 1].rows or n + 1 < len(t.pages) and i in t.pages[n + 1].rows: continue
            lo, hi = [], []
            for q in t.cells.values():
                if q.i + q.rs - 1 != i: continue
                toks = g.cell.get((q.i, q.j), [])
                top = ys[[a for a, b in enumerate(rows) if q.i <= b][0]]
                if toks: v = toks[-1]['y'] - q.pad[1]; lo.append(v); hi.append(v)
                elif not q.c['n'] or q.i < rows[0]: lo.append(top - sum(q.pad) - 1.4); hi.append(top - min(sum(q.pad), 0) if not k else top - 4)
            need(min(lo) - .03 <= ys[k + 1] <= min(hi) + .03, 'page %d: row %d ends at %r, and its cells at %r..%r', n, i, ys[k + 1], min(lo), min(hi))
    return repr(case)
