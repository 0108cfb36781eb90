"""C11: the stream of a list of graphics paints exactly those graphics."""
from pyvc.engine import *
from pyvc.stream import *
from pyvc import instr

U = 'pdfme.utils.'

def sym_color(vc, name, stroke):
    """a PDFColor that is not transparent"""
    PDFColor = instr.lookup('pdfme.color.PDFColor')[2]
    c = object.__new__(PDFColor)
    n = (1, 3)[vc.choose(2, name + '_components')]
    c.color = [vc.real('%s%d' % (name, i)) for i in range(n)]
    for x in c.color:
        vc.assume(x >= 0); vc.assume(x <= 1)
    c.stroke = stroke
    return c

def same_color(state, comps):
    if state is None or len(state) != len(comps): return False
    return conj(*[near(a, b) for a, b in zip(state, comps)])

def elem_of(vc, k):
    t = ('fill', 'line')[vc.choose(2, 'type')]
    if t == 'fill':
        return {'type': 'fill', 'x': vc.real('x'), 'y': vc.real('y'), 'width': vc.real('w'),
            'height': vc.real('h'), 'color': sym_color(vc, 'fill', False)}
    w = vc.real('width'); vc.assume(w >= 0)
    return {'type': 'line', 'x1': vc.real('x1'), 'y1': vc.real('y1'), 'x2': vc.real('x2'),
        'y2': vc.real('y2'), 'width': w, 'color': sym_color(vc, 'stroke', True),
        'style': ('solid', 'dashed', 'dotted')[vc.choose(3, 'style')]}

class GraphicsLoop:
    """invariant of the loop over the graphics, after k of them:
    `stream` paints the first k, starting from an unknown state, and leaves the
    colours, width and dash recorded in the `last_*` variables"""
    def state_matches(self, vc, st, env):
        """what the code remembers is what the stream has set"""
        conds = []
        lf = env['last_fill']
        if lf is not None:
            s = GState().run(str(lf)).fill
            conds.append(('last_fill', False if st.fill is None or s is None or len(s) != len(st.fill)
                else conj(*[eq(a, b) for a, b in zip(s, st.fill)])))
        lc = env['last_color']
        if lc is not None:
            s = GState().run(str(lc)).stroke
            conds.append(('last_color', False if st.stroke is None or s is None or len(s) != len(st.stroke)
                else conj(*[eq(a, b) for a, b in zip(s, st.stroke)])))
        lw = env['last_line_width']
        if lw is not None:
            conds.append(('last_line_width', False if st.width is None else eq(round(lw, 3), st.width)))
        ls = env['last_line_style']
        if ls is not None:
            s = GState().run(ls)
            ok = st.cap is not None and st.dash is not None and s.cap is not None and s.dash is not None \
                and len(s.dash[0]) == len(st.dash[0])
            conds.append(('last_line_style', ok and conj(eq(s.cap, st.cap), eq(s.dash[1], st.dash[1]),
                *[eq(a, b) for a, b in zip(s.dash[0], st.dash[0])])))
        return conds

    def check(self, st, k, env, mode):
        vc = st.ctx
        if mode == 'establish':
            vc.check('loop.establish.stream', str_eq(env['stream'], ''), kind='inv')
            for n, c in self.state_matches(vc, GState(), env):
                vc.check('loop.establish.' + n, c, kind='inv')
            return
        # the stream is the old one plus what this graphic adds
        ps = pieces(env['stream'])
        vc.check('stream_is_extended', bool(ps) and ps[0] is self.S)
        vc.check('stream_parts_are_separated', len(ps) > 1 and isinstance(ps[1], str) and ps[1][:1] in ' \n')
        old = self.state
        new = old.clone()
        try:
            def opaque(g, s):
                if s is not self.S: raise Unsupported('opaque')
            new.run(env['stream'], opaque)
        except BadStream as e:
            vc.check('valid_stream', False, detail=str(e)); return
        vc.check('valid_stream', new.stack == [] and new.path == [])
        self.painted(vc, self.g, new.events)
        for n, c in self.state_matches(vc, new, env):
            vc.check('loop.preserve.' + n, c, kind='inv')

    def painted(self, vc, g, events):
        vc.check('paints_one_graphic', len(events) == 1)
        e = events[0]
        if g['type'] == 'fill':
            ok = e['kind'] == 'fill' and len(e['path']) == 1 and e['path'][0][0] == 're'
            vc.check('fill_is_a_rectangle', ok)
            _, x, y, w, h = e['path'][0]
            vc.check('fill_position', conj(near(x, g['x']), near(y, g['y']),
                near(w, g['width']), near(h, g['height'])))
            vc.check('fill_color', same_color(e['color'], g['color'].color))
            vc.cover('fill painted')
        else:
            p = e['path']
            vc.check('line_is_a_segment', e['kind'] == 'stroke' and [x[0] for x in p] == ['m', 'l'])
            vc.check('line_position', conj(near(p[0][1], g['x1']), near(p[0][2], g['y1']),
                near(p[1][1], g['x2']), near(p[1][2], g['y2'])))
            vc.check('line_color', same_color(e['color'], g['color'].color))
            vc.check('line_width', e['width'] is not None and near(e['width'], g['width']))
            w = g['width']
            vc.check('line_style_is_set', e['dash'] is not None and e['cap'] is not None)
            dash, phase = e['dash']
            if g['style'] == 'solid':
                vc.check('solid', conj(len(dash) == 0, eq(e['cap'], 0)))
            elif g['style'] == 'dashed':
                vc.check('dashed', len(dash) == 2 and conj(near(dash[0], w * 3), near(dash[1], w * 1.5),
                    eq(e['cap'], 0), near(phase, 0)))
            else:
                vc.check('dotted', len(dash) == 2 and conj(near(dash[0], 0), near(dash[1], w * 2),
                    eq(e['cap'], 1), near(phase, w * 0.5)))
            vc.cover('line painted')

    def havoc(self, st, k):
        vc = st.ctx
        self.S = SStr('stream_before', maybe_empty=True, starts_ws=True)
        vc.assume(SBool((self.S.len.e == 0) == (const(k) == 0)))
        state = GState()
        env = {}
        env['last_fill'] = None if vc.choose(2, 'lf') else sym_color(vc, 'last_fill', False)
        env['last_color'] = None if vc.choose(2, 'lc') else sym_color(vc, 'last_color', True)
        env['last_line_width'] = None
        env['last_line_style'] = None
        if env['last_fill'] is not None: state.run(str(env['last_fill']))
        if env['last_color'] is not None: state.run(str(env['last_color']))
        if not vc.choose(2, 'lw'):
            env['last_line_width'] = vc.real('last_width')
            state.width = round(env['last_line_width'], 3)
        s = vc.choose(4, 'ls')
        if s:
            env['last_line_style'] = (' 0 J [] 0 d', ' 0 J [{} {}] 0 d'.format(vc.real('d0'), vc.real('d1')),
                ' 1 J [0 {}] {} d'.format(vc.real('d0'), vc.real('d1')))[s - 1]
            state.run(env['last_line_style'])
        self.state = state
        self.vc = vc
        env['stream'] = str(self.S)
        return env

@contract('create_graphics', funcs=[U + 'create_graphics', 'pdfme.color.PDFColor.__str__',
    'pdfme.color.PDFColor.__eq__'], props=['C11'], time=300)
def create_graphics(vc):
    n = vc.int('n'); vc.assume(n >= 0)
    loop = GraphicsLoop()
    def elem(k):
        loop.g = elem_of(vc, k)
        return loop.g
    gs = SList('graphics', n, elem, loop)
    f = instr.lookup(U + 'create_graphics')[2]
    res = f(gs)
    # after the loop
    ps = pieces(res)
    if ps == [] or (len(ps) == 1 and ps[0] is loop.S):
        vc.check('empty_only_without_graphics', (n == 0))
        return
    def opaque(g, s):
        if s is not loop.S: raise Unsupported('opaque')
        g.marked = g.marked + 1 if hasattr(g, 'marked') else 1
        g.at_depth = len(g.stack)
    g = GState()
    try:
        g.run(res, opaque)
    except BadStream as e:
        vc.check('result_is_a_valid_stream', False, detail=str(e)); return
    vc.check('all_graphics_are_in_the_result_once', getattr(g, 'marked', 0) == 1 and g.events == [])
    vc.check('state_is_saved_and_restored', g.stack == [] and g.at_depth >= 1)
    vc.cover('result')
