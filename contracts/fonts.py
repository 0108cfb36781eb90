"""C03, C05, C06, C20: fonts. A TrueType font is its cmap (character -> glyph), the ids and the widths of its glyphs."""
from pyvc.engine import *
from pyvc.stream import *
from pyvc import instr, strings
from pyvc.strings import Pt, Domain, pt_text
from textline import raw, ctx

F = 'pdfme.fonts.'
SURR = range(0xD800, 0xE000)
UTF16 = 'surrogate glyph ids (55296-57343) are left out: the code writes glyph ids as UTF-16 text'

class Code:
    """the code of a character, only good to look it up"""
    _vc_ghost = True
    def __init__(self, ch): self.ch = ch
class Ch:
    _vc_ghost = True
    """a character; glyph: the id of its glyph, None if the font does not have it"""
    def __init__(self, gid): self.gid = gid; self.code = Code(self)
    def _vc_ord(self): return self.code
class Cids2Gids:
    _vc_ghost = True
    def get(self, c, default=None):
        if not isinstance(c, Code): ctx().abort(Unsupported('lookup of %r' % (c,)))
        return default if c.ch.gid is None else c.ch.gid
    def __contains__(self, c): return c.ch.gid is not None
    def __getitem__(self, c):
        if c.ch.gid is None: raise KeyError(c)
        return c.ch.gid

@contract('PDFTrueTypeFont.encode_text', funcs=[F + 'PDFTrueTypeFont.encode_text', 'pdfme.utils.as_hex', 'pdfme.utils.escape_string'], props=['C03'])
def encode_text(vc):
    """inside of a literal string, the text reads as two bytes for every character: the id of its glyph, 0 for the others"""
    vc.result.assumed.add(UTF16)
    font = raw(F + 'PDFTrueTypeFont', cids2gids=Cids2Gids())
    units = [Ch(None)] + [Ch(g) for g in range(65536) if g not in SURR]
    text = strings.Units('text', units)
    r = instr.lookup(F + 'PDFTrueTypeFont.encode_text')[2](font, text)
    vc.check('character_by_character', isinstance(r, strings.MapStr) and set(r.img) == set(units))
    bad = [(u.gid, r.img[u]) for u in units if strings.literal(r.img[u]) != (u.gid or 0).to_bytes(2, 'big')]
    vc.check('glyph_ids_of_two_bytes', not bad, detail=repr(bad[:3]))
    vc.cover('encoded')

# ---------------------------------------------------------------------------
# widths

class Glyph:
    _vc_ghost = True
    def __init__(self, vc, gid):
        self.gid = gid
    @property
    def width(self): return width_of(self.gid)

def width_of(gid):
    """width of a glyph in units of the font: any function of its id"""
    import z3
    return SNum(z3.Function('glyph_width', z3.IntSort(), z3.RealSort())(const(gid)))

class Name(SStr):
    """the name of a glyph"""
    def __init__(self, gid): SStr.__init__(self, 'glyph', maybe_empty=False); self.gid = gid

class GlyphSet:
    _vc_ghost = True
    def __init__(self, vc, has=True): self.vc, self.has = vc, has
    def __contains__(self, n): return True if isinstance(n, str) and n == '.notdef' else self.has
    def __getitem__(self, n):
        if isinstance(n, Name):
            if self.has is not True and not bool(self.has): raise KeyError(n)
            return Glyph(self.vc, n.gid)
        if n == '.notdef': return Glyph(self.vc, 0)
        raise KeyError(n)

class CMap:
    """the cmap of the font at one character"""
    _vc_ghost = True
    def __init__(self, code, has, name): self.code, self.has, self.name = code, has, name
    def look(self, c):
        if c is not self.code: ctx().abort(Unsupported('another character'))
    def __contains__(self, c): self.look(c); return bool(self.has)
    def __getitem__(self, c):
        self.look(c)
        if not bool(self.has): raise KeyError(c)
        return self.name
    def get(self, c, d=None): return self.name if c in self else d

@contract('PDFTrueTypeFont.char_width', funcs=[F + 'PDFTrueTypeFont._get_char_width', F + 'PDFTrueTypeFont.get_char_width'], props=['C05', 'C20'])
def char_width(vc):
    """the width of a character is the one of the glyph that shows it"""
    gid = vc.int('gid'); vc.assume(gid >= 0)
    has, inset = vc.bool('in cmap'), vc.bool('glyph exists')
    ch = Ch(None); name = Name(gid)
    upem = vc.real('units_per_em'); vc.assume(upem > 0)
    font = raw(F + 'PDFTrueTypeFont', cmap=CMap(ch.code, has, name), glyph_set=GlyphSet(vc, inset), units_per_em=upem)
    r = instr.lookup(F + 'PDFTrueTypeFont.get_char_width')[2](font, ch)
    shown = ite(conj(has, inset), gid, 0)
    vc.check('width_of_the_glyph_shown', eq(r * upem, width_of(shown)))
    vc.cover('width')

class Any:
    """any text: sums over it"""
    _vc_ghost = True
    def __init__(self): self.ch = Ch(None)
    def comp(self, elt):
        n = ctx().int('length'); ctx().assume(n >= 0)
        r = SList('characters', n, lambda i: elt(self.ch))
        return r

def any_sum(vc, total):
    def s(it, *a):
        one = it.at(vc.int('position'))
        total.append(one)
        return SumOf(one)
    vc.stubs['sum'] = s

class SumOf:
    """the sum of a value per character; times a factor"""
    _vc_ghost = True
    def __init__(self, one, k=1): self.one, self.k = one, k
    def __truediv__(self, d): return SumOf(self.one, SNum(to_real(const(self.k))) / d)
    def __mul__(self, d): return SumOf(self.one, self.k * d)
    __rmul__ = __mul__

@contract('text_width', funcs=[F + 'PDFTrueTypeFont.get_text_width', F + 'PDFStandardFont.get_text_width', F + 'PDFStandardFont.get_char_width'], props=['C05', 'C20'])
def text_width(vc):
    """the width of a text is the sum of the widths of its characters"""
    w = vc.real('w')
    t = Any()
    any_sum(vc, [])
    if vc.choose(2, 'standard'):
        class Widths:
            _vc_ghost = True
            def __getitem__(self, c):
                if c is not t.ch: vc.abort(Unsupported('character'))
                return w
        font = raw(F + 'PDFStandardFont', widths=Widths())
        cls = 'PDFStandardFont'
        unit = 1000
        vc.check('width_of_a_character', eq(instr.lookup(F + cls + '.get_char_width')[2](font, t.ch) * unit, w))
    else:
        unit = vc.real('units_per_em'); vc.assume(unit > 0)
        font = raw(F + 'PDFTrueTypeFont', units_per_em=unit)
        cls = 'PDFTrueTypeFont'
        def cw(self, c):
            if self is not font or c is not t.ch: vc.abort(Unsupported('character'))
            return w
        instr.stub(F + cls + '._get_char_width', cw)
        instr.stub(F + cls + '.get_char_width', lambda self, c: cw(self, c) / unit)
    r = instr.lookup(F + cls + '.get_text_width')[2](font, t)
    ok = isinstance(r, SumOf)
    vc.check('sum_over_the_text', ok)
    vc.check('of_the_widths', ok and eq(SNum(to_real(const(r.one))) * r.k * unit, w))
    vc.cover(cls)

class Widths:
    """W: before, complete groups; then `start` and the widths of start..prev, where prev is the last glyph"""
    def __init__(self, vc, scale): self.vc, self.scale = vc, scale
    def check(self, st, k, env, mode):
        vc = self.vc
        if mode == 'establish':
            vc.check('nothing_yet', env['widths'] == [] and env['current_width_group'] == [])
            return
        ws, cur, gid = env['widths'], env['current_width_group'], self.gid
        new = list(ws.tail) if isinstance(ws, SList) else list(ws)
        vc.check('last_glyph', eq(env['prev_glyph_id'], gid))
        if self.first:
            vc.check('first_group', isinstance(ws, list) and len(new) == 1 and isinstance(cur, list) and len(cur) == 1)
            vc.check('first_group_starts_at_its_glyph', eq(new[0], gid))
            vc.check('width', eq(cur[0], width_of(gid) * self.scale))
            vc.cover('first group'); return
        vc.check('same_widths', ws is self.ws and new[:1] == [self.start])
        if cur is self.cur:
            vc.check('group_goes_on', len(new) == 1 and len(cur.tail) == 1)
            vc.check('glyph_follows', eq(gid, self.start + cur.n))
            vc.check('width', eq(cur.tail[0], width_of(gid) * self.scale))
            vc.cover('group goes on')
        else:
            vc.check('group_is_written', len(new) == 3 and new[1] is self.cur and self.cur.tail == [])
            vc.check('group_starts_at_its_glyph', eq(new[2], gid) if len(new) == 3 else False)
            vc.check('new_group', isinstance(cur, list) and len(cur) == 1)
            vc.check('width', eq(cur[0], width_of(gid) * self.scale))
            vc.cover('new group')
    def havoc(self, st, k):
        vc = self.vc
        self.first = bool(SBool(const(k) == 0))
        for n in ('widths', 'current_width_group'): st.touch(st.pre[n])
        self.gid = self.gid_of(k)
        if self.first:
            return dict(widths=st.pre['widths'], current_width_group=st.pre['current_width_group'], prev_glyph_id=st.pre['prev_glyph_id'])
        self.start, n = vc.int('start'), vc.int('group'); vc.assume(n >= 1)
        before = vc.int('before'); vc.assume(before >= 0)
        self.cur = SList('group', n, lambda i: width_of(self.start + i) * self.scale)
        self.ws = SList('widths', before, lambda i: vc.abort(Unsupported('widths before')))
        self.ws.append(self.start)
        prev = self.start + n - 1
        vc.assume(eq(prev, self.gid_of(k - 1)))
        return dict(widths=self.ws, current_width_group=self.cur, prev_glyph_id=prev)

@contract('PDFTrueTypeFont.compute_char_widths', funcs=[F + 'PDFTrueTypeFont.compute_char_widths'], props=['C05', 'C20'])
def compute_char_widths(vc):
    """W gives .notdef and every glyph of the cmap the width the text is laid out with, in thousandths"""
    import z3
    scale = vc.real('scale'); vc.assume(scale > 0)
    n = vc.int('characters'); vc.assume(n >= 0)
    gid = lambda i: SNum(z3.Function('gid', z3.IntSort(), z3.IntSort())(const(i)))
    spec = Widths(vc, scale)
    values = SList('values', n, lambda i: Name(gid(i)), spec)
    class Map:
        _vc_ghost = True
        def values(self): return values
    class Font:
        _vc_ghost = True
        def getGlyphID(self, g): return 0 if isinstance(g, str) and g == '.notdef' else g.gid
    spec.gid_of = lambda k: ite(SBool(const(k) == 0), 0, gid(k - 1)) if not (isinstance(k, int) and k == 0) else 0
    font = raw(F + 'PDFTrueTypeFont', glyph_set=GlyphSet(vc), cmap=Map(), font=Font(), scale=scale)
    r = instr.lookup(F + 'PDFTrueTypeFont.compute_char_widths')[2](font)
    vc.check('last_group_is_written', r is spec.ws and len(r.tail) == 2 and r.tail[0] is spec.start and r.tail[1] is spec.cur and spec.cur.tail == [])
    vc.cover('end')

# ---------------------------------------------------------------------------
# ToUnicode

class Entries:
    def __init__(self, vc): self.vc = vc
    def check(self, st, k, env, mode):
        vc = self.vc
        if mode == 'establish':
            ls = [n for n, v in env._d.items() if isinstance(v, list)]
            if len(ls) != 1: vc.abort(Unsupported('no list of entries'))
            self.name = ls[0]
            vc.check('no_entries_yet', env[self.name] == [])
            return
        l = env[self.name]
        vc.check('one_entry_more', l is self.list and len(l.tail) == 1)
        entry_is(vc, l.tail[0], self.k)
        vc.cover('entry')
    def havoc(self, st, k):
        st.touch(st.pre[self.name])
        self.k = k
        self.list = SList('mappings', k, lambda i: SStr('entry', maybe_empty=False, entry=i))
        return {self.name: self.list}

def entry_is(vc, text, k):
    """entry k: <glyph id of character k> <UTF-16 of character k>"""
    ps = pieces(text)
    vc.check('two_values', ''.join(p if isinstance(p, str) else 'x' for p in ps).count('> <') == 1)
    a, b = text.split('> <')
    ga, cb = pt_text(a + '>'), pt_text('<' + b)
    dom = lambda t: next(p.dom for p in pieces(t) if isinstance(p, Pt))
    ok = ga is not None and cb is not None and dom(a).of[0] == 'gid' and dom(b).of[0] == 'cid'
    vc.check('glyph_and_its_character', ok and conj(eq(dom(a).of[1], k), eq(dom(b).of[1], k)))
    bad = [(v, t) for v, t in ga if t.upper() != '<%04X>' % v]
    vc.check('glyph_id', not bad, detail=repr(bad[:3]))
    bad = [(v, t) for v, t in cb if t.upper() != '<%s>' % chr(v).encode('UTF-16-BE').hex().upper()]
    vc.check('character', not bad, detail=repr(bad[:3]))

CIDS = [c for c in range(0x110000) if c not in SURR]

@contract('get_tounicode_cmap', funcs=[F + 'get_tounicode_cmap'], props=['C03', 'C20'], time=600)
def get_tounicode_cmap(vc):
    """every character of the cmap has an entry; blocks of at most 100 entries that say how many they have"""
    n = vc.int('characters'); vc.assume(n >= 0)
    spec = Entries(vc)
    def elem(i):
        c, g = Domain(CIDS), Domain(range(65536))
        c.of, g.of = ('cid', i), ('gid', i)
        return Pt(c, CIDS), Pt(g, g.values)
    vc.items = SList('cmap', n, elem, spec)
    class Map:
        _vc_ghost = True
        def items(self): return vc.items
    def join(it, sep): return SStr('joined', joined=(it, sep))
    vc.stubs['join'] = join
    r = instr.lookup(F + 'get_tounicode_cmap')[2](Map())
    vc.check('bytes', isinstance(r, bytes))
    ps = pieces(r)
    vc.check('one_list_of_blocks', len(ps) == 3 and isinstance(ps[0], str) and isinstance(ps[2], str) and isinstance(ps[1], SStr) and 'joined' in ps[1].data)
    head, tail = ps[0].split(), ps[2].split()
    i = head.index('begincmap') if 'begincmap' in head else len(head)
    vc.check('cmap_of_two_bytes', 'begincmap' in head and head[i:][-5:] == ['1', 'begincodespacerange', '<0000>', '<FFFF>', 'endcodespacerange'] and 'beginbfchar' not in head)
    vc.check('cmap_ends', tail[:1] == ['endcmap'] and ps[2][0].isspace() and ps[0][-1].isspace())
    vc.check('dictionaries', (head + tail).count('begin') == 2 and (head + tail).count('end') == 2 and ps[0].count('<<') == ps[0].count('>>') == 1)
    blocks, sep = ps[1].data['joined']
    vc.check('blocks_are_separated', isinstance(sep, str) and sep != '' and sep.isspace())
    m = blocks.n
    # the blocks cover the entries, in order
    vc.check('number_of_blocks', conj(m * 100 >= n, (m - 1) * 100 < n) if not blocks.tail else False)
    j = vc.int('block'); vc.assume(j >= 0); vc.assume(j < m)
    bp = pieces(blocks.at(j))
    ok = len(bp) == 4 and isinstance(bp[0], SNum) and bp[1].strip() == 'beginbfchar' and isinstance(bp[2], SStr) and 'joined' in bp[2].data and bp[3].strip() == 'endbfchar' \
        and bp[1][0].isspace() and bp[1][-1].isspace() and bp[3][0].isspace()
    vc.check('block', ok)
    entries, sep = bp[2].data['joined']
    vc.check('entries_are_separated', isinstance(sep, str) and sep != '' and sep.isspace())
    vc.check('number_of_entries', eq(bp[0], entries.n))
    vc.check('at_most_100', conj(entries.n >= 1, entries.n <= 100))
    vc.check('block_ends_where_the_next_starts', eq(entries.n, ite(n - 100 * j < 100, n - 100 * j, 100)))
    e = vc.int('entry'); vc.assume(e >= 0); vc.assume(e < entries.n)
    x = entries.at(e)
    if isinstance(x, SStr) and 'entry' in x.data: vc.check('entry_of_the_block', eq(x.data['entry'], 100 * j + e))
    else: entry_is(vc, x, 100 * j + e)
    vc.cover('block')

# ---------------------------------------------------------------------------
# the fonts of a document

@contract('PDFFonts.__init__', funcs=[F + 'PDFFonts.__init__', F + 'PDFStandardFont.__init__', F + 'PDFFont.__init__'], props=['C03', 'C05', 'C06', 'C08'])
def fonts_init(vc):
    """every standard font is there, as itself, with a name of its own"""
    std = instr.lookup(F + 'STANDARD_FONTS')[2]
    f = object.__new__(instr.lookup(F + 'PDFFonts')[2])
    f.__init__()
    vc.check('families', set(f.fonts) == set(std))
    vc.check('modes', all(set(f.fonts[k]) == set(std[k]) for k in std))
    fs = [(f.fonts[k][m], std[k][m]) for k in std for m in std[k]]
    vc.check('base_font', all(x.base_font == d['base_font'] and x.widths is d['widths'] for x, d in fs))
    refs = [x.ref for x, d in fs]
    vc.check('names_of_their_own', len(set(refs)) == len(refs))
    vc.check('index_not_used', all(r[0] == 'F' and 0 < int(r[1:]) < f.index for r in refs))
    vc.check('nothing_loaded', list(f.loaded_fonts) == [])
    vc.cover('init')

class Used:
    """a font already there; its name is F<n> for n below the index"""
    _vc_ghost = True
    def __init__(self, what): self.what = what

@contract('PDFFonts.get_font', funcs=[F + 'PDFFonts.get_font', F + 'PDFFonts.load_font', F + 'PDFFont.__init__', F + 'PDFTrueTypeFont.__init__', F + 'PDFFont.ref'], props=['C03', 'C05', 'C06', 'C08'])
def get_font(vc):
    """the font of the family and mode asked for, the normal one for modes that do not exist; registered fonts are loaded once with a name of their own"""
    std = instr.lookup(F + 'STANDARD_FONTS')[2]
    cls = instr.lookup(F + 'PDFFont')[2]
    old = dict(cls.registered_fonts)
    index = vc.int('index'); vc.assume(index >= 1)
    loads = []
    instr.stub(F + 'PDFTrueTypeFont.load_font', lambda self, path: loads.append((self, path)))
    MODES = ['n', 'b', 'i', 'bi']
    try:
        cls.registered_fonts.clear()
        paths = {}
        regs = MODES[:vc.choose(5, 'registered modes')] if vc.choose(2, 'order') else MODES[4 - vc.choose(5, 'registered modes'):]
        for m in regs: cls.registered_fonts['Fam', m] = paths[m] = 'path ' + m
        cls.registered_fonts['Other', 'n'] = 'other'
        f = object.__new__(instr.lookup(F + 'PDFFonts')[2])
        f.fonts = {k: {m: Used((k, m)) for m in std[k]} for k in std}
        f.index = index
        f.loaded_fonts = [('Other', 'n')]
        f.fonts['Other'] = {'n': Used(('Other', 'n'))}
        loaded = {}
        for m in regs:
            if vc.choose(2, 'loaded ' + m):
                f.loaded_fonts.append(('Fam', m))
                loaded[m] = Used(('Fam', m))
                fam = f.fonts.setdefault('Fam', {'n': loaded[m]})
                fam[m] = loaded[m]
        before = {k: dict(v) for k, v in f.fonts.items()}
        get = instr.lookup(F + 'PDFFonts.get_font')[2]
        k = (list(std) + ['Fam', 'Unknown'])[vc.choose(len(std) + 2, 'family')]
        m = MODES[vc.choose(4, 'mode')]
        try: r = get(f, k, m)
        except ValueError:
            vc.check('unknown_font', k == 'Unknown' or k == 'Fam' and m not in regs)
            vc.check('nothing_changes', {a: dict(b) for a, b in f.fonts.items()} == before and not loads)
            vc.cover('unknown'); return
        vc.check('known_font', k in std or k == 'Fam' and m in regs)
        if k in std:
            vc.check('standard_font', r is before[k].get(m, before[k]['n']))
        elif m in loaded: vc.check('loaded_font', r is loaded[m]); vc.cover('already loaded')
        if k in std or m in loaded:
            vc.check('nothing_is_loaded', not loads and {a: dict(b) for a, b in f.fonts.items()} == before and eq(f.index, index))
            return
        vc.check('loaded_from_its_path', len(loads) == 1 and loads[0] == (r, paths[m]) and isinstance(r, instr.lookup(F + 'PDFTrueTypeFont')[2]))
        ps = pieces(r.ref)
        vc.check('name_of_its_own', len(ps) == 2 and ps[0] == 'F' and isinstance(ps[1], SNum) and conj(ps[1] >= index, ps[1] < f.index))
        after = {a: dict(b) for a, b in f.fonts.items()}
        vc.check('kept', after['Fam'][m] is r and all(after[a][b] is x for a in before for b, x in before[a].items() if (a, b) != ('Fam', m) and not (a == 'Fam' and b == 'n' and 'n' not in loaded)))
        vc.check('no_other_fonts', all(b in before.get(a, ()) or a == 'Fam' and b in ('n', m) for a in after for b in after[a]))
        vc.check('remembered', ('Fam', m) in f.loaded_fonts)
        r2 = get(f, k, m)
        vc.check('loaded_once', r2 is r and len(loads) == 1)
        vc.cover('loaded')
    finally:
        cls.registered_fonts.clear()
        cls.registered_fonts.update(old)

# ---------------------------------------------------------------------------
# objects of a font

class Base:
    _vc_ghost = True
    def __init__(self): self.objects = []
    def add(self, obj):
        o = raw('pdfme.parser.PDFObject', id=Ref(), value=obj)
        self.objects.append(o)
        return o
class Ref:
    _vc_ghost = True

@contract('PDFTrueTypeFont.add_font', funcs=[F + 'PDFTrueTypeFont.add_font'], props=['C03', 'C05', 'C20'])
def truetype_objects(vc):
    """a composite font of two byte glyph ids, with the widths, the file and the ToUnicode map of this font"""
    data = SStr('font file', bytes_=True)
    W, M, maps = ['W'], SStr('cmap', bytes_=True, maybe_empty=False), Ref()
    class File:
        _vc_ghost = True
        def save(self, f): f.saved = data
    class IO:
        _vc_ghost = True
        def getvalue(self): return self.saved
        def __enter__(self): return self
        def __exit__(self, *a): pass
    instr.stub(F + 'BytesIO', IO)
    instr.stub(F + 'PDFTrueTypeFont.compute_char_widths', lambda self: W)
    instr.stub(F + 'get_tounicode_cmap', lambda m: M if m is maps else vc.abort(Unsupported('another map')))
    name = SStr('base font', maybe_empty=False)
    descriptor = {'Type': b'/FontDescriptor', 'FontName': b'/N'}
    font = raw(F + 'PDFTrueTypeFont', font=File(), font_descriptor=dict(descriptor), _base_font=name, cids2gids=maps)
    base = Base()
    r = instr.lookup(F + 'PDFTrueTypeFont.add_font')[2](font, base)
    vc.check('objects_of_the_document', any(r is o for o in base.objects))
    by = {id(o.id): o.value for o in base.objects}
    g = lambda o, k: by.get(id(o.get(k))) or {}
    t = r.value
    same = lambda v: isinstance(v, (bytes, bytearray)) and str_eq(bytes(v), b'/' + name.tok.encode('latin'))
    vc.check('composite_font', (t.get('Type'), t.get('Subtype'), t.get('Encoding')) == (b'/Font', b'/Type0', b'/Identity-H'))
    ds = t.get('DescendantFonts')
    vc.check('one_descendant', isinstance(ds, list) and len(ds) == 1 and id(ds[0]) in by)
    d = by[id(ds[0])]
    vc.check('descendant', (d.get('Type'), d.get('Subtype'), d.get('CIDToGIDMap')) == (b'/Font', b'/CIDFontType2', b'/Identity'))
    si = d.get('CIDSystemInfo') or {}
    vc.check('identity', (si.get('Registry'), si.get('Ordering'), si.get('Supplement')) == ('Adobe', 'Identity', 0))
    vc.check('names', bool(same(t.get('BaseFont'))) and bool(same(d.get('BaseFont'))))
    vc.check('widths_of_the_font', d.get('W') is W)
    fd = g(d, 'FontDescriptor')
    vc.check('descriptor_of_the_font', all(fd.get(k) == v for k, v in descriptor.items()))
    ff = g(fd, 'FontFile2')
    vc.check('file_of_the_font', ff.get('__stream__') is data or isinstance(ff.get('__stream__'), bytes) and str_eq(ff['__stream__'], data._t()))
    vc.check('length_of_the_file', 'Length1' in ff and eq(ff['Length1'], data.len))
    u = g(t, 'ToUnicode')
    vc.check('to_unicode', u.get('__stream__') is M)
    vc.check('filters', ff.get('Filter') in (None, b'/FlateDecode') and u.get('Filter') in (None, b'/FlateDecode'))
    vc.cover('font')

@contract('PDFStandardFont.add_font', funcs=[F + 'PDFStandardFont.add_font'], props=['C03', 'C05'])
def standard_objects(vc):
    for name in ('Helvetica', 'Times-Bold', 'Courier-Oblique', 'Symbol', 'ZapfDingbats'):
        font = raw(F + 'PDFStandardFont', _base_font=name, widths={}, _ref='F1')
        base = Base()
        r = instr.lookup(F + 'PDFStandardFont.add_font')[2](font, base)
        vc.check('object', [o for o in base.objects] == [r])
        want = {'Type': b'/Font', 'Subtype': b'/Type1', 'BaseFont': b'/' + name.encode()}
        if name not in ('Symbol', 'ZapfDingbats'): want['Encoding'] = b'/WinAnsiEncoding'
        vc.check('dictionary', {k: bytes(v) for k, v in r.value.items()} == want, detail=repr(r.value))
    vc.cover('standard')

@contract('PDFTrueTypeFont.load_font', funcs=[F + 'PDFTrueTypeFont.load_font'], props=['C03', 'C05', 'C20'])
def load_font(vc):
    """cids2gids gives every character of the cmap the id of its glyph"""
    import sys, types, z3
    n = vc.int('characters'); vc.assume(n >= 0)
    class Spec:
        def check(s, st, k, env, mode):
            if mode == 'establish':
                vc.check('no_characters_yet', isinstance(font.cids2gids, dict) and font.cids2gids == {}); return
            d = font.cids2gids
            vc.check('one_character_more', d is s.d and list(d.extra) == [s.cur])
            vc.check('glyph_of_the_character', d.extra[s.cur] is gids[id(names[id(s.cur)])])
            vc.cover('character')
        def havoc(s, st, k):
            s.d = d = SDict('cids2gids', SList('before', k, lambda i: vc.abort(Unsupported('characters before'))))
            st.set(font, 'cids2gids', s.d)
            st.touch(s.d)
            s.cur = cmap_keys.at(k) if k is not n else None
            out = {}
            for a, v in st.pre._d.items():
                if v is s.dict0: out[a] = s.d
            return out
    spec = Spec()
    names, gids = {}, {}
    def key(i):
        c = SStr('character', maybe_empty=False)
        names[id(c)] = g = SStr('glyph', maybe_empty=False)
        gids[id(g)] = vc.int('gid')
        return c
    cmap_keys = SList('cmap', n, key, spec)
    class Map(SDict):
        def __getitem__(self, c): return names[id(c)]
        def items(self):
            r = SList('cmap', n, lambda i: (cmap_keys.at(i), names[id(cmap_keys.at(i))]), spec)
            return r
        def keys(self): return cmap_keys
    cmap = Map('cmap', cmap_keys)
    class CT:
        _vc_ghost = True
        def getBestCmap(self): return cmap
    class TT:
        _vc_ghost = True
        def __init__(self, path): self.path = path
        def __getitem__(self, k):
            if k != 'cmap': vc.abort(Unsupported(k))
            return CT()
        def getGlyphSet(self): return 'glyphs'
        def getGlyphID(self, g): return gids[id(g)]
    m = types.ModuleType('fontTools'); m.ttLib = types.ModuleType('fontTools.ttLib'); m.ttLib.TTFont = TT
    saved = {k: sys.modules.get(k) for k in ('fontTools', 'fontTools.ttLib')}
    sys.modules['fontTools'], sys.modules['fontTools.ttLib'] = m, m.ttLib
    descriptor = {'Type': b'/FontDescriptor'}
    instr.stub(F + 'PDFTrueTypeFont._get_font_descriptor', lambda self: descriptor if isinstance(self.font, TT) else vc.abort(Unsupported('descriptor of what')))
    font = raw(F + 'PDFTrueTypeFont')
    orig = spec.check
    def check(st, k, env, mode):
        if mode == 'establish': spec.dict0 = font.cids2gids
        return orig(st, k, env, mode)
    spec.check = check
    try:
        instr.lookup(F + 'PDFTrueTypeFont.load_font')[2](font, 'a/font.ttf')
    finally:
        for k, v in saved.items():
            if v is None: sys.modules.pop(k, None)
            else: sys.modules[k] = v
    vc.check('file', isinstance(font.font, TT) and font.font.path == 'a/font.ttf')
    vc.check('cmap_of_the_file', font.cmap is cmap)
    vc.check('glyphs_of_the_file', font.glyph_set == 'glyphs')
    vc.check('descriptor_of_the_font', font.font_descriptor is descriptor)
    vc.check('all_characters', font.cids2gids is spec.d and not spec.d.extra)
    vc.cover('loaded')

@contract('PDFTrueTypeFont._get_font_descriptor', funcs=[F + 'PDFTrueTypeFont._get_font_descriptor'], props=['C05', 'C20'])
def descriptor(vc):
    """the measures of the descriptor are those of the tables of the file, in thousandths of the em"""
    class Table:
        _vc_ghost = True
        def __init__(self, **k): self.__dict__.update(k)
    upem = vc.int('unitsPerEm'); vc.assume(upem > 0)
    head = Table(unitsPerEm=upem, **{a: vc.int(a) for a in ('xMax', 'xMin', 'yMin', 'yMax')})
    hhea = Table(ascent=vc.int('ascent'), descent=vc.int('descent')) if vc.choose(2, 'no hhea') == 0 else None
    os2 = None
    if vc.choose(2, 'no OS/2') == 0:
        # every combination of the bits of fsType that are defined
        fs = sum(b for b in (0x2, 0x4, 0x8, 0x100, 0x200) if vc.choose(2, 'bit %x' % b))
        os2 = Table(usWeightClass=vc.int('weight'), fsType=fs, version=vc.int('version'), sTypoAscender=vc.int('sTypoAscender'), sTypoDescender=vc.int('sTypoDescender'), sCapHeight=vc.int('sCapHeight'))
        vc.assume(os2.usWeightClass >= 1); vc.assume(os2.usWeightClass <= 1000)
    fixed = vc.bool('fixed pitch')
    post = Table(italicAngle=vc.real('italicAngle'), isFixedPitch=ite(fixed, 1, 0))
    psname = SStr('ps name', maybe_empty=False)
    class Name:
        _vc_ghost = True
        def getDebugName(self, i):
            if i != 6: vc.abort(Unsupported('name %r' % (i,)))
            return psname
    tables = {'head': head, 'hhea': hhea, 'OS/2': os2, 'post': post, 'name': Name()}
    class TT:
        _vc_ghost = True
        def __getitem__(self, k):
            if tables[k] is None: raise KeyError(k)
            return tables[k]
        def __contains__(self, k): return tables[k] is not None
        def get(self, k, d=None): return d if tables[k] is None else tables[k]
    font = raw(F + 'PDFTrueTypeFont', font=TT(), filename='a/font.ttf', _base_font=None)
    restricted = os2 is not None and (os2.fsType == 2 or os2.fsType & 0x300 != 0)
    d = err = None
    try: d = instr.lookup(F + 'PDFTrueTypeFont._get_font_descriptor')[2](font)
    except Exception as e:
        if type(e) is not Exception: raise
        err = e
    if err is not None or restricted:
        vc.check('restricted_fonts_are_refused_and_no_others', err is not None and restricted)
        vc.cover('restricted'); return
    m = lambda v: v * 1000 / upem
    vc.check('units_per_em', eq(font.units_per_em, upem))
    vc.check('scale', eq(font.scale * upem, 1000))
    vc.check('base_font', font.base_font is psname)
    vc.check('descriptor', d['Type'] == b'/FontDescriptor')
    ps = pieces(d['FontName'])
    vc.check('name', len(ps) == 2 and ps[0] in ('/', b'/') and ps[1] is psname)
    box = d['FontBBox']
    vc.check('box', len(box) == 4 and conj(*[eq(box[i], m(getattr(head, a))) for i, a in enumerate(('xMin', 'yMin', 'xMax', 'yMax'))]))
    if hhea is not None: a, b = hhea.ascent, hhea.descent
    elif os2 is not None: a, b = os2.sTypoAscender, os2.sTypoDescender
    else: a, b = head.yMax, head.yMin
    vc.check('ascent', eq(d['Ascent'], m(a)))
    vc.check('descent', eq(d['Descent'], m(b)))
    cap = m(a) if os2 is None else ite(os2.version > 1, m(os2.sCapHeight), m(a))
    vc.check('height_of_capitals', eq(d['CapHeight'], cap))
    vc.check('italic_angle', eq(d['ItalicAngle'], post.italicAngle))
    heavy = False if os2 is None else os2.usWeightClass >= 600
    vc.check('flags', eq(d['Flags'], 4 + ite(eq(post.italicAngle, 0), 0, 64) + (ite(heavy, 262144, 0) if os2 is not None else 0) + ite(fixed, 1, 0)))
    vc.check('weight_of_stems', isinstance(d['StemV'], (int, SNum)) and d['StemV'] >= 50)
    vc.check('all_the_entries', set(d) == {'Type', 'FontName', 'Flags', 'FontBBox', 'ItalicAngle', 'Ascent', 'Descent', 'CapHeight', 'StemV'})
    vc.cover('descriptor')
