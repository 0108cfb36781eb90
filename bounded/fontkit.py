"""TrueType fonts made at run time, in a scratch directory of the process."""
import os
import random
import tempfile

_dir = [None, None]
_cache = {}

def scratch():
    if _dir[0] != os.getpid():
        _dir[0] = os.getpid()
        _dir[1] = tempfile.mkdtemp(prefix='pdfme-check-', dir=os.environ.get('PDFME_SCRATCH'))
        _cache.clear()
    return _dir[1]

LATIN = ' ()\\!"#$%&\'*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[]^_`abcdefghijklmnopqrstuvwxyz{|}~éñÁß'
MORE = 'αβγδЖЩя漢字あ한€’“—𝄞😀𐍈ﬁ'

class Kit:
    """path of the font and what a reader should find about it"""

def make(seed, chars=None, drop='', share=True):
    key = (seed, chars, drop, share)
    scratch()
    if key in _cache: return _cache[key]
    from fontTools.fontBuilder import FontBuilder
    from fontTools.pens.ttGlyphPen import TTGlyphPen
    rng = random.Random(seed)
    upm = rng.choice([1000, 2048, 512])
    cs = [c for c in (LATIN + MORE if chars is None else chars) if c not in drop]
    rng.shuffle(cs)
    k = Kit()
    k.upm = upm
    order = ['.notdef']
    cmap, width = {}, {'.notdef': rng.randint(100, upm)}
    k.gid = {}
    for i, c in enumerate(cs):
        if share and i and rng.random() < .06 and c.strip() and len(order) > 2:
            g = rng.choice(order[1:])       # a shared glyph
            if g == k.space: g = order[1] if order[1] != k.space else g
            if g == getattr(k, 'space', None): g = None
        else: g = None
        if g is None:
            g = 'g%d' % i
            order.append(g)
            width[g] = rng.randint(100, upm)
        cmap[ord(c)] = g
        if c == ' ': k.space = g
        k.space = getattr(k, 'space', None)
        k.gid[c] = order.index(g)
    fb = FontBuilder(upm, isTTF=True)
    fb.setupGlyphOrder(order)
    fb.setupCharacterMap(cmap)
    pen = TTGlyphPen(None)
    pen.moveTo((0, 0)); pen.lineTo((50, 0)); pen.lineTo((50, 50)); pen.closePath()
    gl = pen.glyph()
    fb.setupGlyf({g: gl for g in order})
    fb.setupHorizontalMetrics({g: (width[g], 0) for g in order})
    asc, desc = int(upm * .8), -int(upm * .2)
    fb.setupHorizontalHeader(ascent=asc, descent=desc)
    k.ps = 'Kit%d-%s' % (seed, rng.choice(['Regular', 'Bold']))
    fb.setupNameTable({'familyName': 'Kit %d Family' % seed, 'styleName': 'Regular', 'psName': k.ps})
    fb.setupOS2(sTypoAscender=asc, sTypoDescender=desc, usWeightClass=rng.choice([400, 700]), fsType=0, sCapHeight=int(upm * .7), version=4)
    fb.setupPost(italicAngle=rng.choice([0, -12]))
    if seed % 5 == 2: del fb.font['OS/2']       # an optional table
    path = os.path.join(_dir[1], 'font%s.ttf' % abs(hash(key)))
    fb.save(path)
    k.path = path
    k.width = {c: width[cmap[ord(c)]] / upm for c in cs}
    k.gwidth = {i: width[g] / upm for i, g in enumerate(order)}
    k.notdef = width['.notdef'] / upm
    k.chars = cs
    _cache[key] = k
    return k
