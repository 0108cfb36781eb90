"""C16: the image object has what the image file says."""
import sys, types
from pyvc.engine import *
from pyvc.stream import *
from pyvc import instr
from textline import raw, ctx
from doc import Token
import z3

I = 'pdfme.image.'

class Chunk:
    """the bytes lo..hi of the file"""
    _vc_ghost = True
    def __init__(self, f, lo, hi): self.f, self.lo, self.hi = f, lo, hi
    def _vc_len(self): return self.hi - self.lo
    def __len__(self): raise Unsupported('len of a part of a file')
    def __bool__(self): return bool(self.hi > self.lo)
    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.step not in (None, 1): raise Unsupported('step')
            lo, hi = self.lo + (i.start or 0), self.hi if i.stop is None else self.lo + i.stop
            if not bool(conj(lo >= self.lo, hi <= self.hi)): raise Unsupported('slice of a part of a file')
            return Chunk(self.f, lo, hi)
        if isinstance(i, int) and i < 0: raise Unsupported('index')
        if bool(self.lo + i >= self.hi): raise IndexError('index out of range')
        return self.f.byte(self.lo + i)
    def __eq__(self, o): raise Unsupported('comparison of a part of a file')
    __hash__ = None

class Err(Exception): pass

class Struct:
    """the module struct, for unsigned numbers"""
    _vc_ghost = True
    error = Err
    SIZE = {'B': 1, 'H': 2, 'I': 4}
    def unpack_from(self, fmt, data, offset=0):
        big = fmt[0] in '>!'
        f = fmt.lstrip('>!=<@')
        if not set(f) <= set('BH') or 'H' in f and not big: raise Unsupported('format ' + fmt)
        if not isinstance(data, Chunk): raise Err('not enough bytes')
        p = data.lo + offset
        out = []
        for c in f:
            v = 0
            for i in range(self.SIZE[c]):
                v = v * 256 + data.f.byte(p)
                p = p + 1
            out.append(v)
        if bool(p > data.hi): raise Err('not enough bytes')
        return tuple(out)
    def unpack(self, fmt, data):
        n = sum(self.SIZE[c] for c in fmt.lstrip('>!=<@') if c in self.SIZE)
        if not isinstance(data, Chunk) or not bool(eq(data.hi - data.lo, n)): raise Err('number of bytes')
        return self.unpack_from(fmt, data)
    def calcsize(self, fmt): return sum(self.SIZE[c] for c in fmt.lstrip('>!=<@'))

class File:
    """a file of any bytes"""
    _vc_ghost = True
    def __init__(self, vc, size):
        self.f, self.size, self.pos, self.closed = z3.Function('B', z3.IntSort(), z3.IntSort()), size, 0, 0
    def _vc_isinstance(self, t): return any(issubclass(c, t) for c in type(self).__mro__)
    def byte(self, i):
        v = SNum(self.f(const(i)))
        c = ctx()
        c.assume(v >= 0); c.assume(v <= 255)
        return v
    def read(self, n=-1):
        lo = self.pos
        if isinstance(n, int) and n < 0: hi = self.size
        else:
            if bool(n < 0): raise Unsupported('read of a negative number')
            hi = lo + n
            if bool(hi > self.size): hi = lo if bool(lo > self.size) else self.size
        self.pos = hi
        return Chunk(self, lo, hi)
    def seek(self, off, whence=0):
        self.pos = off if whence == 0 else self.pos + off if whence == 1 else self.size + off
        return self.pos
    def tell(self): return self.pos
    def close(self): self.closed += 1
    def __enter__(self): return self
    def __exit__(self, *a): self.close()

STANDALONE = list(range(0xD0, 0xD8)) + [0xD8]
SOF = [0xC0, 0xC1, 0xC2, 0xC3, 0xC5, 0xC6, 0xC7, 0xC9, 0xCA, 0xCB, 0xCD, 0xCE, 0xCF]
OTHER = [0xC4, 0xCC] + list(range(0xDB, 0xF0)) + [0xFE]

class Markers:
    """the file is read at the start of one of its markers, none of those before being the one of the frame"""
    def __init__(self, vc, file, ok): self.vc, self.file, self.ok, self.frame = vc, file, ok, None
    def check(self, st, k, env, mode):
        vc, f = st.ctx, self.file
        if mode == 'establish':
            vc.check('from_the_start', eq(f.pos, 0), kind='inv'); return
        vc.check('every_marker_is_read', neg(self.frame), kind='inv')
        vc.check('next_marker', eq(f.pos, self.next), kind='inv')
        vc.check('no_marker_is_there', self.ok)
        vc.cover('marker')
    def variant(self, env): return self.file.size - self.file.pos
    def havoc(self, st, k):
        vc, f = st.ctx, self.file
        p = self.at = vc.int('marker')
        vc.assume(p >= 0)
        st.set(f, 'pos', p)
        m = f.byte(p + 1)
        ln = f.byte(p + 2) * 256 + f.byte(p + 3)
        is_ = lambda l: disj(*[eq(m, x) for x in l])
        self.frame = is_(SOF)
        vc.assume(p + 2 <= f.size)
        if self.ok:
            # a well formed file: a marker, maybe after fill bytes, before the scans
            vc.assume(eq(f.byte(p), 255))
            vc.assume(disj(eq(m, 255), is_(STANDALONE), is_(SOF), is_(OTHER)))
            seg = disj(self.frame, is_(OTHER))
            vc.assume(implies(eq(m, 255), p + 3 <= f.size))
            vc.assume(implies(seg, conj(ln >= 2, p + 2 + ln <= f.size)))
            vc.assume(implies(self.frame, ln >= 11))
            self.next = ite(eq(m, 255), p + 1, ite(is_(STANDALONE), p + 2, p + 2 + ln))
        else:
            vc.assume(neg(eq(m, 255)))
            self.frame = False
            # no marker, or the scans begin
            vc.assume(disj(neg(eq(f.byte(p), 255)), eq(m, 0xDA), m < 0xC0))
            self.next = p
        self.ln = ln
        return {}

@contract('PDFImage.parse_jpg', funcs=[I + 'PDFImage.parse_jpg'], props=['C16'])
def parse_jpg(vc):
    size = vc.int('size'); vc.assume(size >= 4)
    f = File(vc, size)
    vc.assume(eq(f.byte(0), 255))
    ok = vc.choose(2, 'not a JPEG file') == 0
    if vc.choose(2, 'read before'): f.pos = 0
    loop = Markers(vc, f, ok)
    vc.stubs['while:' + I + 'PDFImage.parse_jpg'] = loop
    instr.stub(I + 'struct', Struct())
    class TB:
        _vc_ghost = True
        def print_exc(self, *a, **k): pass
        def format_exc(self, *a, **k): return ''
    instr.stub(I + 'traceback', TB())
    img = raw(I + 'PDFImage', image_name='name of the image')
    try: img.parse_jpg(f)
    except ValueError:
        vc.check('image_files_are_accepted', not ok); vc.cover('rejected'); return
    vc.check('other_files_are_rejected', ok)
    vc.check('at_the_frame', loop.frame)
    p = loop.at
    # length, precision, height, width, components
    w, h = f.byte(p + 7) * 256 + f.byte(p + 8), f.byte(p + 5) * 256 + f.byte(p + 6)
    vc.check('width', conj(eq(img.width, w), eq(img.pdf_obj['Width'], w)))
    vc.check('height', conj(eq(img.height, h), eq(img.pdf_obj['Height'], h)))
    vc.check('depth', eq(img.pdf_obj['BitsPerComponent'], f.byte(p + 4)))
    n = f.byte(p + 9)
    vc.assume(disj(eq(n, 1), eq(n, 3), eq(n, 4)))
    cs = img.pdf_obj['ColorSpace']
    for v, x in ((1, b'/DeviceGray'), (3, b'/DeviceRGB'), (4, b'/DeviceCMYK')): vc.check('colour_space', implies(eq(n, v), cs == x))
    d = img.pdf_obj['__stream__']
    vc.check('all_the_bytes', isinstance(d, Chunk) and d.f is f and conj(eq(d.lo, 0), eq(d.hi, size)))
    vc.check('bytes_as_they_are', img.pdf_obj['Filter'] == b'/DCTDecode' and img.pdf_obj['__skip_filter__'] is True)
    vc.check('image_object', img.pdf_obj['Type'] == b'/XObject' and img.pdf_obj['Subtype'] == b'/Image' and set(img.pdf_obj) == {'Type', 'Subtype', 'Width', 'Height', 'ColorSpace', 'BitsPerComponent', 'Filter', '__skip_filter__', '__stream__'})
    vc.check('file_can_be_read_again', eq(f.pos, 0) and f.closed == 0)
    vc.cover('parsed')

@contract('PDFImage.parse_png', funcs=[I + 'PDFImage.parse_png'], props=['C16'])
def parse_png(vc):
    """the pixels of the file, in RGB, are the ones of the JPEG image made; the conversion is Pillow's (trusted)"""
    log = []
    f = File(vc, vc.int('size'))
    class Im:
        _vc_ghost = True
        def __init__(self, src, mode=None): self.src, self.mode, self.closed = src, mode, 0
        def convert(self, mode): return Im(self.src, mode)
        def save(self, b, format=None, **k):
            if format != 'JPEG' or not isinstance(b, Buffer): vc.abort(Unsupported('save'))
            b.of = self
            b.pos = vc.int('end')
            vc.assume(b.pos > 0)
        def close(self): self.closed += 1
        def __enter__(self): return self
        def __exit__(self, *a): self.close()
    class Buffer:
        _vc_ghost = True
        of, pos, closed = None, 0, 0
        def __enter__(self): return self
        def __exit__(self, *a): self.close()
        def seek(self, n, whence=0):
            if whence: vc.abort(Unsupported('seek'))
            self.pos = n
        def close(self): self.closed += 1
    instr.stub(I + 'BytesIO', Buffer)
    m = types.ModuleType('PIL'); m.Image = types.ModuleType('PIL.Image')
    def open_(x):
        vc.check('file_given', x is f)
        return Im(x)
    m.Image.open = open_
    saved = {k: sys.modules.get(k) for k in ('PIL', 'PIL.Image')}
    sys.modules['PIL'], sys.modules['PIL.Image'] = m, m.Image
    def jpg(self, b):
        log.append((self, b, b.pos, b.of, b.closed))
    instr.stub(I + 'PDFImage.parse_jpg', jpg)
    img = raw(I + 'PDFImage', image_name='name')
    try: img.parse_png(f)
    finally:
        for k, v in saved.items():
            if v is None: sys.modules.pop(k, None)
            else: sys.modules[k] = v
    vc.check('one_image', len(log) == 1)
    s, b, pos, of, closed = log[0]
    vc.check('from_the_start', s is img and eq(pos, 0) and closed == 0)
    vc.check('the_image_of_the_file', of is not None and of.src is f and of.mode == 'RGB')
    vc.cover('png')

@contract('PDFImage.__init__', funcs=[I + 'PDFImage.__init__'], props=['C16'])
def image_init(vc):
    """the kind of image is the one the extension says, in any case; files opened are closed"""
    log, opened = [], []
    fail = vc.choose(2, 'not an image') == 1
    def parse(kind):
        def f(self, b):
            log.append((kind, self, b, b.closed))
            if fail: raise ValueError('not an image')
        return f
    instr.stub(I + 'PDFImage.parse_jpg', parse('jpg'))
    instr.stub(I + 'PDFImage.parse_png', parse('png'))
    class Buffered(File): pass
    instr.stub(I + 'BufferedIOBase', Buffered)
    EXT = {'jpg': 'jpg', 'JPG': 'jpg', 'jpeg': 'jpg', 'JPEG': 'jpg', 'Jpg': 'jpg', 'png': 'png', 'PNG': 'png', 'gif': None, 'jpgx': None, '': None}
    name = SStr('directory', maybe_empty=False)
    class Path_:
        _vc_ghost = True
        def __init__(self, p): self.p = p
        def open(self, mode='r'):
            vc.check('bytes_are_read', mode == 'rb')
            f = File(vc, vc.int('size')); opened.append((f, self.p))
            return f
        @property
        def suffix(self): return '.' + ext if ext else ''
        def _vc_str(self): return self.p
        def __str__(self): return self.p
    instr.stub(I + 'Path', Path_)
    ext = list(EXT)[vc.choose(len(EXT), 'extension')]
    path = '{}/a.b/image'.format(name) + ('.' + ext if ext else '')
    kind = EXT[ext]
    how = vc.choose(4, 'image')
    cls = instr.lookup(I + 'PDFImage')[2]
    kw = {}
    given = vc.choose(3, 'extension given')
    if given:
        g = [e for e in EXT if e][vc.choose(len(EXT) - 1, 'the one given')]
        kind = EXT[g]
        kw['extension'] = ('.' if given == 2 else '') + g
    if how == 0: arg, want = path, path
    elif how == 1: arg, want = Path_(path), path
    elif how == 2:
        arg = Buffered(vc, vc.int('size'))
        want = SStr('image name', maybe_empty=False)
        if not given: kind = 'missing'
        if vc.choose(2, 'no name'): kind = 'missing'
        else: kw['image_name'] = want
    else: arg, kind = (7, None, b'bytes', ['x'])[vc.choose(4, 'type')], 'missing'
    err = None
    try: img = cls(arg, **kw)
    except Exception as e: err = e
    for f, p in opened: vc.check('files_are_closed', f.closed == 1)
    if how == 2: vc.check('file_given_is_not_closed', arg.closed == 0)
    if kind in (None, 'missing'):
        vc.check('images_that_are_not_supported_are_rejected', err is not None and not log)
        vc.cover('rejected'); return
    vc.check('parsed_once', len(log) == 1 and log[0][0] == kind)
    if how == 2: vc.check('file_given', log[0][2] is arg)
    else: vc.check('file_of_the_path', len(opened) == 1 and log[0][2] is opened[0][0] and str_eq(opened[0][1], path) is True)
    vc.check('open_while_it_is_read', log[0][3] == 0)
    if fail: vc.check('error_is_reported', isinstance(err, ValueError)); vc.cover('wrong image'); return
    vc.check('no_error', err is None)
    vc.check('name', same(img.image_name, want))
    vc.cover('image %d' % how)

def same(a, b): return str_eq(a, b) if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)) else False
