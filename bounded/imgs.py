"""Images made at run time, in the scratch directory."""
import os
import random
from fontkit import scratch

_cache = {}

def make(kind, mode, w, h, seed, sub=None):
    """path of an image file; kind jpg, jpeg, png, JPG..."""
    d = scratch()
    key = (d, kind, mode, w, h, seed, sub)
    if key in _cache and sub is None: return _cache[key]
    from PIL import Image
    rng = random.Random(seed)
    n = {'L': 1, 'RGB': 3, 'CMYK': 4, 'RGBA': 4, 'P': 1, '1': 1}[mode]
    if mode in ('P', '1'): im = Image.frombytes('L', (w, h), bytes(rng.randrange(256) for i in range(w * h))).convert(mode)
    else: im = Image.frombytes(mode, (w, h), bytes(rng.randrange(256) for i in range(w * h * n)))
    path = os.path.join(d, 'img-%s-%d-%d-%d.%s' % (mode, w, h, seed, kind))
    if sub is not None:
        # the same name in several directories
        os.makedirs(os.path.join(d, 'dir%d' % sub), exist_ok=True)
        path = os.path.join(d, 'dir%d' % sub, 'img.' + kind)
    if kind.lower() in ('jpg', 'jpeg'):
        kw = {'progressive': True} if seed % 3 == 1 else {}
        if seed % 4 == 2: kw['comment'] = b'a comment with \xff bytes'
        if seed % 5 == 3: kw['exif'] = b'Exif\0\0' + b'\0' * 40
        im.save(path, 'JPEG', **kw)
    else: im.save(path, 'PNG')
    _cache[key] = path
    return path

def gen(rng):
    kind = rng.choice(['jpg', 'jpg', 'png', 'jpeg'])
    mode = rng.choice(['RGB', 'L', 'CMYK'] if kind != 'png' else ['RGB', 'L', 'RGBA', 'P', '1'])
    return [kind, mode, rng.choice([1, 3, 8, 17, 40]), rng.choice([1, 2, 8, 19, 33]), rng.randint(0, 40)]
