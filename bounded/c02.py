"""C02 on the real code: random nestings of values, read back by an independent parser."""
from common import *
import base64
import zlib
import pdfread

RULE = ('random nestings (depth up to 5) of all the supported types, with every character 0-255 in strings, numbers of all '
    'magnitudes and streams, plain, filtered and already encoded; read back by an independent parser; distinct by the value')

def b64(b): return base64.b64encode(b).decode()

def fixed():
    for c in range(256):
        yield ['l', [['s', chr(c)], ['s', 'a' + chr(c) + 'b'], ['s', chr(c) * 2], ['s', '\\' + chr(c)], ['s', '(' + chr(c)], ['s', chr(c) + ')'], ['s', chr(c) + '1']]]
    atoms = [['i', 0], ['i', 7], ['i', -3], ['f', 0.5], ['f', -2.25], ['b', True], ['b', False], ['n', 'Name'], ['s', 'txt'], ['s', ''], ['r', 5],
        ['l', []], ['l', [['i', 1]]], ['d', {}], ['d', {'K': ['i', 1]}], ['h', 'a0ff'], ['t', [['i', 2]]], ['o', ['n', 'X']]]
    for a in atoms:
        yield a
        for b in atoms:
            yield ['l', [a, b]]
            yield ['d', {'A': a, 'B': b}]
    for e in range(-30, 31, 3):
        yield ['l', [['f', 10.0 ** e], ['f', -1.2345678 * 10.0 ** e], ['f', 1.0]]]
    yield ['l', [['i', 10 ** 20], ['i', -(10 ** 17)], ['f', 1e22], ['f', 5e-324], ['f', 1.7e308], ['f', -0.0], ['f', 1e16], ['f', 123456789.125]]]
    for d in (b'', b'a', b'endstream\nendobj', b'\n', b'\r\n', bytes(range(256)), b'x' * 5000):
        for f in (0, 1, 2):
            yield ['S', {'K': ['i', 1]}, [b64(d)], f]
            yield ['S', {}, [b64(d), b64(b'-'), b64(d)], f]
            yield ['S', {}, [b64(d)], f, 7]

NAMES = ['A', 'Type', 'Kids', 'F1', 'X', 'Length1', 'K_2', 'Im-3', 'a.b', 'Z0', 'Count']

def value(rng, depth):
    t = rng.random()
    if depth <= 0 or t < .55:
        k = rng.choice('iiffbnsssrh')
        if k == 'i': return ['i', rng.choice([0, 1, -1, rng.randint(-10 ** 6, 10 ** 6), rng.randint(-10 ** 18, 10 ** 18)])]
        if k == 'f':
            return ['f', rng.choice([0.0, 1.5, -0.001, rng.uniform(-1000, 1000), rng.uniform(-1, 1) * 10 ** rng.randint(-25, 25), round(rng.uniform(-99, 99), 3)])]
        if k == 'b': return ['b', rng.random() < .5]
        if k == 'n': return ['n', rng.choice(NAMES)]
        if k == 'r': return ['r', rng.randint(1, 5000)]
        if k == 'h': return ['h', bytes(rng.randrange(256) for i in range(rng.randint(0, 4))).hex()]
        n = rng.randint(0, 8)
        pool = ['()', '\\', '\r', '\n', '\t', '\r\n', '123', 'abc', ' ', '<', '>', '%', '/', '[', ']', '\0', '\x7f', '\xff', 'é', '\\n', '\\(', '\\1']
        return ['s', ''.join(rng.choice(pool) if rng.random() < .6 else chr(rng.randrange(256)) for i in range(n))]
    if t < .78:
        k = rng.choice('lltoe' if depth > 1 else 'llt')
        if k == 'o': return ['o', value(rng, depth - 1)]
        if k == 'e': return ['e', [['i', rng.randint(0, 9)]]]
        return [k, [value(rng, depth - 1) for i in range(rng.randint(0, 5))]]
    return ['d', {k: value(rng, depth - 1) for k in rng.sample(NAMES, rng.randint(0, 5))}]

def gen(rng, size):
    if rng.random() < .3:
        d = value(rng, 2)
        d = d[1] if d[0] == 'd' else {}
        d.pop('Length1', None)
        parts = [bytes(rng.randrange(256) for i in range(rng.choice([0, 1, 3, 20, 200]))) for i in range(rng.randint(1, 3))]
        return ['S', d, [b64(p) for p in parts], rng.randrange(3)] + ([rng.choice([0, 3, 99999])] if rng.random() < .4 else [])
    return value(rng, min(5, 1 + size // 2))

def build(v):
    """(object for pdfme, value a reader must get)"""
    from pdfme.parser import PDFRef, PDFObject
    k = v[0]
    if k == 'i': return int(v[1]), int(v[1])
    if k == 'f': return float(v[1]), float(v[1])
    if k == 'b': return v[1], v[1]
    if k == 'n': return ('/' + v[1]).encode(), pdfread.Name(v[1])
    if k == 's': return v[1], v[1].encode('latin')
    if k == 'r': return PDFRef(v[1]), pdfread.Ref(v[1])
    if k == 'h': return ('<' + v[1] + '>').encode(), bytes.fromhex(v[1])
    if k in ("l", "t", "e"):
        a = [build(x) for x in v[1]]
        o = [x[0] for x in a]
        return {'l': list, 't': tuple, 'e': set}[k](o), [x[1] for x in a]
    if k == 'o':
        a, b = build(v[1])
        return PDFObject(PDFRef(3), a), b
    if k == 'd':
        a = {n: build(x) for n, x in v[1].items()}
        return {n: x[0] for n, x in a.items()}, {n: x[1] for n, x in a.items()}

def equal(a, b):
    if isinstance(b, (pdfread.Ref, pdfread.Name)) or isinstance(a, (pdfread.Ref, pdfread.Name)):
        return type(a) == type(b) and a == b
    if isinstance(b, bool) or isinstance(a, bool): return a is b
    if isinstance(b, list): return isinstance(a, list) and len(a) == len(b) and all(map(equal, a, b))
    if isinstance(b, dict): return isinstance(a, dict) and a.keys() == b.keys() and all(equal(a[k], b[k]) for k in b)
    if isinstance(b, (int, float)): return isinstance(a, (int, float)) and (a == b or isinstance(b, float) and float(a) == b)
    return type(a) == type(b) and a == b

def snapshot(o):
    from pdfme.parser import PDFObject
    if isinstance(o, PDFObject): return ('o', snapshot(o.value))
    if isinstance(o, dict): return ('d', sorted((k, repr(snapshot(v))) for k, v in o.items() if k != 'Length'))
    if isinstance(o, (list, tuple)): return (type(o).__name__, [snapshot(x) for x in o])
    return (type(o).__name__, repr(o))

def run(case):
    from pdfme.parser import parse_obj, PDFObject, PDFRef
    if case[0] == 'S':
        d = {n: build(x) for n, x in case[1].items()}
        obj = {n: x[0] for n, x in d.items()}
        want = {n: x[1] for n, x in d.items()}
        parts = [base64.b64decode(p) for p in case[2]]
        data = b''.join(parts)
        f = case[3]
        if f == 2: parts = [zlib.compress(data)]
        obj['__stream__'] = parts[0] if len(parts) == 1 else {i: p for i, p in enumerate(parts)}
        if f: obj['Filter'] = b'/FlateDecode'
        if f == 2: obj['__skip_filter__'] = True
        if len(case) > 4: obj['Length'] = case[4]       # what another serialization left
        before = snapshot(obj)
        ret = parse_obj(PDFObject(PDFRef(1), obj))
        need(isinstance(ret, bytes), 'not bytes')
        lx = pdfread.Lexer(ret)
        got = lx.obj()
        need(isinstance(got, dict), 'not a dictionary')
        rest = ret[lx.i:]
        need(rest.startswith(b'stream\n') and rest.endswith(b'\nendstream'), 'stream keywords %r', rest[:40])
        raw = rest[7:-10]
        need(got.pop('Length', None) == len(raw), 'Length is not %d', len(raw))
        if f:
            need(got.pop('Filter', None) == 'FlateDecode', 'Filter')
            need(zlib.decompress(raw) == data, 'the stream does not decode to the data')
        else: need(raw == data, 'the stream is not the data: %r', raw[:60])
        need(equal(got, want), 'dictionary %r instead of %r', got, want)
        need(snapshot(obj) == before, 'the object was altered')
        need(parse_obj(PDFObject(PDFRef(1), obj)) == ret, 'the second serialization is different')
        if f < 2:
            obj['__stream__'] = b'other data' + data
            ret = parse_obj(PDFObject(PDFRef(1), obj))
            lx = pdfread.Lexer(ret)
            d2 = lx.obj()
            raw = ret[lx.i:][7:-10]
            need(d2.get('Length') == len(raw) and ret.endswith(b'\nendstream'), 'Length after the data of the stream changed')
            need((zlib.decompress(raw) if f else raw) == b'other data' + data, 'the data of the stream changed, it is written as %r', raw[:60])
        return repr(case)
    o, want = build(case)
    before = snapshot(o)
    ret = parse_obj(o)
    need(isinstance(ret, bytes), 'not bytes')
    lx = pdfread.Lexer(ret)
    got = lx.obj()
    lx.ws()
    need(lx.i == len(ret), 'text after the value: %r', ret[lx.i:][:40])
    need(equal(got, want), '%r reads back as %r instead of %r', ret[:200], got, want)
    need(snapshot(o) == before, 'the object was altered')
    need(parse_obj(o) == ret, 'the second serialization is different')
    return repr(case)
