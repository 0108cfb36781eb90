S=[]
def seed(id,prop,file,old,new,needs,breaks,demo): S.append((id,prop,file,old,new,needs,breaks,demo))

seed('c01-size-second-write','C01','base.py',"        self.trailer['Size'] = self.count\n","        self.trailer.setdefault('Size', self.count)\n",
"the document is written, more objects are added, and it is written again","the trailer keeps the Size of the first writing, so the Size and the cross-reference table of the second file disagree",'''
import pdfme
pdf = pdfme.PDF()
for i in range(2):
    pdf.add_page()
    pdf.text('page %d' % i)
    data = written(pdf)
    size = int(re.search(rb'/Size (\\d+)', data[data.rindex(b'trailer'):]).group(1))
    n = int(re.search(rb'\\nxref\\n0 (\\d+)\\n', data).group(1))
    assert size == n, (size, n)
''')
seed('c02-negative-in-array','C02','parser.py',"        if not ret[0] in [b'/', b'(', b'<'] and i != 0: bytes_ += b' '\n","        if not ret[:1] in [b'/', b'(', b'<', b'-'] and i != 0: bytes_ += b' '\n",
"an array with a negative number after a number","the numbers are written without a separator (1-2), which a reader takes as one token",'''
from pdfme.parser import parse_obj
for v in ([1, -2], [0.5, -0.25, 3], [[1], -1, {'a': -1}], {'k': [7, -7, -8]}):
    t = parse_obj(v).decode('latin')
    n = re.findall(r'[^\\s\\[\\]<>/a-z]+', t)
    flat = lambda o: [x for e in (o.values() if isinstance(o, dict) else o) for x in (flat(e) if isinstance(e, (list, dict)) else [e])]
    assert [float(x) for x in n] == [float(x) for x in flat(v)], t
''')
seed('c02-length-kept','C02','parser.py',"    obj['Length'] = len(stream)\n","    obj.setdefault('Length', len(stream))\n",
"a stream object written once is changed and written again","the stream has the Length of the first serialization",'''
import pdfme
pdf = pdfme.PDF()
pdf.add_page()
pdf.text('one')
for i in range(2):
    data = written(pdf)
    for m in re.finditer(rb'/Length (\\d+)[^>]*>>stream\\n', data):
        n = int(m.group(1))
        assert data[m.end() + n:m.end() + n + 10] == b'\\nendstream', n
    pdf.text('two, with some more text in the page')
''')
seed('c03-two-backslashes','C03','text.py',"        text = ''.join(word for word in words)\n","        text = ''.join(word.replace('\\\\\\\\', '\\\\') for word in words)\n",
"a text with two backslashes together","a backslash of the text is not shown",'''
import pdfme
pdf = pdfme.PDF()
pdf.add_page()
pdf.text(r'C:\\dir \\\\server\\share end')
got = ' '.join(words(pdf.pages))
assert got == r'C:\\dir \\\\server\\share end', got
''')
seed('c04-resume-in-other-part','C04','text.py',"            self.last_word = self.last_word_line\n            return False\n","            self.last_word = self.last_word_line if (\n                self.last_part_line == self.last_part_added) else 0\n            return False\n",
"a paragraph of several parts, and the line that doesn't fit ends in a part after the one where it starts","the paragraph is resumed at the beginning of the part, and its words are shown again",'''
import pdfme
par = {'.': ['a%d ' % i + 'b%d c%d d%d ' % (i, i, i) if i % 2 else {'.b': 'e%d f%d g%d ' % (i, i, i)} for i in range(60)]}
want = ' '.join(x if isinstance(x, str) else x['.b'] for x in par['.']).split()
for h in range(120, 200, 7):
    pdf = pdfme.PDF(page_size=(200, h), margin=20)
    pdf.add_page()
    pdf.text(par)
    assert words(pdf.pages) == want, h
''')
seed('c05-height-of-raised-part','C05','text.py',"            if part.state.rise > 0 and part.state.rise > top:\n","            if part.state.rise > top and part.state.size >= height_:\n",
"a line with a raised part smaller than the parts before it","the height of the line doesn't include the rise: lines overflow the height given and overlap the previous ones",'''
import pdfme
pdf = pdfme.PDF(page_size=(400, 400), margin=20)
pdf.add_page()
sup = lambda: {'.': 'sup', 'style': {'s': 6, 'r': 2.5}}
t = pdf._text({'.': [x for i in range(30) for x in ('base%d ' % i, sup(), ' ')]}, width=100, height=120, x=20, y=20)
es = texts(pdf.page)
ys = sorted({e['y'] for e in es}, reverse=True)
assert 2 <= len(ys) < 12, ys
for e in es:
    # the top of a raised text is below the previous line
    above = [y for y in ys if y > e['y']]
    top = e['y'] + e['rise'] + e['size']
    if above: assert top <= min(above) + .2, (top, above)
''')
seed('c06-rise-leaks','C06','text.py',"        if other is None or self.rise != other.rise:\n","        if self.rise != (0 if other is None else other.rise):\n",
"a paragraph that ends in a raised part, followed by another paragraph in the same page","the rise stays set in the content stream, and the next paragraph is shown raised",'''
import pdfme
pdf = pdfme.PDF()
pdf.add_page()
pdf.text('plain')
pdf.text({'.': ['x', {'.s:7;r:0.5': '2'}]})
pdf.text('again')
r = {e['s'].strip(): e['rise'] for e in texts(pdf.page)}
assert r['plain'] == 0 and r['again'] == 0 and abs(r['2'] - 3.5) < .01, r
''')
seed('c07-justified-decorations','C07','text.py',"            x += part_width\n","            x += part.current_width()\n",
"a justified line with a link, background or underline after a part with spaces","the decorations are placed as if the spaces were not stretched, away from their text",'''
import pdfme
pdf = pdfme.PDF()
pdf.add_page()
par = lambda al: pdf._text({'.': ['aa bb cc ', {'.bg:yellow': 'marked'}, ' dd ee ff gg hh ii jj kk ll mm nn oo pp qq rr ss tt uu vv ww xx yy zz ' * 3]},
    width=155, height=300, text_align=al)
t = par('j')
es = draw(pdf.page)
i = next(k for k, e in enumerate(es) if e['k'] == 'text' and e['s'].strip() == 'marked')
r = [e for e in es if e['k'] == 'rect'][0]
# where the text before it ends
first = es[i - 1]
f = pdf.fonts.get_font('Helvetica', 'n')
x = sum(f.get_text_width(es[k]['s']) * 11 + es[k]['s'].count(' ') * es[k]['tw'] for k in range(i) if es[k]['k'] == 'text' and abs(es[k]['y'] - es[i]['y']) < .01)
assert abs(es[i]['tw']) > .05, 'the line is not stretched'
assert abs(r['x'] - first['x'] - x) < .1, (r['x'], first['x'] + x)
''')
seed('c08-mediabox-order','C08','pdf.py',"                page_size = [page.width, page.height]\n","                page_size = sorted([page.width, page.height])\n",
"a page wider than high","the page is written with its width and height swapped",'''
import pdfme
pdf = pdfme.PDF(page_size='a5')
sizes = [(419.528, 595.276), (300, 300), (595.276, 419.528), (500, 200)]
pdf.add_page(); pdf.add_page(page_size=300); pdf.add_page(rotate_page=True); pdf.add_page(page_size=(500, 200))
data = written(pdf)
got = [tuple(float(x) for x in m.group(1).split()[2:]) for m in re.finditer(rb'/MediaBox ?\\[([^\\]]*)\\]', data)]
assert sorted(got) == sorted(sizes), got
''')
seed('c09-limits-third-level','C09','pdf.py',"                obj['Limits'][1] = key if first_level else val[1]\n","                obj['Limits'][1] = key if first_level else val[0]\n",
"more than 49 labels in the document, so that the tree of destinations has three levels","the upper limits of the intermediate nodes are wrong, and a reader doesn't find the last labels of each of them",'''
import pdfme
for n in (5, 30, 60, 120):
    pdf = pdfme.PDF()
    pdf.add_page()
    for i in range(n): pdf.text({'.': 'x', 'label': 'l%03d' % i})
    written(pdf)
    objs = pdf.base.content
    def find(node, key):
        node = node.value
        if 'Names' in node: return key in node['Names'][::2]
        for k in node['Kids']:
            lo, hi = pdf.base[k]['Limits']
            if lo <= key <= hi: return find(pdf.base[k], key)
        return False
    root = pdf.base[pdf.root['Names']['Dests']]
    for i in range(n): assert find(root, 'l%03d' % i), (n, i)
''')
seed('c10-open-descendants','C10','pdf.py',"                    count += count_\n","                    count += len(children)\n",
"open outlines of three levels or more","the counts of visible descendants are wrong",'''
import pdfme
pdf = pdfme.PDF(outlines_level=4)
pdf.add_page()
for l in (1, 2, 3, 3, 4, 2, 1, 2, 3):
    pdf.text({'.': 'o', 'outline': {'level': l, 'text': 'level %d' % l}})
written(pdf)
root = pdf.base[pdf.root['Outlines']].value
def visible(o):
    """visible descendants of an open outline, checking the counts"""
    n, k = 0, o.get('First')
    while k is not None:
        c = pdf.base[k].value
        n += 1 + (visible(c) if 'First' in c else 0)
        k = c.get('Next')
    assert o['Count'] == n, (o.get('Title'), o['Count'], n)
    return n
assert visible(root) == 9
''')
seed('c11-dash-of-width','C11','utils.py',"            if line_style != last_line_style:\n                last_line_style = line_style\n","            if g['style'] != last_line_style:\n                last_line_style = g['style']\n",
"two dashed or dotted lines one after the other with different widths","the second line is painted with the dashes of the first",'''
from pdfme.utils import create_graphics
from pdfme.color import PDFColor
import pdfme
pdf = pdfme.PDF()
pdf.add_page()
line = lambda w, s: dict(type='line', x1=0, y1=0, x2=9, y2=9, width=w, style=s, color=PDFColor(0, True))
ls = [line(1, 'dashed'), line(3, 'dashed'), line(3, 'dotted'), line(2, 'dotted'), line(2, 'solid')]
pdf.page.add(create_graphics(ls))
got = [(e['w'], e['d']) for e in draw(pdf.page)]
want = []
for l in ls:
    pdf2 = pdfme.PDF(); pdf2.add_page(); pdf2.page.add(create_graphics([l]))
    want += [(e['w'], e['d']) for e in draw(pdf2.page)]
assert got == want, (got, want)
''')
seed('c12-borders-merged','C12','table.py',"        return all(a[attr] == b[attr] for attr in ['width', 'color', 'style'])\n","        return all(a[attr] == b[attr] for attr in ['width', 'color'])\n",
"neighbouring cells whose borders only differ in the style of the line","the border of the second cell is drawn with the style of the first one",'''
import pdfme
pdf = pdfme.PDF(page_size=400, margin=20)
pdf.add_page()
pdf.table([['a', 'b', 'c'], ['d', 'e', 'f']], borders=[{'pos': 'h1;1', 'style': 'dashed'}, {'pos': 'v0;1', 'style': 'dotted'}])
styles = {e['d'] for e in draw(pdf.page) if e['k'] == 'line'}
assert len(styles) == 3, styles
''')
seed('c13-wide-rowspan','C13','table.py',"            self.colspan = rowspan_memory['cols']\n","            self.colspan = min(1, rowspan_memory['cols'])\n",
"a cell with rowspan, and colspan of three or more","the cells of the next rows under the third column of the span are rendered over it",'''
import pdfme
pdf = pdfme.PDF()
pdf.add_page()
pdf.table([['a', {'.': 'span', 'rowspan': 2, 'colspan': 3}, 'no1', 'no2', 'b'], ['c', 'no3', 'no4', 'no5', 'd'], ['e', 'f', 'g', 'h', 'i']])
got = sorted(words(pdf.pages))
assert got == sorted('a span b c d e f g h i'.split()), got
''')
seed('c14-right-margin','C14','content.py',"            s.get('margin_left', 0) - s.get('margin_right', 0)\n","            s.get('margin_left', 0) - s.get('margin_left', 0)\n",
"elements with different left and right margins","the width of the element is wrong, so it goes out of its column or doesn't use it",'''
import pdfme
for n in (1, 2):
    for ml, mr in ((0, 0), (30, 0), (0, 30), (10, 40)):
        pdf = pdfme.PDF(page_size=400, margin=20)
        pdf.add_page()
        pdf.content({'content': [{'table': [['a']], 'style': {'margin_left': ml, 'margin_right': mr}}], 'cols': {'count': n, 'gap': 20}})
        xs = [x for e in draw(pdf.page) if e['k'] == 'line' for x in (e['x1'], e['x2'])]
        w = 360 if n == 1 else 170
        assert abs(min(xs) - 20 - ml) < .5 and abs(max(xs) - 20 - w + mr) < .5, (n, ml, mr, min(xs), max(xs))
''')
seed('c15-table-state-shared','C15','table.py',"'delayed': copy(self.delayed)\n        }","'delayed': self.delayed\n        }",
"the state of a table is saved when a cell continues in the next page, and the table goes on before the state is used","the state saved changes with the table, so restoring it loses the rest of the cells",'''
import pdfme
rows = [['one'], [' '.join('a%d' % i for i in range(300))], ['c']]
pdf = pdfme.PDF(page_size=(300, 140), margin=20)
pdf.add_page()
t = pdf._table(rows)
def plain(o):
    if isinstance(o, dict): return {k: plain(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)): return [plain(v) for v in o]
    return o if isinstance(o, (str, int, float)) else type(o).__name__
states = []
while not t.finished:
    st = t.get_state()
    states.append((st, plain(st)))
    pdf.add_page()
    t = pdf._table(t, width=pdf.page.content_width, height=pdf.page.content_height, x=20, y=20)
assert len(states) > 2
for st, before in states:
    assert plain(st) == before, (plain(st), before)
''')
seed('c16-same-name','C16','image.py',"                self.image_name = str(image)\n","                self.image_name = image.name\n",
"two images with the same file name in different directories, given as paths","the second image is not embedded, the first one is drawn in its place",'''
import pdfme, tempfile, pathlib, shutil
from PIL import Image
d = pathlib.Path(tempfile.mkdtemp())
try:
    for n, c in (('a', 0), ('b', 255)):
        (d / n).mkdir()
        Image.new('L', (10, 5 + c // 50), c).save(str(d / n / 'im.jpg'))
    pdf = pdfme.PDF()
    pdf.add_page()
    pdf.image(d / 'a' / 'im.jpg', width=50)
    pdf.image(d / 'b' / 'im.jpg', width=50)
    pdf.image(d / 'a' / 'im.jpg', width=50)
    hs = [o['Height'] for o in pdf.base.content if isinstance(o.value, dict) and o.value.get('Subtype') == b'/Image']
    assert sorted(hs) == [5, 10], hs
    ims = [e['name'] for e in draw(pdf.page) if e['k'] == 'image']
    assert ims[0] == ims[2] != ims[1], ims
finally: shutil.rmtree(str(d))
''')
seed('c17-margins-kept','C17','pdf.py',"        margin_ = copy(self.margin)\n","        margin_ = self.margin\n",
"a page added with its own margins, followed by another page added without them","the margins of one page become the ones of the document",'''
import pdfme
pdf = pdfme.PDF(page_size=400, margin=(40, 50, 60, 70))
pdf.add_page()
pdf.add_page(margin={'left': 5, 'top': 6})
p = pdf.page
assert (p.margin_left, p.margin_top, p.margin_right, p.margin_bottom) == (5, 6, 50, 60)
pdf.add_page()
p = pdf.page
assert (p.margin_left, p.margin_top, p.margin_right, p.margin_bottom) == (70, 40, 50, 60), (p.margin_left, p.margin_top)
assert (p.x, p.y) == (70, 40), (p.x, p.y)
''')
seed('c18-offset-zero','C18','document.py',"        if 'page_numbering_offset' in section_style:\n","        if section_style.get('page_numbering_offset'):\n",
"a section with numbering offset 0 after a section that has another offset","the offset of the previous section goes on, so the page numbers of the section are wrong",'''
import pdfme
doc = {'style': {'page_size': 300, 'margin': 30}, 'formats': {}, 'running_sections': {'f': {'x': 30, 'y': 5, 'width': 100, 'height': 20, 'content': [{'.': ['n', {'var': '$page'}]}]}},
    'sections': [{'style': {'page_numbering_offset': o}, 'running_sections': ['f'], 'content': ['.']} for o in (10, 0, -2, 0)]}
d = pdfme.PDFDocument(doc)
d.run()
got = [''.join(words([p])[:2]) for p in d.pdf.pages]
assert got == ['n11', 'n2', 'n1', 'n4'], got
''')
seed('c19-empty-flag','C19','utils.py',"                if value == '1':\n","                if value in '1':\n",
"a style string with a flag followed by a colon and nothing","an invalid style is read as true instead of rejected",'''
from pdfme.utils import parse_style_str
from pdfme.fonts import PDFFonts
f = PDFFonts()
assert parse_style_str('b:1;i:0', f) == {'b': True, 'i': False}
for s in ('b:', 'u: ', 's:9;i:', 'b:2'):
    try: r = parse_style_str(s, f)
    except ValueError: continue
    raise SystemExit('%r is read as %r' % (s, r))
''')
seed('c20-widths-decreasing','C20','fonts.py',"            elif (current_glyph_id - prev_glyph_id) != 1:\n","            elif abs(current_glyph_id - prev_glyph_id) != 1:\n",
"an added font where the glyph of a character comes right before the one of the previous character","the widths declared for these glyphs are the ones of others",'''
import pdfme, tempfile, shutil
from pdfme.fonts import PDFFont, PDFFonts
d = tempfile.mkdtemp()
try:
    for chars in ('abcdef', 'fedcba', 'bacdfe'):
        ttf(d + '/f.ttf', chars)
        PDFFont.register('Demo', 'n', d + '/f.ttf')
        fonts = PDFFonts()
        f = fonts.get_font('Demo', 'n')
        w = f.compute_char_widths()
        got = {}
        for first, l in zip(w[::2], w[1::2]):
            for i, x in enumerate(l): got[first + i] = x
        for i, c in enumerate(chars):
            assert abs(got[i + 1] - f.get_char_width(c) * 1000) < .01, (chars, c, got)
finally: shutil.rmtree(d)
''')
