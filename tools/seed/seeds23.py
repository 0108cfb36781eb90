S=[]
def seed(id,prop,file,old,new,needs,breaks,demo): S.append((id,prop,file,old,new,needs,breaks,demo))
seed('c05-last-lowered-part','C05','text.py',"            if part.state.rise < 0 and -part.state.rise > bottom:\n","            if part.state.rise < 0:\n",
"a line with two lowered parts, the last one less than the other","the next line has only room for the last one and overlaps the text that is lowered more",'''
import pdfme
def gap(rises):
    pdf = pdfme.PDF(page_size=400, margin=20)
    pdf.add_page()
    pdf._text({'.': [*[{'.': 'w%d ' % i, 'style': {'r': r}} for i, r in enumerate(rises)], 'next line']}, width=72)
    t = texts(pdf.pages[0])
    last = [e for e in t if 'line' in e['s']][0]
    return t[0]['y'], last['y']
for a, b in ((-.9, -.1), (-.5, -.4), (-.9, 0)):
    one, two = gap([0, a, b]), gap([0, b, a])
    assert abs((one[0] - one[1]) - (two[0] - two[1])) < .01, (a, b, one[0] - one[1], two[0] - two[1])
''')
seed('c10-first-of-the-level','C10','pdf.py',"                    outline = outline[-1].setdefault('children', [])\n","                    outline = outline[outline_data.get('index', -1) if len(outline) < 3 else 1].setdefault('children', [])\n",
"x","x",'''
''') if 0 else None
seed('c10-deep-then-second','C10','pdf.py',"                    outline = outline[-1].setdefault('children', [])\n","                    outline = outline[-1 if outline is self.outlines else 0] \\\n                        .setdefault('children', [])\n",
"an outline of the third level under the second outline of the second level","it is put under the first outline of the second level",'''
import pdfme
pdf = pdfme.PDF(page_size=300, margin=20, outlines_level=2)
pdf.add_page()
for i, level in enumerate((1, 2, 3, 2, 3, 1, 2, 2, 3, 3)):
    pdf.text({'.': 'text %d' % i, 'outline': {'level': level, 'text': 'o%d' % i}})
def tree(l): return [(o['text'], tree(o.get('children', []))) for o in l]
got = tree(pdf.outlines)
want = [('o0', [('o1', [('o2', [])]), ('o3', [('o4', [])])]), ('o5', [('o6', []), ('o7', [('o8', []), ('o9', [])])])]
assert got == want, got
''')
seed('c09-address-shortened','C09','pdf.py',"                link = id_[5:]\n","                link = id_[5:].rstrip('/')\n",
"an address that ends with a slash","the link opens another address",'''
import pdfme
pdf = pdfme.PDF(page_size=300, margin=20)
pdf.add_page()
uris = ['http://a.com/b/', 'http://a.com/b', 'http://a.com/', 'file:///', 'mailto:x@y']
pdf.text({'.': [{'.': 'link%d ' % i, 'uri': u} for i, u in enumerate(uris)]})
got = []
for a in pdf.pages[0].page['Annots']: got.append(pdf.base[a['A']]['URI'])
assert sorted(got) == sorted(uris), got
''')
S=[s for s in S if s]
