S=[]
def seed(id,prop,file,old,new,needs,breaks,demo): S.append((id,prop,file,old,new,needs,breaks,demo))
seed('c21-hundred-notes','C21','document.py',"                index = int(id_[10:])\n","                index = int(id_[10:12])\n",
"a document with more than 100 footnotes","the notes after the first hundred are those of other references",'''
import pdfme
els = [{'.': ['ref%d# ' % i, {'footnote': 'note%d.' % i}, ' some text']} for i in range(130)]
doc = pdfme.document.PDFDocument({'style': {'page_size': [300, 320], 'margin': 20}, 'sections': [{'content': els}]})
doc.run()
shown = []
for page in doc.pdf.pages:
    s = ''.join(e['s'] for e in texts(page))
    refs, got = re.findall(r'ref(\\d+)#', s), re.findall(r'note(\\d+)\\.', s)
    assert refs == got, (refs, got)
    shown += got
assert shown == [str(i) for i in range(130)], shown
''')
seed('c09-page-of-label','C09','pdf.py',"                    self.page.page.id, b'/XYZ', round(x_ref, 3),\n","                    self.pages[-1].page.id, b'/XYZ', round(x_ref, 3),\n",
"a label in text added to a page that is not the last one (page_index)","the label leads to the last page",'''
import pdfme
pdf = pdfme.PDF(page_size=300, margin=20)
for i in range(3):
    pdf.add_page()
    pdf.text({'.': 'page %d' % i, 'label': 'page%d' % i})
for i in (1, 0, 2):
    pdf.page_index = i
    pdf._text({'.': 'foot %d' % i, 'label': 'foot%d' % i}, x=20, y=250)
for k in ('page', 'foot'):
    for i in range(3): assert pdf.dests['%s%d' % (k, i)][0] == pdf.pages[i].page.id, (k, i, pdf.dests)
''')
seed('c13-cell-at-part','C13','table.py',"        return pdf_text.current_height, pdf_text.finished\n","        return pdf_text.current_height, (\n            pdf_text.finished or\n            pdf_text.last_word == 0 and pdf_text.current_height > 0\n        )\n",
"the text of a cell is divided between two pages after a line break","the rest of the text of the cell is lost",'''
import pdfme
for n in range(1, 5):
    for h in range(40, 200, 7):
        parts = ['\\n'.join(' '.join('w%d.%d' % (i, j) for j in range(n)) for i in range(24))]
        pdf = pdfme.PDF(page_size=(300, h + 40), margin=20)
        pdf.add_page()
        pdf.table([[{'.': parts}, 'other']])
        got = sorted(w for w in words(pdf.pages) if w[0] == 'w')
        want = sorted('w%d.%d' % (i, j) for i in range(24) for j in range(n))
        assert got == want, (n, h, set(want) - set(got))
''')
seed('c12-fill-over-lines','C12','pdf.py',"        self._add_graphics([*pdf_table.fills, *pdf_table.lines])\n","        self._add_graphics([*pdf_table.lines, *pdf_table.fills])\n",
"a table with wide borders and filled cells","half of every border is under the fills of the cells",'''
import pdfme
pdf = pdfme.PDF(page_size=300, margin=20)
pdf.add_page()
pdf.table([['a', 'b'], ['c', 'd']], style={'border_width': 6}, fills=[{'pos': '0', 'color': 'red'}, {'pos': '1;1', 'color': 'blue'}])
kinds = [e['k'] for e in draw(pdf.pages[0]) if e['k'] != 'text']
assert kinds.count('rect') == 3 and kinds[:3] == ['rect'] * 3, kinds
''')
