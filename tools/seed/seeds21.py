S=[]
def seed(id,prop,file,old,new,needs,breaks,demo): S.append((id,prop,file,old,new,needs,breaks,demo))
DEMO='''
import pdfme
def notes(page):
    """(number, note) of the notes of a page, and (reference, number) of its references"""
    s = ' '.join(e['s'] for e in texts(page))
    s = re.sub(r'\\s+', ' ', s)
    return re.findall(r'(\\d+) note(\\d+)', s), re.findall(r'ref(\\d+) ?# ?(\\d+)', s)
for extra in range(30):
    els = [{'.': ['word '] * 5 * extra}] if extra else []
    for i in range(12):
        els.append({'.': ['some text before ', 'ref%d#' % i, {'footnote': 'note%d is here' % i}, ' and more text ' * 8]})
    doc = pdfme.document.PDFDocument({'style': {'page_size': [300, 220], 'margin': 20}, 'sections': [{'content': els}]})
    doc.run()
    shown = []
    for page in doc.pdf.pages:
        got, refs = notes(page)
        assert [n for n, k in got] == [str(n + 1) for n in range(len(got))], got
        assert [(k, n) for n, k in got] == refs, (extra, got, refs)
        shown += [k for n, k in got]
    assert shown == [str(i) for i in range(12)], shown
'''
seed('c21-notes-of-first-layout','C21','document.py',"            self.pdf._content(self.section, height=new_height)\n\n            footnotes_obj = self._process_footnotes()\n","            self.pdf._content(self.section, height=new_height)\n",
"a page whose last references go to the next page when room is made for the notes","the notes of references that are not in the page are shown in it",DEMO)
seed('c21-number-in-document','C21','document.py',"                self.pdf.context[id_] = len(page_footnotes)\n","                self.pdf.context[id_] = max(\n                    len(page_footnotes), self.pdf.context[id_]\n                ) if index and self.pdf.context[id_] != '0' else len(page_footnotes)\n",
"a reference that goes to the next page when room is made for the notes","the reference keeps the number it had in the page where it was not shown",DEMO)
