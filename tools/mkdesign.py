import re,glob,collections,json,subprocess
d=collections.defaultdict(list)
for f in sorted(glob.glob('/verif/contracts/*.py')):
    s=open(f).read()
    for m in re.finditer(r'@contract\(\s*(.*?)\)\s*\ndef',s,re.S):
        t=m.group(1); n=re.match(r"['\"](.*?)['\"]",t)
        for p in sorted(set(re.findall(r"C\d\d",t))): d[p].append(n.group(1))
L=json.load(open('/verif/levels.json'))
def short(x): return re.sub(r'PDFContentPart','Part',x)
T={
'C01':"""What a reader needs to find the objects of a file is the postcondition of `PDFBase.output`: a loop invariant over any number of objects
says that the bytes written so far contain object `k` at the offset in entry `k`, and that entries are 20 bytes. `add`, `PDFRef` and `PDFObject`
give the reference that `output` writes. References that lead nowhere can only come from outside (`PDF.output` itself only uses references it gets from `add`).
Bounded beside it: whole files of every kind of content, re-read from the bytes, written more than once.""",
'C02':"""Structural induction: `parse_obj` is verified for each type with the calls for nested values replaced by its own contract ("the bytes are
one object equal to the value, and do not change it"), `parse_dict`, `parse_list` and `parse_stream` by invariants over any number of entries.
That adjacent tokens never merge follows from the separators every composite writes before each entry. Texts: the image of every one of the 65536+
code points under the chained replaces is computed, so that reading back is decided for all texts. Numbers: both branches of the
formatting, `Decimal` assumed.""",
'C03':"""`encode_text` and `escape_string` by the image of every character; the line writer by an invariant over the words of a line; that the font used for
the bytes is the one selected by the `Tf` in force is an obligation about the interpreted stream (`stream.py`), for any two consecutive parts. The map to Unicode
is read back from its text for any number of characters (blocks of at most 100). List markers are texts of the first line (`setup_list`).""",
'C04':"""`add_word`/`add_current_line`/`run` with an invariant: words shown + words kept = words given, in order, at every point of the loops over parts,
words and lines; the state saved is the position of the first word not shown, and `init` with that state continues there. Columns and pages: `process_text` of content
boxes and tables, and `PDF._text`, hand the remainder on unchanged. The composition (that one function's "remainder" is the next one's input over pages) is checked by the bounded part.""",
'C05':"""The width of a word is the sum of the widths of its glyphs (any non negative function of characters, with `sum` as a monotone function); a word is added to a line
only if the line with it is not wider than the width left, and is taken as line on its own only when the line is empty. Heights: a line is shown only when the bottom of the line is in the rectangle;
the sum of heights is the invariant of `run`.""",
'C06':"""Styles of nested texts (`_recursive_content_parse`, induction over the nesting) are the merge of those of the ancestors; the state written between two parts is compared
field by field: the graphics state after the operators is the one of the second part whatever the first was.""",
'C07':"""`add_line_to_stream` gives the position of each line for all alignments; word spaces of justified lines so that words and spaces add up to the width; rectangles of underline, background, link from
the positions of their first and last word, by an invariant over the parts of a line.""",
'C08':"""`_build_pages_tree` by induction over the levels of the tree (a loop invariant over the pages of a level; the contract of the next level is used for the recursive call): order, `Count`, `Parent`, limits of the number
of children. Resources: each `Tf`/`Do` name in the streams comes from `add_font`/`add_image` of that page.""",
'C09':"""`_build_dests_tree` likewise: sorted keys, `Limits` of every node are the first and last names under it. `_add_text` writes one annotation for each rectangle of each id, and a destination for each label.""",
'C10':"""`_build_outlines_tree` by structural induction over the outlines: links between neighbours, `Count` with the sign of open or closed; `_add_text` puts every outline in the list of its level.""",
'C11':"""The stream of `create_graphics` is interpreted symbolically, in a loop invariant over any number of lines and fills: after each element the graphics state is the one the code believes it is, and the element was painted with its own.""",
'C12':"""Grammar of positions: every text accepted denotes a set of cells by Python's slice semantics (`_maps.py`), and fills/borders select that set. Rows: heights by invariant over columns; rectangles by sums of column fractions.
Borders: which of two neighbouring cells wins, segments merged only if equal.""",
'C13':"""For a row with any number of columns and any pattern of spans in force: one of (rendered, covered by a span) for each cell; delayed cells are kept with their column and continue; a row is complete when none is delayed.""",
'C14':"""All methods of the layout of boxes are under contract: an element is placed below the previous one plus margins, the columns, the next column, sections, flowing images and groups, bisection to balance columns (assuming layouts are
monotone in the height).""",
'C15':"""`get_state`/`state` give copies (ghost identity of the objects is compared) and `set_state`/`init` make the loops start from them. Equality with an uninterrupted layout is checked by the bounded part.""",
'C16':"""JPEG segments of any number by an invariant over the bytes read, according to ITU T.81; sizes in each of the five places where images are drawn.""",
'C17':"""Arithmetic of pages and margins for all forms, cursor before and after each of `text`, `table`, `content`, `image`, continuing in new pages by invariant.""",
'C18':"""`to_roman` for its whole domain (every number), ranges of lists of any length; sections of documents by loop invariants over sections, pages, ranges and names.""",
'C19':"""Style strings with any number of attributes, each attribute in all its forms; the number and the text of a colour symbolic.""",
'C20':"""Arrays of widths and maps to Unicode for any set of glyphs; independence: what is shared between documents (module and class level objects, default values, definitions given by the user) is compared before and after by the frame conditions of the contracts.""",
'C21':"""The two passes of a page (layout with the whole height, then with the height left by the notes), the search of the references in each part, numbering and the box of notes, each by an invariant over any number of notes.""",
}
out=['','## 2. The properties','',"""Every function of `/repo/pdfme` has been put under contract, except abstract methods, `__iter__`/`__str__`/`__repr__`, `_trailer_id`, `PDFRef.__new__`,
the inlined helpers of the roman numerals and `MuiltiRange.__init__` (executed as part of the functions that use them). The number of obligations and the solver time of a run are in `/verif/evidence`.
Properties with level *proof* follow from contracts of few functions; for the others (level *other*) every function is proved, the contracts are composed by hand, as described, and the composition is
checked within a bound on whole documents (never counted as proved).""",'']
for p in map(json.loads,open('/verif/properties.jsonl')):
    i=p['id']
    out+=['### %s. %s (%s)'%(i,p['title'],L[i]['level']),'',T[i].replace('\n',' '),'','Contracts: '+'; '.join('`%s`'%short(x) for x in d[i])+'.','']
    a=[x for x in L[i]['assumptions'] if not x.startswith(('floats are','partial corr','the contracts of the f','the reader of'))]
    if a: out+=['Assumed: '+'; '.join(a)+'.','']
out.append(r'''(`Part` stands for `PDFContentPart`.)

### Assumptions of all contracts

Termination only of the while loops with a variant (`variant` in a loop specification: not negative, decreases in each iteration): `Part.add_elements`, `Part.add_delayed`, the rows of `PDFTable.run`, `PDF._build_dests_tree` and its levels, the segments of `parse_jpg`; other loops are over lists that do not grow, except the ones below. Real arithmetic for floats. Models of `zlib.compress`, `Decimal`, `struct.unpack`, `str.encode`, `split`, `strip`, `partition`, `float(text)`, `int(text)`, `re.match` for the expressions in use;
fontTools, Pillow and the file system are trusted (their objects are symbolic). Sums of widths are an uninterpreted monotone function. Python slices of ranges are modelled by their definition.

### Not covered

* Termination of the loops that add pages while content is left (`PDF._text`, `_table`, `content`, `_process_section`) and of the retries of `process_child`. Two cases are known where a layout never ends: a line or an image higher than an empty page.
* Wording of errors and warnings; `tempfile` names; printing to `stdout`.

## 3. What was found

### Defects repaired

''')
K=json.load(open('/verif/known_findings.json'))
fx=K if isinstance(K,list) else K.get('fixed',K.get('findings',[]))
prop={}
for x in fx:
    s=json.dumps(x); m=re.search(r'(C\d\d)',s); c=re.search(r'\b([0-9a-f]{7,40})\b',s)
    if m and c: prop[c.group(1)[:7]]=m.group(1)
log=subprocess.run(['git','-C','/repo','log','--reverse','--format=%h %s','d41a999..HEAD'],capture_output=True,text=True).stdout.split('\n')
for l in log:
    if l.strip():
        h,s=l.split(' ',1); out.append('* `%s` %s %s'%(h,prop.get(h,'?'),s[5:]))
out.append(r'''
All are listed as `fixed:` in `known_findings.json`; there are no open findings that a check suppresses.

### Oddities that are not violations

Excluded by the wording of a property or by the preconditions of contracts and generators, because the library documents them, or because no statement about them can be derived from its documentation:

* paragraphs: a line (or image) higher than an empty page is tried for ever; words wider than a column overflow; the trailing space counts in the alignment of last lines; blank lines are about 1.2 pt high; `line_height` of a first line is added in points;
  words of only whitespace become a space; double spaces between parts are kept mid-line; glyph ids in the surrogate range; non latin-1 texts in standard fonts raise `UnicodeEncodeError`.
* tables: `PDFTable([])` has no size; a first row whose cells are all empty takes a rectangle; cells that do not fit, or are empty, add 4 pt to rows.
* boxes: flowing elements go after the ones that follow; margins in the style of a box are inherited by its children; `min_height` 0 in groups divides by zero; balancing columns by bisection assumes monotone layouts; the `tries` counter is kept in the definitions given by the user (exception after 20 tries).
* documents: running sections that do not fit are dropped; `page_numbering_style` persists to later sections; footnotes too large for a page raise; reference dictionaries used in two documents keep their ids; incomplete margin dictionaries raise `KeyError`;
  new pages use the defaults of the document and not the arguments of the last `add_page`; an outline of level 2 without one of level 1 raises `IndexError`.
* low level: keys and names are not escaped; numeric colour components out of 0..1; rgba colours raise; a second `PDF.output` adds new trees (valid); font files embedded contain a time stamp; PNG files are converted to JPEG, CMYK JPEG are not inverted; `r:inf` is accepted as rise.

### False alarms corrected

* C09: overlapping links of two parts of the same line were required to be disjoint; touching rectangles share rounding: compared with tolerance.
* C14: an element in flow that does not fit can be placed after the following ones: the statement says so now.
* C12/C13: the 4 pt of cells that did not fit are allowed.
* C17: the first line of a paragraph starts `line_height` lower (documented oddity).
* C21: a planted bug that needed ids without rectangles was withdrawn, ids never have none.

## 4. Tests of the machinery

**Planted bugs** (`seeded/`): written from the statements, each confirmed with its demonstration; found by the check of its own property (quick tier).

''')
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m=json.load(open(f)); out.append('* `%s` (%s): %s. Needs %s.'%(f.split('/')[-2],m['property'],m['what_it_breaks'].rstrip('.'),m['needs'].rstrip('.')))
out.append(r'''
**Mutation campaigns**: for every module, series of breaking changes and of refactorings (helpers extracted, statements reordered, loops rewritten) were applied to copies. Breaking changes missed by the contracts led to new obligations until what was left were equivalent changes;
refactorings that raised an alarm led to contracts that find values by their role, or to undecided instead of refuted. About 170 refactorings of all modules leave every contract discharged or undecided. `tools/mutate.py` makes systematic changes (statements deleted, loops, conditions, numbers, comparisons) of a function.
''')
s=open('/verif/DESIGN.md').read(); s=s.split('\n## 2. ')[0].rstrip()+'\n'
open('/verif/DESIGN.md','w').write(s+'\n'.join(out)+'\n')
