"""Writes /verif/properties.jsonl (kept as a script so that the statements are easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append({'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
        'anchors': {'files': ['pdfme/' + f for f in files],
            'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in state],
            'mechanism': [dict(zip(('name', 'where'), m)) for m in mech],
            'observe_at': observe, 'hook_needed': None}})
SMOKE = ('The tests only run a few sample documents to completion and never parse the file that was written; ')

prop('C01', 'Every written document is a structurally valid PDF file',
 'The written file starts with the PDF header, every object is defined exactly at the byte offset its cross-reference entry gives, all entries are present and 20 bytes long, startxref points at the cross-reference table, and the trailer has the right Size. '
 'This holds for any number of objects of any content and size, and for a document that is written more than once. '
 'Every indirect reference found in a written document leads to an object defined in it.',
 ['inputs', 'histories'], 'all sequences of objects added to a document, all byte lengths, repeated output',
 SMOKE + 'offsets depend on the byte length of every preceding object, so only an argument over all objects settles it.',
 ['base.py', 'parser.py', 'pdf.py'],
 [('PDFBase.output accumulates offsets', 'base.py: output'), ('object numbering', 'base.py: add')],
 ['bytes written by PDF.output / PDFBase.output'],
 [('count', 'number of the next object / running byte offset', 'base.py')])

prop('C02', 'Serialized objects read back as the values they were given',
 'Any nesting of dictionaries, arrays, strings, names, numbers, booleans, references and streams is written so that a PDF reader gets back an equal value, never merging adjacent tokens, and numbers are always in plain decimal notation. '
 'A stream has a Length equal to the bytes written and decodes, through its filter if any, to exactly the data given. '
 'Serializing an object does not alter it, so serializing it again gives the same bytes.',
 ['inputs'], 'all nestings of the supported value types (text of characters 0-255), all streams',
 'Tests compare no serialized bytes; nesting depth, token adjacency and every special character in strings are unbounded inputs.',
 ['parser.py', 'encoders.py', 'utils.py'],
 [('parse_obj dispatch by type', 'parser.py'), ('escape_string', 'utils.py'), ('parse_stream', 'parser.py')],
 ['bytes returned by parse_obj'])

prop('C03', 'Shown strings decode to exactly the characters of the text',
 'Whatever characters a text has (parentheses, backslashes, line ends, any character its font supports), the strings shown in the page, decoded with the font selected at that point, give exactly those characters. '
 'Text in a standard font is one byte per character, and text in an added TrueType font is two-byte glyph ids, whichever fonts surround it. '
 'This also holds for list markers, link text, table cells and running sections.',
 ['inputs'], 'all texts, all mixes of fonts and styles in a paragraph',
 'Tests use plain samples and never decode a content stream; the encoding depends on every character and on the font state at that point.',
 ['text.py', 'utils.py', 'fonts.py'],
 [('escape_string / clean_words', 'utils.py, text.py'), ('encode_text', 'fonts.py'), ('output of line parts', 'text.py: PDFTextLinePart')],
 ['content streams of the pages'])

prop('C04', 'No text is lost, repeated or reordered across lines and pages',
 'The words shown over all the lines, rectangles, columns and pages a paragraph flows through are exactly the words of its text, once each and in order, for all widths, heights, fonts and styles. '
 'Laying out the remainder returned for a paragraph that did not fit continues exactly at the first word not shown. '
 'Line breaks in the text start new lines.',
 ['inputs', 'histories'], 'all texts, rectangles and sequences of rectangles that a paragraph is resumed in',
 SMOKE + 'which word ends a line or a page depends on the text, the font widths and the rectangle.',
 ['text.py', 'pdf.py', 'content.py'],
 [('PDFTextLine.add_word statuses', 'text.py'), ('PDFText.run / add_current_line / remaining state', 'text.py')],
 ['content streams of the pages', 'result of running a paragraph'],
 [('last_part, last_word', 'position where a paragraph is resumed', 'text.py')])

prop('C05', 'Text lines stay inside the rectangle they are laid out in',
 'No line of a paragraph is wider than the rectangle less its indents, except a line that has a single word which does not fit by itself, and justified lines that end because the next word does not fit span the width available. '
 'The sum of the heights of the lines, with their spacing, never exceeds the height of the rectangle, and the reported height and width cover the lines shown. '
 'A word is moved to the next line only when it does not fit.',
 ['inputs'], 'all texts, styles, alignments, indents and rectangles',
 SMOKE + 'overflow depends on accumulated widths of arbitrary words in arbitrary fonts.',
 ['text.py'],
 [('add_word width test', 'text.py: PDFTextLine'), ('height test of add_current_line', 'text.py: PDFText')],
 ['paragraph results', 'positions in the content streams'])

prop('C06', 'Every word is shown with the style given to it',
 'Each word is shown with the font, size, colour and rise of the part of the paragraph it belongs to, and its background, underline, link or label are those of that part only. '
 'The state kept while writing a content stream never lets the style of one part, line, paragraph or list marker apply to another.',
 ['inputs'], 'all sequences of styled parts, broken into any lines and pages',
 SMOKE + 'the stream only has the differences between consecutive styles, so correctness depends on the whole sequence.',
 ['text.py', 'utils.py', 'color.py'],
 [('delta encoded text state', 'text.py: PDFTextLinePart / PDFState'), ('style inheritance', 'text.py: PDFTextBase')],
 ['graphics state at every text showing operator of the content streams'])

prop('C07', 'Text, decorations and alignment are placed where the layout says',
 'Every line starts at the horizontal position of its alignment (left, right, center or justified, with its indents and list space) and each line baseline is one line height below the previous one. '
 'Backgrounds, underlines, links and labels coincide with the text they belong to. '
 'Nothing in a paragraph is displaced when it is resumed in another rectangle.',
 ['inputs'], 'all texts, alignments, indents, list styles and rectangles',
 SMOKE + 'positions are written as differences to the previous ones, so an error in one line moves all the others.',
 ['text.py', 'utils.py'],
 [('line positions', 'text.py: PDFText.build / PDFTextLine'), ('get_paragraph_stream', 'utils.py')],
 ['text and rectangle positions in the content streams', 'link rectangles and destinations'])

prop('C08', 'The page tree holds every page once with the resources it uses',
 'Reading the page tree of a written document gives exactly the pages added, in order, each with the size it was created with and the right Count and Parent. '
 'Every font and image name used in the content of a page is defined in the resources of that page, and leads to the font or image requested.',
 ['inputs', 'histories'], 'all sequences of pages and content added to a document',
 SMOKE + 'names are assigned per document and per page and depend on the history of all content added.',
 ['pdf.py', 'page.py', 'fonts.py'],
 [('add_page / _build_pages_tree', 'pdf.py'), ('add_font / add_image', 'page.py')],
 ['page tree and content streams of the written file'])

prop('C09', 'Named destinations, references and links lead where they were asked to',
 'Every label of a document is in the destinations tree exactly once, under a tree whose keys are sorted and whose limits are right for any number of labels, and leads to the page and position where the label is. '
 'Every reference and every link in a text is a rectangle over that text, in its page, that opens the label or address given. ',
 ['inputs', 'histories'], 'all numbers of labels, references and links over any pages',
 SMOKE + 'the tree has several levels only when there are many labels.',
 ['pdf.py', 'page.py', 'text.py'],
 [('_build_dests_tree', 'pdf.py'), ('add_reference / add_link', 'page.py'), ('ids of parts', 'text.py')],
 ['Names, Dests and Annots of the written file'])

prop('C10', 'The outlines tree mirrors the outlines requested',
 'The outlines of the written document are exactly the ones requested, in document order, nested by their levels, with consistent first, last, next, previous and parent links. '
 'The counts of visible descendants are right for open and closed outlines, and each one leads to the text it was requested in.',
 ['inputs', 'histories'], 'all sequences of outlines with levels that go one level deeper at most at a time',
 SMOKE + 'links and counts depend on the whole sequence of levels.',
 ['pdf.py', 'text.py'],
 [('_build_outlines_tree', 'pdf.py')],
 ['Outlines of the written file'])

prop('C11', 'Graphics are painted exactly as requested whatever came before them',
 'For any list of lines and filled rectangles, the stream produced paints each of them, in order, at its position, with its own colour, width and dash style, whatever the others were. '
 'It leaves the graphics state as it was.',
 ['inputs'], 'all lists of graphics of any length',
 'No test reads the stream; only differences between consecutive graphics are written, so the guarantee is about all sequences.',
 ['utils.py', 'color.py'],
 [('create_graphics', 'utils.py'), ('PDFColor.__str__ / __eq__', 'color.py')],
 ['string returned by create_graphics interpreted as a content stream'])

prop('C12', 'Table cells, borders and fills are placed on the grid of the table',
 'Columns have widths proportional to the ones requested and fill the width of the table, every row is as high as its highest cell, and the content of a cell is inside it less its margins. '
 'Borders and fills of a cell, row, column or whole table selected by a style or a position string are drawn on the sides and areas of the cells selected, and only on those.',
 ['inputs'], 'all tables, widths, margins, border and fill definitions',
 SMOKE + 'the grid depends on every cell content and the drawn segments on all neighbouring definitions.',
 ['table.py', 'utils.py'],
 [('process_borders / parse_pos_string', 'table.py'), ('setup / run', 'table.py'), ('compare_borders', 'table.py')],
 ['parts, lines and fills of a table', 'content streams'])

prop('C13', 'Every table cell is rendered exactly once, spans included',
 'The content of every cell of a table is rendered exactly once, complete and in its row and column, whatever the heights available in the pages it is divided into. '
 'A cell with spans covers its rows and columns, and the cells covered by it are not rendered. '
 'A row that does not fit continues in the next page.',
 ['inputs', 'histories'], 'all tables, spans and sequences of rectangles a table is divided into',
 SMOKE + 'rows are divided at positions that depend on the content of all cells and on the space left.',
 ['table.py', 'pdf.py'],
 [('add_row / is_span / delayed cells', 'table.py'), ('process_child', 'table.py')],
 ['content streams', 'parts of a table'],
 [('current_index, delayed', 'row to continue at and cells divided', 'table.py')])

prop('C14', 'Content boxes keep their elements in order inside their columns',
 'A content box places its elements top to bottom and column by column, in the order given (an image or group placed in flow that does not fit may go after the elements that follow it), each once, without overlapping and inside the columns and the rectangle given. '
 'Columns are equally wide and separated by the gap requested, and an element starts below the previous one by the margins requested. The elements of a group are shown together, in one column.',
 ['inputs', 'histories'], 'all contents, columns, margins and rectangles, nested or not',
 SMOKE + 'column filling depends on the heights of all elements and on the space left.',
 ['content.py'],
 [('PDFContentPart columns and cursor', 'content.py'), ('get_min_x, start, next_section', 'content.py')],
 ['positions of the parts of a content box', 'content streams'])

prop('C15', 'A saved layout state resumes exactly where it was saved',
 'Saving the state of a paragraph, table or content box that was not completely laid out, and restoring it in another one built from the same definition, continues with exactly what was not laid out. '
 'The state saved is not changed by what is done afterwards, and the result is the same as the one of an uninterrupted layout over the same rectangles.',
 ['histories', 'inputs'], 'all definitions and all points where a layout is saved and restored',
 'No test restores a state and compares the results; states depend on the history of rectangles.',
 ['text.py', 'table.py', 'content.py'],
 [('get_state / set_state', 'text.py, table.py, content.py')],
 ['result of the resumed layout'])

prop('C16', 'Images keep their proportions, their place and their data',
 'An image is drawn with the proportions of its pixels, not wider than the space it was given, completely inside the rectangle where it is placed and below what precedes it. '
 'The image object has the width, height, depth, colour space and bytes of the image file. '
 'Drawing the same image any number of times uses a single image object, and different images use different ones.',
 ['inputs', 'histories'], 'all image sizes, spaces and sequences of images',
 SMOKE + 'sizes depend on the image and on the space left in the page.',
 ['image.py', 'page.py', 'pdf.py', 'content.py', 'table.py'],
 [('parse_jpg', 'image.py'), ('add_image', 'page.py, pdf.py, content.py')],
 ['image objects and drawing operators of the written file'])

prop('C17', 'Page sizes, margins and the cursor follow the page geometry',
 'A page has the size, orientation and margins asked for, its content area is the page less its margins, and its cursor starts at the top left corner of that area. '
 'Content added at the cursor starts there, moves it down by the height used, and goes on in a new page, with the geometry set for the document, when it does not fit.',
 ['inputs', 'histories'], 'all page sizes, margins and sequences of content',
 SMOKE + 'the cursor depends on everything added before.',
 ['page.py', 'pdf.py', 'utils.py'],
 [('PDFPage.y / go_to_beginning', 'page.py'), ('setup_page, add_page, _add_text, _add_parts', 'pdf.py'), ('parse_margin, get_page_size', 'utils.py')],
 ['MediaBox and positions in the written file', 'cursor of the page'])

prop('C18', 'Page numbers, page ranges and running sections apply to the right pages',
 'The page number shown in a page is its position counting from the offset requested, in arabic or in roman numerals, the roman numeral of every number between 1 and 3999 being the canonical one. '
 'A page range selects exactly the pages it denotes. '
 'Headers, footers and other running sections, and styles per page range, are applied once to each of the pages they were requested for and to no other.',
 ['inputs', 'configurations'], 'all numbers, range strings and document definitions',
 'Tests check neither the roman numerals nor the ranges beyond a sample, and never read the running sections of a page.',
 ['utils.py', 'document.py', 'pdf.py', 'text.py'],
 [('to_roman, parse_range_string', 'utils.py'), ('per_page, running_sections', 'document.py'), ('get_page_number', 'pdf.py')],
 ['result of the functions', 'content streams of each page'])

prop('C19', 'Styles, colours and margins mean what their definition says',
 'Every documented form of a style string, colour or margin is understood as the values it denotes, for all numbers, names and combinations of attributes, and an invalid one is rejected instead of misread. '
 'A colour is written as the operator and components of its colour space, in the stroking or in the filling form as it is used.',
 ['inputs', 'configurations'], 'all style strings, colours and margins of the documented forms',
 'Tests have a few sample strings; the forms combine freely.',
 ['utils.py', 'color.py', 'text.py'],
 [('parse_style_str, parse_margin', 'utils.py'), ('parse_color, PDFColor', 'color.py')],
 ['results of the functions', 'colour operators in streams'])

prop('C20', 'Font objects describe the fonts used and documents are independent',
 'The widths a font object declares for the glyphs of an added font are the widths the layout used, its map to Unicode gives back the characters of the text, and the font file embedded is the one added. '
 'Creating or writing a document never changes what another document of the same process contains.',
 ['inputs', 'histories'], 'all fonts (any mapping of characters to glyphs), all sequences of documents in a process',
 'Tests never read font objects and do not compare documents created one after another.',
 ['fonts.py', 'pdf.py'],
 [('compute_char_widths, get_tounicode_cmap, add_font', 'fonts.py'), ('PDFFonts per document', 'fonts.py')],
 ['font objects of the written file'])

prop('C21', 'Footnotes stand at the foot of the page of their reference, in order',
 'Every page of a document shows, over its bottom margin and under its content, exactly the footnotes referred to in that page, complete, once each, in the order of their references, '
 'and numbered from 1 in each page with the number shown at the reference. Making room for them loses, repeats or reorders nothing of the content of the page, and their definitions are not changed.',
 ['inputs', 'histories'], 'all documents with footnotes in texts, tables and columns, of all sizes (an error is raised if the notes of a page do not fit in it)',
 'A page is laid out twice, the second time in what its notes leave free, and its references may change between both; tests only compare a file written once.',
 ['document.py'],
 [('_add_content, _process_footnotes, _check_footnote, _get_footnotes_obj, _traverse_document_footnotes', 'document.py')],
 ['content streams of each page'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
