"""Writes properties.jsonl and MANIFEST.json from one table (run after editing it)."""
import json
import pathlib

ROOT = pathlib.Path(__file__).resolve().parent.parent
T = 'runtime monitoring: '
TESTS = ('The existing tests draw a few random documents with fixed seeds and only check that nothing raises; no test reads the '
         'produced file back, so ')

P = []


def prop(id, title, statement, over, text, why, files, mechanism, technique, note, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=mechanism, technique=technique, note=note, state=state, observe=observe))


prop('C01', 'Every written file is a structurally sound PDF',
     'For every document the library accepts, the written bytes form a valid PDF file: header, cross-reference table with exact byte '
     'offsets for every object, trailer whose Size, Root and ID are right, stream lengths that reach endstream, and no reference to a '
     'missing object. Every page content stream parses into known operators with well-formed operands, balanced graphics-state and text '
     'brackets, and uses only fonts and images listed in that page\'s resources. Strings of any characters a font can show never corrupt '
     'the syntax around them.',
     ['inputs', 'configurations'],
     'all valid documents (text, tables, images, links, outlines, labels, running sections, footnotes, fonts), all strings, all object counts',
     TESTS + 'a wrong offset, length, escape or missing resource goes unnoticed.',
     ['pdfme/base.py', 'pdfme/parser.py', 'pdfme/page.py', 'pdfme/pdf.py', 'pdfme/utils.py', 'pdfme/text.py'],
     [('object offsets counted while writing', 'pdfme/base.py output'), ('escaping', 'pdfme/parser.py parse_obj, pdfme/text.py clean_words'),
      ('per-page resource registration', 'pdfme/page.py add_font, add_image')],
     'strict independent PDF reader over the bytes of randomly generated whole documents',
     'Held on the documents generated; trusts the independent reader. Latin-1 text and TrueType text through the bundled font.')

prop('C02', 'Objects survive being written: the file holds exactly the values added',
     'Any value stored in the low-level object container (dictionaries, arrays, strings, names, numbers, booleans, references, streams, '
     'nested to any depth) is read back equal from the written file, under the object number it was given. Streams decode to the bytes '
     'supplied whether compressed or not, and writing does not alter the stored values.',
     ['inputs'], 'all object graphs built from the supported value types, including strings with backslashes, parentheses, newlines and '
     'binary bytes, very small or large numbers, empty containers and streams',
     TESTS + 'the mapping from Python values to PDF syntax is never compared with anything.',
     ['pdfme/parser.py', 'pdfme/base.py', 'pdfme/encoders.py'],
     [('recursive serialiser', 'pdfme/parser.py parse_obj, parse_dict, parse_list, parse_stream'), ('stream encoding', 'pdfme/encoders.py')],
     'round-trip oracle: random object graphs written by the code, read back by an independent reader and compared',
     'Held on the object graphs generated; keys are PDF-safe names as the interface requires.')

prop('C03', 'Pages appear in order with the size, orientation and margins asked for',
     'The page tree lists exactly the pages added, in the order added, whatever their number, with correct counts and parent links. Each '
     'page has the size, rotation and margins in force when it was added (document defaults or the overrides of that page only), and '
     'content placed by default starts at that page\'s margins and stays inside them.',
     ['inputs', 'histories'], 'all sequences of page additions with any mix of named, numeric and tuple sizes, rotations, margin notations and setup changes',
     TESTS + 'page order, sizes and margins are never observed, and no test has enough pages to nest the page tree.',
     ['pdfme/pdf.py', 'pdfme/page.py', 'pdfme/utils.py'],
     [('page creation', 'pdfme/pdf.py add_page, setup_page'), ('page tree', 'pdfme/pdf.py _build_pages_tree'), ('margins', 'pdfme/utils.py parse_margin')],
     'operation sequences on the page interface checked against a sequential model of the page list',
     'Held on the operation sequences generated.')

prop('C04', 'Writing can fail, be retried and be repeated without damaging the document',
     'Writing the same document again gives a complete, equivalent file (same pages, content, destinations, outlines and identifiers), '
     'and content added between two writes shows up in the second one along with everything before. If the destination fails at any '
     'point of the writing, or the writing is interrupted while data is compressed or written, the exception reaches the caller and a later '
     'write still produces the complete file.',
     ['fault_sequences', 'crash_points', 'histories'],
     'every write call of the destination failing (also partially), every stream compression interrupted, any number of repeated writes, any additions in between',
     TESTS + 'each document is written once to a file that never fails.',
     ['pdfme/pdf.py', 'pdfme/base.py', 'pdfme/parser.py'],
     [('trees rebuilt at output time', 'pdfme/pdf.py output'), ('stream restored after encoding', 'pdfme/parser.py parse_stream')],
     'fault injection at every write call, then retry; logical content of repeated writes compared by the independent reader',
     'Enumerates every write call of each generated document as a failure point; equivalence is of page content and document structure.')

prop('C05', 'Labels become named destinations that lead to where the labelled text starts',
     'Every label drawn in the document can be looked up in the destination name tree, by any viewer that walks it, however many labels '
     'there are and whatever characters they contain. The destination is the page and position where the labelled text begins, also when '
     'that text flows over several lines, columns or pages. There are no destinations for labels that were never drawn.',
     ['inputs'], 'all label names and counts, positions, and splits of labelled text over lines, columns and pages',
     TESTS + 'labels are generated but never looked up; the name tree needs more than 7 and 49 labels to grow levels.',
     ['pdfme/pdf.py', 'pdfme/text.py'],
     [('destination recorded with the drawn rectangle', 'pdfme/pdf.py _add_text'), ('name tree', 'pdfme/pdf.py _build_dests_tree')],
     'viewer-style name-tree lookups compared with the drawn position of uniquely worded labelled text',
     'Held on the documents generated.')

prop('C06', 'Link areas cover exactly the drawn text of their link, with the right target',
     'Every piece of drawn text marked as a web link or as a reference to a label is covered by an active area on the same page that '
     'leads to exactly that address or label; text that is not part of the link is not covered. This holds for text split over lines, '
     'columns and pages, in tables, list items and justified, indented or aligned paragraphs.',
     ['inputs'], 'all texts with links and references, alignments, sizes, splits, containers and target strings',
     TESTS + 'link areas are never compared with where the text is.',
     ['pdfme/text.py', 'pdfme/pdf.py', 'pdfme/page.py'],
     [('rectangles collected while lines are drawn', 'pdfme/text.py add_line_to_stream'), ('annotations', 'pdfme/page.py add_annot')],
     'annotation rectangles of the written file compared with glyph positions computed from its content streams',
     'Held on the documents generated; tolerance 0.1 point plus trailing spaces.')

prop('C07', 'The outline mirrors the outline entries of the document',
     'The written outline contains each entry exactly once, in document order, nested according to the entries\' levels, with the given '
     'or the drawn title, and each entry leads to the page and position where its text begins. Sibling, parent, first/last and count '
     'links are consistent, with levels beyond the configured one shown closed.',
     ['inputs', 'configurations'], 'all sequences of entries with levels that deepen one step at a time, titles with any characters, text split over columns and pages, any configured open level',
     TESTS + 'the outline is never read back.',
     ['pdfme/pdf.py', 'pdfme/text.py'],
     [('entries collected as text is drawn', 'pdfme/pdf.py _add_text'), ('outline tree', 'pdfme/pdf.py _build_outlines_tree')],
     'outline tree of the written file compared with the tree computed from the input',
     'Held on the documents generated.')

prop('C08', 'Every word of every paragraph is drawn exactly once and in order',
     'All words of a text are drawn exactly once, unaltered and in reading order, whatever the styles, special characters, alignment, '
     'indentation or list marks, and however the text is broken over lines, columns, table rows and pages. Words separated in the input '
     'stay separated, words that are not stay joined even when their parts have different styles, and every newline starts a new line.',
     ['inputs'], 'all rich texts, paragraph styles, box shapes and page sizes',
     TESTS + 'a dropped or duplicated word at a line, column or page break is invisible to them.',
     ['pdfme/text.py', 'pdfme/content.py', 'pdfme/table.py', 'pdfme/pdf.py'],
     [('line filling and resume indices', 'pdfme/text.py PDFTextBase.run, add_part, add_current_line, set_state'),
      ('column balancing re-runs', 'pdfme/content.py PDFContentPart.reset')],
     'conservation and order of uniquely worded text read back from the drawn glyphs',
     'Held on the texts generated.',
     state=[('resume indices', 'part and word where the next rectangle starts', 'pdfme/text.py')])

prop('C09', 'Paragraph lines fit their box, fill it, and follow the alignment',
     'Every line lies inside the box given to the paragraph (single words wider than the box excepted), starts or ends where its '
     'alignment, indentation and list mark say (left, right, centred, or both edges for justified lines other than the last), and a new '
     'line is begun only when the next word does not fit. Successive lines are separated by the line height times the text size, with room for text raised or lowered, and '
     'text moves to the next column or page only when the next line does not fit in the height left.',
     ['inputs', 'configurations'], 'all texts, alignments, indents, list marks, line heights, sizes and box shapes, including paragraphs continued in further boxes',
     TESTS + 'positions of lines are never observed.',
     ['pdfme/text.py', 'pdfme/fonts.py'],
     [('line filling', 'pdfme/text.py PDFTextLine.add_word'), ('line placement', 'pdfme/text.py add_line_to_stream')],
     'glyph positions computed by the independent reader with AFM metrics compared with the paragraph box model',
     'Held on the paragraphs generated; tolerance 0.15 point; trusts the AFM width snapshot.')

prop('C10', 'Every character is drawn with the style the cascade gives it',
     'Each character appears in the font family, weight, slant, size, colour and vertical offset that result from the documented '
     'cascade: defaults, document or box style, enclosing parts from outside in, and within a part the style key before the style '
     'entry (given inline or by name). Underlines and backgrounds cover exactly the text whose cascaded style asks for them. Text fonts declare the encoding '
     'their text is written in, the symbol fonts keep their own. A style '
     'never leaks to neighbouring or later text.',
     ['inputs'], 'all nestings of styled parts, style notations (keys, dictionaries, named formats) and containers',
     TESTS + 'the drawn style is never compared with the one asked for.',
     ['pdfme/text.py', 'pdfme/utils.py', 'pdfme/content.py', 'pdfme/table.py', 'pdfme/color.py', 'pdfme/document.py'],
     [('cascade', 'pdfme/text.py _recursive_content_parse'), ('state changes emitted as differences', 'pdfme/text.py PDFState.compare')],
     'per-glyph graphics state from the content streams compared with an independent model of the cascade',
     'Held on the texts generated; standard fonts.')

prop('C11', 'Every element of a content box is drawn exactly once and in order',
     'All paragraphs, images, tables, groups and nested boxes of a content box are drawn completely, exactly once and in order, however '
     'they are split over columns and pages and however often columns are balanced. Only elements that are allowed to float (images and '
     'groups waiting for room) may be overtaken by the elements after them, and they too are drawn exactly once.',
     ['inputs'], 'all nestings of boxes with any column counts, element kinds and sizes, and page sizes',
     TESTS + 'lost or repeated elements are not noticed, which column balancing (draw, discard, redraw) makes likely.',
     ['pdfme/content.py', 'pdfme/pdf.py', 'pdfme/document.py'],
     [('delayed elements', 'pdfme/content.py add_delayed, add_elements'), ('column balancing', 'pdfme/content.py reset, start_resetting'), ('nested resume', 'pdfme/content.py next_section')],
     'conservation and order of uniquely identified elements (words, images, cell fills) read back from the file',
     'Held on the boxes generated.')

prop('C12', 'Columns and boxes keep their elements inside and apart',
     'Everything a content box draws lies inside one of its columns, whose number, width and gap are those asked for, and between the top '
     'and the bottom of the box on that page. Elements following one another in a column are separated by the margins asked for and never '
     'overlap, and left and right margins and the styles inherited from the box are respected. Lines of text are spread evenly over the columns: '
     'columns are full where the box goes on to another page, and on its last page none is more than a line longer than needed.',
     ['inputs', 'configurations'], 'all boxes, column counts, gaps, margins, element kinds and page sizes',
     TESTS + 'overlaps and overflows are invisible.',
     ['pdfme/content.py'],
     [('column geometry', 'pdfme/content.py setup, update_dimensions'), ('vertical cursor', 'pdfme/content.py process_text, process_image, process_table')],
     'positions of drawn glyphs, images and fills compared with the column model',
     'Held on the boxes generated; tolerance 0.15 point.')

prop('C13', 'Grouped elements are never separated by a column or page break',
     'The elements of a group are always drawn together, in order, in one column of one page, each exactly once. A group is '
     'moved on only when it does not fit in the room left, elements after it may be drawn before it meanwhile, and images with a minimum '
     'height are scaled between that height and the column width, so that the group fits.',
     ['inputs'], 'all groups of paragraphs, images and tables that fit in one column, at every vertical position, in one or more columns',
     TESTS + 'whether the group stayed together is not checked.',
     ['pdfme/content.py'], [('trial placement before drawing', 'pdfme/content.py process_group')],
     'page and column of each group member read back from the file', 'Held on the groups generated.')

prop('C14', 'Images keep their pixels, their proportions and their place',
     'An image is embedded once however often it is drawn, JPEG data byte for byte, with the right dimensions and colour space; other '
     'accepted formats show the same picture. Wherever it is drawn it keeps its proportions, has the width and position asked for or the '
     'width of its column, cell or page, is shrunk (never below its minimum height) only when there is no room, and content after it '
     'starts below or beside it as asked.',
     ['inputs'], 'all accepted images (sizes, colour modes, sources by path or stream), placements, columns, cells and style settings',
     TESTS + 'two fixed images are drawn and never looked at.',
     ['pdfme/image.py', 'pdfme/pdf.py', 'pdfme/page.py', 'pdfme/content.py', 'pdfme/table.py'],
     [('image parsing', 'pdfme/image.py'), ('placement', 'pdfme/pdf.py add_image, pdfme/content.py process_image')],
     'embedded image objects decoded and compared with generated source pictures; placement matrices compared with the model',
     'Held on the images generated; PNG pictures are compared within JPEG quality.')

prop('C15', 'Every table cell is drawn exactly once in its column, row order and span',
     'The content of every cell that is not hidden by a span is drawn completely and exactly once, inside the columns its cell spans and '
     'within the cell margins, rows in order from top to bottom and over as many pages as needed. Column widths follow the proportions '
     'given, cells of one row share their top, rows never overlap, and a cell spanning rows ends with the last row it spans.',
     ['inputs'], 'all tables, column widths, spans, cell contents (text, images, boxes, nested tables), heights and page sizes',
     TESTS + 'cell positions and completeness across page breaks are not observed.',
     ['pdfme/table.py', 'pdfme/content.py', 'pdfme/pdf.py'],
     [('row layout', 'pdfme/table.py add_row, add_cell'), ('spans', 'pdfme/table.py is_span'), ('delayed cells', 'pdfme/table.py run')],
     'uniquely worded and filled cells read back and compared with the column and row model',
     'Held on the tables generated; tolerance 0.15 point.')

prop('C16', 'Table borders and fills are drawn where and how they are specified',
     'Every border segment and cell background of a table is drawn with the width, colour and style that the last matching specification '
     'gives it (or the default), at the edges of the cells it names, and nowhere else. Zero-width borders and borders inside a span are not '
     'drawn, fills cover exactly their cell or span, and on every page a split table occupies the same holds for the rows shown there.',
     ['inputs'], 'all border and fill specifications with row and column selectors (single, lists, ranges, negative, stepped), spans and page breaks',
     TESTS + 'lines and fills are never read back.',
     ['pdfme/table.py', 'pdfme/utils.py'],
     [('border and fill lookup', 'pdfme/table.py setup_borders, setup_fills, parse_range_string'), ('merging of collinear lines', 'pdfme/table.py process_borders')],
     'painted lines and rectangles compared segment by segment with a grid model',
     'Held on the tables generated.')

prop('C17', 'Sections, page styles and running sections apply to the pages they name',
     'Each section starts on a new page with its own page size, orientation and margins, on all of its pages, and per-page entries change '
     'the style and running sections of exactly the pages they select. Every page carries exactly the running sections in force for it, '
     'each at its specified place and size, drawn in the order listed and never altering where the page\'s own content goes.',
     ['inputs', 'configurations'], 'all documents with several sections, per-page rules (indices, ranges, steps), running sections with any placement keywords',
     TESTS + 'one test draws running sections without checking on which pages they land.',
     ['pdfme/document.py', 'pdfme/pdf.py', 'pdfme/utils.py'],
     [('section loop', 'pdfme/document.py _process_section'), ('placement keywords', 'pdfme/document.py _set_running_sections'), ('page ranges', 'pdfme/utils.py parse_range_string')],
     'per-page observations (size, marker words and their positions) compared with an independent model of the document rules',
     'Held on the documents generated.')

prop('C18', 'Page numbers and variables show the right value wherever they are used',
     'A page number drawn on a page equals its position plus the offset in force, restarts where a reset is asked for, and is written in the '
     'numbering style in force there, in body text, tables and running sections alike. Any other variable shows the value supplied for the '
     'document, with an empty text when there is none.',
     ['inputs', 'configurations'], 'all documents with sections of different offsets, resets and styles, up to hundreds of pages, and any context values',
     TESTS + 'numbers drawn on pages are not read back.',
     ['pdfme/pdf.py', 'pdfme/document.py', 'pdfme/text.py', 'pdfme/utils.py'],
     [('page number in the context', 'pdfme/pdf.py page_index, get_page_number'), ('reset', 'pdfme/document.py _process_section')],
     'numbers and variable texts read back per page and compared with the model', 'Held on the documents generated.')

prop('C19', 'Each footnote is printed once, on the page of its mark, with its number',
     'Every footnote mark drawn on a page has its note printed in the footnote area at the bottom of the same page, exactly once, complete, '
     'and the notes of a page are numbered from 1 in the order of their marks, with the marks showing those numbers. The body text never '
     'overlaps the footnote area, and no text is lost or repeated because notes take room.',
     ['inputs'], 'all documents with footnotes anywhere in running text, lists, tables and columns, any number per page that fits',
     TESTS + 'there is no test with footnotes.',
     ['pdfme/document.py', 'pdfme/content.py', 'pdfme/text.py', 'pdfme/table.py'],
     [('two-pass page layout', 'pdfme/document.py _add_content, _process_footnotes')],
     'marks, note texts and positions read back per page', 'Held on the documents generated.')

prop('C20', 'TrueType text is embedded so that it is shown and read back faithfully',
     'Text set in a registered TrueType font is drawn with the glyphs of that font, laid out with its real widths, embedded in the file with '
     'matching width data, and extracts to the original characters. Regular, bold and italic requests use the files registered for '
     'them. Characters a font lacks do not break the document; fonts whose licence forbids embedding them are refused.',
     ['inputs'], 'all texts over the font\'s characters (including punctuation that needs escaping and non-Latin letters), styles, alignments and lists',
     TESTS + 'no test uses a TrueType font.',
     ['pdfme/fonts.py', 'pdfme/text.py', 'pdfme/utils.py'],
     [('glyph encoding', 'pdfme/fonts.py encode_text'), ('width table and character map', 'pdfme/fonts.py compute_char_widths, get_tounicode_cmap')],
     'text extraction and width tables of the written file compared with the font file read by fontTools',
     'Held on the texts generated with the bundled OpenSans fonts; trusts fontTools.')

prop('C21', 'Building leaves the input unchanged, and documents do not affect each other',
     'Building the same input again gives the same document, and structures shared between places or documents (styles, elements, '
     'paragraphs, footnotes, images) are drawn the same everywhere. Documents built one after the other, interleaved or in '
     'parallel threads in one process are identical to the same documents built alone.',
     ['histories', 'schedules', 'inputs'], 'all inputs, with any sharing of sub-structures, any interleaving of construction and any number of documents per process',
     TESTS + 'every input is used once, and one document at a time.',
     ['pdfme/document.py', 'pdfme/pdf.py', 'pdfme/content.py', 'pdfme/table.py', 'pdfme/fonts.py', 'pdfme/color.py'],
     [('copies of caller data', 'pdfme/utils.py copy'), ('per-document state', 'pdfme/pdf.py, pdfme/fonts.py')],
     'differential monitor: the same inputs built alone, repeatedly, with shared structures, interleaved and in threads, compared page by page',
     'Held on the histories generated; thread schedules are those of the CPython scheduler with a very short switch interval.')

prop('C22', 'The same input always produces the same document',
     'Building a document from the same input gives the same pages, drawing, links, destinations and outline in every run, whatever the hash '
     'seed of the process; only random identifiers may differ. In particular everything the input orders (sections, running sections, '
     'elements, formats) is drawn in that order.',
     ['configurations', 'inputs'], 'all inputs and all hash seeds',
     TESTS + 'they run in one process with a fixed hash seed and compare nothing.',
     ['pdfme/document.py', 'pdfme/pdf.py', 'pdfme/text.py'],
     [('ordered containers', 'pdfme/document.py, pdfme/text.py used_fonts')],
     'the same generated inputs built in processes with different hash seeds, painted content compared',
     'Held on the inputs and hash seeds tried.')

prop('C23', 'Colours, margins, sizes, styles, ranges and numerals mean what they say',
     'Every documented notation for a colour, a margin, a page size, an inline style string, a page or cell range and a roman '
     'page number is interpreted as documented, and equivalent notations give equal results. Invalid notations are rejected with an error instead of '
     'being given another meaning.',
     ['inputs'], 'all named and hexadecimal colours, number lists, margins of one to four parts in every notation, style strings, range strings, numerals 1 to 3999',
     TESTS + 'only a handful of notations ever occur.',
     ['pdfme/color.py', 'pdfme/utils.py', 'pdfme/table.py'],
     [('parsers', 'pdfme/color.py parse_color, pdfme/utils.py parse_margin, parse_style_str, parse_range_string, to_roman, get_page_size')],
     'reference interpreters run beside the real parsers on enumerated and random notations, and observation of the drawn result',
     'Colour names and numerals enumerated completely; the rest held on what was generated.')

prop('C24', 'Layout always finishes, and no page is wasted',
     'Any document whose elements fit a page or can be split is laid out in a bounded number of steps and pages; input that can never fit is '
     'reported with an error rather than producing pages without end. No page is added unless something is drawn on it.',
     ['inputs'], 'all documents, including elements exactly as large as the room left, larger than a column, and many columns and nestings',
     TESTS + 'an endless layout would need an unlucky combination of sizes that a few samples do not hit.',
     ['pdfme/content.py', 'pdfme/table.py', 'pdfme/text.py', 'pdfme/pdf.py', 'pdfme/document.py'],
     [('retry limits', 'pdfme/content.py process_image, process_group'), ('balancing by halving', 'pdfme/content.py reset')],
     'bounded progress: page and step budgets on adversarial sizes, and a marker count per page',
     'Restates termination as a step budget far above what the workload needs.')

prop('C25', 'Interrupted layouts resume exactly where they stopped',
     'A paragraph, table or content box laid out over any sequence of rectangles draws everything exactly once and in order, whatever the '
     'sizes of the rectangles, including ones too small for anything, and every part stays inside its rectangle, in columns of the width '
     'that rectangle gives them. Restoring a saved state and laying out again in the same rectangle draws the same as the first time, and continuing from it loses and repeats nothing.',
     ['histories', 'inputs'], 'all sequences of rectangles and of save, run and restore operations',
     TESTS + 'the resume interface is only used implicitly with equal page sizes.',
     ['pdfme/text.py', 'pdfme/table.py', 'pdfme/content.py'],
     [('saved state', 'get_state, set_state of the three layouts')],
     'operation histories (run, save, restore) replayed and the drawn words compared with the conservation model',
     'Held on the histories generated.')

prop('C26', 'Elements placed by hand lie where asked and move the position as asked',
     'A paragraph, table, content box or image placed directly on a page starts at the position given and keeps to the width and height given; what is left '
     'out is the position of the page, and the room from there to its margins. Afterwards the position has moved down by exactly the height used, right by '
     'the width, or not at all, as asked; new pages and beginnings are at the margins, elements that flow start at the left margin, and what was cut '
     'goes on in the next rectangle it is given, nothing lost or repeated.',
     ['histories', 'inputs'], 'all histories of placed elements, positions, sizes, moves and page changes',
     TESTS + 'elements are placed with defaults only.',
     ['pdfme/pdf.py', 'pdfme/page.py'],
     [('position and size defaults', '_position_and_size'), ('moves', '_text, _table, _content, add_image'), ('cursor', 'PDFPage')],
     'operation histories on the page interface replayed, positions and drawn items compared with a model of the cursor',
     'Held on the histories generated.')

prop('C27', 'Alignment, line height, indents and list marks reach the paragraphs they are for',
     'Every paragraph is laid out with the text_align, line_height, indent, list_text and list_indent given nearest to it: by itself, a named format, '
     'the table, group, box, section or running section around it, the arguments of PDF.text, or the defaults of the document, including defaults '
     'changed between elements. Lines are line_height times the font size apart, only the first is indented, all follow the alignment, and a list mark '
     'stands before the first line of its paragraph only.',
     ['inputs'], 'all nestings of paragraphs and all places where a paragraph setting can be given',
     TESTS + 'settings given outside the paragraph are hardly used.',
     ['pdfme/pdf.py', 'pdfme/content.py', 'pdfme/table.py', 'pdfme/document.py', 'pdfme/text.py'],
     [('defaults', 'pdf.py _default_paragraph_style, _default_content_style; document.py STYLE_PROPS'),
      ('cascade', 'content.py add_elements, process; table.py get_cell_style')],
     'the lines of every drawn paragraph are measured and compared with an independent cascade of the settings',
     'Held on the nestings generated.')


prop('C28', 'Malformed input is refused and leaves the rest of the document alone',
     'Input without a meaning is refused with an exception when it is added, wherever it stands: table rows without one cell per column, widths '
     'that are not one number per column, elements, texts, groups, styles, list settings and images of a wrong type, names of styles, fonts, colours, page '
     'sizes, line styles and running sections that nobody defined, files that are no images, filters that do not exist, documents without pages. '
     'Nothing of a refused document is written; a PDF that refused something goes on, and what was and is added to it is drawn complete, once, in order. '
     'The same input put right is accepted.',
     ['inputs', 'histories'], 'all documents and histories with a malformed value of the listed kinds anywhere in them',
     'No test offers malformed input: refusing it too late, too early, or silently dropping what cannot be read passes them.',
     ['pdfme/content.py', 'pdfme/table.py', 'pdfme/text.py', 'pdfme/image.py', 'pdfme/utils.py', 'pdfme/pdf.py', 'pdfme/base.py', 'pdfme/parser.py'],
     [('type checks', 'constructors and setters that raise TypeError or Exception'), ('row length', 'table.py add_row'),
      ('named things', 'utils.py process_style, get_page_size; fonts.py get_font; pdf.py')],
     'every document and history is offered malformed and put right; the refusal, the bytes written and the words of all that was not malformed are monitored',
     'Held on the malformed values generated.')


def main():
    with open(ROOT / 'properties.jsonl', 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['id']
            anchors = {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mechanism']]}
            if p['state']:
                anchors['state'] = [dict(zip(('name', 'meaning', 'where'), s)) for s in p['state']]
            anchors['observe_at'] = list(p['observe']) or ['bytes of the written file']
            anchors['hook_needed'] = None
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                                'quantifier': {'over': p['over'], 'text': p['text']},
                                'why_tests_cant': p['why'], 'anchors': anchors}) + '\n')
    checks = []
    na = []
    for p in P:
        if (ROOT / 'vf' / 'props' / (p['id'].lower() + '.py')).exists():
            checks.append({
                'property': p['id'], 'quick_cmd': 'VERIF_TIER=quick ./check ' + p['id'],
                'thorough_cmd': 'VERIF_TIER=thorough ./check ' + p['id'],
                'technique': T + p['technique'],
                'level': 'fault_enumeration' if p['id'] == 'C04' else 'exploration',
                'level_note': p['note']})
        else:
            na.append({'property': p['id'], 'reason': 'check not built yet'})
    m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
         'notes': 'No hooks in /repo: monitors observe the written bytes and the public interface. Known defects: known_findings.txt.'}
    (ROOT / 'MANIFEST.json').write_text(json.dumps(m, indent=1) + '\n')
    print(len(checks), 'checks,', len(na), 'not built')


main()
