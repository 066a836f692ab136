"""More planted bugs."""
from defs import seed

seed('split-part-fonts', 'C01',
     [('text.py', """        self.current_line_used_fonts.add((
            new_line_part.state.font_family,
            new_line_part.state.font_mode
        ))
""", """        if self.last_word == 0:
            self.current_line_used_fonts.add((
                new_line_part.state.font_family,
                new_line_part.state.font_mode
            ))
""")],
     'a paragraph split between two pages in the middle of a part whose font nothing else on the second page uses',
     'the second page uses a font that its resources do not name',
     r'''
from pdfme import PDF
pdf = PDF(page_size=(200, 200), margin=20)
pdf.add_page()
pdf.text({'.b;f:Times': 'word ' * 200})
for p in pdf.pages:
    used = set(re.findall(r'/(F\d+) \S+ Tf', stream(p)))
    named = set(p.page['Resources'].get('Font', {}))
    expect(used <= named, 'page uses %r, its resources name %r' % (used, named))
''')

seed('flate-blocks', 'C02',
     [('encoders.py', "\treturn zlib.compress(stream)\n", """\tencoder = zlib.compressobj()
\tsize = 1 << 16
\tdata = b''
\tfor start in range(0, max(len(stream) - size, 1), size):
\t\tdata += encoder.compress(stream[start:start + size])
\treturn data + encoder.flush()
""")],
     'a compressed stream of more than 65536 bytes',
     'the end of long compressed streams is missing from the file',
     r'''
import zlib
from pdfme.encoders import encode_stream
data = bytes(i * 7 % 251 for i in range(100000))
expect(zlib.decompress(encode_stream(data, b'/FlateDecode')) == data, 'the decoded stream differs')
''')

seed('page-margin-alias', 'C03',
     [('pdf.py', "margin_ = copy(self.margin)", "margin_ = self.margin")],
     'a page added with margins of its own, followed by a page without',
     'the margins given for one page stay in force for the pages after it',
     r'''
from pdfme import PDF
pdf = PDF(margin=50)
pdf.add_page(margin=100)
pdf.add_page()
expect(pdf.page.margin_left == 50, 'the second page has a margin of %r' % pdf.page.margin_left)
''')

seed('rotate-override', 'C03',
     [('pdf.py', "if (rotate_page is None and self.rotate_page) or rotate_page:", "if self.rotate_page or rotate_page:")],
     'a page added upright in a document of rotated pages',
     'the page is rotated though it was added with rotate_page=False',
     r'''
from pdfme import PDF
pdf = PDF(rotate_page=True)
pdf.add_page(rotate_page=False)
expect(pdf.page.height > pdf.page.width, 'the page is %r wide and %r high' % (pdf.page.width, pdf.page.height))
''')

seed('label-last-rect', 'C05',
     [('pdf.py', "d = rects[0]", "d = rects[-1]")],
     'a labelled text of more than one line',
     'the label leads to the last line of its text',
     r'''
from pdfme import PDF
pdf = PDF(page_size=(200, 400), margin=20)
pdf.add_page()
pdf.text({'.': 'word ' * 30, 'label': 'a'})
first = texts(pdf.page)[0][1]
expect(0 < pdf.dests['a'][3] - first < 12, 'the label leads to %r, its text starts at %r' % (pdf.dests['a'][3], first))
''')

seed('link-rise', 'C06',
     [('text.py', "id_y = self.y_ + part.state.rise - part_size*0.25", "id_y = self.y_ - part_size*0.25")],
     'a link in raised text',
     'the area of the link lies below the raised text',
     r'''
from pdfme import PDF
pdf = PDF()
pdf.add_page()
pdf.text(['a', {'.r:2': 'link', 'uri': 'http://x'}])
r = pdf.page.page['Annots'][0]['Rect'] if isinstance(pdf.page.page['Annots'][0], dict) else None
if r is None:
    b = next(b for b in objects(written(pdf)).values() if b'/Annot' in b and b'/Rect' in b)
    r = [float(v) for v in re.search(rb'/Rect ?\[(.*?)\]', b).group(1).split()]
base = texts(pdf.page)[0][1] + 22
expect(r[1] <= base <= r[3], 'the base line of the link is at %r, its area from %r to %r' % (base, r[1], r[3]))
''')

seed('splitlines', 'C08',
     [('text.py', "lines = element.split('\\n')", "lines = element.splitlines()")],
     'a part that ends with a newline, followed by another part',
     'the newline at the end of a part is lost: two lines are joined',
     r'''
from pdfme import PDF
pdf = PDF()
pdf.add_page()
pdf.text(['one\n', {'.b': 'two'}])
t = texts(pdf.page)
expect(t[0][1] != t[-1][1], 'both parts are on the same line: %r' % t)
''')

seed('newline-break-words', 'C08',
     [('text.py', """                    self.last_part_added = part_index + 1
                    self.last_word_added = 0
                    line = self.current_line
""", """                    self.last_part_added = part_index + 1
                    line = self.current_line
""")],
     'a page or column that ends exactly at a newline of a paragraph',
     'the words at the start of the next line of the paragraph are lost',
     r'''
from pdfme import PDF
pdf = PDF(page_size=(300, 200), margin=20)
pdf.add_page()
pdf.text('\n'.join('l%da l%db l%dc' % (i, i, i) for i in range(40)))
w = words(pdf.pages)
expect(w == [x for i in range(40) for x in ('l%da' % i, 'l%db' % i, 'l%dc' % i)], '%d words of 120 drawn' % len(w))
''')

seed('resume-skip-words', 'C25',
     [('text.py', """        self.last_word = 0
        return True
""", """        return True
""")],
     'a paragraph of several parts interrupted in the middle of a part that is not the last',
     'after the interruption the first words of each following part are lost',
     r'''
from pdfme import PDF
pdf = PDF(page_size=(200, 200), margin=20)
pdf.add_page()
parts = [{('.b' if k % 2 else '.'): ' '.join('p%dw%d' % (k, i) for i in range(50)) + ' '} for k in range(5)]
pdf.text(parts)
w = words(pdf.pages)
expect(len(w) == 250, '%d words of 250 drawn' % len(w))
''')

seed('cell-resumed-width', 'C25',
     [('table.py', """            pdf_text = element['delayed']
            pdf_text.setup(x, y, width, height)
""", """            pdf_text = element['delayed']
            pdf_text.setup(x, y, height=height)
""")],
     'a table row split between rectangles of different widths',
     'the rest of a split cell is laid out in the width its column had in the first rectangle',
     r'''
from pdfme import PDF
pdf = PDF(page_size=(400, 200), margin=20)
pdf.add_page()
t = pdf._table([['a', ' '.join('w%d' % i for i in range(200))]], x=20, width=350, height=150)
pdf.add_page()
t = pdf._table(t, 150, 160, 20, 20)
n = max(len(s.split()) for x, y, s in texts(pdf.page))
expect(n < 6, 'a line of %d words in a column 75 wide' % n)
''')

seed('rowspan-resumed-twice', 'C25',
     [('table.py', "'rowspan': element.get('rowspan', 1), 'row': row_added", "'rowspan': element.get('rowspan', 1), 'row': self.current_index")],
     'a cell that spans rows and is split more than once, in different rows',
     'the cell spans more rows after the second break: cells of the rows below are not drawn',
     r'''
from pdfme import PDF
pdf = PDF(page_size=(300, 170), margin=20)
pdf.add_page()
rows = [[{'.': ' '.join('s%d' % i for i in range(400)), 'rowspan': 3}, 'r%d ' % 0 * 60]] + [[None, ('r%d ' % k) * 60] for k in (1, 2)]
rows += [['z%d' % k, 'y%d' % k] for k in range(3)]
pdf.table(rows)
w = words(pdf.pages)
for k in range(3):
    expect('z%d' % k in w and 'y%d' % k in w, 'row %d after the span is not complete' % k)
''', raises=True)

seed('style-precedence', 'C10',
     [('pdf.py', """            if len(style_str) > 0:
                style.update(parse_style_str(style_str[0], self.fonts))
            style.update(process_style(content.get('style'), self))
""", """            style.update(process_style(content.get('style'), self))
            if len(style_str) > 0:
                style.update(parse_style_str(style_str[0], self.fonts))
""")],
     'a paragraph given to PDF.text with a style string and a style entry that name the same property',
     'the style string wins over the style entry',
     r'''
from pdfme import PDF
pdf = PDF()
pdf.add_page()
pdf.text({'.s:20': 'x', 'style': {'s': 8}})
expect(' 8 Tf' in stream(pdf.page), 'not drawn in size 8: ' + stream(pdf.page))
''')

seed('resumed-underline-color', 'C10',
     [('text.py', "        self.last_color = self.last_stroke_width = None\n", "        if self.is_first_line:\n            self.last_color = self.last_stroke_width = None\n")],
     'underlined text in another colour than black, split between two pages',
     'the underlines on the second page are drawn black and one point wide',
     r'''
from pdfme import PDF
pdf = PDF(page_size=(200, 200), margin=20)
pdf.add_page()
pdf.text({'.u;c:red': 'word ' * 150})
for p in pdf.pages:
    expect('1.0 0 0 RG' in stream(p) or '1 0 0 RG' in stream(p) or '1.0 0.0 0.0 RG' in stream(p), 'a page has no red underline: ' + stream(p)[:200])
''')

seed('delayed-alias-reset', 'C11',
     [('content.py', """        self.delayed = copy(self.section_delayed)

        return True
""", """        self.delayed = self.section_delayed

        return True
""")],
     'columns that are balanced on a page which begins with the rest of a split element',
     'the rest of the element is placed in a trial only and missing from the result',
     r'''
from pdfme import PDF
pdf = PDF(page_size=(300, 200), margin=20)
pdf.add_page()
pdf.content({'cols': {'count': 2}, 'content': [' '.join('w%d' % i for i in range(300))]})
w = words(pdf.pages)
expect(w == ['w%d' % i for i in range(300)], '%d words of 300 drawn' % len(w))
''')

seed('image-no-fit-y', 'C12',
     [('content.py', """        else:
            self.y = initial_y
            tries = element.get('tries', 0)
            if tries >= 50:
                raise Exception(
                    'Image""", """        else:
            tries = element.get('tries', 0)
            if tries >= 50:
                raise Exception(
                    'Image""")],
     'an image that does not fit the rest of the page, with text after it that does',
     'the gap before the image is left open twice: the text drawn in its place is too low',
     r'''
from PIL import Image
import io as _io
b = _io.BytesIO()
Image.new('L', (20, 10)).save(b, 'JPEG')
b.seek(0)
from pdfme import PDF


def gap(image):
    pdf = PDF(page_size=(300, 200), margin=20)
    pdf.add_page()
    b.seek(0)
    pdf.content({'content': ['one'] + ([{'image': b, 'extension': 'jpg', 'image_name': 'x', 'style': {'margin_top': 20}}] if image else []) + ['two']})
    t = {s: y for x, y, s in texts(pdf.pages[0])}
    return t['one'] - t['two']


expect(abs(gap(True) - gap(False)) < .1, 'gap of %r, without the image %r' % (gap(True), gap(False)))
''', raises=True)

seed('group-shrink', 'C13',
     [('content.py', """            style['shrink'] = True
            return self.process_image(
""", """            return self.process_image(
""")],
     'a group with an image that has to be shrunk, followed by a caption',
     'the image takes all the room left, the caption never fits and the group is never drawn',
     r'''
from PIL import Image
import io as _io
b = _io.BytesIO()
Image.new('L', (20, 20)).save(b, 'JPEG')
b.seek(0)
from pdfme import PDF
pdf = PDF(page_size=(300, 250), margin=20)
pdf.add_page()
pdf.content({'content': [{'group': [{'image': b, 'extension': 'jpg', 'image_name': 'x', 'style': {'min_height': 100}}, 'caption']}]})
expect('caption' in words(pdf.pages), 'no caption')
''', raises=True)

seed('jpeg-dht', 'C14',
     [('image.py', "                        or (markerLow >= 0xC5 and markerLow <= 0xC7)\n", "                        or (markerLow >= 0xC4 and markerLow <= 0xC7)\n")],
     'a JPEG file whose Huffman tables come before the frame header',
     'the tables are taken for the frame header: wrong dimensions',
     r'''
from PIL import Image
import io as _io
b = _io.BytesIO()
Image.new('L', (37, 21), 7).save(b, 'JPEG')
d = b.getvalue()
# move the tables to the front
segs, i = [], 2
while d[i + 1] != 0xDA:
    n = 2 + d[i + 2] * 256 + d[i + 3]
    segs.append(d[i:i + n])
    i += n
segs.sort(key=lambda s: 0xC0 <= s[1] <= 0xC2)
d = d[:2] + b''.join(segs) + d[i:]
Image.open(_io.BytesIO(d)).load()
from pdfme.image import PDFImage
im = PDFImage(_io.BytesIO(d), 'jpg', 'x')
expect((im.width, im.height) == (37, 21), 'dimensions %r' % ((im.width, im.height),))
''')

seed('rowspan-height-mem', 'C15',
     [('table.py', """        if rowspan > 0:
            self.heights_mem[col] = real_height
            real_height = 0
""", """        if rowspan > 0:
            self.heights_mem.setdefault(col, real_height)
            real_height = 0
""")],
     'two cells spanning rows in the same column, the second higher than the rows it spans',
     'the second cell runs over the end of its rows',
     r'''
from pdfme import PDF
pdf = PDF()
pdf.add_page()
pdf.table([[{'.': 'a', 'rowspan': 2}, 'b'], [None, 'c'], [{'.': '\n'.join('d' * 8), 'rowspan': 2}, 'e'], [None, 'f'], ['g', 'h']])
t = texts(pdf.page)
low = min(y for x, y, s in t if s == 'd')
g = next(y for x, y, s in t if s == 'g')
expect(g < low - 10, 'the row after the span is at %r, the cell reaches %r' % (g, low))
''')

seed('border-negative', 'C16',
     [('table.py', "counts = (rows, cols + 1) if is_vert else (rows + 1, cols)", "counts = (rows + 1, cols + 1)")],
     'a border position that counts rows of vertical or columns of horizontal borders from the end',
     'the border is drawn at other cells, or not at all',
     r'''
from pdfme import PDF
pdf = PDF()
pdf.add_page()
pdf.table([['a', 'b'], ['c', 'd']], style={'border_width': 0}, borders=[{'pos': 'h0;-1', 'width': 2}])
m = re.findall(r'(\S+) (\S+) m (\S+) (\S+) l', stream(pdf.page))
expect(len(m) == 1 and float(m[0][0]) > 200, 'no border above the last column: %r' % m)
''')

seed('running-section-copy', 'C17',
     [('document.py', "section = copy(self.running_sections[name])", "section = self.running_sections[name]")],
     'a running section placed by name on pages with different margins or sizes',
     'the section stays where the margins of the first page put it',
     r'''
from pdfme.document import PDFDocument
doc = PDFDocument({'running_sections': {'f': {'x': 'left', 'y': 'top', 'height': 30, 'content': ['foot']}},
    'sections': [{'style': {'margin': 40}, 'running_sections': ['f'], 'content': ['a']}, {'style': {'margin': 90}, 'running_sections': ['f'], 'content': ['b']}]})
doc.run()
x = [x for p in doc.pdf.pages for x, y, s in texts(p) if s == 'foot']
expect(x == [40, 90], 'the running section is at %r, expected 40 and 90' % x)
''', raises=True)

seed('page-number-back', 'C18',
     [('pdf.py', "page = self.page_index + 1 + self.page_numbering_offset", "page = len(self.pages) + self.page_numbering_offset")],
     'content added to an earlier page after going back to it with page_index',
     'the page number drawn there is that of the last page',
     r'''
from pdfme import PDF
pdf = PDF()
pdf.add_page()
pdf.add_page()
pdf.add_page()
pdf.page_index = 0
pdf.text(['n', {'var': '$page'}])
expect('1' in [s for x, y, s in texts(pdf.pages[0])], 'page number on the first page: %r' % texts(pdf.pages[0]))
''')

seed('tuple-footnotes', 'C19',
     [('document.py', "                    if isinstance(value, (list, tuple, dict)):\n", "                    if isinstance(value, (list, dict)):\n")],
     'footnote marks inside a tuple of elements',
     'the marks and their notes are not drawn',
     r'''
from pdfme.document import PDFDocument
doc = PDFDocument({'sections': [{'content': [{'.': ('text', {'footnote': 'thenote'})}]}]})
doc.run()
expect('thenote' in words(doc.pdf.pages), 'the note is not drawn')
''', raises=True)

seed('font-units', 'C20',
     [('fonts.py', "return sum(self._get_char_width(c) for c in text) / self.units_per_em", "return sum(self._get_char_width(c) for c in text) / 1000")],
     'a TrueType font whose em is not 1000 units',
     'words are laid out with wrong widths',
     r'''
from fontTools.fontBuilder import FontBuilder
from fontTools.pens.ttGlyphPen import TTGlyphPen
import tempfile
fb = FontBuilder(2048, isTTF=True)
names = ['.notdef', 'space', 'a']
fb.setupGlyphOrder(names)
fb.setupCharacterMap({32: 'space', 97: 'a'})
pen = TTGlyphPen(None)
pen.moveTo((0, 0)); pen.lineTo((0, 1000)); pen.lineTo((900, 1000)); pen.closePath()
g = pen.glyph()
e = TTGlyphPen(None).glyph()
fb.setupGlyf({'.notdef': g, 'space': e, 'a': g})
fb.setupHorizontalMetrics({n: (1024, 0) for n in names})
fb.setupHorizontalHeader(ascent=1600, descent=-400)
fb.setupNameTable({'familyName': 'T', 'styleName': 'Regular', 'psName': 'T'})
fb.setupOS2()
fb.setupPost()
from pdfme.fonts import PDFTrueTypeFont
with tempfile.TemporaryDirectory() as d:
    fb.save(d + '/t.ttf')
    f = PDFTrueTypeFont('F99', d + '/t.ttf')
    expect(abs(f.get_text_width('aaaa') - 2) < 1e-6, 'width %r, expected 2' % f.get_text_width('aaaa'))
''')

seed('border-spec-mutated', 'C21',
     [('table.py', """            border = copy(self.default_border)
            border.update(b)
""", """            border = b
            for key, value in self.default_border.items():
                border.setdefault(key, value)
""")],
     'a list of border specifications used for two tables or documents',
     'the second table is drawn without the borders',
     r'''
from pdfme import PDF
borders = [{'pos': 'h0', 'width': 3}]
for k in range(2):
    pdf = PDF()
    pdf.add_page()
    pdf.table([['a']], borders=borders)
    expect(' 3 w' in stream(pdf.page), 'table %d is drawn without its border' % k)
''')

seed('ids-set', 'C22',
     [('text.py', "for id_ in part.ids:", "for id_ in set(part.ids):")],
     'text with several links, labels or outline entries at once, and runs with different hash seeds',
     'the links that overlap are written in another order in every run',
     r'''
import subprocess
code = """
from pdfme import PDF
pdf = PDF()
pdf.add_page()
c = 'x'
for i in range(6):
    c = {'.': [c], 'ref': 'l%d' % i}
pdf.text(c)
print([a['Dest'] for a in pdf.page.page['Annots']] if isinstance(pdf.page.page['Annots'][0], dict) else [pdf.base[a]['Dest'] if not hasattr(a, 'value') else a['Dest'] for a in pdf.page.page['Annots']])
"""
out = {subprocess.run([sys.executable, '-c', code], env=dict(os.environ, PYTHONHASHSEED=str(k)), capture_output=True, text=True).stdout for k in range(6)}
expect(len(out) == 1 and len(out.pop()) > 20, 'different orders')
''')

seed('roman-nine', 'C23',
     [('utils.py', "_roman_five(n, one, five) if n < 5 else ((five if n < 9 else '')", "_roman_five(n, one, five) if n < 5 else ((five if n < 9 or one == 'C' else '')")],
     'a roman number with 9 hundreds',
     '900 is written DCM',
     r'''
from pdfme.utils import to_roman
expect(to_roman(1900) == 'MCM', to_roman(1900))
''')

seed('short-hex', 'C23',
     [('color.py', "            if n in [4, 5]:\n", "            if n == 4:\n")],
     'a colour of four hexadecimal digits',
     'the digits are read in pairs: another colour, or an error',
     r'''
from pdfme.color import parse_color
expect(parse_color('#f00f') == parse_color('#f00'), '%r' % parse_color('#f00f'))
''', raises=True)
