"""More planted bugs (third series)."""
from defs import seed

seed('width-at-cursor', 'C26',
     [('pdf.py', """        if width is None:
            width = self.page.width - self.page.margin_right - self.page.x
        if height is None:
            height = self.page.height - self.page.margin_bottom - self.page.y
        return""", """        if width is None:
            width = self.page.content_width if x is None \\
                else self.page.width - self.page.margin_right - self.page.x
        if height is None:
            height = self.page.height - self.page.margin_bottom - self.page.y
        return""")],
     'a paragraph placed by hand without x, after the position moved to the right (move="next")',
     'the paragraph is as wide as the page content and runs over the right margin',
     r'''
from pdfme import PDF
pdf = PDF(page_size=(400, 400), margin=20)
pdf.add_page()
pdf._text('left', width=200, move='next')
pdf._text('word ' * 60, text_align='r')
w = max(x for x, y, t in texts(pdf.page))
lines = {}
t = pdf._text('x ' * 200)
expect(t.width <= 400 - 20 - pdf.page.x + 0.01, 'the paragraph is %r wide' % t.width)
''')

seed('image-at-zero', 'C26',
     [('pdf.py', """        if x is not None:
            self.page.x = x
        if y is not None:
            self.page.y = y

        top""", """        if x:
            self.page.x = x
        if y:
            self.page.y = y

        top""")],
     'an image placed at x=0 or y=0',
     'the image is drawn at the current position instead of the edge of the page',
     r'''
from PIL import Image
import io as _io
b = _io.BytesIO()
Image.new('L', (20, 20)).save(b, 'JPEG')
b.seek(0)
from pdfme import PDF
pdf = PDF(page_size=(300, 250), margin=20)
pdf.add_page()
pdf.image(b, 'jpg', 'x', x=0, y=0, width=50)
m = re.search(r'(\S+) 0 0 (\S+) (\S+) (\S+) cm', stream(pdf.page))
expect((float(m.group(3)), float(m.group(4))) == (0, 200), 'the image is at %r' % (m.groups(),))
''')

seed('add-page-index', 'C26',
     [('pdf.py', "self.page_index = len(self.pages) - 1", "self.page_index = getattr(self, '_page_index', len(self.pages) - 2) + 1")],
     'a page added after going back to an earlier page',
     'what is added next goes to an old page instead of the new one',
     r'''
from pdfme import PDF
pdf = PDF()
pdf.add_page(); pdf.add_page(); pdf.add_page()
pdf.page_index = 0
pdf.add_page()
pdf.text('here')
expect('here' in words(pdf.pages[3:]), 'the text is not on the page added last')
''')

seed('default-align', 'C27',
     [('pdf.py', """            f=self.font_family, s=self.font_size, c=self.font_color,
            text_align=self.text_align, line_height""", """            f=self.font_family, s=self.font_size, c=self.font_color,
            line_height""")],
     'a PDF with a default alignment and paragraphs in tables or content boxes',
     'the alignment of the PDF is ignored by content boxes',
     r'''
from pdfme import PDF
pdf = PDF(page_size=(300, 300), margin=20, text_align='r')
pdf.add_page()
pdf.content({'content': ['hi']})
xs = [x for x, y, t in texts(pdf.page) if 'hi' in t]
expect(xs and xs[0] > 200, 'the text starts at %r' % xs)
''')

seed('balance-coarse', 'C12',
     [('content.py', "if self.minim_diff_last and self.minim_diff_last - self.minim_diff < 1:", "if self.minim_diff_last and self.minim_diff_last - self.minim_diff < 120:")],
     'a box of several columns whose content is less than the page',
     'the columns are not evenly filled',
     r'''
from pdfme import PDF
pdf = PDF(page_size=(600, 900), margin=20)
pdf.add_page()
pdf.content({'cols': {'count': 2}, 'content': ['line %d' % i for i in range(30)]})
ys = {}
for x, y, t in texts(pdf.page):
    if 'line' in t or t.strip().isdigit():
        ys.setdefault(x > 300, set()).add(round(y))
n = sorted(len(v) for v in ys.values())
expect(len(n) == 2 and n[1] - n[0] <= 4, 'lines of the columns: %r' % n)
''')

seed('cell-box-fills', 'C16',
     [('table.py', """        self.lines.extend(pdf_content.lines)
        self.fills.extend(pdf_content.fills)
""", """        if 'delayed' not in element:
            self.lines.extend(pdf_content.lines)
            self.fills.extend(pdf_content.fills)
""")],
     'a box in a table cell, with a table inside, that goes on on the next page',
     'the lines and fills of the part on the next page are missing',
     r'''
from pdfme import PDF
pdf = PDF(page_size=(300, 200), margin=20)
pdf.add_page()
pdf._default = None
pdf.content({'content': [{'table': [[{'content': ['pre', {'table': [['cell %d' % i] for i in range(20)], 'borders': [{'pos': 'h0,1,-1;', 'width': 3}], 'fills': [{'pos': '::1;:', 'color': 'red'}]}]}]], 'style': {'border_width': 0}}]})
for i, p in enumerate(pdf.pages):
    expect(' re F' in stream(p), 'no fill on page %d' % (i + 1))
''')

seed('lowered-first', 'C09',
     [('text.py', "            if part.state.rise < 0 and -part.state.rise > bottom:", "            if part.state.rise < bottom and -part.state.rise > bottom and part is self.line_parts[-1]:")],
     'text lowered in the middle of a line, with other text after it',
     'the next line leaves no room for the lowered text',
     r'''
from pdfme import PDF
def ys(content):
    pdf = PDF(page_size=(300, 300), margin=20)
    pdf.add_page()
    pdf.text(content)
    return sorted({round(y, 1) for x, y, t in texts(pdf.page) if 'second' in t})
a = ys(['first ', {'.r:-1': 'low '}, 'more\nsecond'])
b = ys(['first ', 'low ', 'more\nsecond'])
expect(a[0] < b[0] - 5, 'second line at %r, %r without lowered text' % (a, b))
''')

seed('cap-height-unscaled', 'C20',
     [('fonts.py', "capHeight = os2.sCapHeight * scale if os2.version > 1 else ascent", "capHeight = os2.sCapHeight if os2.version > 1 else ascent")],
     'a TrueType font whose units per em are not 1000, with a recent OS/2 table',
     'the font descriptor declares a wrong cap height',
     r'''
from fontTools.fontBuilder import FontBuilder
from fontTools.pens.ttGlyphPen import TTGlyphPen
import tempfile, shutil
d = tempfile.mkdtemp()
try:
    fb = FontBuilder(2048, isTTF=True)
    fb.setupGlyphOrder(['.notdef', 'A'])
    fb.setupCharacterMap({65: 'A'})
    pen = TTGlyphPen(None)
    pen.moveTo((0, 0)); pen.lineTo((500, 0)); pen.lineTo((500, 1400)); pen.closePath()
    g = pen.glyph()
    fb.setupGlyf({'.notdef': g, 'A': g})
    fb.setupHorizontalMetrics({'.notdef': (600, 0), 'A': (600, 0)})
    fb.setupHorizontalHeader(ascent=1600, descent=-400)
    fb.setupNameTable({'familyName': 'T', 'styleName': 'R', 'psName': 'T-R'})
    fb.setupOS2(version=4, sCapHeight=1400, fsType=0)
    fb.setupPost()
    path = os.path.join(d, 't.ttf')
    fb.save(path)
    from pdfme import PDF
    pdf = PDF()
    pdf.add_font(path, 'T', 'n')
    pdf.add_page()
    pdf.text({'.f:T': 'A'})
    data = written(pdf)
    m = re.search(rb'/CapHeight ([-\d.]+)', data)
    expect(m and abs(float(m.group(1)) - 1400 * 1000 / 2048) < 1, 'cap height %r' % (m and m.group(1)))
finally:
    shutil.rmtree(d)
''')

seed('licence-mask', 'C20',
     [('fonts.py', "if (fsType == 0x0002 or (fsType & 0x0300) != 0):", "if (fsType == 0x0002 or fsType == 0x0300):")],
     'a font whose licence forbids subsetting or allows bitmaps only, one bit set',
     'fonts that may not be embedded are accepted',
     r'''
from fontTools.fontBuilder import FontBuilder
from fontTools.pens.ttGlyphPen import TTGlyphPen
import tempfile, shutil
d = tempfile.mkdtemp()
try:
    fb = FontBuilder(1000, isTTF=True)
    fb.setupGlyphOrder(['.notdef', 'A'])
    fb.setupCharacterMap({65: 'A'})
    pen = TTGlyphPen(None)
    pen.moveTo((0, 0)); pen.lineTo((500, 0)); pen.lineTo((500, 700)); pen.closePath()
    g = pen.glyph()
    fb.setupGlyf({'.notdef': g, 'A': g})
    fb.setupHorizontalMetrics({'.notdef': (600, 0), 'A': (600, 0)})
    fb.setupHorizontalHeader(ascent=800, descent=-200)
    fb.setupNameTable({'familyName': 'T', 'styleName': 'R', 'psName': 'T-R'})
    fb.setupOS2(fsType=0x0200)
    fb.setupPost()
    path = os.path.join(d, 't.ttf')
    fb.save(path)
    from pdfme import PDF
    pdf = PDF()
    try:
        pdf.add_font(path, 'T', 'n')
        pdf.add_page()
        pdf.text({'.f:T': 'A'})
    except Exception:
        sys.exit(0)
    expect(False, 'the font was accepted')
finally:
    shutil.rmtree(d)
''')

seed('reset-twice', 'C18',
     [('document.py', "self.pdf.page_numbering_offset = -len(self.pdf.pages)", "self.pdf.page_numbering_offset -= len(self.pdf.pages)")],
     'two sections that restart the page numbers, or one in a document with an offset',
     'the numbers of the second section that restarts do not start at 1',
     r'''
from pdfme import build_pdf
import io as _io
b = _io.BytesIO()
import pdfme.document as D
S = lambda t: {'style': {'page_numbering_reset': True}, 'content': [['%s ' % t, {'var': '$page'}]]}
doc = D.PDFDocument({'sections': [S('a'), S('b'), S('c')]})
doc.run()
expect(words(doc.pdf.pages) == ['a', '1', 'b', '1', 'c', '1'], 'pages read %r' % words(doc.pdf.pages))
''')

seed('group-two-images', 'C13',
     [('content.py', "                    images_size += min_height\n", "                    images_size = min_height\n")],
     'a group with two images that have to be shrunk',
     'the images are given too much room, the group runs over the bottom margin',
     r"""
from PIL import Image
import io as _io
def img():
    b = _io.BytesIO()
    Image.new('L', (20, 20)).save(b, 'JPEG')
    b.seek(0)
    return b
from pdfme import PDF
pdf = PDF(page_size=(300, 400), margin=20)
pdf.add_page()
I = lambda n: {'image': img(), 'extension': 'jpg', 'image_name': n, 'style': {'min_height': 80}}
pdf.content({'content': [{'group': [I('a'), I('b'), 'caption']}]})
n = sum(len(re.findall(r' cm /Im', stream(p))) for p in pdf.pages)
low = [float(m.group(4)) for p in pdf.pages for m in re.finditer(r'(\S+) 0 0 (\S+) (\S+) (\S+) cm', stream(p))]
expect(n == 2 and min(low) >= 20 and 'caption' in words(pdf.pages), '%d images, bottoms at %r' % (n, low))
""", raises=True)

seed('fill-precedence', 'C16',
     [('table.py', "        if fill_color is None:\n            fill_color = (\n", "        if fill_color is None or col in self.rowspan:\n            fill_color = (\n")],
     'a cell of several rows with its own cell_fill',
     'cells of several rows get the fill of the fills argument instead of their own',
     r"""
from pdfme import PDF
pdf = PDF(page_size=(300, 400), margin=20)
pdf.add_page()
pdf.table([[{'rowspan': 2, '.': 'a', 'style': {'cell_fill': 'red'}}, 'b'], [None, 'c']], fills=[{'pos': '0::2;', 'color': 'blue'}])
expect('1 0 0 rg' in stream(pdf.page) or '1.0 0 0 rg' in stream(pdf.page), 'no red fill')
""")

seed('rowspan-bottom-border', 'C16',
     [('table.py', "            self.current_index + rowspan + 1, col, False\n", "            self.current_index + 1, col, False\n")],
     'a cell of several rows, with a thick border under the last of them and a thin one under the first',
     'the text of the cell overlaps the border at its bottom',
     r"""
from pdfme import PDF
pdf = PDF(page_size=(300, 400), margin=20)
pdf.add_page()
pdf.table([[{'rowspan': 2, '.': 'a\nb\nc\nd\ne'}, 'x'], [None, 'y']], borders=[{'pos': 'h2;', 'width': 20}, {'pos': 'h1;', 'width': 1}])
s = stream(pdf.page)
line = [float(m.group(2)) for m in re.finditer(r'(\S+) (\S+) m (\S+) (\S+) l S', s[s.index(' 20 w'):])][0]
ys = [y for x, y, t in texts(pdf.page) if 'e' in t]
expect(min(ys) > line + 10, 'text at %r, border 20 wide at %r' % (min(ys), line))
""")

seed('span-right-border', 'C15',
     [('table.py', "            self.current_index, col + colspan + 1, True\n", "            self.current_index, col + 1, True\n")],
     'a cell of several columns with a thick border at its right',
     'the text of the cell overlaps the border at its right',
     r"""
from pdfme import PDF
pdf = PDF(page_size=(400, 400), margin=20)
pdf.add_page()
def right(text_width):
    pdf.table([[{'colspan': 2, '.': 'i' * 20 + ' ' , 'style': {'text_align': 'r'}}, None, 'x']], borders=[{'pos': 'v;2', 'width': 30}])
    return [x for x, y, t in texts(pdf.page) if 'iiii' in t][0]
r = right(0)
w = 20 * 0.222 * 11
expect(r + w < 20 + 240 - 15 + 0.5, 'text ends at %r, the border starts at %r' % (r + w, 245))
""")

seed('color-stroke-compare', 'C10',
     [('text.py', "        if other is None or self.color != other.color:", "        if other is None or self.color.color != other.color.color and self.size == other.size:")],
     'a change of the colour together with a change of the size',
     'the text keeps the colour of the text before',
     r"""
from pdfme import PDF
pdf = PDF()
pdf.add_page()
pdf.text([{'.c:red;s:10': 'one '}, {'.c:blue;s:14': 'two'}])
expect(re.search(r' 0 0 1(\.0)? rg', stream(pdf.page)), 'no blue')
""")

seed('dest-other-page', 'C05',
     [('pdf.py', "                x_ref = x + d[0]\n", "                x_ref = self.page.margin_left + d[0]\n")],
     'a label in a column, a cell or a box that does not start at the left margin',
     'the destination is at the left of the page instead of the label',
     r"""
from pdfme import PDF
pdf = PDF(page_size=(400, 400), margin=20)
pdf.add_page()
pdf.table([['a', {'.': 'b', 'label': 'here'}]])
expect(pdf.dests['here'][2] > 200, 'destination %r' % pdf.dests['here'])
""")

seed('uri-per-page', 'C06',
     [('pdf.py', "                        self.uris[link],\n", "                        list(self.uris.values())[-1],\n")],
     'an address linked to again after another one',
     'the link leads to the other address',
     r"""
from pdfme import PDF
pdf = PDF()
pdf.add_page()
for u in 'aba':
    pdf.text({'.': 'link', 'uri': 'http://%s' % u})
got = [pdf.base[a['A'].id]['URI'] if hasattr(a['A'], 'id') else a['A'] for a in pdf.page.page['Annots']]
expect(got[2] == got[0] != got[1], 'targets %r' % got)
""")

seed('section-offset', 'C18',
     [('pdf.py', "page = self.page_index + 1 + self.page_numbering_offset", "page = abs(self.page_index + self.page_numbering_offset) + 1")],
     'a negative page numbering offset',
     'the numbers of the pages before the first numbered one are wrong',
     r"""
from pdfme import PDF
pdf = PDF(page_numbering_offset=-3)
got = []
for i in range(5):
    pdf.add_page()
    got.append(pdf.get_page_number())
expect(got == ['-2', '-1', '0', '1', '2'], 'numbers %r' % got)
""")

seed('running-right', 'C17',
     [('document.py', "            if section.get('y') == 'bottom':\n                section['y'] = page_height - margin['bottom']", "            if section.get('y') == 'bottom':\n                section['y'] = self.pdf.page_height - margin['bottom']")],
     'a running section at the bottom of rotated pages',
     'the footer is placed for the page that is not rotated',
     r"""
import pdfme.document as D
doc = D.PDFDocument({'style': {'page_size': (300, 500), 'rotate_page': True, 'margin': 50}, 'running_sections': {'f': {'x': 'left', 'y': 'bottom', 'width': 200, 'height': 'bottom', 'style': {}, 'content': ['foot']}},
 'sections': [{'running_sections': ['f'], 'content': ['body']}]})
doc.run()
ys = [y for x, y, t in texts(doc.pdf.pages[0]) if 'foot' in t]
expect(ys and 0 < ys[0] < 50, 'footer at %r' % ys)
""")

seed('outline-text-numbers', 'C07',
     [('pdf.py', "                    outline = outline[-1].setdefault('children', [])", "                    outline = outline[-1].get('children', outline)")],
     'an outline entry of a deeper level directly after one without children',
     'entries of level 2 and more end up at the top level',
     r"""
from pdfme import PDF
pdf = PDF()
pdf.add_page()
for t, l in (('a', 1), ('b', 2)):
    pdf.text({'.': t, 'outline': {'level': l}})
expect(len(pdf.outlines) == 1 and len(pdf.outlines[0].get('children', [])) == 1, 'outline %r' % pdf.outlines)
""")

seed('dash-width', 'C16',
     [('utils.py', "            if line_style != last_line_style:\n                last_line_style = line_style\n", "            if g['style'] != last_line_style:\n                last_line_style = g['style']\n")],
     'dashed borders of different widths in one table',
     'the dashes of the second border are those of the first',
     r"""
from pdfme import PDF
pdf = PDF()
pdf.add_page()
pdf.table([['a'], ['b']], borders=[{'pos': 'h0;', 'width': 1, 'style': 'dashed'}, {'pos': 'h1;', 'width': 4, 'style': 'dashed'}, {'pos': 'h2;', 'width': 0}, {'pos': 'v;', 'width': 0}])
expect('[12 6' in stream(pdf.page), 'no dashes of the wide border: ' + stream(pdf.page)[:200])
""")

seed('jpeg-app14', 'C14',
     [('image.py', 'data = bytes_.read(data_size - 2) if data_size > 2 else b""', 'data = bytes_.read(min(data_size, 32768) - 2) if data_size > 2 else b""')],
     'a JPEG file with a segment of more than 32 kB (a colour profile, metadata) before the frame header',
     'the image is rejected',
     r"""
from PIL import Image
import io as _io
b = _io.BytesIO()
Image.new('L', (37, 21), 7).save(b, 'JPEG')
d = b.getvalue()
n = 40000
d = d[:2] + b'\xff\xe2' + (n + 2).to_bytes(2, 'big') + b'\0' * n + d[2:]
from pdfme import PDF
pdf = PDF()
pdf.add_page()
pdf.image(_io.BytesIO(d), 'jpg', 'x')
""", raises=True)

seed('annot-defaults', 'C06',
     [('page.py', "        if not 'Annots' in self.page:\n            self.page['Annots'] = []\n", "        if not 'Annots' in self.page or 'Dest' in obj and len(self.page['Annots']) == 10:\n            self.page['Annots'] = []\n")],
     'a page with more than ten links',
     'the first ten links of the page are lost',
     r"""
from pdfme import PDF
pdf = PDF()
pdf.add_page()
for i in range(12):
    pdf.text({'.': 'x', 'ref': 'r%d' % i})
expect(len(pdf.page.page['Annots']) == 12, '%d links' % len(pdf.page.page['Annots']))
""")

seed('image-name-twice', 'C14',
     [('page.py', "            image_id = 'Im{}'.format(len(self.page['Resources']['XObject']))\n", "            image_id = 'Im{}'.format(len(self.page['Resources']['XObject']) % 10)\n")],
     'more than ten different images on a page',
     'the first images of the page are replaced by later ones',
     r"""
from PIL import Image
import io as _io
from pdfme import PDF
pdf = PDF()
pdf.add_page()
for i in range(12):
    b = _io.BytesIO()
    Image.new('L', (8, 8), i * 20).save(b, 'JPEG')
    b.seek(0)
    pdf.image(b, 'jpg', 'i%d' % i, width=20)
expect(len(pdf.page.page['Resources']['XObject']) == 12, 'images of the page: %d' % len(pdf.page.page['Resources']['XObject']))
""")
