"""The planted bugs: written from the properties' text and the code alone."""
SEEDS = []


def seed(id, property, edits, needs, breaks, demo, raises=False):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, raises=raises))


seed('dests-limits', 'C05',
     [('pdf.py', "obj['Limits'][1] = key if first_level else val[1]", "obj['Limits'][1] = key if first_level else val[0]")],
     'more than 49 labels, so that the name tree has a level between the leaves and the root',
     'the intermediate nodes of the destination name tree declare a too small upper limit; viewers do not find most labels',
     r'''
from pdfme import PDF
pdf = PDF()
pdf.add_page()
labels = ['l%03d' % i for i in range(60)]
for l in labels:
    pdf.text({'.': 'w', 'label': l})
objs = objects(written(pdf))
root = next(b for b in objs.values() if b'/Names<</Dests' in b.replace(b' ', b'') or b'/Dests' in b)
n = int(re.search(rb'/Dests (\d+) 0 R', root).group(1))


def look(n, key):
    b = objs[n]
    m = re.search(rb'/Limits ?\[ ?\((.*?)\) ?\((.*?)\) ?\]', b)
    if m and not m.group(1) <= key <= m.group(2):
        return False
    if b'/Names' in b:
        return b'(' + key + b')' in b.split(b'/Names')[1]
    return any(look(int(k), key) for k in re.findall(rb'(\d+) 0 R', b.split(b'/Kids')[1]))


for l in labels:
    expect(look(n, l.encode()), 'label %s is not found in the name tree' % l)
''')

seed('page-tree-count', 'C03',
     [('pdf.py', """                    self.base.add({'Type': b'/Pages', 'Kids': [], 'Count': 0})
                )
                count += 1

""", """                    self.base.add({'Type': b'/Pages', 'Kids': [], 'Count': 0})
                )
            count += 1

"""), ('pdf.py', """        if count == 1:
            self.root['Pages'] = new_page_list[0].id
""", """        if len(new_page_list) == 1:
            self.root['Pages'] = new_page_list[0].id
""")],
     'more than six pages, so that the page tree gets a second level',
     'upper nodes of the page tree count their kids instead of the pages below them: the document declares too few pages',
     r'''
from pdfme import PDF
pdf = PDF()
for i in range(8):
    pdf.add_page()
objs = objects(written(pdf))
root = next(b for b in objs.values() if b'/Catalog' in b)
n = int(re.search(rb'/Pages (\d+) 0 R', root).group(1))


def leaves(n):
    b = objs[n]
    if b'/Kids' not in b:
        return 1
    c = sum(leaves(int(k)) for k in re.findall(rb'(\d+) 0 R', re.search(rb'/Kids ?\[(.*?)\]', b).group(1)))
    expect(int(re.search(rb'/Count (\d+)', b).group(1)) == c, 'object %d declares another number of pages than the %d below it' % (n, c))
    return c


expect(leaves(n) == 8, 'not all pages are in the tree')
''')

seed('outline-levels', 'C07',
     [('pdf.py', "self._build_outlines_tree(children, obj, level - 1)", "self._build_outlines_tree(children, obj, level)")],
     'outlines_level 2 or more and entries at least one level deeper than it',
     'entries beyond the configured level are shown open, and the counts include them',
     r'''
from pdfme import PDF
pdf = PDF(outlines_level=2)
pdf.add_page()
for level in (1, 2, 3, 3):
    pdf.text({'.': 'title %d' % level, 'outline': {'level': level}})
objs = objects(written(pdf))
o = [b for b in objs.values() if b'/Title(title 2)' in b.replace(b'/Title (', b'/Title(')]
expect(int(re.search(rb'/Count (-?\d+)', o[0]).group(1)) == -2, 'the entry of level 2 is not closed')
''')

seed('nested-delayed-alias', 'C11',
     [('content.py', """                self.section_element_index = self.element_index
                self.section_delayed = copy(self.delayed)
""", """                self.section_element_index = self.element_index
                self.section_delayed = self.delayed
""")],
     'a nested box with columns, whose delayed elements (after images) move on to the next column of the outer box, where the columns are balanced',
     'the delayed element is taken from the saved list when it is placed, so that balancing the columns loses it',
     r'''
import tempfile
from PIL import Image
from pdfme import PDF
with tempfile.TemporaryDirectory() as d:
    for k, h in enumerate((26, 23)):
        Image.new('L', (40 + k, h), 99).save('%s/%d.jpg' % (d, k))
    for n in range(8, 20):
        pdf = PDF(page_size=(500, 400), margin=10)
        pdf.add_page()
        a = ['a%d' % i for i in range(n)]
        b = ['b%d' % i for i in range(20)]
        pdf.text('before')
        pdf.content({'cols': {'count': 2}, 'content': [
            {'cols': {'count': 2}, 'content': [{'image': d + '/0.jpg'}, {'image': d + '/1.jpg', 'style': {'min_height': 10}}, ' '.join(a)]}, ' '.join(b)]})
        got = words(pdf.pages)
        expect(got == ['before'] + a + b, 'n=%d: %d words are drawn, there are %d' % (n, len(got), 21 + n))
''')

seed('border-style-merge', 'C16',
     [('table.py', "return all(a[attr] == b[attr] for attr in ['width', 'color', 'style'])", "return all(a[attr] == b[attr] for attr in ['width', 'color'])")],
     'neighbouring collinear borders of the same width and colour but another style',
     'a dashed border beside a solid one is drawn solid',
     r'''
from pdfme import PDF
pdf = PDF()
pdf.add_page()
pdf.table([['a', 'b']], borders=[{'pos': 'h0;1', 'style': 'dashed'}])
s = stream(pdf.page)
expect('[] 0 d' in s and len(set(re.findall(r'\[[^\]]*\] \d+ d', s))) > 1, 'the dashed border is not dashed')
''')

seed('nested-box-height', 'C12',
     [('content.py', """            current_height = pdf_content.min_y - (
                pdf_content.max_y if pdf_content.cols_n > 1 else pdf_content.y
            )
            if""", """            current_height = pdf_content.min_y - pdf_content.y
            if""")],
     'a nested box with several columns whose last column is shorter, followed by another element',
     'the element after the nested box is drawn over its longer columns',
     r'''
from pdfme import PDF
pdf = PDF(page_size=(400, 400), margin=20)
pdf.add_page()
pdf.content({'content': [{'cols': {'count': 3}, 'content': ['a%d' % i for i in range(7)]}, 'after']})
ys = [y for x, y, t in texts(pdf.page) if t.startswith('a') and t != 'after']
y = [y for x, y, t in texts(pdf.page) if t == 'after'][0]
expect(y < min(ys) - 5, 'the text after the box is drawn over it: %r %r' % (y, min(ys)))
''')

seed('link-justified', 'C06',
     [('text.py', "round(x + part_width, 3), round(id_y + part_size, 3)", "round(x + part.current_width(), 3), round(id_y + part_size, 3)")],
     'a link with spaces inside a justified line',
     'the active area is as wide as the text before justification',
     r'''
from pdfme import PDF
pdf = PDF()
pdf.add_page()
w = 'lorem ipsum dolor sit amet consectetur adipiscing elit sed do eiusmod tempor incididunt ut labore et dolore magna aliqua '
pdf.text({'.': [{'.': w * 3, 'uri': 'http://x'}]}, text_align='j')
r = [a['Rect'] for a in pdf.page.page['Annots']]
expect(all(abs(a[2] - 538.583) < 1 for a in r[:2]), 'the area ends at %r, the line at 538.583' % r[0][2])
''')

seed('underline-color', 'C10',
     [('text.py', "            if color != self.last_color:\n", "            if self.last_color is None:\n")],
     'two underlined texts of different colours in one paragraph',
     'the second underline is drawn in the colour of the first',
     r'''
from pdfme import PDF
pdf = PDF()
pdf.add_page()
pdf.text({'.': [{'.u;c:red': 'one '}, {'.u;c:blue': 'two'}]})
expect('0.0 0.0 1.0 RG' in stream(pdf.page) or '0 0 1.0 RG' in stream(pdf.page), 'there is no blue underline')
''')

seed('indent-width', 'C09',
     [('text.py', "ans['new_line'].max_width = self.width - (", "ans['new_line'].max_width = self.width - self.indent - (")],
     'an indented paragraph of several lines',
     'the indent narrows all lines: they are broken although the next word fits',
     r'''
from pdfme import PDF
pdf = PDF()
pdf.add_page()
pdf.text(' '.join(['aaaa'] * 100), indent=60)
n = [len(t.split()) for x, y, t in texts(pdf.page)]
expect(n[1] > n[0], 'the second line holds no more words than the indented first: %r' % n)
''')

seed('image-basename', 'C14',
     [('image.py', "self.image_name = image\n", "self.image_name = Path(image).name\n")],
     'two different pictures with the same file name in different folders',
     'the first picture is drawn in the place of the second',
     r'''
import tempfile
from PIL import Image
from pdfme import PDF
with tempfile.TemporaryDirectory() as d:
    for k, c in (('a', 0), ('b', 255)):
        os.mkdir(d + '/' + k)
        Image.new('L', (8, 8), c).save('%s/%s/x.jpg' % (d, k))
    pdf = PDF()
    pdf.add_page()
    pdf.image(d + '/a/x.jpg', width=20)
    pdf.image(d + '/b/x.jpg', width=20)
    expect(len([b for b in objects(written(pdf)).values() if b'/Subtype/Image' in b.replace(b' ', b'')]) == 2, 'two pictures, but not two images in the file')
''')

seed('output-once', 'C04',
     [('pdf.py', "        self._build_pages_tree(self.pages)\n", "        if 'Pages' not in self.root:\n            self._build_pages_tree(self.pages)\n")],
     'a document that is written, gets another page, and is written again',
     'the page added after the first write is missing from the second file',
     r'''
from pdfme import PDF
pdf = PDF()
pdf.add_page()
pdf.text('one')
written(pdf)
pdf.add_page()
pdf.text('two')
objs = objects(written(pdf))
root = next(b for b in objs.values() if b'/Catalog' in b)
n = int(re.search(rb'/Pages (\d+) 0 R', root).group(1))
expect(int(re.search(rb'/Count (\d+)', objs[n]).group(1)) == 2, 'the second file has not two pages')
''')

seed('stream-order', 'C02',
     [('parser.py', "stream_str = b''.join(stream_.values())", "stream_str = b''.join(stream_[k] for k in sorted(stream_, key=str))")],
     'a stream of more than ten parts',
     'part 10 is written before part 2: content is drawn in another order',
     r'''
from pdfme.parser import parse_obj
d = parse_obj({'__stream__': {i: b'%d;' % i for i in range(12)}})
expect(b';'.join(b'%d' % i for i in range(12)) in d, 'the parts of the stream are not in order: %r' % d)
''')
