"""More planted bugs (fourth series)."""
from defs import seed

REFUSES = r'''
import io
from pdfme import PDF, build_pdf

def refused(**doc):
    buf = io.BytesIO()
    try:
        build_pdf(doc, buf)
    except Exception:
        return True
    return False
'''

seed('short-row', 'C28',
     [('table.py', 'if not len(row) == self.cols_count:', 'if len(row) > self.cols_count:')],
     'a table row with fewer cells than the first one',
     'the row is accepted and its last columns are missing or taken from elsewhere, instead of being refused',
     REFUSES + r'''
expect(not refused(sections=[{'content': [{'table': [['a', 'b'], ['c', 'd']]}]}]), 'a good table is refused')
expect(refused(sections=[{'content': [{'table': [['a', 'b'], ['c']]}]}]), 'a row of one cell in a table of two columns is accepted')
''')

seed('unknown-format', 'C28',
     [('utils.py', 'return copy(pdf.formats[style])', 'return copy(pdf.formats.get(style, {}))')],
     'an element whose style is a name that no format has (a typing error)',
     'the element is drawn without style instead of being refused',
     REFUSES + r'''
f = {'title': {'b': 1}}
expect(not refused(formats=f, sections=[{'content': [{'.': 'a', 'style': 'title'}]}]), 'a good name is refused')
expect(refused(formats=f, sections=[{'content': [{'.': 'a', 'style': 'tittle'}]}]), 'an unknown format is accepted')
''')

seed('unknown-running', 'C28',
     [('document.py', '        for name in running_sections:\n            section = copy(self.running_sections[name])',
       '        for name in running_sections:\n            section = copy(self.running_sections.get(name))\n            if section is None:\n                continue\n')],
     'a section that asks for a running section which the document does not define',
     'the running section is silently missing from the pages',
     REFUSES + r'''
run = {'head': {'width': 'full', 'height': 'top', 'content': ['h']}}
expect(not refused(running_sections=run, sections=[{'content': ['a'], 'running_sections': ['head']}]), 'a good name is refused')
expect(refused(running_sections=run, sections=[{'content': ['a'], 'running_sections': ['haed']}]), 'an unknown running section is accepted')
''')

seed('none-in-text', 'C28',
     [('text.py', """            else:
                raise TypeError(
                    'elements must be of type str or dict: {}'.format(element)
                )""", """            elif element is not None:
                raise TypeError(
                    'elements must be of type str or dict: {}'.format(element)
                )""")],
     'None among the pieces of a paragraph (a value that could not be found)',
     'the piece is silently left out of the text',
     REFUSES + r'''
expect(not refused(sections=[{'content': [{'.': ['a', 'b']}]}]), 'a good paragraph is refused')
expect(refused(sections=[{'content': [{'.': ['a', None, 'b']}]}]), 'None in a paragraph is accepted')
''')

seed('widths-many', 'C28',
     [('table.py', 'if len(widths) != self.cols_count:', 'if len(widths) < self.cols_count:')],
     'more widths than the table has columns',
     'the table is drawn narrower than its place instead of being refused',
     REFUSES + r'''
t = [['a', 'b'], ['c', 'd']]
expect(not refused(sections=[{'content': [{'table': t, 'widths': [1, 2]}]}]), 'good widths are refused')
expect(refused(sections=[{'content': [{'table': t, 'widths': [1, 2, 3]}]}]), 'three widths for two columns are accepted')
''')

seed('group-member-skipped', 'C28',
     [('content.py', """            raise Exception(
                'Element not allowed in a group element: {}'.format(element)
            )""", """            return {'delayed': None}""")],
     'a group with an element in it that groups can not hold (a content box)',
     'the element is silently missing from the document',
     REFUSES + r'''
expect(not refused(sections=[{'content': [{'group': ['a', {'table': [['b']]}]}]}]), 'a good group is refused')
expect(refused(sections=[{'content': [{'group': ['a', {'content': ['b']}]}]}]), 'a box in a group is accepted')
''')

seed('size-word', 'C28',
     [('utils.py', """                except:
                    raise ValueError(
                        'Style element value for "s" is wrong:'
                        ' {}'.format(value)
                    )""", """                except:
                    continue""")],
     'a style string whose size is not a number, as in "s:12pt"',
     'the size is silently ignored',
     REFUSES + r'''
expect(not refused(sections=[{'content': [{'.s:12': 'a'}]}]), 'a good size is refused')
expect(refused(sections=[{'content': [{'.s:12pt': 'a'}]}]), 'a size of 12pt is accepted')
''')

seed('exact-end', 'C24',
     [('table.py', """        if self.current_index >= len(self.content) and len(self.delayed) == 0:
            self.finished = True""", """        if (
            self.current_index >= len(self.content) and len(self.delayed) == 0
            and self.height - self.current_height > 1
        ):
            self.finished = True""")],
     'a table whose last row ends within a point of the bottom of the page',
     'the table is thought to go on, and an empty page follows',
     r'''
from pdfme import PDF
probe = PDF(page_size=(400, 400), margin=20)
probe.add_page()
rows = [['word'] for _ in range(4)]
t = probe._table(rows, x=20, width=360)
pdf = PDF(page_size=(400, 40 + t.current_height + 0.5), margin=20)
pdf.add_page()
pdf.table([['word'] for _ in range(4)])
expect(len(pdf.pages) == 1, '%d pages for a table that fits one' % len(pdf.pages))
''')
