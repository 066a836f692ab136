"""Documents full of marked text (links, references, labels, outline entries) and what was drawn of them."""
import collections
import copy
import io
import json

from . import build, gen as G, model, obs
from .props import c08

URI = ['https://x.org/a', 'https://x.org/b?q=(1)&r=\\2', 'http://y.org/', 'mailto:a@b.c', 'https://x.org/%20z']
NAMES = ['', '', '', '', ' (x)', '\\', 'é', ' y z', ')(', 'ß', ':', '$label:', '→', 'Ω(']


class Marks:
    def __init__(self, r, kinds, density=.35):
        self.r = r
        self.kinds = kinds
        self.density = density
        self.labels = []
        self.refs = []
        self.level = 0
        self.n = 0

    def label(self):
        r = self.r
        l = '%s%d%s' % (r.choice(['l', 'lab', 'Sec ', 'z', 'é']), len(self.labels), r.choice(NAMES))
        self.labels.append(l)
        return l

    def __call__(self, r, d):
        """Mark the text part d, perhaps in several ways."""
        for k in self.kinds:
            if r.random() >= self.density:
                continue
            if k == 'u':
                d['uri'] = r.choice(URI)
            elif k == 'r':
                d['ref'] = 'lab%d' % r.randrange(8)
                self.refs.append(d['ref'])
            elif k == 'l':
                d['label'] = self.label()
            elif k == 'o':
                self.n += 1
                self.level = r.randint(1, min(5, self.level + 1))
                d['outline'] = {'level': self.level}
                if self.level == 1 and r.random() < .5:
                    del d['outline']['level']
                if r.random() < .6:
                    d['outline']['text'] = 'Title %d%s' % (self.n, r.choice(['', '', ' (a', ')', '\\', ' é', ' – Ω', ' →', '  x']))


def par(r, toks, formats, marks, n=None):
    o = {'sizes': [6, 8, 9, 10, 11, 12, 15], 'formats': formats, 'depth': r.choice([1, 2, 3]), 'nl': r.choice([0, .1, .3]),
         'extra': marks, 'rise': r.random() < .4}
    c = G.rich(r, toks, n or r.choice([2, 5, 12, 30, 60]), o)
    if r.random() < .5:
        c = {'.' + G.style_key(r, dict(o, rise=False)): c}
        marks(r, c)
    p = {'content': c, 'text_align': r.choice('lrcjj'), 'line_height': r.choice([1, 1.1, 1.1, 1.5, 2]), 'indent': r.choice([0, 0, 0, 10, 25])}
    if r.random() < .25:
        p['list_text'] = r.choice(['1. ', '- ', '(b) '])
        if r.random() < .5:
            p['list_indent'] = r.choice([15, 20, 30])
    return p


def case(r, marks, npar=None, nwords=None):
    toks = G.Toks(r, special=r.choice([0, .05, .3]), maxlen=r.choice([3, 8]))
    formats = G.formats(r, {'sizes': [6, 9, 11, 13]})
    for f in formats.values():
        f.pop('r', None)
    w, h = r.choice([(200, 150), (300, 200), (300, 300), (420, 500)])
    c = {'driver': r.choice(['text', 'text', 'content', 'cols', 'cols', 'table', 'doc']), 'size': [w, h], 'margin': r.choice([10, 20, 30]),
         'formats': formats, 'cols': r.choice([2, 2, 3]) if w >= 300 else 2, 'gap': r.choice([7, 12])}
    c['paras'] = [par(r, toks, formats, marks, nwords) for _ in range(npar or r.choice([1, 2, 4]))]
    # every reference must lead somewhere
    have = set(marks.labels)
    for k, x in enumerate(sorted(set(marks.refs) - have)):
        c['paras'].append({'content': {'.': 'target%d.' % k, 'label': x}, 'text_align': 'l', 'line_height': 1.1, 'indent': 0})
        marks.labels.append(x)
    return c


def element(p):
    """Like c08.element, for contents that may be marked dicts."""
    c = copy.deepcopy(p['content'])
    c = {'.': [c]} if isinstance(c, dict) else {'.': c}
    c['style'] = c08.PAR_STYLE(p)
    return c


def draw(case):
    from pdfme import PDF, build_pdf
    w, h = case['size']
    m = case['margin']
    lvl = case.get('level', 1)
    if case['driver'] == 'doc':
        buf = io.BytesIO()
        with build.guard():
            build_pdf({'style': {'page_size': [w, h], 'margin': m, 'outlines_level': lvl}, 'formats': copy.deepcopy(case['formats']),
                       'sections': [{'content': [element(p) for p in case['paras']]}]}, buf)
        return buf.getvalue()
    with build.guard():
        pdf = PDF(page_size=(w, h), margin=m, outlines_level=lvl)
        pdf.formats = copy.deepcopy(case['formats'])
        pdf.add_page()
        if case['driver'] == 'text':
            for p in case['paras']:
                pdf.text(copy.deepcopy(p['content']), **c08.PAR_STYLE(p))
        elif case['driver'] == 'table':
            pdf.table([[element(p)] for p in case['paras']])
        else:
            c = {'content': [element(p) for p in case['paras']]}
            if case['driver'] == 'cols':
                c['cols'] = {'count': case['cols'], 'gap': case['gap']}
            pdf.content(c)
    return build.output(pdf)


class Char:
    __slots__ = ('ch', 'page', 'x1', 'x2', 'y', 'rise', 'size', 'ids', 'item', 'word', 'first')

    @property
    def mid(self):
        return (self.x1 + self.x2) / 2, self.y + self.rise + .25 * self.size


def overlong(case):
    """A word may be wider than its column, so that it lies over the next one."""
    if case['driver'] != 'cols':
        return False
    ws = [w.width() for p in case['paras'] for w in model.par_words(p['content'], formats=case['formats'])]
    return max(ws, default=0) > c08.box_width(case) - 60


def located(case, rd):
    """Every drawn character of the marked texts with the marks it carries (words are unique)."""
    seen = collections.defaultdict(list)
    for w in obs.all_words(rd):
        seen[w.text].append(w)
    out = []
    lost = 0
    for p in case['paras']:
        for w in model.par_words(p['content'], formats=case['formats']):
            ow = seen.get(w.text)
            if not ow or len(ow) != 1:
                lost += 1
                continue
            ow = ow[0]
            for (ch, st, ids), (c2, x, wd, it) in zip(w.chars, ow.chars):
                c = Char()
                c.ch, c.page, c.x1, c.x2, c.y, c.rise, c.size, c.ids, c.item, c.word = ch, ow.page, x, x + wd, it.y, it.rise, it.size, ids, it, ow
                out.append(c)
    return out, lost


def title(content, formats):
    """The text of a part as it is shown."""
    return ''.join(t for t, _, _ in model.runs(content, model.TEXT_DEFAULTS, formats))


def entries(content, out):
    """Outline entries of a content in document order: (level, title, part)."""
    if isinstance(content, (list, tuple)):
        for e in content:
            entries(e, out)
    elif isinstance(content, dict):
        if isinstance(content.get('outline'), dict):
            o = content['outline']
            out.append((o.get('level', 1), o.get('text'), content))
        for k, v in content.items():
            if k.startswith('.'):
                entries(v, out)


def encode(s):
    try:
        return s.encode('latin-1')
    except UnicodeEncodeError:
        return b'\xfe\xff' + s.encode('utf-16-be')
