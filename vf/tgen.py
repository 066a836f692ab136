"""Random tables, ways to draw them, and the rows recovered from the drawn words."""
import collections
import copy

from . import build, docgen, gen as G, obs, tmodel

STYLES = ['solid', 'dashed', 'dotted']


class Tables:
    def __init__(self, r, o=None):
        self.r = r
        self.o = o or {}
        self.toks = G.Toks(r, special=0, maxlen=3)
        self.images = []

    def color(self):
        r = self.r
        return r.choice([G.rcolor(r), r.choice(['red', 'navy', 'teal', 'orange']), r.choice([0, .5, 1])])

    def lines(self, n):
        """n one-word lines"""
        return '\n'.join(self.toks.word() for _ in range(n))

    def margins(self, p):
        r = self.r
        st = {}
        if r.random() < p:
            st['cell_margin'] = r.choice([0, 2, 8, 12.5])
        for s in ('left', 'right', 'top', 'bottom'):
            if r.random() < p / 3:
                st['cell_margin_' + s] = r.choice([0, 1, 7, 10])
        return st

    def selector(self, n):
        r = self.r
        k = r.random()
        i = lambda: r.randrange(-n, n)
        if k < .35:
            return str(i())
        if k < .55:
            return ','.join(str(i()) for _ in range(r.choice([2, 3])))
        if k < .7:
            return ':'
        if k < .75:
            return ''
        s = [r.choice(['', str(i())]), r.choice(['', str(i())])]
        if r.random() < .4:
            s.append(r.choice(['', '1', '2', '3']))
        return ':'.join(s)

    def pos(self, n, m):
        a = self.selector(n)
        return a if a and self.r.random() < .15 else a + ';' + self.selector(m)

    def borders(self, n, m):
        r = self.r
        out = []
        for _ in range(r.choice([0, 1, 2, 4])):
            v = r.random() < .5
            b = {'pos': ('v' if v else 'h') + self.pos(n + (not v), m + v)}
            if r.random() < .7:
                b['width'] = r.choice([0, 0, .5, 1, 2, 3.5])
            if r.random() < .5:
                b['color'] = self.color()
            if r.random() < .5:
                b['style'] = r.choice(STYLES)
            out.append(b)
        return out

    def fills(self, n, m):
        return [{'pos': self.pos(n, m), 'color': self.color()} for _ in range(self.r.choice([0, 1, 2, 3]))]

    def table_style(self):
        r = self.r
        st = self.margins(.4)
        if r.random() < .3:
            st['border_width'] = r.choice([0, 1, 2])
        if r.random() < .3:
            st['border_color'] = self.color()
        if r.random() < .2:
            st['border_style'] = r.choice(STYLES)
        if r.random() < .2:
            st['cell_fill'] = self.color()
        if r.random() < .3:
            st['s'] = r.choice([7, 9, 10])
        return st

    def table(self, n, m, rowspans, cell):
        """cell(i, j, rs, cs) -> element"""
        r = self.r
        rows = [[0] * m for _ in range(n)]
        for i in range(n):
            for j in range(m):
                if rows[i][j] != 0:
                    continue
                rs = cs = 1
                if r.random() < self.o.get('spans', .25):
                    cs = r.randint(1, min(self.o.get('colspan', 3), m - j))
                    while any(rows[i][j + k] != 0 for k in range(cs)):
                        cs -= 1
                    if rowspans:
                        rs = r.randint(1, min(self.o.get('rowspan', 4), n - i))
                rs = min(rs, n - i)
                for a in range(i, i + rs):
                    for b in range(j, j + cs):
                        rows[a][b] = None
                e = cell(i, j, rs, cs)
                if rs > 1 or cs > 1:
                    if not isinstance(e, dict):
                        e = {'.': e}
                    if cs > 1:
                        e['colspan'] = cs
                    if rs > 1:
                        e['rowspan'] = rs
                rows[i][j] = e if e is not None else ''
        t = {'table': rows}
        if r.random() < .6:
            t['widths'] = [r.choice([1, 1, 1.5, 2, 3]) for _ in range(m)]
        return t

    def place(self, case, rowspans, minw=40, wrap=False):
        """Choose how and where the table is drawn; the narrowest column has at least minw."""
        r = self.r
        t = case['t']
        w = t.get('widths') or [1] * len(t['table'][0])
        need = minw * sum(w) / min(w)
        case['driver'] = r.choice(['table', 'table', 'content', 'doc', 'rects'])
        m = case['margin'] = r.choice([10, 20, 33.3])
        if wrap and case['driver'] == 'table' and r.random() < .3:
            case['room'] = r.choice([1, 4, 12, 20, 30, 45])     # what is left on the first page
        W = round(max(need, r.choice([200, 300, 400])), 2)
        H = r.choice([130, 200, 300])
        if rowspans and r.random() < .4:
            H = 2500
        if wrap and r.random() < .2:
            case['wrap'] = []
            for _ in range(r.choice([1, 1, 2])):
                k = r.choice([0, 3, 8])
                n = r.choice([1, 1, 2])
                case['wrap'].insert(0, [k, n, r.randrange(n), r.random() < .8, 0])
                if n == 2 and r.random() < .6:
                    # the other cell holds a picture that cannot be split
                    case['wrap'][0][4] = len(case.setdefault('images', []))
                    case['images'].append({'w': 100, 'h': max(1, int(r.uniform(5, 70) / (W + 2 * k - 10) * 100)), 'fmt': 'jpg', 'mode': 'L', 'seed': 1})
                    case['wrap'][0][4] += 1
                W = round((W + 2 * k) * n, 2)
        case['size'] = [W + 2 * m, H + 2 * m]
        if case['driver'] == 'rects':
            case['size'] = [W + 100, 3000]
            case['rects'] = [[r.choice([0, 10, 47.5]), r.choice([0, 20, 111.1]), W,
                              r.choice([100, 150, 300]) if H < 2000 else 2500] for _ in range(r.choice([1, 3, 6]))]


def draw(case, scratch):
    """-> bytes, [(x, top, width, height) per page]"""
    t = build.tuples(docgen.materialise(case['t'], case.get('images', []), scratch))
    for k, n, at, box, im in reversed(case.get('wrap', [])):
        # the table is inside of a cell of another one without borders
        el = {'content': [t], 'style': {'cell_margin': k}} if box or 'style' in t else dict(t, style={'cell_margin': k})
        other = docgen.materialise({'image': 'IMG:%d' % (im - 1)}, case['images'], scratch) if im else ''
        t = {'table': [[el if j == at else other for j in range(n)]], 'style': {'border_width': 0}}
    data, boxes = draw_(case, t)
    for k, n, at, box, im in case.get('wrap', []):
        boxes = [(x + at * w / n + k, top - k, w / n - 2 * k, h - 2 * k) for x, top, w, h in boxes]
    return data, boxes


def draw_(case, t):
    from pdfme import PDF
    W, H = case['size']
    m = case['margin']
    boxes = []
    d = case['driver']
    if d == 'doc':
        doc = {'style': {'page_size': [W, H], 'margin': m}, 'sections': [{'content': [t]}]}
        data = build.document(doc)
        return data, [(m, H - m, W - 2 * m, H - 2 * m)] * 400
    with build.guard():
        if d == 'rects':
            pdf = PDF(page_size=(W, H), margin=0)
            rects = case['rects'] + [[0, 0, W - 100, 1000]] * 30
            tb = None
            kw = {k: t[k] for k in ('widths', 'borders', 'fills', 'style') if k in t}
            for x, y, w, h in rects:
                pdf.add_page()
                if tb is None:
                    tb = pdf._table(t['table'], width=w, height=h, x=x, y=y, **kw)
                else:
                    tb = pdf._table(tb, width=w, height=h, x=x, y=y)
                boxes.append((x, H - y, w, h))
                if tb.finished:
                    break
        else:
            pdf = PDF(page_size=(W, H), margin=m)
            pdf.add_page()
            boxes = [(m, H - m, W - 2 * m, H - 2 * m)] * 400
            if 'room' in case:
                pdf.page.y = H - m - case['room']
                boxes[0] = (m, m + case['room'], W - 2 * m, case['room'])
            if d == 'table':
                pdf.table(t['table'], **{k: t[k] for k in ('widths', 'borders', 'fills', 'style') if k in t})
            else:
                pdf.content({'content': [t]})
    return build.output(pdf), boxes


def cell_words(el):
    """All words of a cell in order."""
    from .props.c11 import flatten
    out = []
    if isinstance(el, (list, tuple)):
        el = {'.': list(el)}
    if el is None:
        return out
    flatten(el if isinstance(el, dict) else str(el), out)
    return [v for k, v, f in out if k == 'w']


def drawn(rd, grid):
    """-> {(cell, page): [OWord]}, list of unknown words"""
    owner = {}
    for c in grid.cells:
        for w in cell_words(c.el):
            owner[w] = c
    out = collections.OrderedDict()
    stray = []
    for w in obs.all_words(rd, '.'):
        if w.text in owner:
            out.setdefault((owner[w.text], w.page), []).append(w)
        else:
            stray.append(w)
    return out, stray


class Rows:
    """Rows on each page, recovered from the words of the cells (every cell has some):
    self.pages[p] = [(row, top, bottom, continued from the previous page, goes on on the next page)]."""
    def __init__(self, grid, pieces, boxes):
        self.grid = grid
        self.row_pages = collections.defaultdict(set)
        self.cell_pages = collections.defaultdict(set)
        for c, p in pieces:
            self.row_pages[c.i].add(p)
            self.cell_pages[c].add(p)
        first_page = {c: min(ps) for c, ps in self.cell_pages.items()}
        self.straddle = 0
        self.pages = {}
        pages = sorted({p for c, p in pieces})
        row, started = 0, False        # the row the page starts with; whether it was begun on the page before
        for k, p in enumerate(pages):
            here = [c for c, q in pieces if q == p]
            # rows begun on this page, and single-row cells going on here
            idx = [c.i for c in here if first_page[c] == p or c.rs == 1]
            last = max(idx + [row])
            final = k == len(pages) - 1
            if final:
                last = grid.n - 1
            else:
                # a row of hidden cells only, or of spans, follows the row before it
                later = min([c.i for c, q in pieces if first_page[c] > p] or [grid.n])
                if last < later - 1 and not any(c.i <= last + 1 and max(self.cell_pages[c]) > p for c in grid.cells if c.rs == 1):
                    last = later - 1 if not any(max(self.cell_pages[c]) > p and c.last < later for c in grid.cells) else \
                        max(last, min(c.last for c in grid.cells if max(self.cell_pages[c]) > p and first_page[c] <= p))
            top = boxes[p][1]
            rows = []
            open_ = lambda i: [c for c in here if c.i <= i]
            for i in range(row, last + 1):
                bottom = min([top] + [min(w.y for w in pieces[c, p]) - grid.pad(c)['bottom'] for c in here if c.last == i])
                rows.append([i, top, bottom, started and i == row, False])
                top = bottom
            if not final:
                # is the last row cut?
                cut = any(c.last == last and max(self.cell_pages[c]) > p for c in grid.cells) or \
                    any(c.i == last and c.rs == 1 and max(self.cell_pages[c]) > p for c in grid.cells)
                low = min([rows[-1][2]] + [min(w.y for w in pieces[c, p]) - grid.pad(c)['bottom'] for c in here])
                if cut:
                    rows[-1][4] = True
                    rows[-1][2] = low
                    row, started = last, True
                elif low < rows[-1][2] - .01:
                    rows.append([last + 1, rows[-1][2], low, False, True])
                    row, started = last + 1, True
                else:
                    row, started = last + 1, False
            self.pages[p] = [tuple(x) for x in rows]
        for c in grid.cells:
            on = [p for p in self.pages if any(c.i <= x[0] <= c.last for x in self.pages[p])]
            self.straddle += c.rs > 1 and len(on) > 1
